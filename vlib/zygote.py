"""A server that runs the compiler in fresh child processes of one interpreter configuration.

Started by fresh.py as a script. It imports prophyc without running it, then for each job (a line of JSON, a list of
[arguments, working directory]) forks a child which makes those runs one after another and answers with a line of JSON.
"""
import io
import json
import os
import sys


def shift_clock(days):
    """Makes the process believe that it is another day."""
    import datetime
    import time
    delta = days * 86400.0
    real = {n: getattr(time, n) for n in ("time", "time_ns", "localtime", "gmtime", "ctime", "strftime", "asctime")}
    time.time = lambda: real["time"]() + delta
    time.time_ns = lambda: real["time_ns"]() + int(delta) * 10 ** 9
    time.localtime = lambda s=None: real["localtime"](time.time() if s is None else s)
    time.gmtime = lambda s=None: real["gmtime"](time.time() if s is None else s)
    time.ctime = lambda s=None: real["ctime"](time.time() if s is None else s)
    time.asctime = lambda t=None: real["asctime"](time.localtime() if t is None else t)
    time.strftime = lambda f, t=None: real["strftime"](f, time.localtime() if t is None else t)

    class Moved(datetime.datetime):
        @classmethod
        def now(cls, tz=None):
            return cls.fromtimestamp(time.time(), tz)

        @classmethod
        def today(cls):
            return cls.now()

        @classmethod
        def utcnow(cls):
            return cls.fromtimestamp(time.time(), datetime.timezone.utc).replace(tzinfo=None)

    class MovedDate(datetime.date):
        @classmethod
        def today(cls):
            return cls.fromtimestamp(time.time())
    datetime.datetime, datetime.date = Moved, MovedDate


def perform(runs):
    import prophyc
    out = []
    for args, cwd in runs:
        os.chdir(cwd)
        err = io.StringIO()
        old = sys.stderr, sys.stdout
        sys.stderr = sys.stdout = err
        try:
            prophyc.main(args)
            error = None
        except BaseException as e:
            error = "{}: {}".format(type(e).__name__, e)
        finally:
            sys.stderr, sys.stdout = old
        out.append([error, err.getvalue()])
    return out


def serve(repo):
    import signal
    sys.dont_write_bytecode = True
    sys.path.insert(0, repo)
    for name in ("prophyc", "prophyc.parsers.prophy", "prophyc.parsers.isar", "prophyc.parsers.sack", "prophyc.patch",
                 "prophyc.generators.python", "prophyc.generators.cpp", "prophyc.generators.cpp_full",
                 "prophyc.generators.prophy"):
        __import__(name)
    pipe = os.fdopen(os.dup(1), "w", encoding="utf-8")
    os.dup2(2, 1)
    for line in iter(sys.stdin.readline, ""):
        runs = json.loads(line)
        pipe.flush()
        pid = os.fork()
        if pid == 0:
            status = 1
            try:
                signal.alarm(120)
                pipe.write(json.dumps(perform(runs)) + "\n")
                pipe.flush()
                status = 0
            finally:
                os._exit(status)
        _, status = os.waitpid(pid, 0)
        if status:
            pipe.write(json.dumps({"died": status}) + "\n")
            pipe.flush()


if __name__ == "__main__":
    if os.environ.get("VERIF_CLOCK_DAYS"):
        shift_clock(int(os.environ["VERIF_CLOCK_DAYS"]))
    serve(sys.argv[1])
