"""Runs the code under test: prophyc, generated Python modules, messages."""
import contextlib
import importlib.util
import io
import itertools
import os
import shutil
import struct as _struct
import sys
import types

from .schema import Enum, Struct, Union, prophy_text, Schema
from .engine import HarnessError

REPO = os.environ.get("VERIF_REPO", "/repo")

_serial = itertools.count()


def setup_paths():
    sys.dont_write_bytecode = True
    if REPO not in sys.path[:1]:
        sys.path.insert(0, REPO)
    site = "/opt/venv/lib/python3.12/site-packages"
    if site not in sys.path:
        sys.path.append(site)


class Outcome(object):
    """Result of one prophyc run."""

    def __init__(self):
        self.nodes = None
        self.error = None       # exception
        self.stderr = ""

    @property
    def ok(self):
        return self.error is None


@contextlib.contextmanager
def chdir(path):
    old = os.getcwd()
    os.chdir(path)
    try:
        yield
    finally:
        os.chdir(old)


def run_prophyc(args, cwd=None):
    """In-process run of the compiler's entry point."""
    import prophyc
    out = Outcome()
    err = io.StringIO()
    with contextlib.ExitStack() as stack:
        stack.enter_context(contextlib.redirect_stderr(err))
        stack.enter_context(contextlib.redirect_stdout(err))
        if cwd:
            stack.enter_context(chdir(cwd))
        try:
            out.nodes = prophyc.main(args)
        except Exception as e:
            out.error = e
        except SystemExit as e:
            out.error = e
    out.stderr = err.getvalue()
    return out


class Workdir(object):
    """A fresh scratch directory, removed on exit."""

    def __init__(self, base):
        self.path = os.path.join(base, "w{}_{}".format(os.getpid(), next(_serial)))

    def __enter__(self):
        os.makedirs(self.path)
        return self.path

    def __exit__(self, *_):
        shutil.rmtree(self.path, ignore_errors=True)


def write(path, text):
    with open(path, "wb") as f:
        f.write(text if isinstance(text, bytes) else text.encode("utf-8"))
    return path


def describe_error(e):
    return "{}: {}".format(type(e).__name__, e)


def compile_text(text, workdir, outs=("python",), name="x", extra=()):
    """Writes schema text and compiles it; outputs go to workdir/<out>/."""
    src = write(os.path.join(workdir, name + ".prophy"), text)
    args = list(extra)
    for o in outs:
        d = os.path.join(workdir, o)
        os.makedirs(d, exist_ok=True)
        args += ["--{}_out".format(o), d]
    return run_prophyc(args + [src])


class Imported(object):
    """Generated Python modules of a directory, imported as a throw-away package."""

    def __init__(self, directory):
        self.directory = directory
        self.package = "vgen{}_{}".format(os.getpid(), next(_serial))

    def __enter__(self):
        pkg = types.ModuleType(self.package)
        pkg.__path__ = [self.directory]
        sys.modules[self.package] = pkg
        return self

    def load(self, name):
        full = self.package + "." + name
        if full in sys.modules:
            return sys.modules[full]
        path = os.path.join(self.directory, name + ".py")
        spec = importlib.util.spec_from_file_location(full, path)
        mod = importlib.util.module_from_spec(spec)
        sys.modules[full] = mod
        err = io.StringIO()
        with contextlib.redirect_stdout(err):
            spec.loader.exec_module(mod)
        return mod

    def __exit__(self, *_):
        for k in [k for k in sys.modules if k == self.package or k.startswith(self.package + ".")]:
            del sys.modules[k]


class PySchema(object):
    """A schema compiled to an imported Python module."""

    def __init__(self, schema, base, outs=("python",)):
        self.schema = schema
        self.text = prophy_text(schema)
        self.work = Workdir(base)
        self.outs = outs

    def __enter__(self):
        path = self.work.__enter__()
        self.dir = path
        try:
            self.outcome = compile_text(self.text, path, self.outs)
            self.mod = None
            self.import_error = None
            self.imp = Imported(os.path.join(path, "python"))
            self.imp.__enter__()
            if self.outcome.ok and "python" in self.outs:
                try:
                    self.mod = self.imp.load("x")
                except Exception as e:
                    self.import_error = e
        except BaseException:
            self.work.__exit__()
            raise
        return self

    def cls(self, name):
        return getattr(self.mod, name)

    def __exit__(self, *_):
        self.imp.__exit__()
        self.work.__exit__()


# --------------------------------------------------------------- messages

def set_value(schema, msg, t, value, skip_defaults=False):
    """Assigns a value to a fresh message through the public API."""
    from . import ref
    d = schema.resolve(t)
    if isinstance(d, Union):
        msg.discriminator = value[0]
        arm = next(a for a in d.arms if a[2] == value[0])
        if isinstance(schema.resolve(arm[1]), (Struct, Union)):
            set_value(schema, getattr(msg, arm[2]), arm[1], value[1], skip_defaults)
        elif not (skip_defaults and same(value[1], ref.default_value(schema, arm[1]))):
            setattr(msg, arm[2], value[1])
        return
    for m in schema.flat(d):
        if m.counts:
            continue
        v = value[m.name]
        composite = isinstance(schema.resolve(m.type), (Struct, Union))
        if skip_defaults and same(v, ref.default_member(schema, m)):
            continue
        if m.mode == "optional":
            if v is None:
                setattr(msg, m.name, None)
            elif composite:
                setattr(msg, m.name, True)
                set_value(schema, getattr(msg, m.name), m.type, v, skip_defaults)
            else:
                setattr(msg, m.name, v)
        elif m.mode == "plain":
            if composite:
                set_value(schema, getattr(msg, m.name), m.type, v, skip_defaults)
            else:
                setattr(msg, m.name, v)
        elif m.type == "byte":
            setattr(msg, m.name, v)
        elif composite:
            arr = getattr(msg, m.name)
            if m.mode == "fixed":
                for elem, ev in zip(arr, v):
                    set_value(schema, elem, m.type, ev, skip_defaults)
            else:
                for ev in v:
                    set_value(schema, arr.add(), m.type, ev, skip_defaults)
        else:
            getattr(msg, m.name)[:] = v


def get_value(schema, msg, t):
    """Reads a message into a plain value through the public API."""
    d = schema.resolve(t)
    if isinstance(d, Union):
        arm = d.arms[0]
        disc = msg.discriminator
        arm = next((a for a in d.arms if a[0] == disc), None)
        if arm is None:
            raise HarnessError("discriminator {!r} is not of {}".format(disc, t))
        return (arm[2], get_one(schema, getattr(msg, arm[2]), arm[1]))
    value = {}
    for m in schema.flat(d):
        if m.counts:
            continue
        got = getattr(msg, m.name)
        if m.mode == "optional":
            value[m.name] = None if got is None else get_one(schema, got, m.type)
        elif m.mode == "plain":
            value[m.name] = get_one(schema, got, m.type)
        elif m.type == "byte":
            value[m.name] = bytes(got) if isinstance(got, (bytes, bytearray)) else got
        else:
            value[m.name] = [get_one(schema, e, m.type) for e in got]
    return value


def get_one(schema, got, t):
    d = schema.resolve(t)
    if isinstance(d, (Struct, Union)):
        return get_value(schema, got, t)
    if isinstance(d, Enum):
        return int(got)
    return got


def same(a, b):
    """Value equality; floats are compared by their bits, types by kind."""
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) or isinstance(b, float):
        if not isinstance(a, (int, float)) or not isinstance(b, (int, float)):
            return False
        if a != a or b != b:
            return a != a and b != b
        return _struct.pack("<d", a) == _struct.pack("<d", b)
    if isinstance(a, bytes) or isinstance(b, bytes):
        return isinstance(a, bytes) and isinstance(b, bytes) and a == b
    return a == b and type(a is None) == type(b is None)


assert Schema
