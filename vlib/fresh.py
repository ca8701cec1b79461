"""Runs of the compiler in fresh processes of several interpreter configurations."""
import json
import os
import subprocess
import sys

from . import tool
from .engine import HarnessError

# each configuration: what the outputs must not depend on
CONFIGS = [
    {"PYTHONHASHSEED": "0"},
    {"PYTHONHASHSEED": "1", "LC_ALL": "C", "PYTHONCOERCECLOCALE": "0", "PYTHONUTF8": "0", "TZ": "Asia/Tokyo"},
    {"PYTHONHASHSEED": "2", "HOME": "/", "USER": "someone", "LOGNAME": "someone", "COLUMNS": "40"},
    {"PYTHONHASHSEED": "77", "VERIF_CLOCK_DAYS": "400"},
    {"PYTHONHASHSEED": "4000000000", "PYTHONOPTIMIZE": "", "LANG": "C.UTF-8"},
    {"PYTHONHASHSEED": "123456"},
]

_servers = {}


class Died(Exception):
    pass


def _server(k):
    key = (os.getpid(), k)
    if key not in _servers:
        env = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "PYTHONPATH": "/opt/venv/lib/python3.12/site-packages"}
        env.update(CONFIGS[k])
        _servers[key] = subprocess.Popen(
            [sys.executable, "-B", os.path.join(os.path.dirname(os.path.abspath(__file__)), "zygote.py"), tool.REPO],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, universal_newlines=True, encoding="utf-8")
    return _servers[key]


def run(k, runs):
    """[(error or None, what was printed)] of runs [(args, cwd)] made one after another in one fresh process."""
    p = _server(k)
    try:
        p.stdin.write(json.dumps(runs) + "\n")
        p.stdin.flush()
        answer = p.stdout.readline()
    except EnvironmentError as e:
        raise HarnessError("the server of compiler runs is gone: {}".format(e))
    if not answer:
        raise HarnessError("the server of compiler runs ended with {}".format(p.wait()))
    answer = json.loads(answer)
    if isinstance(answer, dict):
        raise Died(answer["died"])
    return answer
