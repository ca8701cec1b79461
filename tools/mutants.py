"""Measures the sensitivity of the checks with small mechanical changes of the code under test.

mutants.py survive DIR COUNT [GLOB...]   picks COUNT changes at random (VERIF_SEED), keeps those which pass the existing
                                         tests, writes DIR/survivors.jsonl
mutants.py check DIR [SCALE]             runs the checks that look at the changed file on every survivor until one reports
                                         a violation, writes DIR/results.jsonl

Changes are confined to lines of the repository's first commit. Nothing here is run by a registered check.
"""
import ast
import concurrent.futures
import fnmatch
import json
import os
import random
import re
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MUT_REPO", "/repo")
PY = "/opt/venv/bin/python"
WORKERS = int(os.environ.get("MUT_WORKERS", "8"))

CHECKS = [
    ("prophy/*.py", "C01 C02 C10 C11 C06 C18 C19"),
    ("prophyc/model.py", "C04 C15 C12 C14 C16 C08 C05 C09 C17 C13"),
    ("prophyc/calc.py", "C14 C13"),
    ("prophyc/patch.py", "C17 C13"),
    ("prophyc/file_processor.py", "C16 C13 C20"),
    ("prophyc/__init__.py", "C20 C13 C16"),
    ("prophyc/options.py", "C13 C16 C20"),
    ("prophyc/six.py", "C13 C16 C20"),
    ("prophyc/parsers/prophy.py", "C12 C13 C14 C16"),
    ("prophyc/parsers/isar.py", "C17 C14 C12 C13 C15 C16"),
    ("prophyc/parsers/sack.py", "C15 C13 C20"),
    ("prophyc/generators/base.py", "C20 C12 C16 C13"),
    ("prophyc/generators/python.py", "C01 C12 C16 C13"),
    ("prophyc/generators/cpp.py", "C08 C09 C12 C16"),
    ("prophyc/generators/cpp_full.py", "C03 C05 C07 C18 C12"),
    ("prophyc/generators/*.py", "C13 C20"),
    ("prophy_cpp/include/prophy/detail/printer.hpp", "C18"),
    ("prophy_cpp/include/prophy/prophy.hpp", "C09 C08"),
    ("prophy_cpp/include/prophy/detail/prophy.hpp", "C09"),
    ("prophy_cpp/include/prophy/detail/struct.hpp", "C08 C09"),
    ("prophy_cpp/include/*.hpp", "C03 C07 C05 C09 C18"),
]


def original_lines(path):
    out = subprocess.check_output(["git", "-C", REPO, "blame", "-l", "-s", "HEAD", "--", path]).decode("utf-8")
    root = subprocess.check_output(["git", "-C", REPO, "rev-list", "--max-parents=0", "HEAD"]).decode().strip()
    return {i + 1 for i, line in enumerate(out.splitlines()) if line.lstrip("^").startswith(root[:38])}


SWAPS = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in",
         ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is", ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.FloorDiv: "*",
         ast.Mod: "//", ast.LShift: ">>", ast.RShift: "<<", ast.And: "or", ast.Or: "and"}
CALLS = {"max": "min", "min": "max", "sorted": "list", "reversed": "list", "any": "all", "all": "any"}


def python_changes(text):
    """[(start, end, replacement)]"""
    starts = [0]
    for line in text.split("\n"):
        starts.append(starts[-1] + len(line.encode("utf-8")) + 1)
    raw = text.encode("utf-8")

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset
    out = []

    def between(a, b, old_types, new):
        s, e = span(a)[1], span(b)[0]
        gap = raw[s:e].decode("utf-8")
        m = re.match(r"^([\s)]*)(not in|is not|<<|>>|//|<=|>=|==|!=|[<>+\-*/%|]|in|is|and|or)([\s(]*)$", gap)
        if m:
            out.append((s + len(m.group(1)), s + len(m.group(1)) + len(m.group(2)), new))
    tree = ast.parse(text)
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in SWAPS:
            between(n.left, n.comparators[0], None, SWAPS[type(n.ops[0])])
        elif isinstance(n, ast.BinOp) and type(n.op) in SWAPS and not isinstance(n.left, ast.Constant):
            between(n.left, n.right, None, SWAPS[type(n.op)])
        elif isinstance(n, ast.BoolOp):
            for a, b in zip(n.values, n.values[1:]):
                between(a, b, None, SWAPS[type(n.op)])
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            out.append((span(n)[0], span(n.operand)[0], ""))
        elif isinstance(n, ast.Constant):
            s, e = span(n)
            if isinstance(n.value, bool):
                out.append((s, e, str(not n.value)))
            elif isinstance(n.value, int):
                out.append((s, e, str(n.value + 1)))
                if n.value > 1:
                    out.append((s, e, str(n.value // 2)))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in CALLS:
            s, e = span(n.func)
            out.append((s, e, CALLS[n.func.id]))
        elif isinstance(n, ast.Call) and len(n.args) > 1 and not any(isinstance(a, ast.Starred) for a in n.args):
            a, b = span(n.args[0]), span(n.args[1])
            out.append((a[0], b[1], (raw[b[0]:b[1]] + raw[a[1]:b[0]] + raw[a[0]:a[1]]).decode("utf-8")))
        elif isinstance(n, (ast.If, ast.While)):
            s, e = span(n.test)
            if isinstance(n, ast.If):
                out.append((s, e, "True"))
            out.append((s, e, "False"))
        elif isinstance(n, ast.IfExp):
            s, e = span(n.test)
            out += [(s, e, "True"), (s, e, "False")]
        elif isinstance(n, ast.comprehension):
            for c in n.ifs:
                s, e = span(c)
                out.append((s, e, "True"))
        elif isinstance(n, ast.Slice):
            for part in (n.lower, n.upper):
                if part is not None:
                    s, e = span(part)
                    out.append((s, e, ""))
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Return)):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                continue
            s, e = span(n)
            out.append((s, e, "pass"))
            if isinstance(n, ast.AugAssign):
                m = re.match(r"(.*?)\s*([+\-])=", raw[s:e].decode("utf-8"), re.S)
                if m:
                    out.append((s + m.end() - 2, s + m.end(), "="))
    return raw, [(s, e, r.encode("utf-8")) for s, e, r in out]


CPP = [(r"(?<![<\-=])<(?=[ ]?[a-z0-9(]+[^>]*$)(?!=)", "<="), (r" < ", " <= "), (r" > ", " >= "), (r" \+ ", " - "), (r" - ", " + "),
       (r" == ", " != "), (r"return false", "return true"), (r"return true", "return false"), (r"<< 8\b", "<< 16"),
       (r">> 8\b", ">> 16"), (r"<< 24\b", "<< 16"), (r">> 24\b", ">> 16"), (r"\b1\b", "2"), (r"\b4\b", "8"), (r"FF00", "0FF0"),
       (r"\blittle\b", "big"), (r"\bbig\b", "little"), (r"uint32_t", "uint16_t"), (r"uint64_t", "uint32_t"), (r"!", ""),
       (r"\bend\b", "pos"), (r"\+\+", "--"), (r"^(\s+)[^\s{}#].*;$", r"\1;"), (r"\bn\b", "1"), (r"std::hex", "std::dec")]


def cpp_changes(text):
    raw = text.encode("utf-8")
    out, at = [], 0
    for line in text.split("\n"):
        if not line.strip().startswith(("#", "//")):
            for old, new in CPP:
                for m in re.finditer(old, line):
                    out.append((at + m.start(), at + m.end(), m.expand(new).encode("utf-8")))
        at += len(line) + 1
    return raw, out


def all_changes(globs):
    files = subprocess.check_output(["git", "-C", REPO, "ls-files", "prophy", "prophyc", "prophy_cpp/include"]).decode().split()
    out = []
    for path in files:
        if "tests" in path or "clang/" in path or not path.endswith((".py", ".hpp")) or path.endswith("__main__.py"):
            continue
        if globs and not any(fnmatch.fnmatch(path, g) for g in globs):
            continue
        with open(os.path.join(REPO, path), encoding="utf-8") as f:
            text = f.read()
        raw, changes = (python_changes if path.endswith(".py") else cpp_changes)(text)
        lines = original_lines(path)
        for s, e, new in changes:
            first, last = raw[:s].count(b"\n") + 1, raw[:e].count(b"\n") + 1
            if raw[s:e] != new and all(i in lines for i in range(first, last + 1)):
                out.append(dict(path=path, line=first, old=raw[s:e].decode("utf-8"), new=new.decode("utf-8"), start=s, end=e,
                                context=text.split("\n")[first - 1].strip()))
    return out


class Copy(object):
    def __init__(self, base, k):
        self.dir = os.path.join(base, "copy{}".format(k))
        self.repo = os.path.join(self.dir, "repo")
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        subprocess.check_call(["git", "clone", "-q", REPO, self.repo])

    def apply(self, c):
        subprocess.check_call(["git", "-C", self.repo, "checkout", "-q", "--", "."])
        path = os.path.join(self.repo, c["path"])
        with open(path, "rb") as f:
            raw = f.read()
        with open(path, "wb") as f:
            f.write(raw[:c["start"]] + c["new"].encode("utf-8") + raw[c["end"]:])

    def sh(self, cmd, timeout, cwd=None, **env):
        e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", CCACHE_DIR="/root/ccache", CCACHE_MAXSIZE="2G", **env)
        try:
            p = subprocess.run(cmd, cwd=cwd or self.repo, env=e, timeout=timeout, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, shell=isinstance(cmd, str), start_new_session=True)
            return p.returncode, p.stdout.decode("utf-8", "replace")
        except subprocess.TimeoutExpired:
            return 99, "timeout"

    def passes(self, c):
        if c["path"].endswith(".py"):
            rc, _ = self.sh("ulimit -v 4000000; {} -m pytest -q -x -p no:cacheprovider --timeout=60 prophy prophyc".format(PY), 200)
            if rc:
                return False
        if c["path"].startswith("prophy/"):
            return True
        return gtests(self.repo, os.path.join(self.dir, "b"))


def gtests(repo, build):
    """Builds and runs the C++ tests as the project does, in another directory."""
    shutil.rmtree(build, ignore_errors=True)
    os.makedirs(os.path.join(build, "gen"))
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", CCACHE_DIR="/root/ccache", CCACHE_MAXSIZE="2G", PYTHONPATH=repo)
    try:
        return 0 == subprocess.run("""
set -e
for f in {0}/prophy_cpp/test/*.prophy; do
    outs="--cpp_out gen --cpp_full_out gen"
    case $f in *ExtSized.prophy) outs="--cpp_out gen";; esac
    {1} -m prophyc $outs --patch {0}/prophy_cpp/test/patches.patch "$f"
done
make -s -f /opt/vp/tools/cpp.mk CPP={0}/prophy_cpp -j2 test_prophy
timeout 60 ./test_prophy
""".format(repo, PY), shell=True, cwd=build, env=env, timeout=400, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode
    except subprocess.TimeoutExpired:
        return False
    finally:
        shutil.rmtree(build, ignore_errors=True)


def survive(base, count, globs):
    os.makedirs(base, exist_ok=True)
    rng = random.Random(int(os.environ.get("VERIF_SEED", "1")))
    changes = all_changes(globs)
    print(len(changes), "changes")
    changes = rng.sample(changes, min(count, len(changes)))
    copies = [Copy(base, k) for k in range(WORKERS)]
    kept = open(os.path.join(base, "survivors.jsonl"), "a")

    def work(c):
        copy = copies.pop()
        try:
            copy.apply(c)
            return c, copy.passes(c)
        finally:
            copies.append(copy)
    with concurrent.futures.ThreadPoolExecutor(WORKERS) as pool:
        n = 0
        for c, ok in pool.map(work, changes):
            if ok:
                n += 1
                kept.write(json.dumps(c) + "\n")
                kept.flush()
    print(n, "survive the tests")
    for k in range(WORKERS):
        shutil.rmtree(os.path.join(base, "copy{}".format(k)), ignore_errors=True)


def check(base, scale):
    done = set()
    results = os.path.join(base, "results.jsonl")
    if os.path.exists(results):
        done = {(r["path"], r["start"], r["new"]) for r in map(json.loads, open(results))}
    todo = [c for c in map(json.loads, open(os.path.join(base, "survivors.jsonl")))
            if (c["path"], c["start"], c["new"]) not in done]
    copies = [Copy(base, k) for k in range(WORKERS)]
    out = open(results, "a")

    def work(c):
        copy = copies.pop()
        try:
            copy.apply(c)
            ids = next(ids for glob, ids in CHECKS if fnmatch.fnmatch(c["path"], glob)).split()
            c["caught"], c["errors"] = None, []
            for i in ids:
                rc, text = copy.sh([PY, os.path.join(VERIF, "check.py"), i], 1500, cwd=VERIF, VERIF_REPO=copy.repo,
                                   VERIF_EVIDENCE=os.path.join(copy.dir, "evidence"), VERIF_SCALE=scale, VERIF_JOBS="2")
                if rc == 1 and "VIOLATION property=" + i in text:
                    c["caught"] = i
                    break
                if rc:
                    c["errors"].append([i, rc, text[-300:]])
            return c
        finally:
            copies.append(copy)
    with concurrent.futures.ThreadPoolExecutor(WORKERS) as pool:
        for f in concurrent.futures.as_completed([pool.submit(work, c) for c in todo]):
            out.write(json.dumps(f.result()) + "\n")
            out.flush()
    for k in range(WORKERS):
        shutil.rmtree(os.path.join(base, "copy{}".format(k)), ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "survive":
        survive(sys.argv[2], int(sys.argv[3]), sys.argv[4:])
    else:
        check(sys.argv[2], sys.argv[3] if len(sys.argv) > 3 else "0.5")
