"""Creates or re-validates planted bugs.

mkbug.py make SPEC.py     SPEC defines BUGS: list of dict(id, property, needs, what, edits, demo[, files])
mkbug.py run ID...        runs the property's check against a patched scratch copy
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mutants

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")
PY = "/opt/venv/bin/python"


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       shell=isinstance(cmd, str))
    return p.returncode, p.stdout.decode("utf-8", "replace")


def scratch():
    d = tempfile.mkdtemp(prefix="mkbug_")
    repo = os.path.join(d, "repo")
    subprocess.check_call(["git", "clone", "-q", "/repo", repo])
    return d, repo


def tests(repo, cpp):
    rc, out = sh([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "prophy", "prophyc"], repo)
    if rc:
        return False, " ".join(x for x in out.splitlines() if x.startswith(("FAILED", "ERROR")))
    if cpp and not mutants.gtests(repo, repo + "_gtests"):
        return False, "C++ tests"
    return True, out.splitlines()[-1]


def original_lines(repo, path):
    out = subprocess.check_output(["git", "-C", repo, "blame", "-s", "HEAD", "--", path]).decode("utf-8")
    return {i for i, line in enumerate(out.splitlines(), 1) if line.startswith("^")}


PRE = """
set -e
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
PY=/opt/venv/bin/python
W=$(mktemp -d)
trap 'rm -r "$W"' EXIT
"""


def shell(body):
    return PRE + body


def schema_file(schema):
    return "cat > \"$W/m.prophy\" <<'EOF'\n%s\nEOF\n" % schema.strip()


def python(schema, code, args=""):
    return PRE + schema_file(schema) + """
"$PY" -m prophyc %s --python_out "$W" "$W/m.prophy"
cat > "$W/demo.py" <<'EOF'
import sys
import prophy
sys.path.insert(0, sys.argv[1])
import m
%s
EOF
"$PY" "$W/demo.py" "$W"
""" % (args, code.strip())


def cpp(schema, code, full=True, args="", flags="", inputs=None):
    ext = "ppf" if full else "pp"
    return PRE + schema_file(schema) + """
"$PY" -m prophyc %s --%s "$W" "$W/m.prophy"
cat > "$W/demo.cpp" <<'EOF'
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include "m.%s.hpp"
%s
#define CHECK(x) if (!(x)) { std::printf("%%s\\n", #x); return 1; }
int main()
{
%s
return 0;
}
EOF
g++ -std=c++11 -g -Wno-address-of-packed-member -Wno-packed-not-aligned %s -I"$PWD/prophy_cpp/include" -I"$W" -o "$W/demo" "$W/demo.cpp" "$W/m.%s.cpp"
"$W/demo"
""" % (args, "cpp_full_out" if full else "cpp_out", ext, "using namespace prophy::generated;" if full else "", code.strip(), flags, ext)


def make(spec):
    ns = dict(python=python, cpp=cpp, shell=shell, schema_file=schema_file)
    exec(compile(open(spec).read(), spec, "exec"), ns)
    for b in ns["BUGS"]:
        d, repo = scratch()
        try:
            target = os.path.join(SEEDED, b["id"])
            tmp = os.path.join(d, "bug")
            os.makedirs(tmp)
            for name, text in dict(b.get("files", {}), **{"demo.sh": b["demo"]}).items():
                with open(os.path.join(tmp, name), "w") as f:
                    f.write(text.lstrip("\n"))
            rc, out = sh(["bash", os.path.join(tmp, "demo.sh")], repo)
            if rc:
                print(b["id"], "DEMO FAILS UNPATCHED", out[-1500:])
                continue
            for path, old, new in b["edits"]:
                p = os.path.join(repo, path)
                lines = original_lines(repo, path)
                s = open(p).read()
                if s.count(old) != 1:
                    print(b["id"], "EDIT MATCHES", s.count(old), path, old)
                    break
                open(p, "w").write(s.replace(old, new))
                first = s[:s.index(old)].count("\n") + 1
                changed = [i for i, line in enumerate(old.split("\n"), first) if line not in new.split("\n")]
                around = changed or range(first, first + len(old.split("\n")))
                if not all(i in lines for i in around):
                    print(b["id"], "CHANGES LINES WHICH ARE NOT ORIGINAL", path, changed)
                    break
            else:
                rc, diff = sh(["git", "diff"], repo)
                with_cpp = "prophy_cpp" in diff or "a/prophyc" in diff
                ok, out = tests(repo, with_cpp)
                if not ok:
                    print(b["id"], "TESTS FAIL", out)
                    continue
                rc, out = sh(["bash", os.path.join(tmp, "demo.sh")], repo)
                if not rc:
                    print(b["id"], "DEMO PASSES PATCHED", out[-500:])
                    continue
                shutil.rmtree(target, ignore_errors=True)
                shutil.copytree(tmp, target)
                open(os.path.join(target, "patch.diff"), "w").write(diff)
                with open(os.path.join(target, "meta.json"), "w") as f:
                    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what"]}, f,
                              indent=1)
                    f.write("\n")
                print(b["id"], "ok, demo says:", out.strip().splitlines()[-1:] and out.strip().splitlines()[-1][:150])
        finally:
            shutil.rmtree(d)


def run(ids):
    for i in ids:
        d, repo = scratch()
        try:
            prop = json.load(open(os.path.join(SEEDED, i, "meta.json")))["property"]
            rc, out = sh(["git", "apply", os.path.join(SEEDED, i, "patch.diff")], repo)
            if rc:
                print(i, "PATCH DOES NOT APPLY", out)
                continue
            props = os.environ.get("PROPS", prop).split(",")
            for p in props:
                rc, out = sh([PY, os.path.join(VERIF, "check.py"), p], VERIF, {"VERIF_REPO": repo,
                             "VERIF_EVIDENCE": os.path.join(d, "evidence")})
                hit = rc == 1 and "VIOLATION property=" + p in out
                first = [line for line in out.splitlines() if line and not line.startswith(("[", "VIOLATION"))][:1]
                print(i, p, "CAUGHT" if hit else "MISSED rc={}".format(rc), first[0][:160] if first else "", flush=True)
        finally:
            shutil.rmtree(d)


if __name__ == "__main__":
    if sys.argv[1] == "make":
        make(sys.argv[2])
    else:
        run(sys.argv[2:] or sorted(os.listdir(SEEDED)))
