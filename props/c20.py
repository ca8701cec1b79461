"""C20: what prophyc generates is a function of its inputs and options alone."""
import os
import re
import subprocess
import sys

from props.c15 import sack_graph, scramble, topological
from props.c16 import DIRS, Project
from vlib import fresh, gen, isar, tool
from vlib.engine import Discard, HarnessError, Section, Violation, fingerprint
from vlib.schema import Const, Enum, Schema

RULE = ("a case is one compilation of some of the files of a project under other circumstances (hash seed, environment, clock, "
        "working directory, place of the tree, order and company of input files, earlier runs in the process) than the "
        "baseline, where each file is compiled alone in a fresh process; every generated file is compared byte by byte; "
        "non-trivial: the project has at least two definitions; distinct by the files and the circumstances")
ASSUMPTIONS = ["input files have distinct stems, since outputs are named by them",
               "the order of -I and -S options is kept: it is an option, and files are searched and included in that order",
               "sack headers are compiled with libclang as installed"]
OUTS = ("python", "cpp", "cpp_full", "prophy")
WORDS = ["short", "remark", "zażółć", "gęślą", "jaźń", "Größe", "of", "the", "message", "field", "counter", "see", "also", "日本"]


class Tree(object):
    """Files to be compiled, as relative paths and texts."""

    def __init__(self, mode):
        self.mode = mode
        self.texts = {}         # everything to be written
        self.inputs = []        # relative paths of inputs
        self.inc_dirs = []
        self.supplements = []   # -S
        self.patch = None
        self.definitions = 0
        self.groups = 1
        self.twins = self.namesakes = False

    def write(self, root):
        for d in DIRS:
            os.makedirs(os.path.join(root, d), exist_ok=True)
        for path, text in self.texts.items():
            os.makedirs(os.path.dirname(os.path.join(root, path)), exist_ok=True)
            tool.write(os.path.join(root, path), text)


def remark(src):
    return " ".join(src.choice(WORDS) for _ in range(src.int(1, 14)))


def with_remarks(src, text, ext):
    if not src.chance(40):
        return text
    if ext == ".prophy":
        return re.sub("(?m)^(struct|union|enum|const|typedef)", lambda m: "// {}\n{}".format(remark(src), m.group(1))
                      if src.chance(50) else "/* {} */ {}".format(remark(src), m.group(1)), text)
    return re.sub('<(constant|enum|enum-member|struct|message|union|member|typedef) ',
                  lambda m: m.group(0) + 'comment="{}" '.format(remark(src)) if src.chance(30) else m.group(0), text)


def gen_tree(src, ext):
    """Groups of files; groups do not include each other and may use the same names for other things."""
    tree = Tree("prophy" if ext == ".prophy" else "isar")
    tree.groups = src.int(1, 3)
    overlap = src.chance(70)
    # groups in directories of their own may have files of the same names
    homes = src.chance(30)
    patches = []
    for g in range(tree.groups):
        with src.span():
            cfg = gen.Cfg(min_decls=2, max_decls=9, max_fields=4, shared=False,
                          prefix="" if overlap else "G{}".format(g))
            schema = gen.gen_schema(src, cfg)
            if overlap and src.chance(70):
                # names in no particular order: sorting them is visible
                schema = scramble(src, schema)
            if homes:
                project = Project(src, schema, ext, home="home{}".format(g))
            else:
                project = Project(src, schema, ext, tag="" if not g else "_{}".format(g))
            project.decoys = []
            project.patches = src.chance(30)
            texts = {}
            project.patch = ""
            for f in project.files:
                texts[os.path.join(f.dir, project.leaf(f))] = with_remarks(src, project.text(f), ext)
        if overlap and (project.patch or any(patches)) and g:
            # rules are applied by name, so they would change the other groups as well
            tree.groups = g
            break
        patches.append(project.patch)
        tree.texts.update(texts)
        tree.inc_dirs += [d for d in project.inc_dirs if d not in tree.inc_dirs]
        tree.definitions += len(schema.decls)
        if src.chance(40 if project.patch else 10):
            tree.texts.update(twins(texts, ext))
            tree.twins = True
    owners = {}
    for path in sorted(tree.texts):
        owners.setdefault(stem(path), []).append(path)
    tree.inputs = [src.choice(paths) for _, paths in sorted(owners.items())]
    tree.namesakes = any(len(paths) > 1 for paths in owners.values())
    if any(patches):
        tree.patch = "x.patch"
        tree.texts["x.patch"] = "".join(patches)
    return tree


def twins(texts, ext):
    """The same files once more, under other names."""
    stems = "|".join(re.escape(stem(path)) for path in texts)
    return {os.path.join(os.path.dirname(path), stem(path) + "_t" + ext):
            re.sub(r"(?<![\w])({}){}(?=\")".format(stems, re.escape(ext)), r"\1_t" + ext, text)
            for path, text in texts.items()}


def anonymous(src, i):
    lines = []
    for k in range(src.int(1, 4)):
        body = src.choice(["struct { int a; short b; }", "union { int a; short b; }", "enum { N%d_%d, M%d_%d }" % (i, k, i, k),
                           "struct { struct { char c; } d; }"])
        lines.append("    {} f{}{};\n".format(body, k, src.choice(["", "", "[3]"])))
    return "struct Anon{}\n{{\n{}}};\n".format(i, "".join(lines))


def gen_sack(src):
    tree = Tree("sack")
    extra = []
    if src.chance(40):
        consts = [Const("LIMIT_{}".format(i), src.int(1, 5), None) for i in range(2)]
        consts = [Const(c.name, c.value, str(c.value)) for c in consts]
        for n in range(src.int(1, 2)):
            decls = [consts[n], Enum("Kind{}".format(n), [("KIND{}_{}".format(n, i), i, str(i)) for i in range(3)])]
            xml, _ = isar.Render(src, Schema(decls), patches=False).render()
            path = os.path.join(src.choice(DIRS), "supple{}.xml".format(n))
            tree.texts[path] = xml
            tree.supplements.append(path)
            extra.append("struct Uses{0} {{ int a[LIMIT_{0}]; Kind{0} k; }};\n".format(n))
    tree.groups = src.int(1, 3)
    stems = src.shuffle(["alpha", "b_2", "Gamma", "x", "zeta"])
    for g in range(tree.groups):
        with src.span():
            schema, texts, uses = sack_graph(src)
            order = topological(src, uses)
            cut = src.int(0, len(order)) if src.chance(60) else 0
            directory = src.choice(DIRS)
            head = ""
            if cut:
                leaf = "common{}.hpp".format(g)
                where = src.choice(DIRS)
                tree.texts[os.path.join(where, leaf)] = "#pragma once\n" + "".join(texts[n] for n in order[:cut]) + (
                    anonymous(src, 10 + g) if src.chance(30) else "")
                if where not in tree.inc_dirs:
                    tree.inc_dirs.append(where)
                head = '#include "{}"\n'.format(leaf)
            body = "".join(texts[n] for n in order[cut:])
            if src.chance(40):
                body += anonymous(src, g)
            if extra:
                body += src.choice(extra)
            path = os.path.join(directory, stems[g] + ".hpp")
            tree.texts[path] = head + body
            tree.inputs.append(path)
            tree.definitions += len(schema.decls)
    return tree


class Run(object):
    """One compilation: which inputs, from where, how spelled."""

    def __init__(self, src, tree, root, out, inputs, plain=False):
        cwd = root if plain else os.path.join(root, src.choice(DIRS + [""]))
        if not plain and src.chance(15):
            cwd = "/"

        def spell(path):
            form = 0 if plain else src.int(0, 2)
            if form == 0:
                return os.path.normpath(path)
            rel = os.path.relpath(path, cwd)
            return rel if form == 1 else os.path.join(".", rel)
        os.makedirs(out, exist_ok=True)
        self.out, self.inputs, self.cwd = out, inputs, cwd
        options = [["--{}_out".format(o), spell(out)] for o in OUTS]
        if tree.mode != "prophy":
            options.append(["--" + tree.mode])
        if tree.patch:
            options.append(["-p", spell(os.path.join(root, tree.patch))])
        ordered = [["-I", spell(os.path.join(root, d))] for d in tree.inc_dirs]
        ordered += [["-S", spell(os.path.join(root, x))] for x in tree.supplements]
        options.append(sum(ordered, []))
        if not plain:
            options = src.shuffle(options)
        self.args = sum(options, []) + [spell(os.path.join(root, i)) for i in inputs]
        self.text = "cd {}; prophyc {}".format(cwd, " ".join(self.args)).replace(root, "ROOT")

    def files(self):
        found = {}
        for dirpath, _, names in os.walk(self.out):
            for n in names:
                path = os.path.join(dirpath, n)
                with open(path, "rb") as f:
                    found[os.path.relpath(path, self.out)] = f.read()
        return found


def stem(path):
    return os.path.splitext(os.path.basename(path))[0]


def baseline(src, tree, root, work, fail):
    """{stem: {output: bytes}} from each input compiled alone; supplements are generated with each."""
    out = {}
    for i, path in enumerate(tree.inputs):
        r = Run(src, tree, root, os.path.join(work, "base{}".format(i)), [path], plain=True)
        error, printed = fresh.run(0, [[r.args, r.cwd]])[0]
        if error is not None:
            if "libclang" in error:
                raise HarnessError(error)
            raise Discard("refused: " + error.split("error: ")[-1][:60])
        out[path] = r.files()
        if not out[path]:
            fail("nothing is generated for {}".format(path))
    return out


def expected(base, inputs):
    want = {}
    for i in inputs:
        want.update(base[i])
    return want


def show(data, other):
    """The first line that differs."""
    a, b = data.decode("utf-8", "replace").splitlines(), other.decode("utf-8", "replace").splitlines()
    for i in range(max(len(a), len(b))):
        if a[i:i + 1] != b[i:i + 1]:
            return "line {}: {!r} when compiled alone, {!r} here".format(i + 1, "".join(a[i:i + 1])[:300], "".join(b[i:i + 1])[:300])
    return "line ends"


def check_files(run, want, fail, what):
    got = run.files()
    for name in sorted(set(want) | set(got)):
        if name not in got:
            fail("{} is not generated: {}".format(name, what), run=run.text)
        if name not in want:
            fail("{} is generated only here: {}".format(name, what), run=run.text)
        if got[name] != want[name]:
            fail("{} differs: {}".format(name, what), run=run.text, difference=show(want[name], got[name]))


def variants(src, ctx, tree, root, work, base, fail):
    other = None
    for v in range(src.int(3, 6)):
        with src.span():
            place = root
            if src.chance(30):
                if other is None:
                    other = os.path.join(work, "another place", "d" * src.int(1, 30))
                    os.makedirs(other)
                    tree.write(other)
                place = other
            server = src.int(0, len(fresh.CONFIGS) - 1)
            runs = []
            for k in range(1 if src.chance(60) else src.int(2, 3)):
                order = src.shuffle(tree.inputs)
                if src.chance(40):
                    order = order[:src.int(1, len(order))]
                out = os.path.join(work, "out{}_{}".format(v, k))
                if k and src.chance(30):
                    # again into the same place
                    out, order = runs[-1].out, runs[-1].inputs
                runs.append(Run(src, tree, place, out, order))
            if src.chance(20):
                for name in expected(base, runs[0].inputs):
                    tool.write(os.path.join(runs[0].out, name), "stale\n" * src.choice([1, 5000]))
            try:
                answers = fresh.run(server, [[r.args, r.cwd] for r in runs])
            except fresh.Died as e:
                fail("the compiler process ended with status {}".format(e), runs=[r.text for r in runs])
            what = "hash seed and environment {}".format(fresh.CONFIGS[server])
            for k, r in enumerate(runs):
                if answers[k][0] is not None:
                    fail("refused though each file compiles alone: " + answers[k][0], run=r.text, circumstances=what)
            for k, r in enumerate(runs):
                if k:
                    what = "after {}; {}".format(" and ".join(x.text for x in runs[:k]), what)
                check_files(r, expected(base, r.inputs), fail, what)
                ctx.stats.hit(fingerprint([sorted(tree.texts.items()), server, k, r.text]) if tree.definitions > 1 else None)
                ctx.stats.label("{} of several in a process".format("first" if not k else "later")
                                if len(runs) > 1 else "one run in a process")
                ctx.stats.label("{} inputs".format(len(r.inputs)))
            if place != root:
                ctx.stats.label("another place")


def section(mode):
    def fn(src, ctx):
        tree = gen_sack(src) if mode == "sack" else gen_tree(src, {"prophy": ".prophy", "isar": ".xml"}[mode])

        def fail(message, **detail):
            raise Violation(message, files=dict(tree.texts), options=dict(
                include_dirs=tree.inc_dirs, supplements=tree.supplements), **detail)
        with tool.Workdir(ctx.scratch) as work:
            root = os.path.join(work, "p")
            tree.write(root)
            base = baseline(src, tree, root, work, fail)
            variants(src, ctx, tree, root, work, base, fail)
        ctx.stats.label("{} independent groups".format(tree.groups))
        for what in ("patch", "twins", "namesakes"):
            if getattr(tree, what):
                ctx.stats.label(what)
        if ctx.stats.wants_sample():
            ctx.stats.sample("\n".join("--- {}\n{}".format(p, t) for p, t in sorted(tree.texts.items())))
    return fn


def section_cli(src, ctx):
    """The command itself, each run in a new interpreter."""
    mode = src.choice(["prophy", "prophy", "isar", "sack"])
    tree = gen_sack(src) if mode == "sack" else gen_tree(src, {"prophy": ".prophy", "isar": ".xml"}[mode])

    def fail(message, **detail):
        raise Violation(message, files=dict(tree.texts), **detail)
    with tool.Workdir(ctx.scratch) as work:
        root = os.path.join(work, "p")
        tree.write(root)
        base = baseline(src, tree, root, work, fail)
        for v in range(2):
            r = Run(src, tree, root, os.path.join(work, "out{}".format(v)), src.shuffle(tree.inputs))
            seed = src.int(0, 4294967295)
            env = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "PYTHONHASHSEED": str(seed),
                   "PYTHONPATH": tool.REPO + ":/opt/venv/lib/python3.12/site-packages"}
            p = subprocess.run([sys.executable, "-B", "-m", "prophyc"] + r.args, cwd=r.cwd, env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
            what = "PYTHONHASHSEED={}".format(seed)
            if p.returncode:
                fail("refused though each file compiles alone: " + p.stdout.decode("utf-8", "replace"), run=r.text, circumstances=what)
            check_files(r, expected(base, r.inputs), fail, what)
            ctx.stats.hit(fingerprint([sorted(tree.texts.items()), "cli", seed, r.text]) if tree.definitions > 1 else None)


SECTIONS = [Section("prophy", section("prophy"), quick=500, thorough=15000),
            Section("isar", section("isar"), quick=600, thorough=15000),
            Section("sack", section("sack"), quick=250, thorough=6000),
            Section("cli", section_cli, quick=60, thorough=1000)]
