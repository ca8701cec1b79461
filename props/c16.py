"""C16: multi-file schemas with includes equal their single-file concatenation."""
import collections
import os
import sys

from props.c15 import dependencies, scramble
from vlib import cpp, gen, isar, rawcpp, ref, tool
from vlib.engine import HarnessError, Section, Violation, fingerprint
from vlib.schema import Const, Enum, Schema, Struct, Typedef, Union, decl_text, prophy_text

RULE = ("a case is one partition of a schema into files in one arrangement of directories, checked definition by definition "
        "against the single file, or one broken include; non-trivial: at least two files that include each other; distinct "
        "by the include graph, the directories and the way of compiling")
ASSUMPTIONS = ["each file includes the files whose names it uses, as the property states",
               "files have distinct stems, since outputs are named by them",
               "isar files reach others by leaf names when C++ is generated: the generated #include repeats the path of the "
               "href (pinned by existing tests) and the outputs of one run are all in one directory",
               "missing and cyclic isar includes are only warned about (pinned by existing tests); the warning is required"]

_opened = collections.Counter()
_watch = [None]


def _hook(event, args):
    if event == "open" and _watch[0] and isinstance(args[0], str) and args[1] != "w":
        path = os.path.realpath(args[0])
        if path.startswith(_watch[0]) and path.endswith((".prophy", ".xml")):
            _opened[path] += 1


sys.addaudithook(_hook)


def prepare(scratch, tier):
    rawcpp.prepare(scratch)
    cpp.prepare_pch(scratch, {"full": cpp.FULL_HEAD})


DIRS = ["", "inc", "inc/deep", "other", "sub"]


class File(object):
    def __init__(self, stem, directory, decls):
        self.stem, self.dir, self.decls = stem, directory, decls
        self.uses = set()        # indices of files whose names it uses
        self.includes = []       # [(index, text)]


ODD_STEMS = ["my-types", "my-data", "my_data", "a.b", "a.c", "1st", "x y", "Gamma", "gamma", "GAMMA"]


class Project(object):
    """A schema split into files within a directory tree."""

    def __init__(self, src, schema, ext, leafs_only=False, tag="", odd=False, home=None):
        self.src, self.schema, self.ext = src, schema, ext
        self.deps = dependencies(schema)
        count = src.int(1, 6) if not src.chance(50) else src.int(2, 4)
        stems = src.shuffle(ODD_STEMS if odd else ["alpha", "b_2", "Gamma", "x", "zeta_long_name", "types"])[:count]
        flat = src.chance(25)
        self.files = [File(s + tag, home if home is not None else "" if flat else src.choice(DIRS), []) for s in stems]
        self.patches = False
        where = {}
        last = 0
        for d in schema.decls:
            low = max([where[x] for x in self.deps[d.name]] or [0])
            # mostly the same file or one close to it, now and then any that is allowed
            at = last if last >= low and src.chance(45) else src.int(low, count - 1)
            where[d.name] = last = at
            self.files[at].decls.append(d)
        self.where = where
        # include directories: those needed, in random order, and some more
        self.inc_dirs = [d for d in DIRS if src.chance(50)]
        self.inc_dirs = src.shuffle(self.inc_dirs) if home is None else self.inc_dirs[:self.inc_dirs[:1] == [""]]
        for i, f in enumerate(self.files):
            f.uses = sorted({where[x] for d in f.decls for x in self.deps[d.name]} - {i})
            wanted = list(f.uses)
            if i and src.chance(20):
                extra = src.int(0, i - 1)
                if extra not in wanted:
                    wanted.append(extra)
            for k in src.shuffle(wanted):
                f.includes.append((k, self.reach(f, self.files[k], leafs_only)))
            if f.includes and src.chance(8):
                f.includes.append(src.choice(f.includes))
        self.decoys = []
        if src.chance(30):
            self.add_decoys()

    def leaf(self, f):
        return f.stem + self.ext

    def reach(self, f, g, leafs_only):
        """How a file names another in its #include."""
        ways = []
        if g.dir == f.dir:
            ways.append(self.leaf(g))
        elif not leafs_only:
            ways.append(os.path.join(os.path.relpath(g.dir or ".", f.dir or "."), self.leaf(g)))
        for d in self.inc_dirs:
            if leafs_only:
                if d == g.dir:
                    ways.append(self.leaf(g))
                continue
            rel = os.path.relpath(g.dir or ".", d or ".")
            if not rel.startswith(".."):
                ways.append(self.leaf(g) if rel == "." else os.path.join(rel, self.leaf(g)))
        if not ways:
            self.inc_dirs.append(g.dir)
            return self.leaf(g)
        return self.src.choice(ways)

    def add_decoys(self):
        """Other files of the same leaf name where the search should not get to."""
        for f in self.files:
            later = [d for d in self.inc_dirs if d != f.dir]
            texts = {t for g in self.files for k, t in g.includes if self.files[k] is f}
            if texts == {self.leaf(f)} and f.dir in self.inc_dirs:
                after = self.inc_dirs[self.inc_dirs.index(f.dir) + 1:]
                users = {g.dir for g in self.files}
                spots = [d for d in after if d not in users]
                if spots and later:
                    self.decoys.append((os.path.join(self.src.choice(spots), self.leaf(f)), f))

    def text(self, f):
        if self.ext == ".prophy":
            return "".join('#include "{}"\n'.format(t) for _, t in f.includes) + "".join(decl_text(d) for d in f.decls)
        render = isar.Render(self.src, self.schema, patches=self.patches)
        xml = isar.Render.document(self.src.shuffle([render.decl(d) for d in f.decls]), [t for _, t in f.includes])
        self.patch += render.patch_text()
        return xml

    def write(self, root):
        self.patch = ""
        self.texts = collections.OrderedDict()
        for d in DIRS:
            os.makedirs(os.path.join(root, d), exist_ok=True)
        for f in self.files:
            path = os.path.join(f.dir, self.leaf(f))
            self.texts[path] = self.text(f)
            tool.write(os.path.join(root, path), self.texts[path])
        for path, f in self.decoys:
            self.texts[path] = "garbage {\n"
            tool.write(os.path.join(root, path), self.texts[path])
        if self.patch:
            self.texts["x.patch"] = self.patch
            tool.write(os.path.join(root, "x.patch"), self.patch)

    def command(self, root, outs, files, cwd):
        """Arguments for compiling the given files from cwd."""
        src = self.src

        def spell(path):
            full = os.path.normpath(os.path.join(root, path))
            form = src.int(0, 2)
            if form == 0:
                return full
            rel = os.path.relpath(full, cwd)
            return rel if form == 1 else os.path.join(".", rel)
        args = ["--isar"] if self.ext == ".xml" else []
        for d in self.inc_dirs:
            args += ["-I", spell(d)]
        if self.patch:
            args += ["-p", spell("x.patch")]
        for o in outs:
            args += ["--{}_out".format(o), spell(os.path.join("out", o))]
        return args + [spell(os.path.join(f.dir, self.leaf(f))) for f in files]

    def compile(self, root, outs):
        """Compiles every file, in one run or in several; {stem: nodes}."""
        src = self.src
        for o in outs:
            os.makedirs(os.path.join(root, "out", o), exist_ok=True)
        order = src.shuffle(self.files)
        groups = [order] if src.chance(60) else [[f] for f in order]
        if len(groups) > 1 and src.chance(40):
            cut = src.int(1, len(order) - 1)
            groups = [order[:cut], order[cut:]]
        self.groups = len(groups)
        nodes, self.runs = {}, []
        for g in groups:
            cwd = os.path.join(root, src.choice(DIRS))
            args = self.command(root, outs, g, cwd)
            self.runs.append((os.path.relpath(cwd, root), " ".join(a.replace(root, "ROOT") for a in args)))
            _opened.clear()
            _watch[0] = os.path.realpath(root) + os.sep
            try:
                out = tool.run_prophyc(args, cwd=cwd)
            finally:
                _watch[0] = None
            if not out.ok or out.stderr.strip():
                self.fail("refused: " + (out.stderr or tool.describe_error(out.error)))
            for path, n in _opened.items():
                if n > 1:
                    self.fail("{} is processed {} times".format(os.path.relpath(path, os.path.realpath(root)), n))
            for f in g:
                if f.stem not in out.nodes:
                    self.fail("no definitions of {}".format(f.stem))
                nodes[f.stem] = out.nodes[f.stem]
        return nodes

    def fail(self, message, **detail):
        raise Violation(message, files=dict(self.texts), runs=getattr(self, "runs", None), **detail)

    def key(self):
        return fingerprint([[(f.dir, f.includes, len(f.decls)) for f in self.files], self.inc_dirs, self.groups])

    def hit(self, ctx):
        edges = sum(len(f.includes) for f in self.files)
        ctx.stats.label("{} files".format(len(self.files)))
        if len({k for f in self.files for k, _ in f.includes}) < edges:
            ctx.stats.label("file included more than once")
        if self.decoys:
            ctx.stats.label("shadowed file")
        ctx.stats.label("{} runs".format("one" if self.groups == 1 else "several"))
        ctx.stats.hit(self.key() if edges else None)


def check_nodes(project, nodes, lays):
    from prophyc import model
    for f in project.files:
        own = [n for n in nodes[f.stem] if not isinstance(n, model.Include)]
        if sorted(n.name for n in own) != sorted(d.name for d in f.decls):
            project.fail("{} defines {}, {} expected".format(f.stem, [n.name for n in own], [d.name for d in f.decls]))
        if project.ext == ".prophy" and [n.name for n in own] != [d.name for d in f.decls]:
            project.fail("{} defines {} in another order than its text".format(f.stem, [n.name for n in own]))
        for n in own:
            d = project.schema.index[n.name]
            if isinstance(d, (Struct, Union)):
                lay = lays.type(d.name)
                if n.alignment != lay.align or n.kind != lay.kind or (lay.kind == ref.FIXED and n.byte_size != lay.size):
                    project.fail("layout of {}: size {} alignment {} kind {}, expected {} {} {}".format(
                        d.name, n.byte_size, n.alignment, n.kind, lay.size, lay.align, lay.kind))
            elif isinstance(d, Typedef) and n.kind != lays.type(d.name).kind:
                project.fail("kind of {} is {}".format(d.name, n.kind))


def single(project, ctx):
    """(module of the concatenated file or None, context to close)"""
    work = tool.Workdir(ctx.scratch)
    path = work.__enter__()
    out = tool.compile_text(prophy_text(project.schema), path, ["python"])
    if not out.ok:
        work.__exit__()
        return None, None
    return os.path.join(path, "python"), work


def check_python(project, root, ctx, lays, src):
    schema = project.schema
    codec = ref.Codec(schema, lays)
    one_dir, one_work = single(project, ctx)
    try:
        with tool.Imported(os.path.join(root, "out", "python")) as imp, tool.Imported(one_dir or root) as one_imp:
            one = one_imp.load("x") if one_dir else None
            for f in src.shuffle(project.files):
                try:
                    mod = imp.load(f.stem)
                except Exception as e:
                    project.fail("the Python module {} does not import: {}".format(f.stem, tool.describe_error(e)))
                for d in f.decls:
                    check_definition(project, mod, one, d, lays, codec, src)
    finally:
        if one_work:
            one_work.__exit__()


def check_definition(project, mod, one, d, lays, codec, src):
    schema = project.schema
    values = [(d.name, d.value)] if isinstance(d, Const) else [m[:2] for m in d.members] if isinstance(d, Enum) else []
    for name, value in values:
        if getattr(mod, name, None) != value or (one and getattr(one, name) != value):
            project.fail("{} is {!r}, {} expected".format(name, getattr(mod, name, None), value))
    if isinstance(d, Const):
        return
    if not hasattr(mod, d.name):
        project.fail("{} is not in its module".format(d.name))
    if isinstance(d, (Struct, Union)):
        value = gen.gen_value(src, schema, lays, d.name, max_total=12)
        want = codec.encode(d.name, value, "<").data
        got = []
        for m in [mod] + ([one] if one else []):
            try:
                msg = getattr(m, d.name)()
                tool.set_value(schema, msg, d.name, value)
                got.append(msg.encode("<"))
            except Exception as e:
                project.fail("encoding {} raised {}".format(d.name, tool.describe_error(e)), value=repr(value))
        if any(g != want for g in got):
            project.fail("{} is encoded as {}, {} expected".format(d.name, [g.hex() for g in got], want.hex()),
                         value=repr(value))


def run_python(src, ctx, ext):
    schema = gen.gen_schema(src, gen.Cfg(min_decls=2, max_decls=14, max_fields=5))
    if src.chance(60):
        schema = scramble(src, schema)
    lays = ref.Layouts(schema)
    project = Project(src, schema, ext)
    with tool.Workdir(ctx.scratch) as root:
        project.write(root)
        nodes = project.compile(root, ["python"])
        check_nodes(project, nodes, lays)
        check_python(project, root, ctx, lays, src)
    project.hit(ctx)
    if ctx.stats.wants_sample():
        ctx.stats.sample({"files": dict(project.texts), "runs": project.runs})


def section_prophy(src, ctx):
    run_python(src, ctx, ".prophy")


def section_isar(src, ctx):
    run_python(src, ctx, ".xml")


# ------------------------------------------------------------------ C++

def section_cpp(src, ctx):
    schema = gen.gen_schema(src, gen.Cfg(min_decls=2, max_decls=9, max_fields=4, shared=False))
    if src.chance(60):
        schema = scramble(src, schema)
    lays = ref.Layouts(schema)
    codec = ref.Codec(schema, lays)
    ext = src.choice([".prophy", ".prophy", ".xml"])
    project = Project(src, schema, ext, leafs_only=ext == ".xml", odd=src.chance(30))
    full = src.chance(50)
    kind, suffix = ("cpp_full", ".ppf") if full else ("cpp", ".pp")
    with tool.Workdir(ctx.scratch) as root:
        project.write(root)
        project.compile(root, [kind])
        d = os.path.join(root, "out", kind)
        alone = src.choice(project.files).stem + suffix + ".cpp"
        p = cpp.run_tool(["g++", "-fsyntax-only"] + cpp.STD + ["-I", cpp.include_dir(), "-I", d, alone], cwd=d)
        if p.returncode:
            project.fail("{} does not compile".format(alone), compiler=cpp.short_report(p.stderr.decode("latin1")))
        # every file is compiled into one program
        for end in (".hpp", ".cpp"):
            tool.write(os.path.join(d, "zz_all" + suffix + end), "".join(
                '#include "{}{}{}"\n'.format(f.stem, suffix, end) for f in src.shuffle(project.files)))
        if full:
            source = cpp.full_driver(schema, "zz_all")
        else:
            source = rawcpp.layout_driver(schema, lays, "zz_all")
        prog, err = cpp.build(d, source, False, "full" if full else "raw")
        if prog is None:
            project.fail("a program of all files does not compile", compiler=cpp.short_report(err))
        if full:
            check_full(project, prog, schema, lays, codec, src)
        else:
            check_raw(project, prog, schema, lays)
    project.hit(ctx)
    ctx.stats.label(kind, ext)


def check_full(project, prog, schema, lays, codec, src):
    commands, wants = [], []
    for i, d in enumerate(schema.composites()):
        value = gen.gen_value(src, schema, lays, d.name, max_total=12)
        commands.append("F-{} {}".format(i, cpp.fill_tokens(schema, d.name, value)))
        wants.append((d.name, codec.encode(d.name, value, "<").data, value))
    try:
        got = prog.run(commands)
    except cpp.Crash as e:
        project.fail("the C++ program crashed: {}".format(e))
    for line, (name, want, value) in zip(got, wants):
        if line.split()[5] != (want.hex() or "-"):
            project.fail("C++: {} is encoded as {}, {} expected".format(name, line, want.hex()), value=repr(value))


def check_raw(project, prog, schema, lays):
    p = cpp.run_tool([prog.path])
    sizes = {}
    for line in p.stdout.decode("latin1").splitlines():
        w = line.split()
        if w[0] == "T":
            sizes[w[1]] = int(w[2])
    for d in schema.composites():
        lay = lays.type(d.name)
        if lay.kind == ref.FIXED and sizes.get(d.name) != lay.size:
            project.fail("C++: sizeof {} is {}, {} expected".format(d.name, sizes.get(d.name), lay.size))


# ------------------------------------------------------------------ missing and cyclic includes

def section_broken(src, ctx):
    """A missing or cyclic include somewhere below the compiled file is an error."""
    schema = gen.gen_schema(src, gen.Cfg(min_decls=2, max_decls=8, max_fields=3))
    ext = src.choice([".prophy", ".prophy", ".xml"])
    project = Project(src, schema, ext)
    project.decoys = []
    files = project.files
    how = src.choice(["missing", "cycle", "self"])
    i = src.int(0, len(files) - 1)
    if how == "cycle":
        # files[i] is made to include one that reaches it
        below = {i}
        for k in range(len(files)):
            if any(x in below for x, _ in files[k].includes):
                below.add(k)
        k = src.choice(sorted(below))
        files[i].includes.insert(src.int(0, len(files[i].includes)), (k, project.reach(files[i], files[k], False)))
    elif how == "self":
        files[i].includes.insert(src.int(0, len(files[i].includes)), (i, project.reach(files[i], files[i], False)))
    else:
        leaf = src.choice(["absent" + ext, "inc/absent" + ext, "../nothing" + ext, files[i].stem + ".missing"])
        files[i].includes.insert(src.int(0, len(files[i].includes)), (i, leaf))
    # any file from which files[i] is reached shows the defect
    above = {i}
    for k in range(len(files)):
        if any(x in above for x, _ in files[k].includes):
            above.add(k)
    top = files[src.choice(sorted(above))]
    with tool.Workdir(ctx.scratch) as root:
        project.write(root)
        os.makedirs(os.path.join(root, "out", "python"))
        cwd = os.path.join(root, src.choice(DIRS))
        args = project.command(root, ["python"], [top], cwd)
        project.runs = [(os.path.relpath(cwd, root), " ".join(args))]
        out = tool.run_prophyc(args, cwd=cwd)
        said = (out.stderr + str(out.error or ""))
        if ext == ".prophy" and out.ok:
            project.fail("{} include is accepted".format(how))
        if ext == ".prophy" and type(out.error).__name__ != "ProphycError":
            project.fail("{} include: {}".format(how, tool.describe_error(out.error)))
        if ("not found" if how == "missing" else "included again") not in said:
            project.fail("{} include is not reported: {}".format(how, said))
        if out.ok is False and os.listdir(os.path.join(root, "out", "python")):
            project.fail("{} include: outputs are written".format(how))
    project.groups = 0
    ctx.stats.label(how + " include", ext)
    ctx.stats.hit(fingerprint([how, ext, project.key(), top.stem]) if top is not files[i] or len(files) > 1 else None)


SECTIONS = [
    Section("prophy", section_prophy, quick=1500, thorough=40000),
    Section("isar", section_isar, quick=1000, thorough=25000),
    Section("broken", section_broken, quick=1000, thorough=25000),
    Section("cpp", section_cpp, quick=240, thorough=5000, shrink_s=60),
]

assert HarnessError and Schema
