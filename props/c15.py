"""C15: the order of definitions does not matter; output is dependency-ordered and complete."""
import itertools
import os
import re

from vlib import cpp, gen, isar, ref, tool
from vlib.engine import HarnessError, Section, Violation, fingerprint
from vlib.schema import Const, Enum, Field, Schema, Struct, Typedef, Union

RULE = ("a case is one ordering of one set of definitions: every definition exactly once and after its dependencies, "
        "layouts equal to the reference and the generated module importing; non-trivial: the input order is not already "
        "a dependency order (for C++ headers: more than one definition); distinct by the dependency graph and the order")
ASSUMPTIONS = ["C++ headers (sack) can only be permuted within what C++ itself accepts",
               "the order oracle knows dependencies through types of members, arms and typedefs, and through names of "
               "constants and enumerators in values, sizes and discriminators"]


def prepare(scratch, tier):
    cpp.prepare_pch(scratch, {"c15": "#include <prophy/detail/prophy.hpp>\n#include <prophy/prophy.hpp>\n"})


# ------------------------------------------------------------------ renaming, dependencies

def rename(schema, table):
    """The schema with definitions and enumerators renamed."""
    def tok(text):
        return re.sub(r"[A-Za-z_]\w*", lambda m: table.get(m.group(0), m.group(0)), text)

    def t(name):
        return table.get(name, name)
    out = []
    for d in schema.decls:
        if isinstance(d, Const):
            out.append(Const(t(d.name), d.value, tok(d.text)))
        elif isinstance(d, Enum):
            out.append(Enum(t(d.name), [(t(n), v, tok(x)) for n, v, x in d.members]))
        elif isinstance(d, Typedef):
            out.append(Typedef(t(d.name), t(d.type)))
        elif isinstance(d, Union):
            out.append(Union(t(d.name), [(v, t(ty), n, tok(x)) for v, ty, n, x in d.arms]))
        else:
            out.append(Struct(t(d.name), [Field(f.name, t(f.type), f.mode, size=f.size, sizer=f.sizer,
                                                size_text=f.size_text and tok(f.size_text)) for f in d.fields]))
    return Schema(out)


def scramble(src, schema):
    """Names in an order unrelated to the dependencies."""
    names = []
    for d in schema.decls:
        names.append(d.name)
        if isinstance(d, Enum):
            names.extend(n for n, _, _ in d.members)
    fresh = src.shuffle(["{}{}".format(p, i) for i, p in zip(range(len(names)), itertools.cycle(["N", "x_", "Zz", "Ab"]))])
    return rename(schema, dict(zip(names, fresh)))


def dependencies(schema):
    """{name: set of names of definitions it uses}"""
    owner = {}
    for d in schema.decls:
        owner[d.name] = d.name
        if isinstance(d, Enum):
            owner.update((n, d.name) for n, _, _ in d.members)
    out = {}
    for d in schema.decls:
        if isinstance(d, Const):
            words = [d.text]
        elif isinstance(d, Enum):
            words = [x for _, _, x in d.members]
        elif isinstance(d, Typedef):
            words = [d.type]
        elif isinstance(d, Union):
            words = [a[1] for a in d.arms] + [a[3] for a in d.arms]
        else:
            words = [f.type for f in d.fields] + [f.size_text for f in d.fields if f.size_text]
        used = set()
        for w in words:
            used.update(owner[n] for n in re.findall(r"[A-Za-z_]\w*", w) if n in owner)
        out[d.name] = used - {d.name}
    return out


def is_ordered(names, deps):
    seen = set()
    for n in names:
        if deps[n] - seen:
            return False
        seen.add(n)
    return True


def check_order(got, deps, fail, where):
    if sorted(got) != sorted(deps):
        twice = sorted(n for n in set(got) if got.count(n) > 1)
        fail("{}: definitions are {}; missing {}, unexpected {}, repeated {}".format(
            where, got, sorted(set(deps) - set(got)), sorted(set(got) - set(deps)), twice))
    seen = set()
    for n in got:
        if deps[n] - seen:
            fail("{}: {} comes before {} it depends on; order {}".format(where, n, sorted(deps[n] - seen), got))
        seen.add(n)


def check_layout(schema, lays, nodes, fail):
    for n in nodes:
        d = schema.index[n.name]
        if isinstance(d, (Struct, Union)):
            lay = lays.type(d.name)
            if n.alignment != lay.align or n.kind != lay.kind or (lay.kind == ref.FIXED and n.byte_size != lay.size):
                fail("layout of {}: size {} alignment {} kind {}, expected {} {} {}".format(
                    d.name, n.byte_size, n.alignment, n.kind, lay.size, lay.align, lay.kind))
        elif isinstance(d, Typedef) and n.kind != lays.type(d.name).kind:
            fail("kind of {} is {}".format(d.name, n.kind))


def case_key(names, deps):
    place = {n: i for i, n in enumerate(names)}
    return fingerprint([sorted(place[d] for d in deps[n]) for n in names])


# ------------------------------------------------------------------ model nodes

def make_node(d):
    from prophyc import model
    if isinstance(d, Const):
        return model.Constant(d.name, d.text)
    if isinstance(d, Enum):
        return model.Enum(d.name, [model.EnumMember(n, x) for n, _, x in d.members])
    if isinstance(d, Typedef):
        return model.Typedef(d.name, d.type)
    if isinstance(d, Union):
        return model.Union(d.name, [model.UnionMember(n, t, x) for _, t, n, x in d.arms])
    members = []
    for f in d.fields:
        if f.mode in ("dynamic", "limited"):
            members.append(model.StructMember(f.sizer, "u32"))
            members.append(model.StructMember(f.name, f.type, bound=f.sizer,
                                              size=f.size_text if f.mode == "limited" else None))
        elif f.mode == "ext":
            members.append(model.StructMember(f.name, f.type, bound=f.sizer))
        elif f.mode == "greedy":
            members.append(model.StructMember(f.name, f.type, greedy=True))
        elif f.mode == "optional":
            members.append(model.StructMember(f.name, f.type, optional=True))
        else:
            members.append(model.StructMember(f.name, f.type, size=f.size_text if f.mode == "fixed" else None))
    return model.Struct(d.name, members)


def evaluate(schema, lays, deps, order, fail, ctx):
    from prophyc import model
    nodes = [make_node(schema.index[n]) for n in order]
    warnings = []
    try:
        nodes, constants = model.evaluate_model(nodes, warnings.append)
    except Exception as e:
        fail("evaluating the model raised " + tool.describe_error(e))
    if warnings:
        fail("evaluating the model warned: {}".format(warnings))
    check_order([n.name for n in nodes], deps, fail, "model")
    check_layout(schema, lays, nodes, fail)
    for d in schema.decls:
        values = [(d.name, d.value)] if isinstance(d, Const) else \
            [(n, v) for n, v, _ in d.members] if isinstance(d, Enum) else []
        for n, v in values:
            if constants.get(n) != v:
                fail("model: value of {} is {!r}, {} expected".format(n, constants.get(n), v))
    ctx.stats.hit(None if is_ordered(order, deps) else case_key(order, deps))


def describe(schema):
    from vlib.schema import prophy_text
    return prophy_text(schema)


def small_graph(src, n):
    """n definitions whose dependency graph is drawn edge by edge."""
    decls = []
    values = []      # (name, value) of constants and enumerators
    types = []       # (name, plain int)
    for i in range(n):
        with src.span():
            kind = src.choice(["const", "enum", "typedef", "struct", "union"])
            name = "D{}".format(i)
            nums = [v for v in values if src.chance(50)]
            tys = [t for t in types if src.chance(50)]
            if kind == "const":
                value = 1 + sum(v for _, v in nums)
                decls.append(Const(name, value, " + ".join(["1"] + [v for v, _ in nums])))
                values.append((name, value))
            elif kind == "enum":
                members, taken = [], set()
                for k, (x, v) in enumerate(nums or [("1", 1)]):
                    while v in taken:
                        x, v = x + " + 1", v + 1
                    taken.add(v)
                    members.append(("{}_{}".format(name, k), v, x))
                decls.append(Enum(name, members))
                values.append((members[src.int(0, len(members) - 1)][0:2]))
                types.append(name)
            elif kind == "typedef":
                decls.append(Typedef(name, tys[0] if tys else "u16"))
                types.append(name)
            elif kind == "struct":
                fields = []
                for k, t in enumerate(tys or ["u8"]):
                    fields.append(Field("f{}".format(k), t))
                for k, (x, v) in enumerate(nums):
                    t = src.choice(["u8", "u32"] + types)
                    if v > 40:
                        continue
                    fields.append(Field("g{}".format(k), t, "fixed", size=v, size_text=x))
                if ref.Layouts(Schema(decls + [Struct(name, fields)])).type(name).size > 100000:
                    fields = fields[:1]
                decls.append(Struct(name, fields))
                types.append(name)
            else:
                arms, taken = [], set()
                for k, t in enumerate(tys or ["u64"]):
                    x, v = nums[k] if k < len(nums) else (str(1000 + k), 1000 + k)
                    while v in taken:
                        x, v = x + " + 1", v + 1
                    taken.add(v)
                    arms.append((v, t, "f{}".format(k), x))
                decls.append(Union(name, arms))
                types.append(name)
    return Schema(decls)


def section_all(src, ctx):
    """Every permutation of up to five definitions."""
    schema = small_graph(src, src.weighted([(3, 3), (3, 4), (1, 5)]))
    lays = ref.Layouts(schema)
    deps = dependencies(schema)
    for order in itertools.permutations([d.name for d in schema.decls]):
        def fail(message, **detail):
            raise Violation(message, definitions=describe(schema), order=list(order), **detail)
        evaluate(schema, lays, deps, list(order), fail, ctx)
    ctx.stats.label("all permutations of {}".format(len(schema.decls)))


def section_model(src, ctx):
    """Random orders of larger sets."""
    if src.chance(50):
        schema = small_graph(src, src.int(5, 16))
    else:
        schema = gen.gen_schema(src, gen.Cfg(min_decls=4, max_decls=24, max_fields=5))
    schema = scramble(src, schema)
    lays = ref.Layouts(schema)
    deps = dependencies(schema)
    names = [d.name for d in schema.decls]
    orders = [names[::-1]] + [src.shuffle(names) for _ in range(src.int(1, 5))]
    if src.chance(30):
        orders.append(sorted(names))
    for order in orders:
        def fail(message, **detail):
            raise Violation(message, definitions=describe(schema), order=order, **detail)
        evaluate(schema, lays, deps, order, fail, ctx)
    if ctx.stats.wants_sample():
        ctx.stats.sample({"definitions": describe(schema), "orders": orders})


# ------------------------------------------------------------------ isar

def check_bytes(schema, lays, mod, src, fail):
    codec = ref.Codec(schema, lays)
    comps = schema.composites()
    for d in comps if len(comps) < 4 else [src.choice(comps) for _ in range(3)]:
        value = gen.gen_value(src, schema, lays, d.name, max_total=20)
        want = codec.encode(d.name, value, "<").data
        try:
            msg = getattr(mod, d.name)()
            tool.set_value(schema, msg, d.name, value)
            got = msg.encode("<")
        except Exception as e:
            fail("Python: encoding {} raised {}".format(d.name, tool.describe_error(e)), value=repr(value))
        if got != want:
            fail("Python: {} is encoded as {}, {} expected".format(d.name, got.hex(), want.hex()), value=repr(value))


def module_order(path, names):
    """Definitions in the order of the generated Python module."""
    with open(path) as f:
        text = f.read()
    out = []
    for m in re.finditer(r"^(?:class (\w+)|(\w+) = )", text, re.M):
        n = m.group(1) or m.group(2)
        if n in names:
            out.append(n)
    return out


def wrap(src, elements):
    """Elements at various depths of the document."""
    out = []
    for e in elements:
        if src.chance(8):
            e = "<group>{}</group>\n".format(e)
        out.append(e)
    return out


def section_isar(src, ctx):
    schema = gen.gen_schema(src, gen.Cfg(min_decls=3, max_decls=14, max_fields=5))
    if src.chance(70):
        schema = scramble(src, schema)
    lays = ref.Layouts(schema)
    deps = dependencies(schema)
    render = isar.Render(src, schema, patches=False)
    elements = [(d.name, render.decl(d)) for d in schema.decls]
    patch = render.patch_text()
    names = set(schema.index)
    outputs = {}
    for k in range(src.int(2, 3)):
        order = list(reversed(elements)) if k == 0 and src.chance(30) else src.shuffle(elements)
        xml = isar.Render.document(wrap(src, [e for _, e in order]))

        def fail(message, **detail):
            raise Violation(message, xml=xml, patch=patch, **detail)
        with tool.Workdir(ctx.scratch) as work:
            tool.write(os.path.join(work, "x.xml"), xml)
            args = ["--isar", "--python_out", work, os.path.join(work, "x.xml")]
            if patch:
                tool.write(os.path.join(work, "x.patch"), patch)
                args = ["-p", os.path.join(work, "x.patch")] + args
            out = tool.run_prophyc(args)
            if not out.ok or out.stderr.strip():
                fail("isar: " + (out.stderr or tool.describe_error(out.error)))
            nodes = out.nodes["x"]
            check_order([n.name for n in nodes], deps, fail, "isar")
            check_layout(schema, lays, nodes, fail)
            got = module_order(os.path.join(work, "x.py"), names)
            check_order(got, deps, fail, "Python module")
            with tool.Imported(work) as imp:
                try:
                    mod = imp.load("x")
                except Exception as e:
                    fail("the Python module does not import: " + tool.describe_error(e))
                check_bytes(schema, lays, mod, src, fail)
            outputs[k] = sorted((n.name, getattr(n, "kind", None), getattr(n, "byte_size", None), getattr(n, "alignment", None))
                                for n in nodes)
            if outputs[k] != outputs[0]:
                fail("isar: layouts differ between orders: {} and {}".format(outputs[0], outputs[k]))
        plain = [n for n, _ in order]
        ctx.stats.hit(None if is_ordered(plain, deps) else case_key(plain, deps))
    if ctx.stats.wants_sample():
        ctx.stats.sample(xml)


def section_cpp(src, ctx):
    """Shuffled isar definitions through both C++ back-ends: what depends on what compiles in the order given."""
    schema = scramble(src, gen.gen_schema(src, gen.Cfg(min_decls=3, max_decls=12, max_fields=4, shared=False)))
    deps = dependencies(schema)
    render = isar.Render(src, schema, patches=False)
    order = src.shuffle([(d.name, render.decl(d)) for d in schema.decls])
    xml, patch = isar.Render.document([e for _, e in order]), render.patch_text()
    full = src.chance(50)
    kind, source = ("cpp_full", "x.ppf.cpp") if full else ("cpp", "x.pp.cpp")
    with tool.Workdir(ctx.scratch) as work:
        tool.write(os.path.join(work, "x.xml"), xml)
        args = ["--isar", "--{}_out".format(kind), work, os.path.join(work, "x.xml")]
        if patch:
            tool.write(os.path.join(work, "x.patch"), patch)
            args = ["-p", os.path.join(work, "x.patch")] + args
        out = tool.run_prophyc(args)
        if not out.ok:
            raise Violation("isar: " + (out.stderr or tool.describe_error(out.error)), xml=xml, patch=patch)
        p = cpp.run_tool(["g++", "-fsyntax-only"] + cpp.STD + cpp.pch_args("c15", False) +
                         ["-I", cpp.include_dir(), "-I", work, source], cwd=work)
        if p.returncode:
            raise Violation("{} does not compile".format(source), xml=xml, patch=patch,
                            compiler=cpp.short_report(p.stderr.decode("latin1")))
    plain = [n for n, _ in order]
    ctx.stats.hit(None if is_ordered(plain, deps) else fingerprint([kind, case_key(plain, deps)]))
    ctx.stats.label(kind)


def section_split(src, ctx):
    """Two isar files, one including the other; each in any order."""
    schema = scramble(src, gen.gen_schema(src, gen.Cfg(min_decls=4, max_decls=12, max_fields=4)))
    lays = ref.Layouts(schema)
    deps = dependencies(schema)
    cut = src.int(1, len(schema.decls) - 1)
    groups = [schema.decls[:cut], schema.decls[cut:]]
    render = isar.Render(src, schema, patches=False)
    docs, orders = [], []
    for i, g in enumerate(groups):
        order = src.shuffle([(d.name, render.decl(d)) for d in g])
        docs.append(isar.Render.document([e for _, e in order], ["x0.xml"] if i else []))
        orders.append([n for n, _ in order])
    patch = render.patch_text()

    def fail(message, **detail):
        raise Violation(message, x0=docs[0], x1=docs[1], patch=patch, **detail)
    with tool.Workdir(ctx.scratch) as work:
        inputs = []
        for i, doc in enumerate(docs):
            inputs.append(tool.write(os.path.join(work, "x{}.xml".format(i)), doc))
        inputs = src.shuffle(inputs)
        args = ["--isar", "--python_out", work] + inputs
        if patch:
            args = ["-p", tool.write(os.path.join(work, "x.patch"), patch)] + args
        out = tool.run_prophyc(args)
        if not out.ok or out.stderr.strip():
            fail("isar: " + (out.stderr or tool.describe_error(out.error)))
        from prophyc import model
        for i, g in enumerate(groups):
            local = {d.name: {x for x in deps[d.name] if any(x == o.name for o in g)} for d in g}
            nodes = [n for n in out.nodes["x{}".format(i)] if not isinstance(n, model.Include)]
            check_order([n.name for n in nodes], local, fail, "x{}".format(i))
            check_layout(schema, lays, nodes, fail)
            ctx.stats.hit(None if is_ordered(orders[i], local) else fingerprint(["split", case_key(orders[i], local)]))
        with tool.Imported(work) as imp:
            try:
                mod = imp.load("x1")
            except Exception as e:
                fail("the Python module does not import: " + tool.describe_error(e))
            last = schema.decls[-1]
            if isinstance(last, (Struct, Union)):
                check_bytes(Schema(schema.decls), lays, _Both(mod, imp.load("x0")), src, fail)


class _Both(object):
    def __init__(self, *mods):
        self.mods = mods

    def __getattr__(self, name):
        for m in self.mods:
            if hasattr(m, name):
                return getattr(m, name)
        raise AttributeError(name)


# ------------------------------------------------------------------ sack

C_TYPES = {"u8": ["unsigned char"], "i8": ["signed char", "char"], "u16": ["unsigned short"], "i16": ["short"],
           "u32": ["unsigned int", "unsigned"], "i32": ["int"], "u64": ["unsigned long long"], "i64": ["long long"],
           "r32": ["float"], "r64": ["double"]}


def sack_graph(src):
    """(Schema of what sack should produce, C++ text of every definition, dependencies of the C++ text)"""
    decls, texts, uses = [], {}, {}
    real = {}         # C++ name -> prophy type
    for i in range(src.int(2, 9)):
        with src.span():
            name = "D{}".format(i)
            kind = src.weighted([(2, "enum"), (2, "typedef"), (5, "struct"), (2, "union")])
            used = set()

            def pick():
                if real and src.chance(60):
                    t = src.choice(sorted(real))
                    used.add(t)
                    return t, real[t]
                t = src.choice(sorted(C_TYPES))
                return src.choice(C_TYPES[t]), t
            if kind == "enum":
                members = [("{}_{}".format(name, k), 3 * k + src.int(0, 2)) for k in range(src.int(1, 4))]
                decls.append(Enum(name, [(n, v, str(v)) for n, v in members]))
                texts[name] = "enum {} {{ {} }};\n".format(name, ", ".join("{} = {}".format(*m) for m in members))
                real[name] = name
            elif kind == "typedef":
                c, t = pick()
                texts[name] = "typedef {} {};\n".format(c, name)
                real[name] = t
            else:
                fields, lines = [], []
                for k in range(src.int(1, 4)):
                    c, t = pick()
                    n = src.int(1, 3) if kind == "struct" and src.chance(25) else None
                    fields.append((t, "f{}".format(k), n))
                    lines.append("    {} f{}{};\n".format(c, k, "[{}]".format(n) if n else ""))
                if kind == "struct":
                    decls.append(Struct(name, [Field(f, t, "fixed" if n else "plain", size=n) for t, f, n in fields]))
                else:
                    decls.append(Union(name, [(k, t, f, str(k)) for k, (t, f, _) in enumerate(fields)]))
                texts[name] = "{} {}\n{{\n{}}};\n".format(kind, name, "".join(lines))
                real[name] = name
            uses[name] = used
    return Schema(decls), texts, uses


def topological(src, uses):
    """A random order which C++ accepts."""
    left, out = dict(uses), []
    while left:
        ready = sorted(n for n in left if not (left[n] - set(out)))
        n = src.choice(ready)
        out.append(n)
        del left[n]
    return out


def sack_header(src, order, texts):
    """The definitions in this order, some of them declared before and some in linkage specifications."""
    out = []
    for n in order:
        forward = texts[n].split("\n")[0] + ";\n" if texts[n].startswith(("struct", "union")) and src.chance(15) else ""
        text = forward + texts[n]
        if forward and src.chance(50):
            out.insert(src.int(0, len(out)), src.choice(["{}", 'extern "C" {{\n{}}}\n', 'extern "C++" {{ {}}}\n']).format(forward))
            text = texts[n]
        # enums which nothing uses are not taken from linkage specifications
        if not texts[n].startswith("enum") and src.chance(15):
            text = 'extern "C"\n{{\n{}}}\n'.format(text)
        out.append(text)
    return "".join(out)


def section_sack(src, ctx):
    schema, texts, uses = sack_graph(src)
    lays = ref.Layouts(schema)
    deps = dependencies(schema)
    # unions which nothing uses are not taken from headers
    reached = set()

    def reach(n):
        if n not in reached:
            reached.add(n)
            for x in deps[n]:
                reach(x)
    for d in schema.decls:
        if not isinstance(d, Union):
            reach(d.name)
    deps = {n: deps[n] for n in reached}
    if not deps:
        return
    for k in range(2):
        order = topological(src, uses)
        header = sack_header(src, order, texts)

        def fail(message, **detail):
            raise Violation(message, header=header, **detail)
        with tool.Workdir(ctx.scratch) as work:
            path = tool.write(os.path.join(work, "x.hpp"), header)
            out = tool.run_prophyc(["--sack", "--python_out", work, path])
            if not out.ok:
                if "libclang" in str(out.error):
                    raise HarnessError("no libclang: {}".format(out.error))
                fail("sack: " + (out.stderr or tool.describe_error(out.error)))
            nodes = out.nodes["x"]
            check_order([n.name for n in nodes], deps, fail, "sack")
            check_layout(schema, lays, nodes, fail)
            check_order(module_order(os.path.join(work, "x.py"), set(deps)), deps, fail, "Python module")
            with tool.Imported(work) as imp:
                try:
                    mod = imp.load("x")
                except Exception as e:
                    fail("the Python module does not import: " + tool.describe_error(e))
                known = Schema([d for d in schema.decls if d.name in deps])
                if known.composites():
                    check_bytes(known, lays, mod, src, fail)
        ctx.stats.hit(fingerprint(["sack", case_key([n for n in order if n in deps], deps), header]) if len(deps) > 1 else None)
        ctx.stats.label("sack")


SECTIONS = [
    Section("all", section_all, quick=1500, thorough=20000),
    Section("model", section_model, quick=5000, thorough=90000),
    Section("isar", section_isar, quick=2400, thorough=40000),
    Section("split", section_split, quick=1000, thorough=15000),
    Section("sack", section_sack, quick=1200, thorough=20000),
    Section("cpp", section_cpp, quick=400, thorough=6000, shrink_s=60),
]
