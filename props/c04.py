"""C04: prophyc's layout, the Python runtime's and the C++ constants equal the wire rules."""
import os

from vlib import cpp, gen, isar, rawcpp, ref, small, tool
from vlib.engine import Discard, HarnessError, Section, Violation, fingerprint
from vlib.pyutil import compiled
from vlib.schema import Struct, Typedef, Union

RULE = ("a case is one type of one schema, its size, alignment and stiffness compared between the reference, prophyc's "
        "model, the Python class and (C++ sections) encoded_byte_size and sizeof; non-trivial: a composite with more than "
        "one field or any field that is not a plain scalar; distinct by the layout of its members")
ASSUMPTIONS = ["the reference layout is written from docs/encoding.rst",
               "model sizes of types that are not fixed are not compared (the documentation defines none)"]


def prepare(scratch, tier):
    rawcpp.prepare(scratch)
    cpp.prepare_pch(scratch, {"full": cpp.FULL_HEAD})


def index_nodes(nodes):
    from prophyc import model
    out = {}
    for n in nodes:
        if isinstance(n, model.Include):
            out.update(index_nodes(n.members))
        else:
            out[n.name] = n
    return out


def check_model(schema, lays, nodes, fail, ctx):
    from prophyc import model
    index = index_nodes(nodes)
    for d in schema.decls:
        if not isinstance(d, (Struct, Union, Typedef)):
            continue
        node = index.get(d.name)
        if node is None:
            fail("{} is missing from the model".format(d.name))
        lay = lays.type(d.name)
        if node.kind != lay.kind:
            fail("model: kind of {} is {}, {} expected".format(d.name, node.kind, lay.kind))
        if isinstance(d, Typedef):
            ctx.stats.hit(None)
            continue
        if node.alignment != lay.align:
            fail("model: alignment of {} is {}, {} expected".format(d.name, node.alignment, lay.align))
        if lay.kind == ref.FIXED and node.byte_size != lay.size:
            fail("model: size of {} is {}, {} expected".format(d.name, node.byte_size, lay.size))
        if isinstance(d, Struct):
            check_members(lays, d, node, fail, model)
        else:
            for arm, m in zip(d.arms, node.members):
                want = lays.type(arm[1])
                if (m.byte_size, m.alignment, m.kind) != (want.size, want.align, want.kind):
                    fail("model: arm {}.{} has size {}, alignment {}".format(d.name, m.name, m.byte_size, m.alignment))
        ctx.stats.label(*gen.features(schema, d.name))
        ctx.stats.hit(shape(schema, lays, d))


def shape(schema, lays, d):
    if isinstance(d, Union):
        return fingerprint([(lays.type(a[1]).size, lays.type(a[1]).align) for a in d.arms])
    mls = lays.members(d)
    if len(mls) == 1 and mls[0].member.mode == "plain":
        return None
    return fingerprint([(ml.member.mode, ml.size, ml.align, ml.kind) for ml in mls])


def check_members(lays, d, node, fail, model):
    mls = lays.members(d)
    if [m.name for m in node.members] != [ml.member.name for ml in mls]:
        fail("model: members of {} are {}".format(d.name, [m.name for m in node.members]))
    offset = 0
    for i, (m, ml) in enumerate(zip(node.members, mls)):
        if ml.size is not None and m.byte_size != ml.size:
            fail("model: size of {}.{} is {}, {} expected".format(d.name, m.name, m.byte_size, ml.size))
        if m.alignment != ml.pre_align:
            fail("model: alignment of {}.{} is {}, {} expected".format(d.name, m.name, m.alignment, ml.pre_align))
        if ml.kind == ref.FIXED and (i + 1 < len(mls) or lays.type(d.name).kind == ref.FIXED):
            # padding after a member with a fixed place in its block
            end = ml.offset + ml.size
            if i + 1 < len(mls):
                want = mls[i + 1].offset - end
            else:
                want = lays.type(d.name).size - end
            if m.padding != want:
                fail("model: padding after {}.{} is {}, {} expected".format(d.name, m.name, m.padding, want))
    assert offset == 0 and model


def check_python(schema, lays, mod, fail, src, codec):
    for d in schema.decls:
        if not isinstance(d, (Struct, Union, Typedef)):
            continue
        lay = lays.type(d.name)
        cls = getattr(mod, d.name)
        got = ref.UNLIMITED if cls._UNLIMITED else ref.DYNAMIC if cls._DYNAMIC else ref.FIXED
        if got != lay.kind or bool(cls._DYNAMIC) != (lay.kind != ref.FIXED):
            fail("Python: {} has _DYNAMIC {} and _UNLIMITED {}, kind {} expected".format(
                d.name, cls._DYNAMIC, cls._UNLIMITED, lay.kind))
        if cls._ALIGNMENT != lay.align:
            fail("Python: _ALIGNMENT of {} is {}, {} expected".format(d.name, cls._ALIGNMENT, lay.align))
        if lay.kind == ref.FIXED:
            if cls._SIZE != lay.size:
                fail("Python: _SIZE of {} is {}, {} expected".format(d.name, cls._SIZE, lay.size))
            if not isinstance(d, Typedef):
                with src.span():
                    value = gen.gen_value(src, schema, lays, d.name, max_total=20)
                    msg = cls()
                    try:
                        n = len(msg.encode("<"))
                        tool.set_value(schema, msg, d.name, value)
                        m = len(msg.encode(">"))
                    except Exception as e:
                        fail("Python: encoding {} raised {}".format(d.name, tool.describe_error(e)), value=repr(value))
                    if n != lay.size or m != lay.size:
                        fail("Python: encodings of {} have {} and {} bytes, {} expected".format(d.name, n, m, lay.size),
                             value=repr(value))


def section_prophy(src, ctx):
    check_schema(src, ctx, gen.gen_schema(src, gen.Cfg(max_decls=14, max_fields=9)))


def check_schema(src, ctx, schema):
    lays = ref.Layouts(schema)
    codec = ref.Codec(schema, lays)
    with compiled(schema, ctx) as py:
        def fail(message, **detail):
            raise Violation(message, schema=py.text, **detail)
        check_model(schema, lays, py.outcome.nodes["x"], fail, ctx)
        check_python(schema, lays, py.mod, fail, src, codec)
        if ctx.stats.wants_sample():
            ctx.stats.sample(py.text)


def section_isar(src, ctx):
    schema = gen.gen_schema(src, gen.Cfg(max_decls=12, exprs=False))
    lays = ref.Layouts(schema)
    codec = ref.Codec(schema, lays)
    xml, patch = isar.Render(src, schema).render()
    with tool.Workdir(ctx.scratch) as work:
        def fail(message, **detail):
            raise Violation(message, xml=xml, patch=patch, **detail)
        tool.write(os.path.join(work, "x.xml"), xml)
        args = ["--isar", "--python_out", work, os.path.join(work, "x.xml")]
        if patch:
            tool.write(os.path.join(work, "x.patch"), patch)
            args = ["-p", os.path.join(work, "x.patch")] + args
        out = tool.run_prophyc(args)
        if not out.ok:
            raise Discard("prophyc refused: " + type(out.error).__name__)
        check_model(schema, lays, out.nodes["x"], fail, ctx)
        with tool.Imported(work) as imp:
            try:
                mod = imp.load("x")
            except Exception as e:
                fail("generated Python module does not import: " + tool.describe_error(e))
            check_python(schema, lays, mod, fail, src, codec)
        ctx.stats.label("isar, definitions in random order")
        if ctx.stats.wants_sample():
            ctx.stats.sample(xml + patch)


def section_cpp(src, ctx):
    schema = gen.gen_schema(src, gen.Cfg(max_decls=14, max_fields=9, shared=False))
    lays = ref.Layouts(schema)
    comps = schema.composites()
    with compiled(schema, ctx, ("python", "cpp_full", "cpp")) as py:
        def fail(message, **detail):
            raise Violation(message, schema=py.text, **detail)
        lines = "".join('    printf("%lld ", (long long)prophy::generated::{0}::encoded_byte_size);\n'.format(d.name)
                        for d in comps)
        full, err = cpp.build(os.path.join(py.dir, "cpp_full"),
                              cpp.FULL_HEAD + '#include "x.ppf.hpp"\nint main()\n{\n' + lines + "    return 0;\n}\n",
                              False, "full")
        if full is None:
            cpp.blame_generated(os.path.join(py.dir, "cpp_full"), "x.ppf.hpp", err, py.text)
        lines = "".join('    printf("%lld ", (long long)sizeof(::{0}));\n'.format(d.name) for d in comps)
        raw = rawcpp.build_raw(schema, py, rawcpp.RAW_HEAD + '#include "x.pp.hpp"\nint main()\n{\n' + lines +
                               "    return 0;\n}\n", source_name="x.pp.hpp")
        constants, sizes = outputs(full), outputs(raw)
        for d, constant, size in zip(comps, constants, sizes):
            lay = lays.type(d.name)
            want = lay.size if lay.kind == ref.FIXED else -1
            if constant != want:
                fail("encoded_byte_size of {} is {}, {} expected".format(d.name, constant, want))
            if lay.kind == ref.FIXED and size != want:
                fail("sizeof of raw {} is {}, {} expected".format(d.name, size, want))
            ctx.stats.label("C++ constants")
            ctx.stats.hit(shape(schema, lays, d))


def outputs(prog):
    p = cpp.run_tool([prog.path], timeout=60)
    if p.returncode:
        raise HarnessError("size driver failed")
    return [int(w) for w in p.stdout.split()]


SECTIONS = [
    Section("prophy", section_prophy, quick=3000, thorough=60000),
    Section("isar", section_isar, quick=1500, thorough=30000),
    Section("cpp", section_cpp, quick=250, thorough=5000, shrink_s=120),
]
SECTIONS += small.sections(check_schema)
