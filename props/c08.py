"""C08: offsets and sizes in generated raw C++ headers equal the wire layout."""
from vlib import cpp, gen, rawcpp, ref, small
from vlib.engine import HarnessError, Section, Violation, fingerprint
from vlib.pyutil import compiled
from vlib.schema import Struct

RULE = ("a case is one struct, part or union of a generated header, all of its members compared; non-trivial: more than "
        "one member or an optional, array, composite or union; distinct by the text of the declaration and its "
        "dependencies' layout")
ASSUMPTIONS = ["g++ for x86-64", "the wire layout comes from the reference model",
               "a part starts at its block's alignment (prophy::cast), so alignof of parts is compared too"]


def prepare(scratch, tier):
    rawcpp.prepare(scratch)


def section_random(src, ctx):
    schema = gen.gen_schema(src, gen.Cfg(max_decls=14, max_fields=9))
    check(schema, ctx)


def check(schema, ctx):
    lays = ref.Layouts(schema)
    with compiled(schema, ctx, ("cpp",), need_python=False) as py:
        prog = rawcpp.build_raw(schema, py, rawcpp.layout_driver(schema, lays), source_name="x.pp.hpp")
        p = cpp.run_tool([prog.path], timeout=60)
        if p.returncode:
            raise HarnessError("layout driver failed")
        types, members, values = {}, {}, {}
        for line in p.stdout.decode().splitlines():
            w = line.split()
            if w[0] == "T":
                types[w[1]] = (int(w[2]), int(w[3]))
            elif w[0] == "M":
                members[(w[1], w[2])] = (int(w[3]), int(w[4]), w[5], int(w[6]))
            else:
                values[(w[1], w[2])] = int(w[3])
        for d in schema.composites():
            def fail(message):
                raise Violation(message, schema=py.text, type=d.name)
            if isinstance(d, Struct):
                check_struct(schema, lays, d, types, members, fail, ctx, py)
            else:
                check_union(schema, lays, d, types, members, values, fail, ctx)
        if ctx.stats.wants_sample():
            ctx.stats.sample(py.text + "// " + "; ".join("{} {}".format(k, v) for k, v in sorted(members.items()))[:600])


def expect_member(fail, label, name, got, offset, size, code, extent):
    if got[0] != offset:
        fail("{}.{} is at offset {}, wire offset is {}".format(label, name, got[0], offset))
    if size is not None and got[1] != size:
        fail("{}.{} takes {} bytes, {} on the wire".format(label, name, got[1], size))
    if got[2] != code:
        fail("{}.{} is of kind '{}', '{}' expected".format(label, name, got[2], code))
    if extent is not None and got[3] != extent:
        fail("{}.{} has extent {}, {} expected".format(label, name, got[3], extent))


def check_struct(schema, lays, d, types, members, fail, ctx, py):
    lay = lays.type(d.name)
    size, align = types[d.name]
    if lay.kind == ref.FIXED and size != lay.size:
        fail("sizeof({}) is {}, its wire size is {}".format(d.name, size, lay.size))
    if align != lay.align:
        fail("alignof({}) is {}, its wire alignment is {}".format(d.name, align, lay.align))
    for number, mls in rawcpp.parts(schema, lays, d):
        label = d.name + ("/{}".format(number) if number else "")
        if number and types[label][1] != mls[0].pre_align:
            fail("alignof({}) is {}, its block is aligned to {}".format(label, types[label][1], mls[0].pre_align))
        interesting = len(mls) > 1
        for ml in mls:
            m = ml.member
            size, code = rawcpp.type_code(schema, lays, m.type)
            offset = ml.offset
            if m.mode == "optional":
                expect_member(fail, label, "has_" + m.name, members[(label, "has_" + m.name)], offset, 4, "u", 0)
                offset += ml.align
            extent = m.size if m.mode in ("fixed", "limited") else None if m.mode in ("bound", "greedy") else 0
            expect_member(fail, label, m.name, members[(label, m.name)], offset, size, code, extent)
            interesting = interesting or m.mode != "plain" or code == "c"
            ctx.stats.label("mode:" + m.mode + (" 8-aligned" if ml.align == 8 else ""))
        ctx.stats.label("part" if number else "main block")
        ctx.stats.hit(fingerprint([(ml.member.mode, ml.member.size, ml.offset, ml.align, ml.size, ml.kind) for ml in mls],
                                  number) if interesting else None)


def check_union(schema, lays, d, types, members, values, fail, ctx):
    lay = lays.type(d.name)
    size, align = types[d.name]
    if size != lay.size:
        fail("sizeof({}) is {}, its wire size is {}".format(d.name, size, lay.size))
    if align != lay.align:
        fail("alignof({}) is {}, its wire alignment is {}".format(d.name, align, lay.align))
    expect_member(fail, d.name, "discriminator", members[(d.name, "discriminator")], 0, 4, "e", 0)
    for a in d.arms:
        size, code = rawcpp.type_code(schema, lays, a[1])
        expect_member(fail, d.name, a[2], members[(d.name, a[2])], lay.align, size, code, 0)
        if values[(d.name, a[2])] & 0xFFFFFFFF != a[0]:
            fail("discriminator_{} is {}, {} on the wire".format(a[2], values[(d.name, a[2])], a[0]))
    ctx.stats.label("union")
    ctx.stats.hit(fingerprint("union", [(a[0], lays.type(a[1]).size, lays.type(a[1]).align) for a in d.arms]))


SECTIONS = [Section("random", section_random, quick=1600, thorough=10000, shrink_s=120)]
SECTIONS += small.sections(lambda src, ctx, schema: check(schema, ctx), quick_triples=400, shrink_s=120)
