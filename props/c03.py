"""C03: Python and generated C++ full codecs are wire-compatible."""
from vlib import cpp, gen, ref, small, tool
from vlib.engine import Section, Violation, fingerprint
from vlib.pyutil import compiled, diff_text, value_text

RULE = ("a case is one (type, value, byte order) decoded and re-encoded by C++, built and encoded by C++, and encoded "
        "and decoded by Python; non-trivial: the type is not a one-scalar struct; distinct by schema, type, bytes")
ASSUMPTIONS = ["canonical bytes come from the reference encoder",
               "buffers handed to the C++ codec are aligned to 8 (it aligns by address)",
               "host is little endian"]
ENDIANS = (("l", "<"), ("b", ">"), ("n", "<"))


def prepare(scratch, tier):
    cpp.prepare_pch(scratch, {"full": cpp.FULL_HEAD})


def batch(src, schema, lays, codec, per_type, aligned=True, **kw):
    """[(type index, type, value)]"""
    out = []
    for k, d in enumerate(schema.composites()):
        if not gen.can_align(schema, lays, d.name):
            continue
        out.append((k, d.name, ref.default_value(schema, d.name)))
        if gen.greedy_path(schema, d.name):
            out.pop()
        for _ in range(per_type):
            with src.span():
                out.append((k, d.name, gen.gen_value(src, schema, lays, d.name, codec, aligned=aligned,
                                                     max_total=40, **kw)))
    return out


def section_random(src, ctx):
    check_schema(src, ctx, gen.gen_schema(src, gen.Cfg(max_decls=10, shared=False)))


def check_schema(src, ctx, schema):
    lays = ref.Layouts(schema)
    codec = ref.Codec(schema, lays)
    values = batch(src, schema, lays, codec, 8)
    with compiled(schema, ctx, ("python", "cpp_full")) as py:
        prog = cpp.build_full(schema, py, False, ctx)
        check_values(ctx, py, prog, codec, values)
        if ctx.stats.wants_sample() and values:
            ctx.stats.sample("{}// {} {}".format(py.text, values[-1][1], value_text(values[-1][2])))


def check_values(ctx, py, prog, codec, values):
    schema = py.schema
    commands = []
    for k, t, value in values:
        for e, endian in ENDIANS:
            commands.append("D{}{} {}".format(e, k, codec.encode(t, value, endian).data.hex() or "-"))
        commands.append("F-{} {}".format(k, cpp.fill_tokens(schema, t, value)))
    crash = None
    try:
        answers = prog.run(commands)
    except cpp.Crash as c:
        answers, crash = c.done, c
    for i, (k, t, value) in enumerate(values):
        def fail(message, **detail):
            raise Violation(message, schema=py.text, type=t, value=value_text(value), **detail)
        if crash and len(answers) < 4 * i + 4:
            fail("the C++ codec crashed", report=crash.text, command=commands[len(answers)][:2000])
        filled = answers[4 * i + 3].split()
        vectors = {"l": filled[5], "b": filled[9], "n": filled[13]}
        for j, (e, endian) in enumerate(ENDIANS):
            want = codec.encode(t, value, endian).data
            got = answers[4 * i + j].split()
            if got[0] != "1":
                fail("C++ decode<{}> of canonical bytes failed: {}".format(e, answers[4 * i + j]), bytes=want.hex(" ", 4))
            out = unhex(got[3])
            if out != want:
                fail("C++ decode<{0}> then encode<{0}> changed the bytes".format(e), bytes=diff_text(want, out))
            if got[4] != "1" or unhex(got[5]) != want:
                fail("C++ decode<{0}> into an object decoded before, then encode<{0}> changed the bytes".format(e),
                     bytes=diff_text(want, unhex(got[5]) if got[4] == "1" else b""))
            out = unhex(vectors[e])
            if out != want:
                fail("C++ encode<{}> differs from the canonical bytes".format(e), bytes=diff_text(want, out))
            ctx.stats.hit(None if gen.is_trivial_type(schema, t) else fingerprint(py.text, t, want, e))
            if e == "n":
                continue
            try:
                msg = py.cls(t)()
                tool.set_value(schema, msg, t, value)
                mine = msg.encode(endian)
                back = py.cls(t)()
                used = back.decode(want, endian)
                seen = tool.get_value(schema, back, t)
            except Exception as x:
                fail("Python cannot exchange this message with C++: " + tool.describe_error(x))
            if mine != want:
                fail("Python encode('{}') differs from what C++ reads and writes".format(endian),
                     bytes=diff_text(want, mine))
            if used != len(want) or not tool.same(seen, value):
                fail("Python decode('{}') of the bytes written by C++ gives another value".format(endian),
                     got=value_text(seen))


def unhex(s):
    return b"" if s == "-" else bytes.fromhex(s)


SECTIONS = [Section("random", section_random, quick=500, thorough=8000, shrink_s=150)]
SECTIONS += small.sections(check_schema, quick_triples=60, shrink_s=150)
