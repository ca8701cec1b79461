"""C05: C++ full codec: get_byte_size equals the bytes written, encode stays in bounds."""
from props import c03
from vlib import cpp, gen, ref, small
from vlib.engine import Section, Violation, fingerprint
from vlib.schema import Field, Schema, Struct
from vlib.pyutil import compiled, value_text

RULE = ("a case is one C++ object filled field by field, measured and encoded six times (three byte orders, pointer and "
        "vector); non-trivial: the type is dynamic, or has an optional, a union or a limited array; distinct by schema, "
        "type and contents")
ASSUMPTIONS = ["destination buffers are aligned to 8 (the codec aligns by address)",
               "writes outside of the buffer are seen by AddressSanitizer on exact-size heap blocks"]
prepare = c03.prepare


def section_random(src, ctx):
    check_schema(src, ctx, gen.gen_schema(src, gen.Cfg(max_decls=10, shared=False)))


def check_schema(src, ctx, schema):
    lays = ref.Layouts(schema)
    codec = ref.Codec(schema, lays)
    values = []
    for k, d in enumerate(schema.composites()):
        values.append((k, d.name, ref.default_value(schema, d.name)))
        for _ in range(10):
            with src.span():
                values.append((k, d.name, gen.gen_value(src, schema, lays, d.name, max_total=40, overfull=30)))
    with compiled(schema, ctx, ("python", "cpp_full")) as py:
        prog = cpp.build_full(schema, py, True, ctx)
        check_values(ctx, py, prog, codec, lays, values)
        if ctx.stats.wants_sample():
            ctx.stats.sample("{}// {} {}".format(py.text, values[-1][1], value_text(values[-1][2])))


def check_values(ctx, py, prog, codec, lays, values):
    schema = py.schema
    commands = ["F-{} {}".format(k, cpp.fill_tokens(schema, t, value)) for k, t, value in values]
    crash = None
    try:
        answers = prog.run(commands)
    except cpp.Crash as c:
        answers, crash = c.done, c
    shapes = {}
    for i, (k, t, value) in enumerate(values):
        def fail(message, **detail):
            raise Violation(message, schema=py.text, type=t, value=value_text(value), **detail)
        if crash and len(answers) <= i:
            fail("encoding crashed or wrote outside of its buffer", report=crash.text)
        w = answers[i].split()
        size, fixed = int(w[0]), int(w[1])
        if fixed != -1 and fixed != size:
            fail("get_byte_size() is {}, encoded_byte_size is {}".format(size, fixed))
        if (fixed != -1) != (lays.type(t).kind == ref.FIXED):
            fail("encoded_byte_size is {} for a type of kind {}".format(fixed, lays.type(t).kind))
        for j, e in enumerate(("little", "big", "native")):
            zeroed, dirty, vector = int(w[2 + 4 * j]), int(w[4 + 4 * j]), len(c03.unhex(w[5 + 4 * j]))
            if zeroed != size or dirty != size:
                fail("encode<{}>(void*) wrote {} bytes, get_byte_size() is {}".format(e, zeroed, size))
            if vector != size:
                fail("encode<{}>() returned {} bytes, get_byte_size() is {}".format(e, vector, size))
        if t not in shapes:
            f = gen.features(schema, t)
            shapes[t] = f
            ctx.stats.label(*f)
        interesting = lays.type(t).kind != ref.FIXED or shapes[t] & {"union", "mode:optional", "mode:limited"}
        if not cpp_same(gen.clip(schema, t, value), value):
            ctx.stats.label("limited array beyond its limit")
        ctx.stats.hit(fingerprint(py.text, t, commands[i]) if interesting else None)


def cpp_same(a, b):
    return repr(a) == repr(b)


def known_narrow_sizer(ctx):
    """The generators keep arrays within what their counter's type can express."""
    schema = Schema([Struct("X", [Field("n", "u8"), Field("a", "u8", "ext", sizer="n")])])
    lays = ref.Layouts(schema)
    with compiled(schema, ctx, ("python", "cpp_full")) as py:
        prog = cpp.build_full(schema, py, True, ctx)
        check_values(ctx, py, prog, ref.Codec(schema, lays), lays, [(0, "X", {"a": [1] * 257})])


KNOWN = {"narrow_sizer": known_narrow_sizer}

SECTIONS = [Section("random", section_random, quick=500, thorough=8000, shrink_s=150)]
SECTIONS += small.sections(check_schema, quick_triples=60, shrink_s=150)
