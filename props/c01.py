"""C01: Python encode emits exactly the documented wire format."""
from vlib import gen, handmade, ref, small, tool
from vlib.engine import Section, Violation, Discard, fingerprint
from vlib.pyutil import compiled, diff_text, value_text

RULE = ("a case is one (message type, value, byte order); non-trivial: the type is not a one-scalar struct; "
        "distinct by schema text, type and canonical bytes")
ASSUMPTIONS = ["reference encoder written from docs/encoding.rst",
               "a shifted counter holds the number of elements plus the shift; packed structs have no padding",
               "r32 values are representable in single precision"]


def check_message(ctx, py, lays, codec, t, value, skip_defaults):
    schema = py.schema
    try:
        msg = py.cls(t)()
        tool.set_value(schema, msg, t, value, skip_defaults)
    except Exception as e:
        raise Violation("assigning an in-range value failed: " + tool.describe_error(e),
                        schema=py.text, type=t, value=value_text(value))
    for endian in "<>":
        want = codec.encode(t, value, endian).data
        try:
            got = msg.encode(endian)
        except Exception as e:
            raise Violation("encode('{}') raised {}".format(endian, tool.describe_error(e)),
                            schema=py.text, type=t, value=value_text(value))
        if got != want:
            raise Violation("encode('{}') differs from the documented wire format".format(endian),
                            schema=py.text, type=t, value=value_text(value), bytes=diff_text(want, got))
        nontrivial = None if gen.is_trivial_type(schema, t) else fingerprint(py.text, t, want)
        ctx.stats.hit(nontrivial)


def section_random(src, ctx):
    check_schema(src, ctx, gen.gen_schema(src, gen.Cfg(max_decls=8)))


def check_schema(src, ctx, schema):
    lays = ref.Layouts(schema)
    codec = ref.Codec(schema, lays)
    with compiled(schema, ctx) as py:
        for d in schema.composites():
            ctx.stats.label(*gen.features(schema, d.name))
            for k in range(3):
                with src.span():
                    value = gen.gen_value(src, schema, lays, d.name)
                    check_message(ctx, py, lays, codec, d.name, value, skip_defaults=src.chance(30))
            check_message(ctx, py, lays, codec, d.name, ref.default_value(schema, d.name), True)
        if ctx.stats.wants_sample():
            ctx.stats.sample(py.text + "// " + d.name + " " + value_text(value))


def section_handmade(src, ctx):
    """Classes described in Python, some with shifted bounds, some packed."""
    py, lays, codec = handmade.make(src, ctx, 5)
    schema = py.schema
    for d in schema.composites():
        for k in range(3):
            with src.span():
                value = gen.gen_value(src, schema, lays, d.name, max_total=30)
                check_message(ctx, py, lays, codec, d.name, value, skip_defaults=src.chance(30))


SECTIONS = [Section("random", section_random, quick=2400, thorough=60000),
            Section("handmade", section_handmade, quick=2000, thorough=40000)]
SECTIONS += small.sections(check_schema)
assert Discard
