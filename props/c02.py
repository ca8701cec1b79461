"""C02: Python decode inverts encode and consumes exactly the message."""
from vlib import gen, handmade, ref, small, tool
from vlib.engine import Section, Violation, fingerprint
from vlib.pyutil import compiled, diff_text, hexdump, value_text
from vlib.schema import Field, Schema, Struct

RULE = ("a case is one (message type, value, byte order); non-trivial: the type is not a one-scalar struct; "
        "distinct by schema text, type and bytes")
ASSUMPTIONS = ["values of r32 fields are representable in single precision",
               "greedy tails end on the message's alignment boundary",
               "arrays have at most 65536 elements (the decoder's documented guard)"]


def check_roundtrip(ctx, py, codec, t, value, skip_defaults):
    schema = py.schema

    def fail(message, **detail):
        raise Violation(message, schema=py.text, type=t, value=value_text(value)[:4000], **detail)

    try:
        msg = py.cls(t)()
        tool.set_value(schema, msg, t, value, skip_defaults)
    except Exception as e:
        fail("assigning an in-range value failed: " + tool.describe_error(e))
    for endian in "<>":
        try:
            own = msg.encode(endian)
        except Exception as e:
            fail("encode('{}') raised {}".format(endian, tool.describe_error(e)))
        canonical = codec.encode(t, value, endian).data
        for what, data in (("own encoding", own),) + ((("canonical bytes", canonical),) if canonical != own else ()):
            fresh = py.cls(t)()
            try:
                consumed = fresh.decode(data, endian)
            except Exception as e:
                fail("decode('{}') of the {} raised {}".format(endian, what, tool.describe_error(e)),
                     bytes=hexdump(data[:2000]))
            if consumed != len(data):
                fail("decode('{}') reports {!r} bytes consumed of {}".format(endian, consumed, len(data)),
                     bytes=hexdump(data[:2000]))
            try:
                got = tool.get_value(schema, fresh, t)
            except Exception as e:
                fail("reading the decoded message raised " + tool.describe_error(e), bytes=hexdump(data[:2000]))
            if not tool.same(got, value):
                fail("decode('{}') of the {} yields another value".format(endian, what),
                     got=value_text(got)[:4000], bytes=hexdump(data[:2000]))
            try:
                again = fresh.encode(endian)
            except Exception as e:
                fail("re-encoding raised " + tool.describe_error(e))
            if again != data:
                fail("re-encoding of the decoded message differs", bytes=diff_text(data, again)[:4000])
        ctx.stats.hit(None if gen.is_trivial_type(schema, t) else fingerprint(py.text, t, own))


def section_random(src, ctx):
    check_schema(src, ctx, gen.gen_schema(src, gen.Cfg(max_decls=8)))


def check_schema(src, ctx, schema):
    lays = ref.Layouts(schema)
    codec = ref.Codec(schema, lays)
    with compiled(schema, ctx) as py:
        value = None
        for d in schema.composites():
            ctx.stats.label(*gen.features(schema, d.name))
            for k in range(3):
                with src.span():
                    if not gen.can_align(schema, lays, d.name):
                        ctx.stats.label("greedy tail never aligned")
                        continue
                    value = gen.gen_value(src, schema, lays, d.name, codec, aligned=True)
                    check_roundtrip(ctx, py, codec, d.name, value, skip_defaults=src.chance(30))
        if ctx.stats.wants_sample() and value is not None:
            ctx.stats.sample(py.text + "// " + d.name + " " + value_text(value))


def section_long(src, ctx):
    """Array lengths around the counter and guard boundaries."""
    sizer = src.choice(["u16", "u32", "u64", "i32", "i64", "u8", "i16"])
    elem = src.choice(["u8", "byte", "u16", "i8"])
    top = {"u8": 255, "i16": 32767, "u16": 65535}.get(sizer, 65536)
    n = src.choice([top, top - 1, 257 if top > 257 else 255, 128, 32768 if top > 32768 else 127])
    ext = src.chance(60)
    fields = [Field("n", sizer), Field("a", elem, "ext", sizer="n")] if ext else [Field("a", elem, "dynamic")]
    if not ext:
        n = src.choice([65536, 65535, 32768, 256])
    if src.chance(50):
        fields.append(Field("z", src.choice(["u8", "u32", "u64"])))
    schema = Schema([Struct("M", fields)])
    lays = ref.Layouts(schema)
    codec = ref.Codec(schema, lays)
    value = ref.default_value(schema, "M")
    value["a"] = gen.gen_bytes(src, 16) * (n // 16 + 1)
    value["a"] = value["a"][:n]
    if elem != "byte":
        value["a"] = [b & 0x7F for b in value["a"]]
    with compiled(schema, ctx) as py:
        check_roundtrip(ctx, py, codec, "M", value, False)
        ctx.stats.label("length %d" % n)


def section_handmade(src, ctx):
    """Classes described in Python, some with shifted bounds, some packed."""
    py, lays, codec = handmade.make(src, ctx, 5)
    schema = py.schema
    for d in schema.composites():
        for k in range(3):
            with src.span():
                if gen.can_align(schema, lays, d.name):
                    value = gen.gen_value(src, schema, lays, d.name, codec, aligned=True, max_total=30)
                    check_roundtrip(ctx, py, codec, d.name, value, skip_defaults=src.chance(30))


SECTIONS = [Section("random", section_random, quick=2400, thorough=60000),
            Section("handmade", section_handmade, quick=2000, thorough=40000),
            Section("long", section_long, quick=60, thorough=400)]
SECTIONS += small.sections(check_schema)
