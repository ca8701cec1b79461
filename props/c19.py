"""C19: byte order changes only the bytes inside scalars; padding is always zero."""
from props.c03 import unhex
from vlib import cpp, gen, ref, small, tool
from vlib.engine import Section, Violation, fingerprint
from vlib.pyutil import compiled, diff_text, hexdump, value_text

RULE = ("a case is one message encoded in both byte orders; non-trivial: the message has a multi-byte scalar; "
        "distinct by schema, type and bytes")
ASSUMPTIONS = ["positions and widths of scalars and padding come from the reference layout",
               "the host is little endian, so the C++ native encoder must equal the little endian one"]


def prepare(scratch, tier):
    cpp.prepare_pch(scratch, {"full": cpp.FULL_HEAD})


def mirrored(data, marks):
    out = bytearray(data)
    for m in marks:
        out[m.offset:m.offset + m.width] = out[m.offset:m.offset + m.width][::-1]
    return bytes(out)


def padding_positions(enc):
    """Offsets which hold neither a scalar nor a byte of a bytes field."""
    used = set(enc.raw_offsets)
    for m in enc.marks:
        used.update(range(m.offset, m.offset + m.width))
    return [i for i in range(len(enc.data)) if i not in used]


def compare(fail, enc, little, big, who):
    if len(little) != len(big):
        fail("{}: lengths differ: {} little, {} big".format(who, len(little), len(big)))
    if len(little) != len(enc.data):
        fail("{}: length {} differs from the layout's {}".format(who, len(little), len(enc.data)))
    want = mirrored(little, enc.marks)
    if want != big:
        fail("{}: big-endian bytes are not the mirrored little-endian bytes".format(who), bytes=diff_text(want, big),
             little=hexdump(little))
    for i in padding_positions(enc):
        if little[i] or big[i]:
            fail("{}: padding byte at offset {} is not zero".format(who, i), little=hexdump(little), big=hexdump(big))


def section_python(src, ctx):
    check_schema(src, ctx, gen.gen_schema(src, gen.Cfg(max_decls=8)))


def check_schema(src, ctx, schema):
    lays = ref.Layouts(schema)
    codec = ref.Codec(schema, lays)
    with compiled(schema, ctx) as py:
        for d in schema.composites():
            for _ in range(3):
                with src.span():
                    value = gen.gen_value(src, schema, lays, d.name)

                    def fail(message, **detail):
                        raise Violation(message, schema=py.text, type=d.name, value=value_text(value), **detail)
                    msg = py.cls(d.name)()
                    try:
                        tool.set_value(schema, msg, d.name, value, src.chance(30))
                        little, big = msg.encode("<"), msg.encode(">")
                    except Exception as e:
                        fail("encoding raised " + tool.describe_error(e))
                    enc = codec.encode(d.name, value, "<")
                    compare(fail, enc, little, big, "Python")
                    ctx.stats.hit(fingerprint(py.text, d.name, little)
                                  if any(m.width > 1 for m in enc.marks) else None)
        if ctx.stats.wants_sample():
            ctx.stats.sample("{}// {} {}".format(py.text, d.name, value_text(value)))


def section_cpp(src, ctx):
    schema = gen.gen_schema(src, gen.Cfg(max_decls=10, shared=False))
    lays = ref.Layouts(schema)
    codec = ref.Codec(schema, lays)
    values = []
    for k, d in enumerate(schema.composites()):
        for _ in range(10):
            with src.span():
                values.append((k, d.name, gen.gen_value(src, schema, lays, d.name)))
    with compiled(schema, ctx, ("python", "cpp_full")) as py:
        prog = cpp.build_full(schema, py, False, ctx)
        commands = ["F-{} {}".format(k, cpp.fill_tokens(schema, t, v)) for k, t, v in values]
        crash = None
        try:
            answers = prog.run(commands)
        except cpp.Crash as c:
            answers, crash = c.done, c
        for i, (k, t, value) in enumerate(values):
            def fail(message, **detail):
                raise Violation(message, schema=py.text, type=t, value=value_text(value), **detail)
            if crash and i >= len(answers):
                fail("the C++ encoder crashed", report=crash.text)
            words = answers[i].split()
            little, big, native = unhex(words[5]), unhex(words[9]), unhex(words[13])
            enc = codec.encode(t, value, "<")
            compare(fail, enc, little, big, "C++")
            if native != little:
                fail("C++: the native encoder differs from the host order's", bytes=diff_text(little, native))
            multi = any(m.width > 1 for m in enc.marks)
            ctx.stats.hit(fingerprint(py.text, t, "cpp", little) if multi else None)
            msg = py.cls(t)()
            try:
                tool.set_value(schema, msg, t, value)
                mine = msg.encode("<"), msg.encode(">")
            except Exception as e:
                fail("encoding raised " + tool.describe_error(e))
            compare(fail, enc, mine[0], mine[1], "Python")
            ctx.stats.hit(fingerprint(py.text, t, mine[0]) if multi else None)
        if ctx.stats.wants_sample() and values:
            ctx.stats.sample("{}// {} {}".format(py.text, values[-1][1], value_text(values[-1][2])))


SECTIONS = [Section("python", section_python, quick=2000, thorough=40000),
            Section("cpp", section_cpp, quick=350, thorough=8000, shrink_s=150)]
SECTIONS += small.sections(check_schema)
