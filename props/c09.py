"""C09: raw C++ swap turns a foreign-endian message into a native one in place."""
from vlib import cpp, gen, rawcpp, ref, small
from vlib.engine import Section, Violation, fingerprint
from vlib.pyutil import compiled, diff_text, value_text
from vlib.schema import Field, Schema, Struct

RULE = ("a case is one big-endian message swapped in a guarded buffer; non-trivial: the message has a multi-byte scalar; "
        "distinct by schema, type and bytes")
ASSUMPTIONS = ["g++ for x86-64 (little endian), messages start at an address aligned to 8",
               "writes further than 64 bytes outside of the message may go unseen unless they crash",
               "canonical bytes come from the reference encoder"]


def prepare(scratch, tier):
    rawcpp.prepare(scratch)


def section_random(src, ctx):
    check_schema(src, ctx, gen.gen_schema(src, gen.Cfg(max_decls=10)))


def check_schema(src, ctx, schema):
    lays = ref.Layouts(schema)
    codec = ref.Codec(schema, lays)
    values = []
    for k, d in enumerate(schema.composites()):
        values.append((k, d.name, ref.default_value(schema, d.name)))
        for _ in range(12):
            with src.span():
                values.append((k, d.name, gen.gen_value(src, schema, lays, d.name, max_total=40)))
    check(schema, codec, values, ctx)


def check(schema, codec, values, ctx, allow_narrowing=False):
    with compiled(schema, ctx, ("cpp",), need_python=False) as py:
        prog = rawcpp.build_raw(schema, py, rawcpp.swap_driver(schema))
        kept = [x for x in values if allow_narrowing or not codec.encode(x[1], x[2], "<").narrowing]
        if len(kept) != len(values):
            ctx.stats.label_n("excluded: known finding narrowing_parts", len(values) - len(kept))
        values = kept
        encodings = [(codec.encode(t, v, ">"), codec.encode(t, v, "<")) for _, t, v in values]
        commands = ["S-{} {}".format(k, big.data.hex() or "-") for (k, _, _), (big, _) in zip(values, encodings)]
        crash = None
        try:
            answers = prog.run(commands)
        except cpp.Crash as c:
            answers, crash = c.done, c
        for i, (k, t, value) in enumerate(values):
            big, little = encodings[i]

            def fail(message, **detail):
                raise Violation(message, schema=py.text, type=t, value=value_text(value), **detail)
            if crash and len(answers) <= i:
                fail("swap crashed", report=crash.text, bytes=big.data.hex(" ", 4))
            end, outside, data = answers[i].split()
            got = b"" if data == "-" else bytes.fromhex(data)
            upto = little.greedy_start if little.greedy_start is not None else len(little.data)
            if int(outside) != -1000000:
                fail("swap changed a byte outside of the message at offset " + outside, bytes=big.data.hex(" ", 4))
            if got[:upto] != little.data[:upto]:
                fail("swapped bytes differ from the native encoding", bytes=diff_text(little.data[:upto], got[:upto]))
            if int(end) != upto:
                fail("swap returned offset {}, {} expected".format(end, upto), bytes=big.data.hex(" ", 4))
            if little.greedy_start is not None:
                ctx.stats.label("greedy tail")
            ctx.stats.hit(fingerprint(py.text, t, big.data) if any(m.width > 1 for m in big.marks) else None)
        for d in schema.composites():
            ctx.stats.label(*gen.features(schema, d.name))
        if ctx.stats.wants_sample() and values:
            ctx.stats.sample("{}// {} {}".format(py.text, values[-1][1], value_text(values[-1][2])))


def known_narrowing_parts(ctx):
    schema = Schema([Struct("X", [Field("b", "u16", "dynamic"), Field("c", "u16", "dynamic"), Field("d", "u16")])])
    check(schema, ref.Codec(schema), [(0, "X", {"b": [], "c": [1], "d": 1})], ctx, allow_narrowing=True)


KNOWN = {"narrowing_parts": known_narrowing_parts}

SECTIONS = [Section("random", section_random, quick=700, thorough=10000, shrink_s=120)]
SECTIONS += small.sections(check_schema, quick_triples=120, shrink_s=120)
