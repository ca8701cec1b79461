"""C07: C++ full decode is memory-safe and exact on arbitrary bytes."""
from props import c03
from vlib import cpp, gen, mutate, ref, small
from vlib.engine import HarnessError, Section, Violation, fingerprint
from vlib.pyutil import compiled, value_text

RULE = ("a case is one byte string decoded in one byte order under AddressSanitizer and UBSan; non-trivial: at least 5 "
        "bytes long and derived from a valid encoding by truncation or corruption, or accepted; distinct by schema, "
        "type, byte order and bytes")
ASSUMPTIONS = ["input buffers are aligned to 8 (the codec aligns by address)",
               "-fno-sanitize=enum: storing an out-of-range number in an enumeration is defined by the compilers used",
               "memory in proportion: live heap during decode <= 64 KiB + size * (64 + 8 * largest message object)"]
prepare = c03.prepare


def section_random(src, ctx):
    check_schema(src, ctx, gen.gen_schema(src, gen.Cfg(max_decls=8, shared=False)))


def check_schema(src, ctx, schema):
    lays = ref.Layouts(schema)
    codec = ref.Codec(schema, lays)
    inputs = []
    for k, d in enumerate(schema.composites()):
        for _ in range(3):
            with src.span():
                value = gen.gen_value(src, schema, lays, d.name, max_total=24)
                endian = src.choice("<>")
                enc = codec.encode(d.name, value, endian)
                if len(enc.data) <= 300:
                    inputs.extend((k, d.name, endian, p, "prefix") for p in mutate.prefixes(enc, 80))
                for _ in range(14):
                    with src.span():
                        data, kind = mutate.corrupt(src, enc, endian)
                        inputs.append((k, d.name, endian, data, kind))
                        if data and src.chance(20):
                            inputs.append((k, d.name, endian, data[:-1], kind + ",cut"))
    with compiled(schema, ctx, ("python", "cpp_full")) as py:
        prog = cpp.build_full(schema, py, True, ctx)
        check_inputs(ctx, py, prog, inputs)


def check_inputs(ctx, py, prog, inputs):
    commands = ["D{}{} {}".format("l" if e == "<" else "b", k, data.hex() or "-") for k, _, e, data, _ in inputs]
    crash = None
    try:
        answers = prog.run(commands)
    except cpp.Crash as c:
        answers, crash = c.done, c
    for i, (k, t, endian, data, kind) in enumerate(inputs):
        def fail(message, **detail):
            raise Violation(message, schema=py.text, type=t, endian=endian, input=data.hex(" ", 4), kind=kind, **detail)
        if crash and len(answers) <= i:
            fail("decode crashed or was stopped by a sanitizer", report=crash.text, exit_code=crash.code)
        w = answers[i].split()
        if w[0] == "ALLOC":
            fail("decode of {} bytes requested memory out of proportion".format(len(data)))
        if w[0] == "THROW":
            fail("decode threw: " + answers[i])
        accepted = w[0] == "1"
        if accepted:
            size, out = int(w[2]), c03.unhex(w[3])
            if len(out) != len(data) or size != len(data):
                fail("accepted input of {} bytes re-encodes to {} bytes".format(len(data), len(out)),
                     reencoded=out.hex(" ", 4))
        again = w[4:] if accepted else w[2:]
        if again[0] != w[0] or (accepted and len(c03.unhex(again[1])) != len(data)):
            fail("decode into an object decoded before goes another way", answer=answers[i])
        ctx.stats.label(kind, kind + (":accepted" if accepted else ":rejected"))
        ctx.stats.hit(fingerprint(py.text, t, endian, data) if accepted or (len(data) >= 5 and kind != "random") else None)
    if ctx.stats.wants_sample() and inputs:
        k, t, endian, data, kind = inputs[-1]
        ctx.stats.sample("{}// {} {} {} {}".format(py.text, t, endian, kind, data.hex()))


def section_fuzzer(src, ctx):
    """Coverage-guided: libFuzzer starts at valid encodings; what it finds is judged by the ordinary driver."""
    schema = gen.gen_schema(src, gen.Cfg(max_decls=6, shared=False))
    lays = ref.Layouts(schema)
    codec = ref.Codec(schema, lays)
    comps = schema.composites()
    seeds = []
    for k, d in enumerate(comps[:100]):
        for j, endian in enumerate("<>"):
            with src.span():
                value = gen.gen_value(src, schema, lays, d.name, max_total=12)
                data = codec.encode(d.name, value, endian).data
                if len(data) <= 400:
                    seeds.append(bytes([2 * k + j]) + data)
    seed = src.int(1, 2 ** 31 - 1)
    with compiled(schema, ctx, ("python", "cpp_full")) as py:
        fuzzer = cpp.build_fuzzer(schema, py)
        count, found, bad, report = fuzzer.run(seeds, FUZZ_RUNS, seed, 2 * max([64] + [len(s) for s in seeds]))
        ctx.stats.label_n("fuzzer: executions", count)
        ctx.stats.label_n("fuzzer: inputs reaching new code", max(0, len(found) - len(seeds)))
        prog = cpp.build_full(schema, py, True, ctx)
        inputs = []
        for data in found + ([bad] if bad else []):
            if data and data[0] < 2 * len(comps):
                k, j = divmod(data[0], 2)
                inputs.append((k, comps[k].name, "<>"[j], data[1:], "fuzzer"))
        check_inputs(ctx, py, prog, inputs)
        if bad is not None:
            again = fuzzer.fails(bad)
            if not again:
                raise HarnessError("fuzzer's finding does not repeat: " + report)
            raise Violation("decode failed under the fuzzer", schema=py.text, input=bad.hex(" ", 4), report=again)


FUZZ_RUNS = 20000

SECTIONS = [Section("random", section_random, quick=500, thorough=8000, shrink_s=150)]
SECTIONS += [Section("fuzzer", section_fuzzer, quick=64, thorough=1500, shrink_s=150)]
SECTIONS += small.sections(check_schema, quick_triples=60, shrink_s=150)
assert value_text
