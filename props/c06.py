"""C06: Python decode is total: any bytes decode or raise ProphyError, nothing else."""
import signal
import tracemalloc

from vlib import gen, handmade, mutate, ref, tool
from vlib.engine import Section, Violation, fingerprint
from vlib.pyutil import compiled, diff_text, hexdump, value_text
from vlib.schema import Field, Schema, Struct, Union

RULE = ("a case is one (message type, byte string, byte order) given to decode; non-trivial: the bytes differ from a "
        "valid encoding, and the type is not a one-scalar struct; distinct by schema, type, bytes and byte order")
ASSUMPTIONS = ["greedy tails which do not end on the alignment boundary are the documented exception of C02; for them "
               "only totality of decode and encode is required",
               "a decode of at most a few kilobytes that burns 30 s of CPU time counts as not terminating",
               "memory: at most 24 MB plus 4 KB per input byte at any time during a decode"]
GUARD = 65536
CPU_LIMIT = 30


class Slow(BaseException):
    pass


def _alarm(*_):
    raise Slow()


def guarded(fn, measure):
    """Runs fn under a CPU-time limit; (result, exception, peak memory)."""
    old = signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
    if measure:
        tracemalloc.start()
    try:
        try:
            out = fn(), None
        except Exception as e:
            out = None, e
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        return out + (tracemalloc.get_traced_memory()[1] if measure else 0,)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)
        if measure:
            tracemalloc.stop()


def check_bytes(ctx, py, codec, t, data, endian, label, measure=False):
    import prophy
    schema = py.schema

    def fail(message, **detail):
        raise Violation(message, schema=py.text, type=t, endianness=endian, input=hexdump(data[:4000]), kind=label,
                        **detail)

    msg = py.cls(t)()
    try:
        _, error, peak = guarded(lambda: msg.decode(data, endian), measure)
    except Slow:
        fail("decode did not end within {} s of CPU time".format(CPU_LIMIT))
    if peak > 24000000 + 4096 * len(data):
        fail("decode allocated {} bytes for {} bytes of input".format(peak, len(data)))
    ctx.stats.hit(fingerprint(py.text, t, data, endian)
                  if label != "valid" and not gen.is_trivial_type(schema, t) else None)
    ctx.stats.label("kind:" + label)
    if error is not None:
        if not isinstance(error, prophy.ProphyError):
            fail("decode raised " + tool.describe_error(error))
        ctx.stats.label("refused")
        return
    ctx.stats.label("accepted")
    try:
        value = tool.get_value(schema, msg, t)
    except Exception as e:
        fail("reading the decoded message raised " + tool.describe_error(e))
    long = too_long(schema, t, value)
    if long:
        fail("a counted array of {} elements was accepted, the guard is {}".format(long, GUARD))
    try:
        once = msg.encode(endian)
    except Exception as e:
        fail("encoding the decoded message raised " + tool.describe_error(e), value=value_text(value)[:4000])
    again = py.cls(t)()
    unaligned = gen.greedy_path(schema, t) and codec.encode(t, value, endian).greedy_pad != 0
    try:
        again.decode(once, endian)
        second = tool.get_value(schema, again, t)
        twice = again.encode(endian)
    except prophy.ProphyError as e:
        if unaligned:
            ctx.stats.label("unaligned greedy tail")
            return
        fail("the encoding of the decoded message is refused: " + tool.describe_error(e), encoded=hexdump(once),
             value=value_text(value)[:4000])
    except Exception as e:
        fail("decoding the encoding raised " + tool.describe_error(e), encoded=hexdump(once))
    if unaligned:
        ctx.stats.label("unaligned greedy tail")
        return
    if not tool.same(value, second):
        fail("decoding the encoding gives another value", first=value_text(value)[:4000],
             second=value_text(second)[:4000], encoded=hexdump(once))
    if once != twice:
        fail("encoding is not a fixpoint", bytes=diff_text(once, twice)[:4000])


def too_long(schema, t, value):
    """Length of an array over the guard (greedy arrays have no counter, so no guard), or 0."""
    d = schema.resolve(t)
    if isinstance(d, Union):
        return too_long(schema, next(a[1] for a in d.arms if a[2] == value[0]), value[1])
    if not isinstance(d, Struct):
        return 0
    longest = 0
    for m in schema.flat(d):
        v = value.get(m.name)
        if v is None or m.counts:
            continue
        if m.mode in ("plain", "optional"):
            longest = max(longest, too_long(schema, m.type, v))
            continue
        if m.mode == "bound" and len(v) > GUARD:
            longest = max(longest, len(v))
        if m.type != "byte":
            longest = max([longest] + [too_long(schema, m.type, e) for e in v[:50]])
    return longest


def section_random(src, ctx):
    schema = gen.gen_schema(src, gen.Cfg(max_decls=7, big=False))
    lays = ref.Layouts(schema)
    codec = ref.Codec(schema, lays)
    with compiled(schema, ctx) as py:
        for d in schema.composites():
            with src.span():
                value = gen.gen_value(src, schema, lays, d.name, max_total=30)
                endian = src.choice("<>")
                enc = codec.encode(d.name, value, endian)
            for _ in range(12):
                with src.span():
                    data, kind = mutate.corrupt(src, enc, endian)
                    check_bytes(ctx, py, codec, d.name, data, endian, kind, measure=src.chance(4))
        if ctx.stats.wants_sample():
            ctx.stats.sample("{}// {} {} {}".format(py.text, d.name, kind, data.hex()))


def section_prefixes(src, ctx):
    schema = gen.gen_schema(src, gen.Cfg(max_decls=5, big=False))
    lays = ref.Layouts(schema)
    codec = ref.Codec(schema, lays)
    with compiled(schema, ctx) as py:
        d = schema.composites()[-1]
        value = gen.gen_value(src, schema, lays, d.name, max_total=16, long_arrays=False)
        endian = src.choice("<>")
        enc = codec.encode(d.name, value, endian)
        for data in mutate.prefixes(enc, 300):
            check_bytes(ctx, py, codec, d.name, data, endian, "prefix")


def section_controls(src, ctx):
    """Every control word of one message set to every suspicious value."""
    schema = gen.gen_schema(src, gen.Cfg(max_decls=5, big=False))
    lays = ref.Layouts(schema)
    codec = ref.Codec(schema, lays)
    with compiled(schema, ctx) as py:
        d = schema.composites()[-1]
        value = gen.gen_value(src, schema, lays, d.name, max_total=16, long_arrays=False)
        endian = src.choice("<>")
        enc = codec.encode(d.name, value, endian)
        marks = [m for m in enc.marks if m.role in ("counter", "flag", "disc", "enum")]
        for m in marks[:12]:
            top = 1 << (8 * m.width)
            old = int.from_bytes(enc.data[m.offset:m.offset + m.width], "little" if endian == "<" else "big")
            for v in sorted({0, 1, 2, old + 1, old - 1, top - 1, top // 2, top // 2 - 1, 65536 % top, 65537 % top}):
                data = bytearray(enc.data)
                mutate.put(data, m, v, endian)
                check_bytes(ctx, py, codec, d.name, bytes(data), endian, "each " + m.role, measure=m.role == "counter")


def section_long(src, ctx):
    """Counts around the guard, with enough bytes to satisfy them."""
    elem = src.choice(["u8", "byte", "u16"])
    sizer = src.choice(["u32", "u64", "i32", "i64"])
    schema = Schema([Struct("M", [Field("n", sizer), Field("a", elem, "ext", sizer="n")])])
    lays = ref.Layouts(schema)
    codec = ref.Codec(schema, lays)
    n = GUARD + src.choice([1, 2, 100, 5000, 0])
    endian = src.choice("<>")
    with compiled(schema, ctx) as py:
        enc = codec.encode("M", {"a": bytes(n) if elem == "byte" else [0] * n}, endian)
        check_bytes(ctx, py, codec, "M", enc.data, endian, "long")


def section_handmade(src, ctx):
    """Classes described in Python, some with shifted bounds, some packed."""
    py, lays, codec = handmade.make(src, ctx, 4)
    schema = py.schema
    for d in schema.composites():
        with src.span():
            value = gen.gen_value(src, schema, lays, d.name, max_total=30)
            endian = src.choice("<>")
            enc = codec.encode(d.name, value, endian)
        for _ in range(12):
            with src.span():
                data, kind = mutate.corrupt(src, enc, endian)
                check_bytes(ctx, py, codec, d.name, data, endian, kind, measure=src.chance(4))


SECTIONS = [Section("random", section_random, quick=2500, thorough=50000),
            Section("handmade", section_handmade, quick=2000, thorough=40000),
            Section("prefixes", section_prefixes, quick=600, thorough=10000),
            Section("controls", section_controls, quick=800, thorough=10000),
            Section("long", section_long, quick=16, thorough=50)]
