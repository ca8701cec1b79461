"""Every struct of one, two or three fields taken from a fixed list of kinds of fields."""
from vlib.engine import Section
from vlib.schema import Enum, Field, Schema, Struct, Union

PRELUDE = [
    Enum("E", [("E_A", 2), ("E_B", 0xFFFFFFFF), ("E_C", 70000)]),
    Struct("F3", [Field("a", "u16"), Field("b", "u8")]),
    Struct("F8", [Field("a", "u64"), Field("b", "u8")]),
    Struct("D1", [Field("n", "u8"), Field("a", "u8", "ext", sizer="n")]),
    Struct("DB", [Field("a", "u8", "dynamic"), Field("b", "u16")]),
    Struct("D8", [Field("a", "u8"), Field("b", "u64", "dynamic")]),
    Struct("G", [Field("a", "u16"), Field("b", "u16", "greedy")]),
    Union("U4", [(1, "u8", "a"), (2, "F3", "b")]),
    Union("U8", [(0, "u64", "a"), (0xFFFFFFFF, "u8", "b")]),
]


def _plain(t):
    return lambda n: [Field(n, t)]


def _mode(t, mode, size=None):
    return lambda n: [Field(n, t, mode, size=size)]


def _ext(sizer, t):
    return lambda n: [Field("n" + n, sizer), Field(n, t, "ext", sizer="n" + n)]


UNITS = [_plain(t) for t in ("u8", "u16", "u32", "u64", "E", "F3", "F8", "U4", "U8", "D1", "DB", "D8")]
UNITS += [_mode(t, "optional") for t in ("u8", "u16", "u64", "E", "F3", "U8")]
UNITS += [_mode("u8", "fixed", 3), _mode("u16", "fixed", 3), _mode("F8", "fixed", 1)]
UNITS += [_mode("u8", "limited", 3), _mode("u64", "limited", 2), _mode("F3", "limited", 2), _mode("byte", "limited", 5)]
UNITS += [_mode(t, "dynamic") for t in ("u8", "u16", "u64", "F8", "D1", "byte")]
UNITS += [_ext("u8", "u16"), _ext("u64", "u8")]
LAST = UNITS + [_mode(t, "greedy") for t in ("u8", "u64", "F3")] + [_plain("G")]

PAIRS = len(LAST) + len(UNITS) * len(LAST)
TRIPLES = len(UNITS) * len(UNITS) * len(LAST)
BATCH = 32


def struct(index):
    """The first PAIRS of them have one or two fields, TRIPLES more have three."""
    count = 1 if index < len(LAST) else 2 if index < PAIRS else 3
    rest = index - (0, 0, len(LAST), PAIRS)[count]
    rest, last = divmod(rest, len(LAST))
    kinds = [LAST[last]]
    for _ in range(count - 1):
        rest, k = divmod(rest, len(UNITS))
        kinds.insert(0, UNITS[k])
    assert not rest
    fields = []
    for name, kind in zip("abc", kinds):
        fields += kind(name)
    return Struct("S{}".format(index), fields)


def schema(src, base, total):
    """The schema of one batch, or of one struct of it: the first two choices."""
    batch = src.int(0, batches(total) - 1)
    only = src.int(0, BATCH)
    first = base + batch * BATCH
    structs = [struct(i) for i in range(first, min(first + BATCH, base + total))]
    if only < BATCH:
        structs = structs[only:only + 1] or structs[:1]
    return Schema(PRELUDE + structs)


def batches(total):
    return -(-total // BATCH)


def _forced(total):
    """Case number -> batch: all of them, in an order which depends on the seed."""
    count = batches(total)
    assert count % 7919
    return lambda seed, index: [(index * 7919 + seed * 104729) % count, BATCH]


def sections(check, quick_triples=None, **kw):
    """check(src, ctx, schema) is run on every batch; quick_triples: how many of the batches of triples in the quick tier."""
    def section(base, total):
        def fn(src, ctx):
            s = schema(src, base, total)
            ctx.stats.label_n("structs enumerated", len(s.decls) - len(PRELUDE))
            check(src, ctx, s)
        return fn
    n = batches(TRIPLES)
    return [Section("pairs", section(0, PAIRS), quick=batches(PAIRS), thorough=batches(PAIRS), forced=_forced(PAIRS),
                    axes=[1], **kw),
            Section("triples", section(PAIRS, TRIPLES), quick=n if quick_triples is None else quick_triples, thorough=n,
                    forced=_forced(TRIPLES), axes=[1], **kw)]


