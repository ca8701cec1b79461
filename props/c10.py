"""C10: the Python message API keeps every reachable message state valid."""
from vlib import gen, handmade, ref
from vlib.engine import Section, fingerprint
from vlib.pymodel import Driver
from vlib.pyutil import compiled
from vlib.schema import Field, Schema, Struct, Typedef

RULE = ("a case is one operation sequence on a fresh message (a few operations, then encoding in both byte orders); "
        "non-trivial: at least one operation was accepted and one rejected; distinct by schema, type and operations")
ASSUMPTIONS = ["operations a field does not offer at all (append to a fixed array, setting a counter) may also raise "
               "AttributeError, wrongly typed indices may raise the TypeError of a list",
               "an unset bytes field may read as an empty text string (pinned by the test suite)"]


def sequence(src, ctx, py, lays, codec, t, max_steps):
    import prophy
    d = Driver(src, ctx, py, lays, codec, t, prophy.ProphyError)
    d.compare("of a fresh message")
    n = 0
    while src.more(n, 2, max_steps, 92):
        with src.span():
            d.step()
        n += 1
        if src.chance(15):
            d.check_encode()
    d.check_encode()
    d.check_union_arms(d.real, d.model, t)
    d.compare("after encoding")
    rejected = any(x.endswith("reject") for x in d.log)
    accepted = any(x.endswith("ok") for x in d.log)
    ctx.stats.hit(fingerprint(py.text, t, "\n".join(d.log)) if rejected and accepted else None)
    return d


def section_random(src, ctx):
    schema = gen.gen_schema(src, gen.Cfg(max_decls=6, big=False))
    lays = ref.Layouts(schema)
    codec = ref.Codec(schema, lays)
    with compiled(schema, ctx) as py:
        for t in schema.composites():
            for _ in range(2):
                with src.span():
                    d = sequence(src, ctx, py, lays, codec, t.name, 30)
        if ctx.stats.wants_sample():
            ctx.stats.sample(py.text + "\n".join(d.log[:20]))


def section_handmade(src, ctx):
    """Classes described in Python, some with shifted bounds, some packed."""
    py, lays, codec = handmade.make(src, ctx, 4)
    for t in py.schema.composites():
        with src.span():
            sequence(src, ctx, py, lays, codec, t.name, 30)


def section_sizers(src, ctx):
    """Arrays bound to narrow sizers, shared sizers and limits."""
    sizer = src.choice(["i8", "u8", "i16", "u16", "TT"])
    decls = [Typedef("TT", src.choice(["i8", "u8"])), Struct("E", [Field("x", "u8"), Field("y", "u16", "optional")]),
             Struct("V", [Field("z", "byte", "dynamic")])]
    fields = [Field("n", sizer)]
    for i in range(src.int(1, 2)):
        fields.append(Field("ab"[i], src.choice(["u8", "byte", "E", "V", "u16"]), "ext", sizer="n"))
    fields.append(Field("l", src.choice(["u8", "byte", "E"]), "limited", size=src.int(1, 4)))
    fields.append(Field("f", src.choice(["u8", "byte", "E"]), "fixed", size=src.int(1, 4)))
    schema = Schema(decls + [Struct("M", fields)])
    lays = ref.Layouts(schema)
    codec = ref.Codec(schema, lays)
    with compiled(schema, ctx) as py:
        sequence(src, ctx, py, lays, codec, "M", 20)


def section_u16(src, ctx):
    """The 16-bit counter limits, which need long arrays."""
    import prophy
    sizer, top = src.choice([("u16", 65535), ("i16", 32767)])
    elem = src.choice(["u8", "byte", "u16"])
    schema = Schema([Struct("M", [Field("n", sizer), Field("a", elem, "ext", sizer="n")])])
    with compiled(schema, ctx) as py:
        lays = ref.Layouts(schema)
        d = Driver(src, ctx, py, lays, ref.Codec(schema, lays), "M", prophy.ProphyError)
        n = top + src.int(-1, 1)
        ok = "ok" if n <= top else "reject"
        value = bytes(n) if elem == "byte" else [0] * n

        def action():
            if elem == "byte":
                d.real.a = value
            elif how == 0:
                d.real.a[:] = value
            else:
                d.real.a.extend(value)
        how = src.int(0, 1)
        d.apply("a = {} elements".format(n), ok, action, lambda: d.model.__setitem__("a", value))
        if elem != "byte":
            d.apply("a.append(0)", "ok" if len(d.model["a"]) < top else "reject", lambda: d.real.a.append(0),
                    lambda: d.model["a"].append(0))
            d.apply("a.insert(0, 0)", "ok" if len(d.model["a"]) < top else "reject", lambda: d.real.a.insert(0, 0),
                    lambda: d.model["a"].insert(0, 0))
        d.check_encode()
        ctx.stats.hit(fingerprint(py.text, n, how))


SECTIONS = [Section("random", section_random, quick=4000, thorough=80000),
            Section("handmade", section_handmade, quick=3000, thorough=60000),
            Section("sizers", section_sizers, quick=2500, thorough=30000),
            Section("u16", section_u16, quick=24, thorough=100)]
