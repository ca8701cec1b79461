"""C11: copy_from yields an equal, fully independent message."""
from vlib import gen, ref, small, tool
from vlib.engine import Section, Violation, fingerprint
from vlib.pymodel import Driver, length_limit, to_model, to_plain
from vlib.pyutil import compiled, value_text
from vlib.schema import Struct, Union

RULE = ("a case is one copy (copy_from on a whole or nested message, or extend() of a composite array) followed by "
        "mutations of both sides; non-trivial: source and previous target value differ, or elements were copied; "
        "distinct by schema, type and values")
ASSUMPTIONS = ["messages whose optional field was obtained as an object of the optional field count as the same type"]


class Pair(object):
    """Two messages with their reference values."""

    def __init__(self, src, ctx, py, lays, codec, t):
        import prophy
        self.src, self.ctx, self.py, self.schema, self.t = src, ctx, py, py.schema, t
        self.make = lambda: Driver(src, ctx, py, lays, codec, t, prophy.ProphyError)

    def fail(self, message, **detail):
        raise Violation(message, schema=self.py.text, type=self.t, **detail)

    def built(self, value, skip):
        d = self.make()
        tool.set_value(self.schema, d.real, self.t, value, skip)
        d.model = to_model(self.schema, self.t, value)
        return d


def state(schema, msg, t):
    value = tool.get_value(schema, msg, t)
    return _bytes(value)


def _bytes(v):
    """Unset bytes fields may read as an empty text string."""
    if isinstance(v, dict):
        return {k: _bytes(x) for k, x in v.items()}
    if isinstance(v, list):
        return [_bytes(x) for x in v]
    if isinstance(v, tuple):
        return tuple([v[0]] + [_bytes(x) for x in v[1:]])
    return b"" if isinstance(v, str) and v == "" else v


def encodings(msg):
    return msg.encode("<"), msg.encode(">")


def mutate(pair, d, other_msg, other_state, other_enc, who):
    """Mutations of one side leave the other side untouched."""
    src = pair.src
    n = 0
    while src.more(n, 1, 5, 70):
        with src.span():
            d.step()
        n += 1
    if not tool.same(state(pair.schema, other_msg, pair.t), other_state):
        pair.fail("mutating the {} changed the other message".format(who), operations="\n".join(d.log),
                  before=value_text(other_state), after=value_text(state(pair.schema, other_msg, pair.t)))
    if encodings(other_msg) != other_enc:
        pair.fail("mutating the {} changed the encoding of the other message".format(who),
                  operations="\n".join(d.log))


def copy_case(src, ctx, py, lays, codec, t):
    schema = py.schema
    pair = Pair(src, ctx, py, lays, codec, t)
    av = gen.gen_value(src, schema, lays, t, nan=False, long_arrays=False)
    a = pair.built(av, src.chance(30))
    how = src.int(0, 4)
    if how == 0:
        b, bv = pair.make(), ref.default_value(schema, t)
    else:
        bv = gen.gen_value(src, schema, lays, t, nan=False, long_arrays=False)
        b = pair.built(bv, src.chance(30))
    if src.chance(50):
        state(schema, b.real, t)  # creates the lazily created parts
    detail = dict(source=value_text(av), target_before=value_text(bv))
    enc = encodings(a.real)
    try:
        b.real.copy_from(a.real)
    except Exception as e:
        pair.fail("copy_from raised " + tool.describe_error(e), **detail)
    if not tool.same(state(schema, a.real, t), av) or encodings(a.real) != enc:
        pair.fail("copy_from changed its source", **detail)
    try:
        got = state(schema, b.real, t)
    except Exception as e:
        pair.fail("reading the copy raised " + tool.describe_error(e), **detail)
    if not tool.same(got, av):
        pair.fail("the copy differs from its source", got=value_text(got), **detail)
    try:
        benc = encodings(b.real)
    except Exception as e:
        pair.fail("encoding the copy raised " + tool.describe_error(e), **detail)
    if benc != enc:
        pair.fail("the copy encodes differently", expected=enc[0].hex(), got=benc[0].hex(), **detail)
    b.model = to_model(schema, t, av)
    mutate(pair, b, a.real, av, enc, "copy")
    bstate = to_plain(b.model)
    try:
        benc = encodings(b.real)
    except Exception:
        # unequal lengths of arrays sharing a sizer
        benc = None
    if benc is not None:
        mutate(pair, a, b.real, bstate, benc, "source")
    ctx.stats.hit(fingerprint(py.text, t, av, bv) if not tool.same(av, bv) else None)
    ctx.stats.label("into default" if how == 0 else "into other value")
    if src.chance(20):
        before = state(schema, b.real, t)
        b.real.copy_from(b.real)
        if not tool.same(state(schema, b.real, t), before):
            pair.fail("copying a message onto itself changed it", **detail)


def nested_case(src, ctx, py, lays, codec, t):
    """Copies between nested messages of one type, at any depth."""
    schema = py.schema
    pair = Pair(src, ctx, py, lays, codec, t)
    av = gen.gen_value(src, schema, lays, t, nan=False, long_arrays=False)
    bv = gen.gen_value(src, schema, lays, t, nan=False, long_arrays=False)
    a, b = pair.built(av, False), pair.built(bv, False)
    enc = encodings(a.real)
    parts = list(walk(schema, b.real, b.model, t))
    sources = list(walk(schema, a.real, a.model, t))
    real, model, pt, put = src.choice(parts)
    match = [s for s in sources if s[2] == pt]
    if src.chance(30) or not match:
        v = gen.gen_value(src, schema, lays, pt, nan=False, long_arrays=False)
        sreal = py.cls(pt)()
        tool.set_value(schema, sreal, pt, v)
        smodel = to_model(schema, pt, v)
        ctx.stats.label("nested from fresh message")
    else:
        sreal, smodel = src.choice(match)[:2]
        ctx.stats.label("nested from nested")
    detail = dict(nested_type=pt, source=value_text(to_plain(smodel)), target=value_text(bv))
    try:
        real.copy_from(sreal)
    except Exception as e:
        pair.fail("copy_from between nested messages raised " + tool.describe_error(e), **detail)
    want = to_model(schema, pt, to_plain(smodel))
    if put:
        put(want)
    else:
        b.model = want
    got = state(schema, b.real, t)
    if not tool.same(got, to_plain(b.model)):
        pair.fail("copying into a nested message gave another state", got=value_text(got),
                  expected=value_text(to_plain(b.model)), **detail)
    mutate(pair, b, a.real, av, enc, "copy")
    ctx.stats.hit(fingerprint(py.text, t, av, bv, pt))


def walk(schema, real, model, t, put=None):
    """Every composite in a message: (message, model, type name, function replacing the model)."""
    d = schema.resolve(t)
    yield real, model, d.name, put
    if isinstance(d, Union):
        arm = next(a for a in d.arms if a[2] == model.arm)
        if isinstance(schema.resolve(arm[1]), (Struct, Union)):
            for x in walk(schema, getattr(real, arm[2]), model.value, arm[1], lambda v: setattr(model, "value", v)):
                yield x
        return
    for m in schema.flat(d):
        if m.counts or not isinstance(schema.resolve(m.type), (Struct, Union)):
            continue
        v = model[m.name]
        if isinstance(v, list):
            for i, e in enumerate(v):
                for x in walk(schema, getattr(real, m.name)[i], e, m.type,
                              lambda val, v=v, i=i: v.__setitem__(i, val)):
                    yield x
        elif v is not None:
            for x in walk(schema, getattr(real, m.name), v, m.type,
                          lambda val, n=m.name: model.__setitem__(n, val)):
                yield x


def extend_case(src, ctx, py, lays, codec, t):
    """Elements copied by extend() of composite arrays are independent of their sources."""
    schema = py.schema
    pair = Pair(src, ctx, py, lays, codec, t)
    bv = gen.gen_value(src, schema, lays, t, nan=False, long_arrays=False)
    b = pair.built(bv, False)
    arrays = []
    for real, model, pt, _ in walk(schema, b.real, b.model, t):
        d = schema.resolve(pt)
        if isinstance(d, Struct):
            for m in schema.flat(d):
                if not m.counts and m.mode in ("bound", "limited", "greedy") and \
                        isinstance(schema.resolve(m.type), (Struct, Union)):
                    limit = length_limit(schema, d, m)
                    if limit is None or len(model[m.name]) < limit:
                        arrays.append((getattr(real, m.name), model[m.name], m, limit))
    if not arrays:
        return False
    arr, marr, m, limit = src.choice(arrays)
    elem = Pair(src, ctx, py, lays, codec, schema.resolve(m.type).name)
    ev = gen.gen_value(src, schema, lays, elem.t, nan=False, long_arrays=False)
    e = elem.built(ev, src.chance(30))
    eenc = encodings(e.real)
    twice = limit is None or len(marr) + 2 <= limit
    sources = [e.real] * (2 if twice and src.chance(50) else 1)
    detail = dict(element=value_text(ev), target=value_text(bv), array=m.name)
    try:
        arr.extend(sources)
    except Exception as ex:
        pair.fail("extend raised " + tool.describe_error(ex), **detail)
    for _ in sources:
        marr.append(to_model(schema, elem.t, ev))
    got = state(schema, b.real, t)
    if not tool.same(got, to_plain(b.model)):
        pair.fail("extend did not append equal elements", got=value_text(got), **detail)
    mutate(elem, e, arr[len(arr) - 1], ev, eenc, "source element")
    if not tool.same(state(schema, b.real, t), to_plain(b.model)):
        pair.fail("mutating the source element changed the array", **detail)
    est, n = to_plain(e.model), 0
    while src.more(n, 1, 5, 70):
        with src.span():
            b.step()
        n += 1
    if not tool.same(state(schema, e.real, elem.t), est):
        pair.fail("mutating the extended array changed the source element", **detail)
    ctx.stats.hit(fingerprint(py.text, t, bv, ev))
    ctx.stats.label("extend:" + m.mode)
    return True


def section_random(src, ctx):
    check_schema(src, ctx, gen.gen_schema(src, gen.Cfg(max_decls=7, big=False)))


def check_schema(src, ctx, schema):
    lays = ref.Layouts(schema)
    codec = ref.Codec(schema, lays)
    with compiled(schema, ctx) as py:
        for t in schema.composites():
            ctx.stats.label(*[x for x in gen.features(schema, t.name) if x.startswith(("mode:", "union", "arm:"))])
            with src.span():
                copy_case(src, ctx, py, lays, codec, t.name)
            with src.span():
                nested_case(src, ctx, py, lays, codec, t.name)
            with src.span():
                extend_case(src, ctx, py, lays, codec, t.name)
        if ctx.stats.wants_sample():
            ctx.stats.sample(py.text)


SECTIONS = [Section("random", section_random, quick=3000, thorough=60000)]
SECTIONS += small.sections(check_schema, quick_triples=200)
