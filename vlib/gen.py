"""Generators of schemas and values; all randomness comes from a Src."""
import copy
import random as _random
import struct as _struct

from . import ref
from .engine import Discard
from .schema import (Const, Enum, Typedef, Field, Struct, Union, Schema, INT_RANGES, INTS, FLOATS, SCALAR_SIZE)

MAX_FIXED = 1500


def field_name(i):
    """a0, b1, ...; never a keyword such as i8."""
    return "{}{}".format("abcdefghkjlmnopq"[i % 16], i)


class Cfg(object):
    def __init__(self, **kw):
        self.min_decls = 1
        self.max_decls = 9
        self.max_fields = 7
        self.shared = True          # several arrays per sizer
        self.greedy = True
        self.floats = True
        self.exprs = True           # sizes / discriminators by name
        self.typedefs = True
        self.big = True             # some larger arrays
        self.unions = True
        self.optionals = True
        self.wide = True            # a few structs of many fields, unions of many arms, enums of many enumerators
        self.bytes = True
        self.dup_enum = False
        self.prefix = ""            # prepended to global names
        self.need = None            # "struct", "composite"
        for k, v in kw.items():
            if not hasattr(self, k):
                raise AttributeError(k)
            setattr(self, k, v)


class _Pools(object):
    def __init__(self):
        self.fixed = []      # names of user types of fixed kind
        self.dyn = []
        self.unl = []
        self.int_typedefs = []
        self.consts = []     # (name, value) usable as small positive numbers
        self.numbers = []    # (name, value) any constant or enumerator


class _Builder(object):
    def __init__(self, src, cfg):
        self.src, self.cfg = src, cfg
        self.decls = []
        self.pools = _Pools()
        self.counter = 0

    def name(self, prefix):
        self.counter += 1
        return "{}{}{}".format(self.cfg.prefix, prefix, self.counter)

    def schema(self):
        return Schema(self.decls)

    def register(self, d):
        self.decls.append(d)
        if isinstance(d, (Struct, Union, Typedef, Enum)):
            lay = ref.Layouts(self.schema()).type(d.name)
            [self.pools.fixed, self.pools.dyn, self.pools.unl][lay.kind].append(d.name)

    # ---- types

    def scalar(self):
        pool = [(4, "u8"), (2, "u16"), (3, "u32"), (3, "u64"), (1, "i8"), (1, "i16"), (1, "i32"), (1, "i64")]
        if self.cfg.floats:
            pool += [(1, "r32"), (1, "r64")]
        return self.src.weighted(pool)

    def recent(self, pool):
        """Prefers recently declared types so that nesting gets deep."""
        if len(pool) > 2 and self.src.chance(50):
            return pool[-1 - self.src.int(0, 1)]
        return self.src.choice(pool)

    def fixed_type(self):
        if self.pools.fixed and self.src.chance(45):
            return self.recent(self.pools.fixed)
        return self.scalar()

    def size_of(self, t):
        return ref.Layouts(self.schema()).type(t).size

    def array_size(self, t):
        src = self.src
        biggest = max(1, MAX_FIXED // max(1, self.size_of(t)))
        n = src.weighted([(5, None), (2, 5), (1, 8)] + ([(1, 17), (1, 40)] if self.cfg.big else []))
        n = src.int(1, 4) if n is None else n + src.int(0, 3)
        n = min(n, biggest)
        text = None
        if self.cfg.exprs and src.chance(25):
            smalls = [(c, v) for c, v in self.pools.numbers if 0 < v <= min(9, biggest)]
            if smalls:
                c, v = src.choice(smalls)
                if src.chance(30) and v + 1 <= biggest:
                    return v + 1, c + " + 1"
                return v, c
        return n, text

    # ---- declarations

    def const(self):
        src = self.src
        v = src.weighted([(4, None), (1, 0), (1, 0xFFFFFFFF), (1, -1), (1, 1 << 31), (1, (1 << 63) - 1)])
        v = src.int(1, 9) if v is None else v
        text = None
        if self.cfg.exprs and self.pools.numbers and src.chance(30):
            c, cv = src.choice(self.pools.numbers)
            if abs(cv) < (1 << 40):
                v, text = cv + 1, "{} + 1".format(c)
        d = Const(self.name("C_"), v, text)
        self.pools.numbers.append((d.name, v))
        self.decls.append(d)

    def enum(self):
        src = self.src
        name = self.name("En")
        members, used = [], set()
        wide = self.cfg.wide and src.chance(4)
        while src.more(len(members), 1, 40 if wide else 5, 96 if wide else 60):
            with src.span():
                v = src.weighted([(4, None), (1, 0), (1, 1), (1, 0xFFFFFFFF), (1, 1 << 31), (1, (1 << 31) - 1)])
                v = src.int(2, 200) if v is None else v
                text = None
                if self.cfg.exprs and src.chance(15):
                    ok = [(c, x) for c, x in self.pools.numbers if 0 <= x <= 0xFFFFFFFF]
                    if ok:
                        text, v = src.choice(ok)
                while v in used and not (self.cfg.dup_enum and src.chance(50)):
                    v, text = (v + 1) & 0xFFFFFFFF, None
                used.add(v)
                members.append(("{}_{}{}".format(name.upper(), chr(65 + len(members) % 26), len(members) // 26 or ""), v,
                                text or str(v)))
        for m in members:
            self.pools.numbers.append((m[0], m[1]))
        self.register(Enum(name, members))

    def typedef(self):
        src = self.src
        pools = [p for p in (self.pools.fixed, self.pools.dyn, self.pools.unl) if p]
        if pools and src.chance(55):
            t = self.recent(src.choice(pools))
        else:
            t = self.scalar()
        d = Typedef(self.name("T"), t)
        self.register(d)
        resolved = self.schema().resolve(t)
        if resolved in INTS:
            self.pools.int_typedefs.append(d.name)

    def union(self):
        src = self.src
        arms, used = [], set()
        name = self.name("U")
        wide = self.cfg.wide and src.chance(4)
        while src.more(len(arms), 1, 20 if wide else 5, 94 if wide else 60):
            with src.span():
                t = self.fixed_type()
                v = src.weighted([(4, None), (1, 0), (1, 0xFFFFFFFF), (1, 1 << 31)])
                v = src.int(1, 300) if v is None else v
                text = None
                if self.cfg.exprs and src.chance(20):
                    ok = [(c, x) for c, x in self.pools.numbers if 0 <= x <= 0xFFFFFFFF]
                    if ok:
                        text, v = src.choice(ok)
                while v in used:
                    v, text = (v + 1) & 0xFFFFFFFF, None
                used.add(v)
                arms.append((v, t, field_name(len(arms)), text or str(v)))
        self.register(Union(name, arms))

    def struct(self):
        src, cfg = self.src, self.cfg
        fields = []
        int_fields = []   # names of plain integer fields and implicit counters
        used_sizers = set()
        name = self.name("S")
        done = False

        def fname():
            return field_name(len(fields))

        wide = cfg.wide and src.chance(4)
        while not done and src.more(len(fields), 1, 30 if wide else cfg.max_fields, 94 if wide else 75):
            with src.span():
                n = fname()
                modes = [(30, "plain"), (14 if cfg.optionals else 0, "optional"), (10, "fixed"), (13, "dynamic"),
                         (9, "limited"), (12, "ext"), (6, "plain_dyn"), (4, "sizer")]
                if cfg.greedy:
                    modes += [(3, "greedy"), (2, "plain_unl")]
                mode = src.weighted(modes)
                if mode == "plain_dyn":
                    if self.pools.dyn:
                        fields.append(Field(n, self.recent(self.pools.dyn)))
                        continue
                    mode = "dynamic"
                if mode == "plain_unl":
                    if self.pools.unl:
                        fields.append(Field(n, self.recent(self.pools.unl)))
                        done = True
                        continue
                    mode = "greedy"
                if mode == "sizer":
                    t = src.choice(self.pools.int_typedefs) if self.pools.int_typedefs and src.chance(25) \
                        else src.choice(["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64"])
                    fields.append(Field(n, t))
                    int_fields.append(n)
                    continue
                if mode == "ext":
                    avail = [f for f in int_fields if f not in used_sizers]
                    if cfg.shared and used_sizers and src.chance(35):
                        sizer = src.choice(sorted(used_sizers))
                    elif avail:
                        sizer = src.choice(avail)
                    else:
                        t = src.choice(["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64"])
                        fields.append(Field(n, t))
                        int_fields.append(n)
                        sizer, n = n, fname()
                    used_sizers.add(sizer)
                    fields.append(Field(n, self.dynamic_elem(), "ext", sizer=sizer))
                    continue
                if mode == "dynamic":
                    f = Field(n, self.dynamic_elem(), "dynamic")
                    fields.append(f)
                    used_sizers.add(f.sizer)
                    continue
                if mode == "greedy":
                    fields.append(Field(n, self.dynamic_elem(), "greedy"))
                    done = True
                    continue
                if mode in ("fixed", "limited"):
                    t = "byte" if cfg.bytes and src.chance(25) else self.fixed_type()
                    size, text = self.array_size(t)
                    f = Field(n, t, mode, size=size, size_text=text)
                    fields.append(f)
                    if mode == "limited" and src.chance(20):
                        used_sizers.add(f.sizer)
                    continue
                t = self.fixed_type()
                fields.append(Field(n, t, mode))
                if mode == "plain" and self.schema().resolve(t) in INTS:
                    int_fields.append(n)
        lay = ref.Layouts(Schema(self.decls + [Struct(name, fields)])).type(name)
        if lay.size is not None and lay.size > 8 * MAX_FIXED:
            fields = fields[:1]
        self.register(Struct(name, fields))

    def dynamic_elem(self):
        src = self.src
        if self.cfg.bytes and src.chance(20):
            return "byte"
        if self.pools.dyn and src.chance(25):
            return self.recent(self.pools.dyn)
        return self.fixed_type()


def gen_schema(src, cfg):
    b = _Builder(src, cfg)
    count = 0
    while src.more(count, cfg.min_decls, cfg.max_decls, 85):
        with src.span():
            kinds = [(58, "struct")]
            if cfg.unions:
                kinds.append((15, "union"))
            kinds.append((10, "enum"))
            if cfg.typedefs:
                kinds.append((9, "typedef"))
            if cfg.exprs:
                kinds.append((8, "const"))
            getattr(b, src.weighted(kinds))()
        count += 1
    schema = b.schema()
    if not schema.composites():
        b.struct()
        schema = b.schema()
    return schema


# ------------------------------------------------------------------ values

def gen_int(src, t):
    lo, hi = INT_RANGES[t]
    k = src.int(0, 5)
    if k <= 1:
        return src.int(0, min(hi, 20))
    if k == 2:
        return src.choice([0, 1, hi, lo, hi - 1, lo + 1, hi // 2, hi // 2 + 1, 0x0102030405060708 & hi])
    return src.int(0, hi - lo) + lo


def f32(bits):
    return _struct.unpack("<f", _struct.pack("<I", bits))[0]


def f64(bits):
    return _struct.unpack("<d", _struct.pack("<Q", bits))[0]


def gen_float(src, t, nan=True):
    k = src.int(0, 3)
    if k == 0:
        return src.choice([0.0, 1.0, -1.5, 0.5])
    if k == 1:
        specials = [-0.0, float("inf"), float("-inf")] + ([float("nan")] if nan else [])
        specials += [f32(0x7F7FFFFF), f32(1)] if t == "r32" else [f64(0x7FEFFFFFFFFFFFFF), f64(1)]
        return src.choice(specials)
    v = f32(src.int(0, 0xFFFFFFFF)) if t == "r32" else f64(src.int(0, (1 << 64) - 1))
    if v != v:
        return 2.0
    return v


def gen_bytes(src, n):
    k = src.int(0, 3)
    if n > 24 and k:
        # long strings are derived from one choice
        return _random.Random(src.int(0, 1 << 30)).randbytes(n)
    if k == 0:
        return bytes(97 + (i % 26) for i in range(n))
    if k == 1:
        return bytes(src.choice([0, 1, 255, 10, 13, 9, 92, 34, 127, 128, 32, 65]) for _ in range(n))
    return src.bytes(n)


def gen_text_bytes(src, n):
    """Bytes rich in characters which need care when shown; an apostrophe only together with a double quote."""
    out = bytearray()
    for _ in range(n):
        out.append(src.weighted([(4, src.int(0, 255)),
                                 (3, src.choice(b"\0\x01\x07\x08\t\n\x0b\x0c\r\x1b\x1f \x7f\x80\xa0\xff")),
                                 (3, src.choice(b"\"\"'\\\\abx0f%{}:?~"))]))
    if 0x27 in out and 0x22 not in out:
        out = out.replace(b"'", b'"')
    return bytes(out)


def weight(value):
    """Number of leaves of a value, bytes count one by one."""
    if isinstance(value, dict):
        return sum(weight(v) for v in value.values())
    if isinstance(value, (list, tuple)):
        return sum(weight(v) for v in value)
    return len(value) if isinstance(value, bytes) else 1


class ValueGen(object):
    """max_total bounds the number of leaf elements of one value."""

    def __init__(self, src, schema, layouts, max_total=60, nan=True, long_arrays=True, overfull=0, text=False):
        self.src, self.schema, self.layouts = src, schema, layouts
        self.left = max_total
        self.nan = nan
        self.long_arrays = long_arrays
        self.text = text            # bytes which Python shows in single quotes
        self.overfull = overfull    # percentage of limited arrays filled beyond their limit

    def value(self, t):
        src = self.src
        d = self.schema.resolve(t)
        if isinstance(d, str):
            self.left -= 1
            return gen_float(src, d, self.nan) if d in FLOATS else gen_int(src, d)
        if isinstance(d, Enum):
            self.left -= 1
            return src.choice(d.members)[1]
        if isinstance(d, Union):
            arm = src.choice(d.arms)
            return (arm[2], self.value(arm[1]))
        return self.struct(d)

    def count(self, limit, elem):
        src = self.src
        if self.left <= 0:
            return 0
        if limit is not None and src.chance(30):
            n = limit
        else:
            n = src.weighted([(3, 0), (4, 1), (4, 2), (3, 3), (2, 4), (2, 5), (1, 7), (1, 9)])
            if elem in ("byte", "u8", "i8", "u16") and self.long_arrays and src.chance(4):
                n = src.choice([31, 64, 127, 255, 256, 300])
        n = n if limit is None else min(n, limit)
        if elem not in ("byte", "u8", "i8", "u16"):
            n = min(n, max(1, self.left))
            if limit is None and self.long_arrays and self.left > 20 and src.chance(1):
                # more than an 8-bit counter can tell
                self.left = 6
                n = src.choice([256, 257, 300])
        return n

    def elements(self, t, n):
        if t == "byte":
            return gen_text_bytes(self.src, n) if self.text else gen_bytes(self.src, n)
        out = []
        for i in range(n):
            if i == 3 and n >= 256 and n * sum(weight(v) for v in out) <= 30000:
                return [copy.deepcopy(out[k % 3]) for k in range(n)]
            with self.src.span():
                out.append(self.value(t))
        return out

    def struct(self, d):
        src, schema = self.src, self.schema
        flat = schema.flat(d)
        lens = {}
        by_name = {m.name: m for m in flat}
        for m in flat:
            if m.counts:
                limit = INT_RANGES[schema.resolve(m.type)][1] - schema.shifts.get((d.name, m.name), 0)
                for c in m.counts:
                    if by_name[c].mode == "limited":
                        limit = min(limit, by_name[c].size)
                elem = by_name[m.counts[0]].type
                with src.span():
                    n = self.count(None if limit > 100000 else limit, elem)
                if self.overfull and by_name[m.counts[0]].mode == "limited" and len(m.counts) == 1 \
                        and src.chance(self.overfull):
                    n = by_name[m.counts[0]].size + src.int(1, 5)
                for c in m.counts:
                    lens[c] = n
        value = {}
        for m in flat:
            if m.counts:
                continue
            with src.span():
                if m.mode == "plain":
                    value[m.name] = self.value(m.type)
                elif m.mode == "optional":
                    value[m.name] = self.value(m.type) if src.chance(60) else None
                elif m.mode == "fixed":
                    value[m.name] = self.elements(m.type, m.size)
                elif m.mode in ("bound", "limited"):
                    value[m.name] = self.elements(m.type, lens[m.name])
                else:
                    value[m.name] = self.elements(m.type, self.count(None, m.type))
        return value


def greedy_path(schema, t):
    """[(struct, member)] from the outermost struct to the greedy array, or None."""
    d = schema.resolve(t)
    if not isinstance(d, Struct):
        return None
    last = schema.flat(d)[-1]
    if last.mode == "greedy":
        return [(d, last)]
    if last.mode == "plain":
        sub = greedy_path(schema, last.type)
        if sub:
            return [(d, last)] + sub
    return None


def align_greedy(src, schema, layouts, codec, t, value, max_total=60):
    """Extends the greedy tail of a value so that it ends aligned (or raises Discard)."""
    path = greedy_path(schema, t)
    if not path:
        return value
    for _ in range(17):
        if codec.encode(t, value, "<").greedy_pad == 0:
            return value
        holder = value
        for _, m in path[:-1]:
            holder = holder[m.name]
        m = path[-1][1]
        if m.type == "byte":
            holder[m.name] = holder[m.name] + bytes([src.int(0, 255)])
        else:
            holder[m.name].append(ValueGen(src, schema, layouts, 4, long_arrays=False).value(m.type))
    raise Discard("greedy tail cannot end aligned")


def gen_value(src, schema, layouts, t, codec=None, aligned=False, **kw):
    v = ValueGen(src, schema, layouts, **kw).value(t)
    if aligned:
        v = align_greedy(src, schema, layouts, codec or ref.Codec(schema, layouts), t, v)
    return v


def has_float(schema, t):
    d = schema.resolve(t)
    if isinstance(d, str):
        return d in FLOATS
    if isinstance(d, Struct):
        return any(has_float(schema, f.type) for f in d.fields)
    if isinstance(d, Union):
        return any(has_float(schema, a[1]) for a in d.arms)
    return False


# ------------------------------------------------------------------ features

def features(schema, t, _seen=None):
    """Labels describing the shape of a type, used to measure the distribution."""
    out = set()
    d = schema.resolve(t)
    if isinstance(d, Union):
        out.add("union")
        for a in d.arms:
            out |= {"arm:" + x for x in features(schema, a[1]) if not x.startswith(("arm:", "in:"))}
            out |= {x for x in features(schema, a[1]) if x.startswith(("arm:", "in:"))}
    elif isinstance(d, Struct):
        lays = ref.Layouts(schema)
        ms = lays.members(d)
        out.add("kind:%d" % lays.type(d.name).kind)
        if ms[-1].block > 0:
            out.add("blocks>1")
        prev = None
        for ml in ms:
            m = ml.member
            out.add("mode:" + m.mode + (":bytes" if m.type == "byte" else ""))
            if len(m.counts) > 1:
                out.add("shared sizer")
            if m.counts and m.field is not None:
                out.add("ext sizer")
            if m.mode == "optional":
                size = lays.type(m.type).size
                if size < 4:
                    out.add("small optional")
                if ml.align == 8:
                    out.add("8-aligned optional")
            if prev is not None and prev.kind == ref.DYNAMIC:
                if prev.member.mode == "plain":
                    out.add("block after dynamic struct")
                if ml.pre_align > ml.align:
                    out.add("block align bump")
            prev = ml
            sub = schema.resolve(m.type)
            if isinstance(sub, (Struct, Union)):
                out.add("in:composite")
                out |= {x for x in features(schema, m.type) if x.startswith("arm:")}
        if ms[-1].kind == ref.FIXED and lays.type(d.name).kind == ref.DYNAMIC:
            out.add("fixed field last in dynamic")
    return out


def is_trivial_type(schema, t):
    """One-scalar structs."""
    d = schema.resolve(t)
    return isinstance(d, Struct) and len(d.fields) == 1 and isinstance(schema.resolve(d.fields[0].type), str) \
        and d.fields[0].mode == "plain"


assert SCALAR_SIZE


def can_align(schema, layouts, t):
    """False if no length of the greedy tail can end on the alignment boundary by extension."""
    path = greedy_path(schema, t)
    if not path:
        return True
    # elements of even size after an odd start (and the like) never meet the boundary
    codec = ref.Codec(schema, layouts)
    value = ref.default_value(schema, t)
    holder = value
    for _, m in path[:-1]:
        holder = holder[m.name]
    m = path[-1][1]
    one = b"\0" if m.type == "byte" else [ref.default_value(schema, m.type)]
    holder[m.name] = holder[m.name][:0]
    for _ in range(9):
        if codec.encode(t, value, "<").greedy_pad == 0:
            return True
        holder[m.name] = holder[m.name] + one
    return False


def clip(schema, t, value):
    """The value with limited arrays cut to their limits."""
    d = schema.resolve(t)
    if isinstance(d, Union):
        arm = next(a for a in d.arms if a[2] == value[0])
        return (value[0], clip(schema, arm[1], value[1]))
    if not isinstance(d, Struct):
        return value
    out = {}
    for m in schema.flat(d):
        if m.counts:
            continue
        v = value[m.name]
        if m.mode == "limited":
            v = v[:m.size]
        if m.mode == "plain" or (m.mode == "optional" and v is not None):
            v = clip(schema, m.type, v)
        elif m.mode != "optional" and m.type != "byte":
            v = [clip(schema, m.type, e) for e in v]
        out[m.name] = v
    return out
