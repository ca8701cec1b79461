"""Reference model of the prophy wire format, written from docs/encoding.rst.

Rules used:
* scalars: size == alignment; enums are u32
* struct alignment is the greatest alignment of its fields, optional fields and
  counters contribute the alignment of their u32 flag / of the counter
* struct size is a multiple of its alignment
* optional: u32 flag padded up to max(4, align(T)), then T; zeroed T if absent
* union: u32 discriminator padded up to the union's alignment, then the arm;
  zero filled up to the largest arm, total rounded up to the alignment
* fixed array: elements; limited array: elements zero filled to the full size
* dynamic / externally sized array: just the elements; counter elsewhere
* greedy array: elements up to the end
* blocks: a field which is dynamic ends a block; the first field of the next
  block is aligned to the greatest alignment among the fields of that block
"""
import struct as _struct

from .schema import Enum, Struct, Union, SCALAR_SIZE, INT_RANGES

FIXED, DYNAMIC, UNLIMITED = 0, 1, 2

PACK = {"i8": "b", "i16": "h", "i32": "i", "i64": "q", "u8": "B", "u16": "H", "u32": "I", "u64": "Q",
        "r32": "f", "r64": "d"}


def round_up(n, a):
    return (n + a - 1) // a * a


class TypeLayout(object):
    __slots__ = "size", "align", "kind"

    def __init__(self, size, align, kind):
        self.size, self.align, self.kind = size, align, kind


class MemberLayout(object):
    """size is the fixed part (None if the member's extent varies)."""
    __slots__ = "member", "size", "align", "kind", "pre_align", "block", "offset"


class Layouts(object):
    """Layout of every type in a schema."""

    def __init__(self, schema):
        self.schema = schema
        self._types = {}
        self._members = {}

    def type(self, name):
        got = self._types.get(name)
        if got is None:
            got = self._types[name] = self._compute(self.schema.resolve(name))
        return got

    def members(self, struct):
        got = self._members.get(struct.name)
        if got is None:
            self.type(struct.name)
            got = self._members[struct.name]
        return got

    def _compute(self, d):
        if isinstance(d, str):
            return TypeLayout(SCALAR_SIZE[d], SCALAR_SIZE[d], FIXED)
        if isinstance(d, Enum):
            return TypeLayout(4, 4, FIXED)
        if isinstance(d, Union):
            arms = [self.type(a[1]) for a in d.arms]
            align = max([4] + [a.align for a in arms])
            return TypeLayout(round_up(align + max(a.size for a in arms), align), align, FIXED)
        return self._compute_struct(d)

    def _compute_struct(self, d):
        ms = []
        for m in self.schema.flat(d):
            t = self.type(m.type)
            ml = MemberLayout()
            ml.member = m
            ml.align = t.align
            ml.kind = t.kind
            if m.mode == "plain":
                ml.size = t.size if t.kind == FIXED else None
            elif m.mode == "optional":
                ml.align = max(4, t.align)
                ml.size = ml.align + t.size
            elif m.mode in ("fixed", "limited"):
                ml.size = t.size * m.size
            elif m.mode == "bound":
                ml.size = None
                ml.kind = DYNAMIC
            elif m.mode == "greedy":
                ml.size = None
                ml.kind = UNLIMITED
            ms.append(ml)
        align = max(ml.align for ml in ms)
        kind = max(ml.kind for ml in ms)
        # blocks
        blocks, current = [], []
        for ml in ms:
            current.append(ml)
            if ml.kind != FIXED:
                blocks.append(current)
                current = []
        if current:
            blocks.append(current)
        for i, block in enumerate(blocks):
            block_align = max(ml.align for ml in block)
            offset = 0
            for k, ml in enumerate(block):
                ml.block = i
                ml.pre_align = max(block_align, ml.align) if (k == 0 and i > 0) else ml.align
                offset = round_up(offset, ml.align)
                ml.offset = offset
                if ml.size is not None:
                    offset += ml.size
        self._members[d.name] = ms
        size = None
        if kind == FIXED:
            size = round_up(offset, align)
        return TypeLayout(size, align, kind)


class Mark(object):
    __slots__ = "offset", "width", "role", "path"

    def __init__(self, offset, width, role, path):
        self.offset, self.width, self.role, self.path = offset, width, role, path

    def __repr__(self):
        return "{}@{}+{}:{}".format(self.path, self.offset, self.width, self.role)


class Encoding(object):
    def __init__(self):
        self.out = bytearray()
        self.marks = []       # every scalar
        self.raw_offsets = []   # bytes of bytes fields
        self.greedy_pad = 0   # padding emitted after a greedy array's elements
        self._greedy_end = None
        self.greedy_start = None   # offset of the outermost unlimited member
        self.narrowing = False     # a block starts where the alignment of the preceding later block would not let it
        self.covered = None

    @property
    def data(self):
        return bytes(self.out)


def default_value(schema, t):
    d = schema.resolve(t)
    if isinstance(d, str):
        return 0.0 if d in ("r32", "r64") else 0
    if isinstance(d, Enum):
        return d.members[0][1]
    if isinstance(d, Union):
        return (d.arms[0][2], default_value(schema, d.arms[0][1]))
    value = {}
    for m in schema.flat(d):
        if m.counts:
            continue
        value[m.name] = default_member(schema, m)
    return value


def default_member(schema, m):
    if m.mode == "optional":
        return None
    if m.mode == "plain":
        return default_value(schema, m.type)
    if m.type == "byte":
        return b"\x00" * m.size if m.mode == "fixed" else b""
    if m.mode == "fixed":
        return [default_value(schema, m.type) for _ in range(m.size)]
    return []


class Codec(object):
    def __init__(self, schema, layouts=None):
        self.schema = schema
        self.layouts = layouts or Layouts(schema)

    def encode(self, type_name, value, endian):
        enc = Encoding()
        enc.endian = endian
        self._value(enc, type_name, value, type_name)
        if enc._greedy_end is not None:
            enc.greedy_pad = len(enc.out) - enc._greedy_end
        return enc

    def _pad(self, enc, align):
        enc.out.extend(b"\x00" * (round_up(len(enc.out), align) - len(enc.out)))

    def _scalar(self, enc, t, value, role, path):
        enc.marks.append(Mark(len(enc.out), SCALAR_SIZE[t], role, path))
        enc.out.extend(_struct.pack(enc.endian + PACK[t], value))

    def _counter(self, d, m, length):
        return length + self.schema.shifts.get((d.name, m.name), 0)

    def _zeros(self, enc, upto):
        assert len(enc.out) <= upto
        enc.out.extend(b"\x00" * (upto - len(enc.out)))

    def _value(self, enc, t, value, path):
        d = self.schema.resolve(t)
        if isinstance(d, str):
            self._scalar(enc, d, value, "float" if d in ("r32", "r64") else "int", path)
        elif isinstance(d, Enum):
            self._scalar(enc, "u32", value, "enum", path)
        elif isinstance(d, Union):
            self._union(enc, d, value, path)
        else:
            self._struct(enc, d, value, path)

    def _union(self, enc, d, value, path):
        lay = self.layouts.type(d.name)
        start = len(enc.out)
        arm = next(a for a in d.arms if a[2] == value[0])
        self._scalar(enc, "u32", arm[0], "disc", path + ".#")
        self._zeros(enc, start + lay.align)
        self._value(enc, arm[1], value[1], path + "." + arm[2])
        self._zeros(enc, start + lay.size)

    def _struct(self, enc, d, value, path):
        lay = self.layouts.type(d.name)
        outermost = path.count(".") == 0 and "[" not in path
        assert len(enc.out) % lay.align == 0
        block, block_align = 0, 1
        for ml in self.layouts.members(d):
            m = ml.member
            if ml.block != block:
                if block > 0 and round_up(len(enc.out), block_align) != round_up(len(enc.out), ml.pre_align) \
                        and block_align > ml.pre_align:
                    enc.narrowing = True
                block, block_align = ml.block, ml.pre_align
            self._pad(enc, ml.pre_align)
            sub = path + "." + m.name
            if outermost and ml.kind == UNLIMITED:
                enc.greedy_start = len(enc.out)
            if m.counts:
                lens = set(len(value[c]) for c in m.counts)
                assert len(lens) == 1, (path, m.counts)
                self._scalar(enc, self.schema.resolve(m.type), self._counter(d, m, lens.pop()), "counter", sub)
                continue
            v = value[m.name]
            if m.mode == "plain":
                self._value(enc, m.type, v, sub)
            elif m.mode == "optional":
                start = len(enc.out)
                self._scalar(enc, "u32", 0 if v is None else 1, "flag", sub + ".?")
                if v is None:
                    self._zeros(enc, start + ml.size)
                else:
                    self._zeros(enc, start + ml.align)
                    self._value(enc, m.type, v, sub)
            else:
                start = len(enc.out)
                if m.type == "byte":
                    enc.raw_offsets.extend(range(start, start + len(v)))
                    enc.out.extend(v)
                else:
                    for i, elem in enumerate(v):
                        self._value(enc, m.type, elem, "{}[{}]".format(sub, i))
                if m.mode in ("fixed", "limited"):
                    self._zeros(enc, start + ml.size)
                if m.mode == "greedy":
                    enc._greedy_end = len(enc.out)
        self._pad(enc, lay.align)

    # ------------------------------------------------------------- text

    def text(self, type_name, value):
        d = self.schema.resolve(type_name)
        out = []
        if isinstance(d, Union):
            arm = next(a for a in d.arms if a[2] == value[0])
            self._text_one(out, arm[2], arm[1], value[1])
        else:
            for m in self.schema.flat(d):
                if m.counts:
                    continue
                v = value[m.name]
                if m.mode == "optional":
                    if v is not None:
                        self._text_one(out, m.name, m.type, v)
                elif m.mode == "plain":
                    self._text_one(out, m.name, m.type, v)
                elif m.type == "byte":
                    out.append("{}: {}".format(m.name, bytes_text(v)))
                else:
                    for e in v:
                        self._text_one(out, m.name, m.type, e)
        return "".join(line + "\n" for line in out)

    def _text_one(self, out, name, t, v):
        d = self.schema.resolve(t)
        if isinstance(d, str):
            out.append("{}: {}".format(name, v))
        elif isinstance(d, Enum):
            out.append("{}: {}".format(name, [n for n, x, _ in d.members if x == v][-1]))
        else:
            out.append(name + " {")
            out.extend("  " + line for line in self.text(d.name, v).splitlines())
            out.append("}")


def bytes_text(v):
    out = []
    for b in v:
        if b == 0x27:
            out.append("\\'")
        elif b == 0x5C:
            out.append("\\\\")
        elif b == 9:
            out.append("\\t")
        elif b == 10:
            out.append("\\n")
        elif b == 13:
            out.append("\\r")
        elif 0x20 <= b < 0x7F:
            out.append(chr(b))
        else:
            out.append("\\x%02x" % b)
    return "'" + "".join(out) + "'"


def in_range(t, value):
    lo, hi = INT_RANGES[t]
    return lo <= value <= hi
