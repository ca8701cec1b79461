"""Schema AST and its rendering in the prophy language."""

INT_RANGES = {
    "i8": (-(1 << 7), (1 << 7) - 1),
    "i16": (-(1 << 15), (1 << 15) - 1),
    "i32": (-(1 << 31), (1 << 31) - 1),
    "i64": (-(1 << 63), (1 << 63) - 1),
    "u8": (0, (1 << 8) - 1),
    "u16": (0, (1 << 16) - 1),
    "u32": (0, (1 << 32) - 1),
    "u64": (0, (1 << 64) - 1),
}
SCALAR_SIZE = {"i8": 1, "i16": 2, "i32": 4, "i64": 8, "u8": 1, "u16": 2, "u32": 4, "u64": 8, "r32": 4, "r64": 8,
               "byte": 1}
FLOATS = ("r32", "r64")
INTS = tuple(INT_RANGES)


class Const(object):
    def __init__(self, name, value, text=None):
        self.name, self.value, self.text = name, value, text or str(value)


class Enum(object):
    """members: [(name, value, text)]"""

    def __init__(self, name, members):
        self.name = name
        self.members = [(m[0], m[1], m[2] if len(m) > 2 else str(m[1])) for m in members]


class Typedef(object):
    def __init__(self, name, type_):
        self.name, self.type = name, type_


class Field(object):
    """mode: plain, optional, fixed, dynamic, limited, ext, greedy"""

    def __init__(self, name, type_, mode="plain", size=None, sizer=None, size_text=None):
        self.name, self.type, self.mode, self.size = name, type_, mode, size
        self.size_text = size_text or (str(size) if size is not None else None)
        self.sizer = sizer
        if mode in ("dynamic", "limited") and not sizer:
            self.sizer = "num_of_" + name


class Struct(object):
    def __init__(self, name, fields):
        self.name, self.fields = name, fields


class Union(object):
    """arms: [(discriminator, type, name, text)]"""

    def __init__(self, name, arms):
        self.name = name
        self.arms = [(a[0], a[1], a[2], a[3] if len(a) > 3 else str(a[0])) for a in arms]


class Member(object):
    """A member as it appears on the wire (implicit counters made explicit)."""

    __slots__ = "name", "type", "mode", "size", "sizer", "counts", "field"

    def __init__(self, name, type_, mode, size=None, sizer=None, field=None):
        self.name, self.type, self.mode, self.size, self.sizer = name, type_, mode, size, sizer
        self.counts = []  # names of arrays counted by this member
        self.field = field


def flatten(struct):
    """Wire members of a struct; mode: plain, optional, fixed, bound, limited, greedy."""
    out = []
    for f in struct.fields:
        if f.mode in ("dynamic", "limited"):
            out.append(Member(f.sizer, "u32", "plain", field=None))
            out.append(Member(f.name, f.type, "bound" if f.mode == "dynamic" else "limited", f.size, f.sizer, f))
        elif f.mode == "ext":
            out.append(Member(f.name, f.type, "bound", None, f.sizer, f))
        else:
            out.append(Member(f.name, f.type, f.mode, f.size, None, f))
    by_name = {m.name: m for m in out}
    for m in out:
        if m.sizer:
            by_name[m.sizer].counts.append(m.name)
    return out


class Schema(object):
    def __init__(self, decls):
        self.decls = decls
        self.index = {d.name: d for d in decls}
        self._flat = {}
        self.shifts = {}    # (struct, counter): what is added to the number of elements, see handmade.py

    def flat(self, struct):
        got = self._flat.get(struct.name)
        if got is None:
            got = self._flat[struct.name] = flatten(struct)
        return got

    def resolve(self, type_):
        """Follows typedefs; returns builtin name or Enum/Struct/Union."""
        while True:
            d = self.index.get(type_)
            if d is None:
                return type_
            if isinstance(d, Typedef):
                type_ = d.type
                continue
            return d

    def composites(self):
        return [d for d in self.decls if isinstance(d, (Struct, Union))]

    def structs(self):
        return [d for d in self.decls if isinstance(d, Struct)]

    def refs(self, decl):
        """Names of the type declarations the declaration uses directly."""
        if isinstance(decl, Typedef):
            names = [decl.type]
        elif isinstance(decl, Struct):
            names = [f.type for f in decl.fields]
        elif isinstance(decl, Union):
            names = [a[1] for a in decl.arms]
        else:
            names = []
        return [n for n in names if n in self.index]


PROPHY_BUILTIN = {"r32": "float", "r64": "double", "byte": "bytes"}


def type_text(t):
    return PROPHY_BUILTIN.get(t, t)


def field_text(f):
    t = type_text(f.type)
    if f.mode == "plain":
        return "{} {};".format(t, f.name)
    if f.mode == "optional":
        return "{}* {};".format(t, f.name)
    if f.mode == "fixed":
        return "{} {}[{}];".format(t, f.name, f.size_text)
    if f.mode == "dynamic":
        return "{} {}<>;".format(t, f.name)
    if f.mode == "limited":
        return "{} {}<{}>;".format(t, f.name, f.size_text)
    if f.mode == "ext":
        return "{} {}<@{}>;".format(t, f.name, f.sizer)
    if f.mode == "greedy":
        return "{} {}<...>;".format(t, f.name)
    raise AssertionError(f.mode)


def decl_text(d):
    if isinstance(d, Const):
        return "const {} = {};\n".format(d.name, d.text)
    if isinstance(d, Enum):
        return "enum {} {{ {} }};\n".format(d.name, ", ".join("{} = {}".format(n, t) for n, _, t in d.members))
    if isinstance(d, Typedef):
        return "typedef {} {};\n".format(type_text(d.type), d.name)
    if isinstance(d, Struct):
        return "struct {} {{\n{}}};\n".format(d.name, "".join("    {}\n".format(field_text(f)) for f in d.fields))
    if isinstance(d, Union):
        return "union {} {{\n{}}};\n".format(d.name, "".join(
            "    {}: {} {};\n".format(text, type_text(t), n) for _, t, n, text in d.arms))
    raise AssertionError(d)


def prophy_text(schema_or_decls):
    decls = schema_or_decls.decls if isinstance(schema_or_decls, Schema) else schema_or_decls
    return "".join(decl_text(d) for d in decls)


def closure(schema, name):
    """Declarations needed for the named one (types only, plus all constants/enums), in order."""
    need = set()
    stack = [name]
    while stack:
        n = stack.pop()
        if n in need:
            continue
        need.add(n)
        stack.extend(schema.refs(schema.index[n]))
    return [d for d in schema.decls if d.name in need]
