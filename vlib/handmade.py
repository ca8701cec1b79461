"""Message classes described directly in Python, with what the schema language lacks: shifted bounds, packed structs."""
import copy

from . import gen, ref
from .schema import Enum, Struct, Typedef, Union, prophy_text


def choose_shifts(src, schema):
    """{(struct, counter): shift}; only arrays which are bounded by a counter alone may be shifted."""
    out = {}
    for d in schema.structs():
        members = schema.flat(d)
        modes = {m.name: m.mode for m in members}
        for m in members:
            if m.counts and all(modes[c] == "bound" for c in m.counts) and src.chance(70):
                out[d.name, m.name] = src.choice([1, 2, 3, 7, 50])
    return out


class PackedLayouts(ref.Layouts):
    def _compute(self, d):
        out = super(PackedLayouts, self)._compute(d)
        if isinstance(d, (str, Enum)):
            out = copy.copy(out)
            out.align = 1
        return out


class Classes(object):
    """Stands in for tool.PySchema."""

    def __init__(self, schema, packed):
        import prophy
        self.schema = schema
        self.text = "{}// shifts {}{}\n".format(prophy_text(schema), sorted(schema.shifts.items()), ", packed" if packed else "")
        self.types = {n: getattr(prophy, n) for n in ("i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "r32", "r64")}
        base = prophy.struct_packed if packed else prophy.struct
        for d in schema.decls:
            if isinstance(d, Typedef):
                self.types[d.name] = self.types[d.type]
            elif isinstance(d, Enum):
                body = {"_enumerators": [(n, v & 0xFFFFFFFF) for n, v, _ in d.members]}
                self.types[d.name] = prophy.enum_generator(str(d.name), (prophy.enum,), body)
            elif isinstance(d, Union):
                body = {"_descriptor": [(n, self.types[t], disc) for disc, t, n, _ in d.arms]}
                self.types[d.name] = prophy.union_generator(str(d.name), (prophy.union,), body)
            elif isinstance(d, Struct):
                body = {"_descriptor": [(m.name, self._member(prophy, d, m)) for m in schema.flat(d)]}
                self.types[d.name] = prophy.struct_generator(str(d.name), (base,), body)

    def _member(self, prophy, d, m):
        if m.mode == "plain":
            return self.types[m.type]
        if m.mode == "optional":
            return prophy.optional(self.types[m.type])
        kw = {}
        if m.size is not None:
            kw["size"] = m.size
        if m.sizer:
            kw["bound"] = m.sizer
            if (d.name, m.sizer) in self.schema.shifts:
                kw["shift"] = self.schema.shifts[d.name, m.sizer]
        if m.type == "byte":
            return prophy.bytes(**kw)
        return prophy.array(self.types[m.type], **kw)

    def cls(self, name):
        return self.types[name]


def make(src, ctx, max_decls):
    """(classes, layouts, codec) of a random schema."""
    flat = src.chance(50)
    schema = gen.gen_schema(src, gen.Cfg(max_decls=max_decls, big=False, unions=not flat, optionals=not flat))
    schema.shifts = choose_shifts(src, schema)
    plain = not any(isinstance(d, Union) or any(f.mode == "optional" for f in getattr(d, "fields", ()))
                    for d in schema.decls)
    packed = plain and src.chance(60)
    layouts = PackedLayouts(schema) if packed else ref.Layouts(schema)
    ctx.stats.label("shifted" if schema.shifts else "not shifted", "packed" if packed else "not packed")
    return Classes(schema, packed), layouts, ref.Codec(schema, layouts)
