"""Rendering of schemas as isar XML plus patch rules; forms are chosen by a Src."""
from xml.sax.saxutils import quoteattr

from .schema import Const, Enum, INTS, Struct, Typedef, Union

PRIMITIVE = {"u8": "8 bit integer unsigned", "u16": "16 bit integer unsigned", "u32": "32 bit integer unsigned",
             "u64": "64 bit integer unsigned", "i8": "8 bit integer signed", "i16": "16 bit integer signed",
             "i32": "32 bit integer signed", "i64": "64 bit integer signed", "r32": "32 bit float",
             "r64": "64 bit float"}


def attrs(**kw):
    return "".join(" {}={}".format(k, quoteattr(str(v))) for k, v in kw.items() if v is not None)


class _Member(object):
    """One <member> element; dims is None or attributes of <dimension>."""

    def __init__(self, name, type_, dims=None, optional=None):
        self.name, self.type, self.dims, self.optional = name, type_, dims, optional

    def implicit_counter(self):
        if self.optional and self.dims:
            return True
        name = (self.dims or {}).get("variableSizeFieldName")
        if name is None:
            return "isVariableSize" in (self.dims or {})
        return not name.startswith("@")

    def text(self):
        head = "<member" + attrs(name=self.name, type=self.type, optional=self.optional)
        if self.dims is None:
            return head + "/>"
        return head + "><dimension" + attrs(**self.dims) + "/></member>"


class Render(object):
    """patches=False keeps to what isar alone can express (fields that cannot be are patched anyway)."""

    def __init__(self, src, schema, patches=True, plain=False, own_sizers=False):
        self.src, self.schema, self.patches, self.plain = src, schema, patches, plain
        self.own_sizers = own_sizers    # implicit counters may get isar's own names
        self.rules = []

    def chance(self, percent):
        return not self.plain and self.src.chance(percent)

    def render(self, decls=None, shuffle=True):
        """(xml text, patch text)"""
        elements = [self.decl(d) for d in (self.schema.decls if decls is None else decls)]
        if shuffle:
            elements = self.src.shuffle(elements)
        return self.document(elements), self.patch_text()

    @staticmethod
    def document(elements, includes=()):
        out = ['<xml xmlns:xi="http://www.w3.org/2001/XInclude">\n']
        out.extend('<xi:include href="{}"/>\n'.format(i) for i in includes)
        out.extend(elements)
        out.append("</xml>\n")
        return "".join(out)

    def patch_text(self):
        return "".join(" ".join(str(w) for w in r) + "\n" for r in self.rules)

    def decl(self, d):
        if isinstance(d, Const):
            return "<constant{}/>\n".format(attrs(name=d.name, value=d.text))
        if isinstance(d, Typedef):
            if d.type in PRIMITIVE and self.chance(40):
                return "<typedef{}/>\n".format(attrs(name=d.name, primitiveType=PRIMITIVE[d.type]))
            return "<typedef{}/>\n".format(attrs(name=d.name, type=d.type))
        if isinstance(d, Enum):
            return "<enum{}>{}</enum>\n".format(attrs(name=d.name), "".join(
                "<enum-member{}/>".format(attrs(name=n, value=self.enum_value(v, t))) for n, v, t in d.members))
        if isinstance(d, Union):
            return "<union{}>{}</union>\n".format(attrs(name=self.node_name(d.name)), "".join(
                "<member{}/>".format(attrs(name=n, type=t, discriminatorValue=text)) for v, t, n, text in d.arms))
        return self.struct(d)

    def enum_value(self, value, text):
        if text == str(value):
            if value >= 1 << 31 and self.chance(50):
                return str(value - (1 << 32))
            if self.chance(20):
                return hex(value)
        return text

    def node_name(self, name):
        """Nodes are sometimes declared under another name and renamed by the patch."""
        if self.patches and self.chance(8):
            self.rules.append((name + "Old", "rename", name))
            return name + "Old"
        return name

    def struct(self, d):
        src = self.src
        if self.patches and all(f.mode == "plain" for f in d.fields) and self.chance(10):
            self.rules.append((d.name, "struct"))
            return "<union{}>{}</union>\n".format(attrs(name=d.name), "".join(
                "<member{}/>".format(attrs(name=f.name, type=f.type, discriminatorValue=i))
                for i, f in enumerate(d.fields)))
        name = self.node_name(d.name)
        message = self.chance(40)
        members, later = [], []
        self.shared = {f.sizer for f in d.fields if f.mode == "ext"}
        for i, f in enumerate(d.fields):
            self.field(name, f, message, members, later)
            if self.own_sizers and i and members[-2:-1] and members[-1].dims and self.chance(50):
                self.join(members, f, d.fields[i - 1], message)
        if self.patches:
            removed_at = None
            if self.chance(6):
                removed_at = at = src.int(0, len(members))
                members.insert(at, _Member("extra_field", "u16"))
                later.insert(0, (name, "remove", "extra_field"))
            if len(members) > 1 and self.chance(8):
                plain = [i for i, m in enumerate(members) if m.dims is None and m.optional is None and m.name != "extra_field"]
                if plain:
                    i = src.choice(plain)
                    m = members.pop(i)
                    # positions count the implicit counters
                    where = i + sum(1 for o in members[:i] if o.implicit_counter())
                    if i == len(members):
                        where = src.choice([where, 999])
                    # other rules may refer to the member, so this one goes first
                    later.insert(0, (name, "insert", where, m.name, m.type))
                    removal = [r for r in later if r[1] == "remove"]
                    if removal:
                        # the extra field is counted unless it is removed before
                        later.remove(removal[0])
                        if removed_at is not None and removed_at < i:
                            later[0] = later[0][:2] + ((where - 1) if where != 999 else 999,) + later[0][3:]
                        later.insert(0, removal[0])
            for m in list(members):
                if m.name != "extra_field" and self.chance(6):
                    later.append((name, "type", m.name, m.type))
                    m.type = src.choice(["u8", "u16", "u32", "u64"])
            for m in members:
                if self.chance(5):
                    for i, r in enumerate(later):
                        if r[1] in ("type", "static", "greedy", "dynamic", "limited") and r[2] == m.name:
                            break
                    else:
                        if not any(m.name in r for r in later) and m.dims is None:
                            later.insert(0, (name, "rename", m.name + "_old", m.name))
                            m.name += "_old"
        self.rules.extend(later)
        tag = "message" if message else "struct"
        return "<{0}{1}>{2}</{0}>\n".format(tag, attrs(name=name), "".join(m.text() for m in members))

    def join(self, members, f, before, message):
        """An integer and the array it counts (or announces) as one member."""
        if f.mode == "fixed" and before.mode == "plain" and before.type == "u32" and before.name == "has_" + f.name \
                and members[-2].name == before.name and before.name not in self.shared:
            members.pop(-2)
            members[-1].optional = "true"
        elif f.mode == "ext" and before.mode == "plain" and before.name == f.sizer and before.type in INTS and members[-1].dims == {
                "variableSizeFieldName": "@" + f.sizer} and members[-2].name == f.sizer:
            members.pop(-2)
            members[-1].dims = {"isVariableSize": "true", "variableSizeFieldName": f.sizer,
                                "variableSizeFieldType": before.type}
            self.ignored_size(members[-1].dims, message)

    def ignored_size(self, dims, message):
        """In a message the size of a variable array is informative."""
        if message and self.chance(50):
            dims["size"] = self.src.int(1, 9)
            if self.chance(20):
                dims["size2"] = self.src.int(1, 3)

    def field(self, owner, f, message, members, later):
        if self.own_sizers and f.mode == "dynamic" and f.sizer not in self.shared and self.chance(30):
            if self.chance(50):
                members.append(_Member(f.name, f.type, {"isVariableSize": "true"}))
                members[-1].dims["variableSizeFieldType"] = "u32" if self.chance(50) else None
                self.ignored_size(members[-1].dims, message)
            else:
                members.append(_Member("numOf" + f.name[0].upper() + f.name[1:], "u32"))
                members.append(_Member(f.name, f.type, {"size": "THIS_IS_VARIABLE_SIZE_ARRAY"}))
            return
        if f.mode == "plain":
            members.append(_Member(f.name, f.type))
        elif f.mode == "optional":
            members.append(_Member(f.name, f.type, optional=self.src.choice(["true", "True", "TRUE"])
                                   if not self.plain else "true"))
        elif f.mode == "fixed":
            if self.patches and self.chance(15):
                members.append(_Member(f.name, f.type))
                later.append((owner, "static", f.name, f.size))
            else:
                members.append(_Member(f.name, f.type, self.size_dims(f)))
        elif f.mode == "dynamic":
            form = self.src.int(0, 3 if self.patches else 2) if not self.plain else 0
            if form == 0:
                dims = {"isVariableSize": "true", "variableSizeFieldName": f.sizer}
                if self.chance(30):
                    dims["variableSizeFieldType"] = "u32"
                self.ignored_size(dims, message)
                members.append(_Member(f.name, f.type, dims))
            else:
                members.append(_Member(f.sizer, "u32"))
                if form == 1:
                    members.append(_Member(f.name, f.type, {"variableSizeFieldName": "@" + f.sizer}))
                elif form == 2:
                    members.append(_Member(f.name, f.type, {"isVariableSize": "true", "size": 3,
                                                            "variableSizeFieldName": "@" + f.sizer}))
                else:
                    members.append(_Member(f.name, f.type))
                    later.append((owner, "dynamic", f.name, f.sizer))
        elif f.mode == "limited":
            if not message and not (self.patches and self.chance(25)):
                members.append(_Member(f.name, f.type, dict(isVariableSize="true", variableSizeFieldName=f.sizer,
                                                            **self.size_dims(f))))
            else:
                members.append(_Member(f.sizer, "u32"))
                members.append(_Member(f.name, f.type, self.size_dims(f)))
                later.append((owner, "limited", f.name, f.sizer))
        elif f.mode == "ext":
            if self.patches and self.chance(25):
                members.append(_Member(f.name, f.type, {"size": 2} if self.chance(50) else None))
                later.append((owner, "dynamic", f.name, f.sizer))
            else:
                members.append(_Member(f.name, f.type, {"variableSizeFieldName": "@" + f.sizer}))
        elif f.mode == "greedy":
            members.append(_Member(f.name, f.type, {"size": 2} if self.chance(40) else None))
            later.append((owner, "greedy", f.name))

    def size_dims(self, f):
        if f.size_text == str(f.size):
            for k in (2, 3):
                if f.size % k == 0 and f.size > k and self.chance(30):
                    return {"size": f.size // k, "size2": k}
        return {"size": f.size_text}


assert Struct
