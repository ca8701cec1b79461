"""C17: isar (with patches) and prophy text give the same wire layout."""
import os

from vlib import cpp, gen, isar, ref, tool
from vlib.engine import Section, Violation, fingerprint
from vlib.schema import Const, Enum, Field, INTS, Member, Schema, Struct, Typedef, Union, prophy_text

RULE = ("a case is one type described by both front-ends with one value encoded through both, or one patch script with its "
        "result or its refusal; non-trivial: the type has more than one member or any member that is not a plain scalar, "
        "for scripts at least one rule that changes a definition; distinct by layout and bytes, or by script")
ASSUMPTIONS = ["a field made limited is a fixed array before, as the documentation says",
               "results of patch scripts that are not valid messages are left to C12 and C13",
               "negative indices of insert are not documented and not generated"]


def prepare(scratch, tier):
    cpp.prepare_pch(scratch, {"full": cpp.FULL_HEAD})


def announce(src, schema):
    """Adds has_x fields in front of some fixed arrays: isar's optional arrays."""
    for d in schema.decls:
        if isinstance(d, Struct):
            fields = []
            for f in d.fields:
                if f.mode == "fixed" and src.chance(15):
                    fields.append(Field("has_" + f.name, "u32"))
                fields.append(f)
            d.fields[:] = fields
    return Schema(schema.decls)


def isar_args(work, xml, patch, outs):
    args = ["--isar"]
    for o in outs:
        d = os.path.join(work, "isar_" + o)
        os.makedirs(d, exist_ok=True)
        args += ["--{}_out".format(o), d]
    if patch is not None:
        args += ["-p", tool.write(os.path.join(work, "x.patch"), patch)]
    return args + [tool.write(os.path.join(work, "x.xml"), xml)]


def layout_of(node):
    """What a node of prophyc's model says about the wire; names of implicit counters do not matter."""
    from prophyc import model
    if isinstance(node, model.Struct):
        return (node.kind, node.byte_size if node.kind == ref.FIXED else None, node.alignment,
                [(m.byte_size, m.alignment, m.padding if node.kind == ref.FIXED else None, m.kind, bool(m.optional), bool(m.is_fixed),
                  bool(m.is_limited), bool(m.is_dynamic), bool(m.greedy), m.numeric_size) for m in node.members])
    if isinstance(node, model.Union):
        return (node.kind, node.byte_size, node.alignment,
                [(m.name, int(str(m.discriminator), 0), m.byte_size, m.alignment) for m in node.members])
    if isinstance(node, model.Enum):
        return [(m.name, int(str(m.value), 0)) for m in node.members]
    if isinstance(node, model.Constant):
        return None
    return node.kind


def section_forms(src, ctx):
    schema = gen.gen_schema(src, gen.Cfg(max_decls=9, max_fields=6))
    schema = announce(src, schema)
    lays = ref.Layouts(schema)
    codec = ref.Codec(schema, lays)
    text = prophy_text(schema)
    patches = src.chance(60)
    render = isar.Render(src, schema, patches=patches, own_sizers=True)
    xml, patch = render.render()
    patch += absent_rules(src)

    def fail(message, **detail):
        raise Violation(message, prophy=text, xml=xml, patch=patch, **detail)
    with tool.Workdir(ctx.scratch) as work:
        one = tool.compile_text(text, work, ["python"])
        two = tool.run_prophyc(isar_args(work, xml, patch or None, ["python"]))
        if not one.ok:
            fail("the prophy schema is refused: " + (one.stderr or tool.describe_error(one.error)))
        if not two.ok or two.stderr.strip():
            fail("the isar schema is refused: " + (two.stderr or tool.describe_error(two.error)))
        mine = {n.name: n for n in one.nodes["x"]}
        other = {n.name: n for n in two.nodes["x"]}
        if sorted(mine) != sorted(other):
            fail("definitions differ: {} and {}".format(sorted(mine), sorted(other)))
        for name in mine:
            a, b = layout_of(mine[name]), layout_of(other[name])
            if a != b:
                fail("layouts of {} differ: prophy {}, isar {}".format(name, a, b))
        with tool.Imported(os.path.join(work, "python")) as pi, tool.Imported(os.path.join(work, "isar_python")) as ii:
            try:
                mods = [pi.load("x"), ii.load("x")]
            except Exception as e:
                fail("a generated module does not import: " + tool.describe_error(e))
            for d in schema.decls:
                for n, v in [(d.name, d.value)] if isinstance(d, Const) else \
                        [m[:2] for m in d.members] if isinstance(d, Enum) else []:
                    if [getattr(m, n) for m in mods] != [v, v]:
                        fail("{} is {!r}, {} expected".format(n, [getattr(m, n) for m in mods], v))
            for d in schema.composites():
                with src.span():
                    aligned = gen.can_align(schema, lays, d.name)
                    value = gen.gen_value(src, schema, lays, d.name, codec, aligned=aligned, max_total=25)
                compare(schema, d, value, mods, codec, src.choice("<>"), aligned, fail, ctx)
    ctx.stats.label("with patch" if patch else "isar alone")
    if ctx.stats.wants_sample():
        ctx.stats.sample({"prophy": text, "xml": xml, "patch": patch})


def compare(schema, d, value, mods, codec, endian, aligned, fail, ctx):
    want = codec.encode(d.name, value, endian).data
    got = []
    for m in mods:
        try:
            msg = getattr(m, d.name)()
            tool.set_value(schema, msg, d.name, value)
            got.append(msg.encode(endian))
            if aligned:
                # the padding after other messages would be taken for elements of their greedy arrays
                back = getattr(m, d.name)()
                back.decode(want, endian)
                if not tool.same(tool.get_value(schema, back, d.name), value):
                    fail("{} is decoded differently".format(d.name), value=repr(value))
        except Violation:
            raise
        except Exception as e:
            fail("using {} raised {}".format(d.name, tool.describe_error(e)), value=repr(value))
    if any(g != want for g in got):
        fail("{} is encoded as {}, {} expected".format(d.name, [g.hex() for g in got], want.hex()), value=repr(value))
    ctx.stats.hit(None if gen.is_trivial_type(schema, d.name) else fingerprint(
        [prophy_text([d]), want.hex(), endian]))


ACTIONS = ["type", "insert", "remove", "dynamic", "limited", "greedy", "static", "rename", "struct", "nonsense"]


def absent_rules(src):
    """Rules of messages which are not there are ignored, whatever they say."""
    out = ""
    while src.chance(25):
        out += " ".join(["Absent" + src.choice("ABC"), src.choice(ACTIONS)] +
                        [src.choice(["x", "u32", "0", "999", "y"]) for _ in range(src.int(0, 3))]) + "\n"
        if src.chance(30):
            out += "\n"
    return out


def section_cpp(src, ctx):
    """Bytes of C++ full codecs generated from isar."""
    schema = announce(src, gen.gen_schema(src, gen.Cfg(max_decls=6, max_fields=5, shared=False)))
    lays = ref.Layouts(schema)
    codec = ref.Codec(schema, lays)
    render = isar.Render(src, schema, patches=src.chance(60), own_sizers=True)
    xml, patch = render.render()

    def fail(message, **detail):
        raise Violation(message, xml=xml, patch=patch, **detail)
    with tool.Workdir(ctx.scratch) as work:
        out = tool.run_prophyc(isar_args(work, xml, patch or None, ["cpp_full"]))
        if not out.ok or out.stderr.strip():
            fail("the isar schema is refused: " + (out.stderr or tool.describe_error(out.error)))
        d = os.path.join(work, "isar_cpp_full")
        prog, err = cpp.build(d, cpp.full_driver(schema), False, "full")
        if prog is None:
            fail("C++ generated from isar does not compile", compiler=cpp.short_report(err))
        commands, wants = [], []
        for i, t in enumerate(schema.composites()):
            for _ in range(3):
                with src.span():
                    value = gen.gen_value(src, schema, lays, t.name, max_total=25)
                commands.append("F-{} {}".format(i, cpp.fill_tokens(schema, t.name, value)))
                wants.append((t, value))
        try:
            got = prog.run(commands)
        except cpp.Crash as e:
            fail("the C++ codec crashed: {}".format(e.text))
        for line, (t, value) in zip(got, wants):
            words = line.split()
            for endian, at in (("<", 5), (">", 9)):
                want = codec.encode(t.name, value, endian).data.hex() or "-"
                if words[at] != want:
                    fail("C++: {} is encoded as {}, {} expected".format(t.name, words[at], want), value=repr(value))
            ctx.stats.hit(None if gen.is_trivial_type(schema, t.name) else fingerprint(["cpp", prophy_text([t]), line]))


# ------------------------------------------------------------------ patch scripts

class Refused(Exception):
    """The rule does not apply."""


class Undecided(Exception):
    """The result is not a valid message; what happens is not this property's matter."""


class Patched(object):
    """Reference interpretation of patch rules over wire members."""

    def __init__(self, schema):
        self.kinds, self.members, self.names = {}, {}, {}
        for d in schema.decls:
            self.names[d.name] = d.name
            if isinstance(d, Struct):
                self.kinds[d.name] = "struct"
                self.members[d.name] = [Member(m.name, m.type, m.mode, m.size, m.sizer, m.field) for m in schema.flat(d)]
            elif isinstance(d, Union):
                self.kinds[d.name] = "union"
                self.members[d.name] = [list(a) for a in d.arms]
            else:
                self.kinds[d.name] = "other"

    def find(self, members, name):
        for i, m in enumerate(members):
            if m.name == name:
                return i
        raise Refused("member {} not found".format(name))

    def rule(self, name, action, params):
        kind = self.kinds[name]
        if action not in ACTIONS or action == "nonsense":
            raise Refused("unknown action")
        if action == "struct":
            if kind != "union" or params:
                raise Refused("struct rule")
            self.kinds[name] = "struct"
            self.members[name] = [Member(a[2], a[1], "plain") for a in self.members[name]]
            return
        if action == "rename":
            if len(params) == 1:
                self.names[name] = params[0]
                return
            if len(params) != 2 or kind == "other":
                raise Refused("rename rule")
            if kind == "union":
                for a in self.members[name]:
                    if a[2] == params[0]:
                        a[2] = params[1]
                        return
                raise Refused("arm not found")
            members = self.members[name]
            members[self.find(members, params[0])].name = params[1]
            return
        count = {"type": 2, "insert": 3, "remove": 1, "dynamic": 2, "greedy": 1, "static": 2, "limited": 2}[action]
        if kind != "struct" or len(params) != count:
            raise Refused("not a struct or wrong number of parameters")
        members = self.members[name]
        if action == "insert":
            if not params[0].isdigit():
                raise Refused("index")
            members.insert(int(params[0]), Member(params[1], params[2], "plain"))
            return
        i = self.find(members, params[0])
        m = members[i]
        if action == "type":
            m.type = params[1]
        elif action == "remove":
            del members[i]
        elif action == "greedy":
            m.mode, m.sizer, m.size = "greedy", None, None
        elif action == "static":
            m.mode, m.sizer, m.size = "fixed", None, int(params[1])
        else:
            if params[1] not in [x.name for x in members[:i]]:
                raise Refused("counter not found")
            if action == "limited":
                if m.mode not in ("fixed", "limited"):
                    raise Refused("not a fixed array")
                m.mode, m.sizer = "limited", params[1]
            else:
                m.mode, m.sizer, m.size = "bound", params[1], None

    def schema(self, original):
        """The resulting schema; Undecided if a message is not valid."""
        decls, flats = [], {}
        for d in original.decls:
            name = self.names[d.name]
            if self.kinds[d.name] == "struct":
                decls.append(Struct(name, []))
                flats[name] = self.members[d.name]
            elif self.kinds[d.name] == "union":
                decls.append(Union(name, [tuple(a) for a in self.members[d.name]]))
            elif isinstance(d, Typedef):
                decls.append(Typedef(name, d.type))
            elif isinstance(d, Enum):
                decls.append(Enum(name, d.members))
            else:
                decls.append(Const(name, d.value, d.text))
        out = Schema(decls)
        if len({d.name for d in decls}) != len(decls):
            raise Undecided("names repeat")
        for name, members in flats.items():
            for m in members:
                m.counts = []
            by_name = {m.name: m for m in members}
            for m in members:
                if m.sizer in by_name:
                    by_name[m.sizer].counts.append(m.name)
            out._flat[name] = members
        self.validate(out)
        return out

    @staticmethod
    def validate(schema):
        seen = set()
        for d in schema.decls:
            types = [d.type] if isinstance(d, Typedef) else [a[1] for a in d.arms] if isinstance(d, Union) else []
            if any(t not in seen and t not in INTS + ("r32", "r64", "byte") for t in types):
                raise Undecided("type not known before")
            if isinstance(d, Union):
                if len({a[2] for a in d.arms}) != len(d.arms):
                    raise Undecided("arms repeat")
                if any(ref.Layouts(schema).type(a[1]).kind != ref.FIXED for a in d.arms if a[1] in schema.index):
                    raise Undecided("arm of varying size")
            if isinstance(d, Struct):
                members = schema.flat(d)
                if not members or len({m.name for m in members}) != len(members):
                    raise Undecided("members repeat or there are none")
                for i, m in enumerate(members):
                    resolved = schema.resolve(m.type)
                    if m.type not in seen and m.type not in INTS + ("r32", "r64", "byte"):
                        raise Undecided("type not known before")
                    if m.type == "byte" and m.mode in ("plain", "optional"):
                        raise Undecided("single byte")
                    kind = ref.Layouts(schema).type(m.type).kind if m.type in schema.index else ref.FIXED
                    if m.mode in ("optional", "fixed", "limited") and kind != ref.FIXED:
                        raise Undecided("element of varying size")
                    if kind == ref.UNLIMITED and (m.mode != "plain" or i + 1 < len(members)):
                        raise Undecided("unlimited in the middle")
                    if m.mode == "greedy" and i + 1 < len(members):
                        raise Undecided("greedy in the middle")
                    if m.mode in ("fixed", "limited") and not m.size:
                        raise Undecided("empty array")
                    if m.sizer is not None and m.sizer not in [x.name for x in members[:i]]:
                        raise Undecided("no counter")
                    if m.counts:
                        if m.mode != "plain" or resolved not in INTS:
                            raise Undecided("counter is not an integer")
                        modes = {x.mode for x in members if x.name in m.counts}
                        if "limited" in modes and len(m.counts) > 1:
                            raise Undecided("shared counter of a limited array")
                        if "limited" in modes and [x.size for x in members if x.name in m.counts][0] > 127:
                            raise Undecided("limit beyond the counter")
            seen.add(d.name)


def gen_rules(src, schema):
    """A script over the schema's messages; most rules apply."""
    rules = []
    state = Patched(schema)
    targets = [d for d in schema.decls if not isinstance(d, (Const, Typedef, Enum))]
    others = [d for d in schema.decls if isinstance(d, (Const, Typedef, Enum))]
    used = {n for d in schema.decls for n in schema.refs(d)}
    order = [d.name for d in schema.decls]
    while src.more(len(rules), 1, 8, 70):
        with src.span():
            d = src.choice(others) if others and src.chance(6) else src.choice(targets) if targets else src.choice(others)
            name = d.name
            kind = state.kinds[name]
            earlier = [n for n in order[:order.index(name)] if isinstance(schema.index[n], (Struct, Union, Enum, Typedef))]
            members = state.members.get(name, [])
            names = [m.name if kind == "struct" else m[2] for m in members] or ["a0"]
            ints = [m.name for m in members if m.mode == "plain" and schema.resolve(m.type) in INTS] \
                if kind == "struct" else []

            def type_():
                if earlier and src.chance(35):
                    return src.choice(earlier)
                return src.choice(["u8", "u16", "u32", "u64", "i8", "i64", "r32"])

            def member():
                return "absent" if src.chance(5) else src.choice(names)

            def counter():
                if ints and not src.chance(8):
                    return src.choice(ints)
                return src.choice(names + ["absent"])
            if kind == "union":
                action = src.weighted([(3, "struct"), (3, "rename"), (1, "type"), (1, "static")])
            elif kind == "struct":
                action = src.weighted([(4, "type"), (5, "insert"), (3, "remove"), (5, "dynamic"), (4, "limited"), (3, "greedy"),
                                       (5, "static"), (4, "rename"), (1, "struct"), (1, "nonsense")])
            else:
                action = src.choice(["rename", "type", "remove"])
            if action == "type":
                params = [member(), type_()]
            elif action == "insert":
                params = [src.choice(["0", "1", "2", "999", str(len(members)), "x" if src.chance(10) else "3"]),
                          "new{}".format(len(rules)), type_()]
            elif action in ("remove", "greedy"):
                params = [member()]
                if action == "greedy" and members and kind == "struct" and src.chance(70):
                    params = [members[-1].name]
            elif action in ("dynamic", "limited"):
                params = [member(), counter()]
                if action == "limited" and kind == "struct" and src.chance(75):
                    fixed = [m.name for m in members if m.mode == "fixed"]
                    if fixed:
                        params[0] = src.choice(fixed)
                if kind == "struct" and params[0] in names and src.chance(85):
                    before = [m.name for m in members[:names.index(params[0])] if m.name in ints and (
                        action == "dynamic" or not m.counts or src.chance(20))]
                    if before:
                        params[1] = src.choice(before)
                    else:
                        rules.append((name, "insert", ["0", "count{}".format(len(rules)), src.choice(["u8", "u16", "u32", "u64"])]))
                        state.rule(*rules[-1])
                        params[1] = rules[-1][2][1]
            elif action == "static":
                params = [member(), str(src.int(1, 6))]
            elif action == "rename":
                if name not in used and src.chance(30):
                    params = [src.choice(["Renamed{}".format(len(rules)), name])]
                elif kind == "other":
                    params = ["a", "b"]
                else:
                    params = [member(), "name{}".format(len(rules))]
            else:
                params = []
            if src.chance(3):
                params = params + ["extra"] if src.chance(50) else params[:-1]
            rules.append((name, action, params))
            try:
                state.rule(name, action, params)
            except Refused:
                return rules
    return rules


def section_scripts(src, ctx):
    schema = gen.gen_schema(src, gen.Cfg(max_decls=5, max_fields=5, greedy=False, exprs=False))
    render = isar.Render(src, schema, plain=True)
    xml, patch = render.render()
    assert not patch
    rules = gen_rules(src, schema)
    # rules of different messages may be interleaved in any way
    lines = [" ".join([n, a] + p) for n, a, p in rules]
    text = absent_rules(src)
    text += src.choice(["\n", "\r\n"]).join(src.choice([l, l, "  " + l, l + "  ", l.replace(" ", "\t")]) for l in lines) + "\n"
    if any(a == "rename" and len(p) == 1 for _, a, p in rules):
        new = [p[0] for _, a, p in rules if a == "rename" and len(p) == 1 and p[0] not in schema.index]
        if new and src.chance(30):
            # rules of the new name do not apply
            text += "{} remove absent\n".format(new[0])
    state, expected, why = Patched(schema), None, None
    try:
        for d in schema.decls:
            for n, a, p in rules:
                if n == d.name:
                    state.rule(n, a, p)
        expected = state.schema(schema)
    except Refused as e:
        why = str(e)
    except Undecided as e:
        why = None
        expected = "undecided"
        ctx.stats.label("result not valid: " + str(e))

    def fail(message, **detail):
        raise Violation(message, xml=xml, patch=text, **detail)
    with tool.Workdir(ctx.scratch) as work:
        out = tool.run_prophyc(isar_args(work, xml, text, ["python"]))
        if expected == "undecided":
            if not out.ok and type(out.error).__name__ != "ProphycError":
                fail("the script ended with " + tool.describe_error(out.error))
            ctx.stats.hit(None)
            return
        if expected is None:
            if out.ok:
                fail("a rule that does not apply is accepted: " + why)
            if os.listdir(os.path.join(work, "isar_python")):
                fail("outputs are written in spite of a rule that does not apply: " + why)
            ctx.stats.label("refused: " + why.split(" not found")[0].split(" ")[0])
            ctx.stats.hit(fingerprint(["refused", xml, text]))
            return
        if not out.ok or out.stderr.strip():
            fail("the script is refused: " + (out.stderr or tool.describe_error(out.error)))
        check_patched(src, ctx, schema, expected, out, work, fail)
    for _, a, p in rules:
        ctx.stats.label("rule " + a)
    ctx.stats.hit(fingerprint(["script", xml, text]))
    if ctx.stats.wants_sample():
        ctx.stats.sample({"xml": xml, "patch": text})


def check_patched(src, ctx, schema, expected, out, work, fail):
    lays = ref.Layouts(expected)
    codec = ref.Codec(expected, lays)
    nodes = {n.name: n for n in out.nodes["x"]}
    if sorted(nodes) != sorted(expected.index):
        fail("definitions are {}, {} expected".format(sorted(nodes), sorted(expected.index)))
    for d in expected.composites():
        node, lay = nodes[d.name], lays.type(d.name)
        if isinstance(d, Struct) and [m.name for m in node.members] != [m.name for m in expected.flat(d)]:
            fail("members of {} are {}, {} expected".format(
                d.name, [m.name for m in node.members], [m.name for m in expected.flat(d)]))
        if (node.kind, node.alignment) != (lay.kind, lay.align) or lay.kind == ref.FIXED and node.byte_size != lay.size:
            fail("layout of {}: size {} alignment {} kind {}, expected {} {} {}".format(
                d.name, node.byte_size, node.alignment, node.kind, lay.size, lay.align, lay.kind))
    with tool.Imported(os.path.join(work, "isar_python")) as imp:
        try:
            mod = imp.load("x")
        except Exception as e:
            fail("the patched module does not import: " + tool.describe_error(e))
        for d in expected.composites():
            with src.span():
                value = gen.gen_value(src, expected, lays, d.name, max_total=15)
            want = codec.encode(d.name, value, "<").data
            try:
                msg = getattr(mod, d.name)()
                tool.set_value(expected, msg, d.name, value)
                got = msg.encode("<")
            except Exception as e:
                fail("encoding {} raised {}".format(d.name, tool.describe_error(e)), value=repr(value))
            if got != want:
                fail("{} is encoded as {}, {} expected".format(d.name, got.hex(), want.hex()), value=repr(value))


SECTIONS = [
    Section("forms", section_forms, quick=4000, thorough=50000),
    Section("scripts", section_scripts, quick=9000, thorough=90000),
    Section("cpp", section_cpp, quick=240, thorough=4000, shrink_s=60),
]
