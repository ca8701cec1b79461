"""C12: whatever prophyc accepts every back-end can realise, and rule breakers are rejected."""
import os

from props.c15 import rename
from vlib import cpp, gen, isar, ref, textmut, tool
from vlib.engine import Discard, Section, Violation, fingerprint
from vlib.schema import Const, Enum, Field, Schema, Struct, Typedef, Union, decl_text, prophy_text

RULE = ("a case is one schema given to prophyc; non-trivial: a valid schema with a composite which is not a list of plain "
        "scalars, or a schema with one edit breaking a rule, or a corrupted text which was accepted; distinct by text")
ASSUMPTIONS = ["C++ is compiled by g++ -std=c++11 without -Werror",
               "several arrays of one sizer are not supported by the C++ full generator, which says so",
               "names which clash with C++ or Python library names are not generated, see known_findings.txt",
               "arrays too large for the memory of the machine are not decided",
               "isar inputs with warnings about unknown types are accepted by design, for Python output"]
CXX = ["g++", "-O0", "-S", "-o", "/dev/null"] + cpp.STD


def prepare(scratch, tier):
    cpp.prepare_pch(scratch, {"full": cpp.FULL_PRELUDE if hasattr(cpp, "FULL_PRELUDE") else cpp.COMMON})


def compile_cpp(directory, source, pch=None):
    args = CXX + cpp.pch_args(pch, False) + ["-I", cpp.include_dir(), "-I", directory, source]
    p = cpp.run_tool(args, cwd=directory)
    if p.returncode:
        # the prelude must not be what breaks it
        p = cpp.run_tool(CXX + ["-I", cpp.include_dir(), "-I", directory, source], cwd=directory)
    return p.returncode, cpp.short_report(p.stderr.decode("latin1"))


def shared_sizers(schema):
    return any(len(m.counts) > 1 for s in schema.structs() for m in schema.flat(s))


# ------------------------------------------------------------------ valid schemas

def reformat(src, text):
    """The same schema with other spacing and comments."""
    toks = textmut.tokens(text)
    out = []
    for t in toks:
        if t.isspace() and src.chance(20):
            t = src.choice([" ", "\n", "\t", "\n\n", " /* c */ ", " // c ; }\n", "/**/", "\r\n", " /* * / \n */ "])
        elif t.isdigit() and t != "0" and src.chance(10):
            t = src.choice([hex(int(t)), "0" + oct(int(t))[2:], "({})".format(t)])
        out.append(t)
    return "".join(out)


def section_valid(src, ctx):
    schema = gen.gen_schema(src, gen.Cfg(max_decls=10, dup_enum=True))
    text = reformat(src, prophy_text(schema))
    outs = ["python", "cpp", "prophy"] + ([] if shared_sizers(schema) else ["cpp_full"])
    with tool.Workdir(ctx.scratch) as work:
        out = tool.compile_text(text, work, outs)
        if not out.ok:
            raise Violation("a valid schema was refused: " + tool.describe_error(out.error), schema=text)
        if out.stderr:
            raise Violation("a valid schema gave warnings: " + out.stderr, schema=text)
        with tool.Imported(os.path.join(work, "python")) as imp:
            try:
                mod = imp.load("x")
            except Exception as e:
                raise Violation("the Python module does not import: " + tool.describe_error(e), schema=text)
            for d in schema.decls:
                names = [d.name] + ([m[0] for m in d.members] if isinstance(d, Enum) else [])
                for n in names:
                    if not hasattr(mod, n):
                        raise Violation("the Python module lacks {}".format(n), schema=text)
    nontrivial = any(not gen.is_trivial_type(schema, d.name) for d in schema.composites())
    ctx.stats.hit(fingerprint("valid", text) if nontrivial else None)
    ctx.stats.label("valid schema imported")
    if ctx.stats.wants_sample():
        ctx.stats.sample(text)


def section_cpp(src, ctx):
    shared = src.chance(15)
    schema = gen.gen_schema(src, gen.Cfg(min_decls=4, max_decls=14, dup_enum=True, shared=shared))
    text = prophy_text(schema)
    outs = ["python", "cpp"] + ([] if shared_sizers(schema) else ["cpp_full"])
    with tool.Workdir(ctx.scratch) as work:
        out = tool.compile_text(text, work, outs)
        if not out.ok:
            raise Violation("a valid schema was refused: " + tool.describe_error(out.error), schema=text)
        ctx.stats.hit(fingerprint("cpp", text))
        for o, source in (("cpp", "x.pp.cpp"), ("cpp_full", "x.ppf.cpp")):
            if o in outs:
                code, err = compile_cpp(os.path.join(work, o), source, "full" if o == "cpp_full" else None)
                if code:
                    raise Violation("{} does not compile".format(source), schema=text, compiler=err)
                ctx.stats.label("compiled " + o)


# ------------------------------------------------------------------ rule breakers

class Breaker(object):
    """Adds definitions with one broken rule to a valid schema."""

    def __init__(self, src, schema):
        self.src, self.schema = src, schema
        self.extra = []
        self.n = 0

    def name(self, prefix="Z"):
        self.n += 1
        return "{}{}".format(prefix, self.n)

    def add(self, d):
        self.extra.append(d)
        return d.name

    def full(self):
        return Schema(self.schema.decls + self.extra)

    def of_kind(self, kind):
        """A type of the kind (0 fixed, 1 dynamic, 2 unlimited), possibly behind a typedef."""
        src = self.src
        lays = ref.Layouts(self.schema)
        have = [d.name for d in self.schema.decls if not isinstance(d, Const) and lays.type(d.name).kind == kind]
        if have and src.chance(50):
            t = src.choice(have)
        elif kind == 1:
            t = self.add(Struct(self.name("Dyn"), src.choice([
                [Field("a", "u8", "dynamic")],
                [Field("a", "byte", "dynamic"), Field("b", "u16")],
                [Field("n", "u16"), Field("a", "u64", "ext", sizer="n")],
                [Field("x", "u8", "optional"), Field("a", "u32", "dynamic"), Field("b", "u8", "limited", size=3)],
            ])))
        elif kind == 2:
            t = self.add(Struct(self.name("Unl"), src.choice([
                [Field("a", "u8", "greedy")],
                [Field("a", "byte", "greedy")],
                [Field("x", "u64"), Field("a", "u16", "greedy")],
                [Field("d", "u16", "dynamic"), Field("a", "u32", "greedy")],
            ])))
        else:
            t = src.choice(["u8", "u16", "u32", "u64", "i32", "r32"])
        for _ in range(src.int(0, 2)):
            if kind and src.chance(40):
                fields = [Field("h", "u8"), Field("w", t)] if kind == 2 or src.chance(50) else [Field("w", t), Field("h", "u8")]
                if kind == 2 and src.chance(30):
                    fields.insert(0, Field("v", "u8", "dynamic"))
                t = self.add(Struct(self.name("Wrap"), fields))
            elif src.chance(50):
                t = self.add(Typedef(self.name("Td"), t))
        return t

    def some_fields(self, count=2):
        out = []
        for i in range(self.src.int(0, count)):
            out.append(self.src.choice([Field("p{}".format(i), "u8"), Field("p{}".format(i), "u64"),
                                        Field("p{}".format(i), "u16", "dynamic"), Field("p{}".format(i), "u32", "optional"),
                                        Field("p{}".format(i), "u8", "limited", size=2)]))
        return out

    def host(self, fields, tail=True):
        after = [Field("q{}".format(i), self.src.choice(["u8", "u32"])) for i in range(self.src.int(0, 2))] if tail else []
        self.add(Struct(self.name("Host"), self.some_fields() + fields + after))

    # each of these breaks exactly one rule

    def unlimited_not_last(self):
        if self.src.chance(50):
            bad = Field("bad", self.src.choice(["u8", "byte", "u64"]), "greedy")
        else:
            bad = Field("bad", self.of_kind(2))
        after = self.src.choice([[Field("q", "u8")], [Field("q", "u8", "dynamic")], [Field("q", "u32", "optional")],
                                 [Field("q", "u8"), Field("r", "u8")], [Field("q", "u8", "greedy")],
                                 [Field("q", "u8", "fixed", size=2)]])
        self.add(Struct(self.name("Host"), self.some_fields() + [bad] + after))

    def unlimited_in_array(self):
        t = self.of_kind(2)
        mode = self.src.choice(["fixed", "limited", "dynamic", "ext", "greedy"])
        if mode == "ext":
            self.host([Field("n", "u8"), Field("bad", t, "ext", sizer="n")])
        else:
            self.host([Field("bad", t, mode, size=2 if mode in ("fixed", "limited") else None)], tail=mode != "greedy")

    def varying_in_fixed_array(self):
        t = self.of_kind(1)
        self.host([Field("bad", t, self.src.choice(["fixed", "limited"]), size=self.src.int(1, 3))])

    def varying_optional(self):
        self.host([Field("bad", self.of_kind(self.src.int(1, 2)), "optional")])

    def varying_arm(self):
        arms = [(i + 1, self.src.choice(["u8", "u64"]), "a{}".format(i)) for i in range(self.src.int(0, 2))]
        arms.insert(self.src.int(0, len(arms)), (9, self.of_kind(self.src.int(1, 2)), "bad"))
        self.add(Union(self.name("Host"), arms))

    def sizer_missing(self):
        t = self.of_kind(self.src.int(0, 1))
        self.host([Field("bad", self.src.choice([t, "byte"]), "ext", sizer="nowhere")])

    def sizer_after(self):
        self.host([Field("bad", self.src.choice([self.of_kind(0), "byte"]), "ext", sizer="n"), Field("n", "u32")])

    def sizer_itself(self):
        self.host([Field("bad", "u8", "ext", sizer="bad")])

    def sizer_optional(self):
        t = self.src.choice(["u8", "u16", "u32", "u64", "i16"])
        if self.src.chance(30):
            t = self.add(Typedef(self.name("Td"), t))
        self.host([Field("n", t, "optional"), Field("bad", self.src.choice([self.of_kind(0), "byte"]), "ext", sizer="n")])

    def sizer_array(self):
        mode = self.src.choice(["fixed", "dynamic", "limited"])
        self.host([Field("n", self.src.choice(["u8", "u32", "byte"]), mode, size=None if mode == "dynamic" else 2),
                   Field("bad", "u8", "ext", sizer="n")])

    def sizer_not_integer(self):
        src = self.src
        t = src.choice(["r32", "r64", None, None])
        if t is None:
            t = self.add(src.choice([Enum(self.name("Ze"), [(self.name("ZE_"), 1)]), Struct(self.name("Zs"), [Field("a", "u32")]),
                                     Union(self.name("Zu"), [(1, "u32", "a")])]))
        if src.chance(30):
            t = self.add(Typedef(self.name("Td"), t))
        self.host([Field("n", t), Field("bad", src.choice([self.of_kind(0), "byte"]), "ext", sizer="n")])

    def duplicate_field(self):
        src = self.src
        kind = src.choice(["fields", "counter", "counter2", "arms"])
        if kind == "arms":
            self.add(Union(self.name("Host"), [(1, "u8", "a"), (2, "u16", "b"), (3, "u32", src.choice("ab"))]))
        elif kind == "fields":
            fields = [Field("a", "u8"), Field("b", "u16")]
            fields.insert(src.int(0, 2), Field(src.choice("ab"), "u32", src.choice(["plain", "optional", "dynamic"])))
            self.host(fields)
        elif kind == "counter":
            self.host([Field("num_of_a", "u32"), Field("a", "u8", "dynamic")])
        else:
            self.host([Field("a", "u8", src.choice(["dynamic", "limited"]), size=2), Field("num_of_a", "u8")])

    def duplicate_name(self):
        src = self.src
        taken = [d.name for d in self.schema.decls]
        for d in self.schema.decls:
            if isinstance(d, Enum):
                taken += [m[0] for m in d.members]
        n = src.choice(taken)
        self.add(src.choice([Const(n, 1), Enum(n, [("ZZ_A", 1)]), Enum("ZZ", [(n, 1)]), Typedef(n, "u8"),
                             Struct(n, [Field("a", "u8")]), Union(n, [(1, "u8", "a")]),
                             Enum("ZZ", [("ZZ_A", 1), ("ZZ_A", 2)]), Enum("ZZ", [("ZZ", 1)])]))

    def duplicate_discriminator(self):
        v = self.src.choice([0, 1, 5, 16, 0xFFFFFFFF])
        text = self.src.choice([str(v), hex(v), "({} + 1) - 1".format(v), "2 * {} - {}".format(v, v)])
        arms = [(v, "u8", "a"), (v, "u32", "b", text)]
        if self.src.chance(50):
            arms.insert(self.src.int(0, 2), (77, "u16", "c"))
        self.add(Union(self.name("Host"), arms))

    def bad_size(self):
        src = self.src
        v, text = src.choice([(0, None), (-1, None), (0, "1 - 1"), (0, "3 / 4"), (-2, "2 * -1"), (0, "1 >> 3"), (0, "ZC")])
        if text == "ZC":
            self.add(Const("ZC", src.choice([0, -1, -5])))
        self.host([Field("bad", src.choice(["u8", "byte", self.of_kind(0)]), src.choice(["fixed", "limited"]), size=v,
                         size_text=text)])

    def bad_enumerator(self):
        v, text = self.src.choice([(1 << 32, None), (1 << 40, None), (1 << 32, "1 << 32"), (1 << 64, None),
                                   (-1, None), (-(1 << 31), None), (1 << 32, "0xFFFFFFFF + 1")])
        members = [("ZE_A", 1)]
        members.insert(self.src.int(0, 1), ("ZE_B", v, text or str(v)))
        self.add(Enum(self.name("Host"), members))

    def bad_discriminator(self):
        v, text = self.src.choice([(1 << 32, None), (1 << 40, None), (1 << 32, "1 << 32"), (1 << 64, None),
                                   (-1, None), (-(1 << 31), None), (1 << 32, "0xFFFFFFFF + 1")])
        arms = [(1, "u8", "a")]
        arms.insert(self.src.int(0, 1), (v, "u16", "b", text or str(v)))
        self.add(Union(self.name("Host"), arms))

    def unknown_type(self):
        self.host([Field("bad", "Nowhere", self.src.choice(["plain", "optional", "dynamic"]))])

    def recursive(self):
        n = self.name("Host")
        self.add(Struct(n, self.some_fields() + [Field("bad", n, self.src.choice(["plain", "optional", "dynamic"]))]))


PROPHY_RULES = ["unlimited_not_last", "unlimited_in_array", "varying_in_fixed_array", "varying_optional", "varying_arm",
                "sizer_missing", "sizer_after", "sizer_itself", "sizer_optional", "sizer_array", "sizer_not_integer",
                "duplicate_field", "duplicate_name", "duplicate_discriminator", "bad_size", "bad_enumerator",
                "bad_discriminator", "unknown_type", "recursive"]


def broken(src, schema, rules):
    rule = src.choice(rules)
    b = Breaker(src, schema)
    with src.span():
        getattr(b, rule)()
    return rule, b


def section_broken(src, ctx):
    import prophyc
    schema = gen.gen_schema(src, gen.Cfg(max_decls=5, max_fields=4))
    with tool.Workdir(ctx.scratch) as work:
        for i in range(8):
            with src.span():
                rule, b = broken(src, schema, PROPHY_RULES)
                split = src.chance(30)
                base, tail = prophy_text(schema), "".join(decl_text(d) for d in b.extra)
                helper = ""
                if split:
                    cut = src.int(0, len(b.extra) - 1)
                    helper = base + "".join(decl_text(d) for d in b.extra[:cut])
                    text = '#include "y.prophy"\n' + "".join(decl_text(d) for d in b.extra[cut:])
                    tool.write(os.path.join(work, "y.prophy"), helper)
                else:
                    text = base + tail
                outs = [o for o in ("python", "cpp", "cpp_full", "prophy") if src.chance(40)]
                out = tool.compile_text(text, work, outs, extra=[] if outs else ["--void_out"])
                ctx.stats.hit(fingerprint(rule, text, helper))
                ctx.stats.label("broken:" + rule)
                detail = {"rule": rule, "schema": text, "included": helper, "outputs": " ".join(outs)}
                if out.ok:
                    raise Violation("a schema breaking a rule was accepted: " + rule, **detail)
                if not isinstance(out.error, prophyc.ProphycError) or ": error: " not in str(out.error):
                    raise Violation("a schema breaking a rule was not rejected by a diagnostic: " +
                                    tool.describe_error(out.error), **detail)


ISAR_RULES = [r for r in PROPHY_RULES if r not in ("unknown_type", "recursive", "bad_enumerator", "sizer_itself")]


def section_isar(src, ctx):
    """The same rules in isar and patched models, and valid isar models with comments."""
    import prophyc
    schema = gen.gen_schema(src, gen.Cfg(max_decls=5, max_fields=4))
    with tool.Workdir(ctx.scratch) as work:
        for i in range(5):
            with src.span():
                valid = src.chance(30)
                rule = "valid"
                full = schema
                if not valid:
                    rule, b = broken(src, schema, ISAR_RULES)
                    full = b.full()
                    full.decls = schema.decls + b.extra
                try:
                    xml, patch = isar.Render(src, full).render()
                except (KeyError, StopIteration) as e:
                    raise Discard("cannot be rendered in isar: {} {}".format(rule, type(e).__name__))
                if valid:
                    xml = comment(src, xml)
                tool.write(os.path.join(work, "x.xml"), xml)
                tool.write(os.path.join(work, "x.patch"), patch)
                outs = ["python", "cpp", "prophy"]
                args = ["--isar", "-p", "x.patch", "x.xml"]
                for o in outs:
                    os.makedirs(os.path.join(work, o), exist_ok=True)
                    args += ["--{}_out".format(o), o]
                out = tool.run_prophyc(args, work)
                ctx.stats.label("isar:" + rule)
                ctx.stats.hit(fingerprint("isar", rule, xml, patch))
                detail = {"rule": rule, "xml": xml, "patch": patch}
                if valid:
                    if not out.ok:
                        raise Violation("a valid isar schema was refused: " + tool.describe_error(out.error), **detail)
                    with tool.Imported(os.path.join(work, "python")) as imp:
                        try:
                            imp.load("x")
                        except Exception as e:
                            raise Violation("the Python module does not import: " + tool.describe_error(e), **detail)
                elif out.ok:
                    raise Violation("an isar schema breaking a rule was accepted: " + rule, **detail)
                elif not isinstance(out.error, prophyc.ProphycError):
                    raise Violation("not rejected by a diagnostic: " + tool.describe_error(out.error), **detail)


def comment(src, xml):
    import re
    words = ["c", "it&apos;s", "&quot;", "\\", "'''", "&quot;&quot;&quot;", "*/", "/*", "//", "&#10;", "ą", "{0}", "%s", "\\N", "\\x"]

    def add(m):
        if not src.chance(20):
            return m.group(0)
        return '{} comment="{}"'.format(m.group(0), " ".join(src.choice(words) for _ in range(src.int(1, 4))))
    return re.sub(r"<(constant|enum-member|enum|typedef|struct|union|message|member)\b", add, xml)


ODD = ["__{}", "_{}", "{}__", "__{}__", "___{}", "_{}__", "{}-x", "1{}", "{} y", "{}.z", "{}\u0105", "{}$", "{}:{}", "n::{}", "{}'"]


def odd_names(src, schema):
    """Names which isar allows and the prophy language does not."""
    def odd(name, percent):
        if not src.chance(percent):
            return name
        return src.choice(ODD[:6] if src.chance(75) else ODD).format(name, name)
    names = {}
    for d in schema.decls:
        names[d.name] = odd(d.name, 40)
        if isinstance(d, Enum):
            names.update((m[0], odd(m[0], 20)) for m in d.members)
    schema = rename(schema, names)
    for d in schema.decls:
        if isinstance(d, Struct):
            fields = {f.name: odd(f.name, 10) for f in d.fields}
            for f in d.fields:
                f.name = fields[f.name]
                if f.sizer in fields:
                    f.sizer = fields[f.sizer]
    return Schema(schema.decls)


def section_names(src, ctx):
    """isar definitions of any names, in files of any names."""
    schema = odd_names(src, gen.gen_schema(src, gen.Cfg(min_decls=2, max_decls=6, max_fields=4, shared=False)))
    cut = src.int(0, len(schema.decls) - 1)
    render = isar.Render(src, schema, patches=False)
    stem = src.choice(["y", "y", "_y", "y-1", "y.a", "class", "1y", "y y", "prophy", "sys", "\u0105", "y+", "import"])
    kinds = ["python"] if src.chance(85) else ["cpp", "cpp_full"]
    other = src.choice(["x", "y-2", "y c"] + ["y.b"] * ("cpp" in kinds))    # Python cannot import x.y.py, nor can the check
    files = [(stem + ".xml", render.render(schema.decls[:cut])[0]),
             (other + ".xml", render.document([render.decl(d) for d in schema.decls[cut:]], [stem + ".xml"] if cut else []))]
    patch = render.patch_text()
    with tool.Workdir(ctx.scratch) as work:
        for name, text in files:
            tool.write(os.path.join(work, name), text)
        tool.write(os.path.join(work, "x.patch"), patch)
        for kind in kinds:
            os.makedirs(os.path.join(work, kind))
            out = tool.run_prophyc(["--isar", "-p", "x.patch", "--{}_out".format(kind), kind] + [f[0] for f in files], work)
            ctx.stats.label("names:" + ("accepted" if out.ok else "refused"))
            ctx.stats.hit(fingerprint("names", kind, files, patch))
            detail = {"files": dict(files), "patch": patch}
            if not out.ok:
                continue
            for o in (stem, other):
                if kind == "python":
                    with tool.Imported(os.path.join(work, "python")) as imp:
                        try:
                            imp.load(o)
                        except Exception as e:
                            raise Violation("the Python module does not import: " + tool.describe_error(e), **detail)
                else:
                    code, err = compile_cpp(os.path.join(work, kind), o + (".pp.cpp" if kind == "cpp" else ".ppf.cpp"))
                    if code:
                        raise Violation("{} does not compile".format(o), compiler=err, **detail)


# ------------------------------------------------------------------ accepted by accident

def section_mutated(src, ctx):
    """Corrupted texts: those which are accepted have to give usable modules."""
    schema = gen.gen_schema(src, gen.Cfg(max_decls=5, max_fields=5))
    text = prophy_text(schema)
    words = [w for w in textmut.DICT if len(w) < 60 and "include" not in w] + \
        [f for f in ("a0", "b1", "c2", "num_of_a0", "num_of_b1", "2", "3", "bytes")] + [d.name for d in schema.decls] + KEYWORDS
    with tool.Workdir(ctx.scratch) as work:
        for i in range(12):
            with src.span():
                bad = textmut.corrupt_tokens(src, text, words=words)
                out = tool.compile_text(bad, work, ["python"])
                ctx.stats.label("mutated:" + ("accepted" if out.ok else "refused"))
                if not out.ok:
                    ctx.stats.hit(None)
                    continue
                ctx.stats.hit(fingerprint("mutated", bad) if bad != text else None)
                with tool.Imported(os.path.join(work, "python")) as imp:
                    try:
                        imp.load("x")
                    except (MemoryError, OverflowError):
                        ctx.stats.label("mutated:array too large for this machine")
                    except Exception as e:
                        raise Violation("the Python module does not import: " + tool.describe_error(e), schema=bad)


def section_mutated_cpp(src, ctx):
    schema = gen.gen_schema(src, gen.Cfg(max_decls=5, max_fields=5))
    text = prophy_text(schema)
    words = [";", "*", "[2]", "<2>", "<>", "u8", "u64", "bytes", "0", "2", "7", "float"] + \
        [d.name for d in schema.decls if not isinstance(d, Const)] + KEYWORDS[:9] + \
        ["a0", "b1", "has_a0", "has_b1"] + \
        [m[0] for d in schema.decls if isinstance(d, Enum) for m in d.members]
    with tool.Workdir(ctx.scratch) as work:
        for i in range(40):
            with src.span():
                bad = textmut.corrupt_tokens(src, text, words=words)
                if bad == text:
                    continue
                outs = ["cpp", "cpp_full"]
                out = tool.compile_text(bad, work, outs)
                if not out.ok:
                    ctx.stats.hit(None)
                    continue
                ctx.stats.label("mutated:compiled")
                ctx.stats.hit(fingerprint("mutated", bad))
                for o, source in (("cpp", "x.pp.cpp"), ("cpp_full", "x.ppf.cpp")):
                    code, err = compile_cpp(os.path.join(work, o), source, "full" if o == "cpp_full" else None)
                    if code and ("too large" in err or "exceeds maximum" in err):
                        ctx.stats.label("mutated:array too large for this machine")
                    elif code:
                        raise Violation("{} does not compile".format(source), schema=bad, compiler=err)
                return


def section_patched(src, ctx):
    """Random patches of valid isar models; what is accepted must be usable."""
    schema = gen.gen_schema(src, gen.Cfg(max_decls=4, max_fields=3, shared=False, wide=False))
    render = isar.Render(src, schema)
    xml, patch = render.render()
    names = [d.name for d in schema.composites()]
    fields = sorted({m.name for d in schema.structs() for m in schema.flat(d)})
    if not names:
        raise Discard("nothing to patch")
    compiled, base, effect = False, None, None
    with tool.Workdir(ctx.scratch) as work:
        tool.write(os.path.join(work, "x.xml"), xml)
        for i in range(20):
            with src.span():
                text = patch + (textmut.random_patch(src, names, fields) if i else "")
                tool.write(os.path.join(work, "x.patch"), text)
                detail = {"xml": xml, "patch": text}
                for o, source in (("python", None), ("cpp", "x.pp.cpp"), ("cpp_full", "x.ppf.cpp")):
                    if source and (compiled or effect == base):
                        continue
                    os.makedirs(os.path.join(work, o), exist_ok=True)
                    out = tool.run_prophyc(["--isar", "-p", "x.patch", "--{}_out".format(o), o, "x.xml"], work)
                    ctx.stats.label("patched:" + ("accepted" if out.ok else "refused"))
                    ctx.stats.hit(fingerprint("patched", o, xml, text) if out.ok and text != patch else None)
                    if not out.ok or "warning" in out.stderr:
                        break
                    if not source:
                        effect = open(os.path.join(work, o, "x.py")).read()
                        base = effect if text == patch else base
                    else:
                        ctx.stats.label("patched:compiled")
                        code, err = compile_cpp(os.path.join(work, o), source, "full" if o == "cpp_full" else None)
                        if code and "too large" not in err and "exceeds maximum" not in err:
                            raise Violation("{} does not compile".format(source), compiler=err, **detail)
                        compiled = o == "cpp_full"
                        continue
                    with tool.Imported(os.path.join(work, "python")) as imp:
                        try:
                            imp.load("x")
                        except Exception as e:
                            raise Violation("the Python module does not import: " + tool.describe_error(e), **detail)


KEYWORDS = ["class", "import", "None", "lambda", "template", "int", "and", "not", "return", "uint8_t", "prophy", "self"]


SECTIONS = [
    Section("valid", section_valid, quick=2500, thorough=60000),
    Section("cpp", section_cpp, quick=220, thorough=6000, shrink_s=60),
    Section("broken", section_broken, quick=1500, thorough=40000),
    Section("isar", section_isar, quick=700, thorough=20000),
    Section("names", section_names, quick=1200, thorough=20000),
    Section("mutated", section_mutated, quick=900, thorough=30000),
    Section("patched", section_patched, quick=250, thorough=5000, shrink_s=60),
    Section("mutated_cpp", section_mutated_cpp, quick=120, thorough=3000, shrink_s=60),
]


def library_name(ctx):
    """True if a definition named like a class of the C++ library still does not compile."""
    with tool.Workdir(ctx.scratch) as work:
        out = tool.compile_text("union message { 1: u8 a; };\n", work, ["cpp_full"])
        return out.ok and bool(compile_cpp(os.path.join(work, "cpp_full"), "x.ppf.cpp")[0])


def part_name(ctx):
    with tool.Workdir(ctx.scratch) as work:
        out = tool.compile_text("struct S { u8 part2; u8 a<>; u8 b; };\n", work, ["cpp"])
        return out.ok and bool(compile_cpp(os.path.join(work, "cpp"), "x.pp.cpp")[0])


CASES = [
    ("hidden_type", "typedef u16 T;\nstruct S { T T; };"), ("hidden_own_name", "struct S { u8 S; };"),
    ("hidden_flag", "struct S { u8* x; u8 has_x; };"), ("hidden_discriminator", "union U { 1: u8 discriminator; };"),
    ("hidden_method", "struct S { u8 get_byte_size; };"), ("hidden_enumerator", "enum E { EA = 1 };\nstruct S { u8 EA; E e; };"),
    ("keyword_type", "struct class { u8 a; };"), ("keyword_field", "struct S { u8 int; };"), ("keyword_const", "const import = 1;"),
    ("nothing", ""), ("only_const", "const A = -9223372036854775808;\nconst B = 18446744073709551615;\n"),
    ("same_values", "enum E { A = 1, B = 1, C = 2, D = 1 };\nstruct S { E e; E f<>; };"),
    ("widest_values", "enum E { A = 0xFFFFFFFF };\nunion U { 0xFFFFFFFF: E a; 0: u8 b; };"),
    ("optional_union", "union U { 1: u64 a; };\nstruct S { U* a; U b<3>; U c[2]; U d<>; U e<...>; };"),
    ("twice_dynamic", "struct D { u8 a<>; };\nstruct S { D a<>; D b; u64 c; D d<...>; };"),
    ("last_limited", "struct S { u16 n; u8 a<@n>; u8 b<3>; };"), ("bytes", "struct S { bytes a[2]; bytes b<2>; bytes c<>; bytes d<...>; };"),
]


def regression(text):
    def run(ctx):
        with tool.Workdir(ctx.scratch) as work:
            for o, source in (("python", None), ("cpp", "x.pp.cpp"), ("cpp_full", "x.ppf.cpp")):
                out = tool.compile_text(text, work, [o])
                if out.ok and source:
                    code, err = compile_cpp(os.path.join(work, o), source)
                    if code:
                        raise Violation("{} does not compile".format(source), schema=text, compiler=err)
                elif out.ok:
                    with tool.Imported(os.path.join(work, "python")) as imp:
                        try:
                            imp.load("x")
                        except Exception as e:
                            raise Violation("the Python module does not import: " + tool.describe_error(e), schema=text)
    return run


def patched_empty(ctx):
    with tool.Workdir(ctx.scratch) as work:
        tool.write(os.path.join(work, "x.xml"), '<x><struct name="S"><member name="a" type="u8"/></struct></x>')
        tool.write(os.path.join(work, "x.patch"), "S remove a\n")
        for o, source in (("cpp", "x.pp.cpp"), ("cpp_full", "x.ppf.cpp")):
            os.makedirs(os.path.join(work, o))
            out = tool.run_prophyc(["--isar", "-p", "x.patch", "--{}_out".format(o), o, "x.xml"], work)
            code, err = compile_cpp(os.path.join(work, o), source) if out.ok else (0, "")
            if code:
                raise Violation("{} of a struct without members does not compile".format(source), compiler=err)


REGRESSIONS = [(name, regression(text)) for name, text in CASES] + [("patched_empty", patched_empty)]


def failing(fn):
    def run(ctx):
        if fn(ctx):
            raise Violation("known finding")
    return run


KNOWN = {"library_name": failing(library_name), "part_name": failing(part_name)}
