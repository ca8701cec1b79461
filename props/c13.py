"""C13: prophyc ends with all its outputs or with a designed diagnostic, whatever it is given."""
import os
import re
import signal
import subprocess
import sys

from vlib import gen, isar, textmut, tool
from vlib.engine import Section, Violation, fingerprint
from vlib.schema import prophy_text

RULE = ("a case is one run of prophyc.main; non-trivial: the input differs from a valid schema, or the option list is not "
        "a plain valid one; distinct by the contents of the input files and the options")
ASSUMPTIONS = ["a run which burns 20 s of CPU time, and 60 s when repeated, counts as not terminating",
               "diagnostics of the generators and of isar and patch files need no line and column",
               "outputs are only required to be written, C12 decides if they are usable"]
CPU_LIMIT = 20
EXTENSIONS = {"python": [".py"], "cpp": [".pp.hpp", ".pp.cpp"], "cpp_full": [".ppf.hpp", ".ppf.cpp"], "prophy": [".prophy"]}


class Slow(BaseException):
    pass


def _alarm(*_):
    raise Slow()


def run_limited(args, cwd, limit):
    old = signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, limit)
    try:
        out = tool.run_prophyc(args, cwd)
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        return out
    except Slow:
        return None
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)


def judge(ctx, args, cwd, files, prophy_inputs=(), expect_outs=(), stems=(), label="", trivial=False):
    """Runs prophyc and decides if its ending is a designed one."""
    import prophyc

    def fail(message):
        detail = {"args": " ".join(args)}
        for name, text in files:
            detail["file " + name] = text if isinstance(text, str) else text.hex()
        raise Violation(message, **detail)

    out = run_limited(args, cwd, CPU_LIMIT)
    if out is None and run_limited(args, cwd, 3 * CPU_LIMIT) is None:
        fail("prophyc did not end within {} s of CPU time".format(3 * CPU_LIMIT))
    if out is None:
        ctx.stats.label("slow")
        return None
    ctx.stats.hit(None if trivial else fingerprint(args, [(n, t) for n, t in files]))
    ctx.stats.label("input:" + label)
    if out.ok:
        ctx.stats.label("ending:success")
        for o in expect_outs:
            for stem in stems:
                for ext in EXTENSIONS[o]:
                    if not os.path.isfile(os.path.join(cwd, o, stem + ext)):
                        fail("prophyc succeeded without writing {}{}".format(stem, ext))
        return True
    if isinstance(out.error, SystemExit):
        if out.error.code in (0, None) and any(a in ("-h", "--help") for a in args):
            ctx.stats.label("ending:help")
            return True
        fail("prophyc called sys.exit({!r})".format(out.error.code))
    if not isinstance(out.error, prophyc.ProphycError):
        fail("prophyc raised " + tool.describe_error(out.error)[:500])
    ctx.stats.label("ending:diagnostic")
    text = str(out.error)
    if not re.match(r"[^\n]*: error: .", text):
        fail("the diagnostic is not of the form 'location: error: reason': " + text[:300])
    cause = out.error.__context__
    if prophy_inputs and type(cause).__name__ == "ParseError":
        if text.startswith("prophyc: error: "):
            text = text[len("prophyc: error: "):]
        ours = dict(prophy_inputs)
        for line in [x for x in text.split("\n") if ": error: " in x][:30]:
            m = re.match(r"(.*?):(\d+):(-?\d+): error: ", line)
            if not m:
                if re.match(r".*: error: file cannot be read", line):
                    continue
                fail("a diagnostic of schema text lacks file:line:column: " + line[:300])
            name = os.path.basename(m.group(1))
            if name in ours and isinstance(ours[name], str):
                count = ours[name].count("\n") + 1
                if not 1 <= int(m.group(2)) <= count:
                    fail("a diagnostic points at line {} of {}: {}".format(m.group(2), count, line[:300]))
        ctx.stats.label("diagnostic with line and column")
    return False


def gen_outs(src):
    return [o for o in ("python", "cpp", "cpp_full", "prophy") if src.chance(60)] or ["python"]


def out_args(outs, cwd):
    args = []
    for o in outs:
        os.makedirs(os.path.join(cwd, o), exist_ok=True)
        args += ["--{}_out".format(o), o]
    return args


def section_text(src, ctx):
    schema = gen.gen_schema(src, gen.Cfg(max_decls=6))
    text = prophy_text(schema)
    with tool.Workdir(ctx.scratch) as work:
        for _ in range(12):
            with src.span():
                if src.chance(92):
                    bad = textmut.corrupt_tokens(src, text)
                else:
                    bad = textmut.random_text(src)
                tool.write(os.path.join(work, "x.prophy"), bad)
                outs = gen_outs(src)
                args = out_args(outs, work) + (["--quiet"] if src.chance(20) else []) + ["x.prophy"]
                judge(ctx, args, work, [("x.prophy", bad)], [("x.prophy", bad)], outs, ["x"], "prophy text",
                      trivial=bad == text)
        if ctx.stats.wants_sample():
            ctx.stats.sample(repr(bad))


SPACES = [" ", "  ", "\t", "\n", "\n\n\n", "\r\n", " // c\n", " //\n", " /* c */",
          " /* c\n */", " /*\n\n * c\n\n */", " /**/", "\n// c\n// c\n"]

# tokens of a declaration with one fault, index of the token which is at fault
FAULTS = [
    ("undeclared type", "struct Zq { u8 a ; NoType b ; } ;", 6),
    ("undeclared type", "struct Zq { u8 a ; NoType b < > ; u8 c ; } ;", 6),
    ("undeclared type", "typedef NoType Zq ;", 1),
    ("undeclared type", "union Zq { 0 : u8 a ; 1 : NoType b ; } ;", 10),
    ("undeclared constant", "const Zq = NoConst ;", 3),
    ("undeclared constant", "const Zq = 1 + ( 2 * NoConst ) ;", 8),
    ("undeclared constant", "enum Zq { Zq_A = 1 , Zq_B = NoConst } ;", 9),
    ("undeclared constant", "struct Zq { u8 a [ NoConst ] ; } ;", 6),
    ("undeclared constant", "struct Zq { u8 a < 1 + NoConst > ; } ;", 8),
    ("undeclared constant", "union Zq { NoConst : u8 a ; } ;", 3),
    ("syntax", "struct Zq { u8 u8 ; } ;", 4),
    ("syntax", "struct Zq { u8 a u8 b ; } ;", 5),
    ("syntax", "const Zq = 1 2 ;", 4),
    ("syntax", "const Zq 2 ;", 2),
    ("syntax", "enum Zq { } ;", 3),
    ("syntax", "enum Zq { Zq_A = 1 Zq_B = 2 } ;", 6),
    ("syntax", "union Zq { u8 a ; } ;", 3),
    ("syntax", "typedef u8 ;", 2),
    ("syntax", "struct Zq { u8 a [ ] ; } ;", 6),
    ("syntax", "struct Zq { u8 a ; ; } ;", 6),
    ("declaration", "struct Zq { u8 a ; u8 a ; } ;", None),
    ("declaration", "struct Zq { u8 a < ... > ; u8 b ; } ;", None),
    ("declaration", "struct Zq { u8 a < @ n > ; } ;", None),
    ("declaration", "struct Zq { u8 a [ 0 ] ; } ;", None),
    ("declaration", "struct Zq { u8 a [ 1 - 2 ] ; } ;", None),
    ("declaration", "union Zq { 1 : u8 a ; 1 : u8 b ; } ;", None),
    ("declaration", "union Zq { 1 : u8 a ; 2 : u8 a ; } ;", None),
    ("declaration", "enum Zq { Zq_A = 1 , Zq_A = 2 } ;", None),
    ("declaration", "enum Zq { Zq_A = 0x100000000 } ;", None),
    ("declaration", "const Zq = 1 / 0 ;", None),
    ("declaration", "const Zq = 1 << 64 ;", None),
    ("declaration", "const Zq = 1 ; const Zq = 2 ;", None),
]
FAULTS += [("size", "struct Zq {{ u8 a {} {} {} ; }} ;".format(left, size, right), None)
           for left, right in ("[]", "<>")
           for size in ("( 0 )", "0x0", "00", "- 1", "- ( 1 )", "( - 1 )", "( ( 1 ) - 1 )", "1 - ( 2 )", "0 * 3", "1 >> 1")]
FAULTS += [("value", form.format(value), None)
           for form in ("const Zq = {} ;", "enum Zq {{ Zq_A = {} }} ;", "union Zq {{ {} : u8 a ; }} ;")
           for value in ("( 1 / 0 )", "1 + ( 2 / ( 1 - 1 ) )", "- ( 1 / 0 )", "( 1 << 64 )", "1 << ( - 1 )", "- 0xffffffffffffffff",
                         "0xffffffffffffffff + ( 1 )")]
FAULTS += [("value", form.format(value), None)
           for form in ("enum Zq {{ Zq_A = 1 , Zq_B = {} }} ;", "union Zq {{ 1 : u8 a ; {} : u8 b ; }} ;")
           for value in ("( 0x100000000 )", "0x80000000 * 2", "( 1 ) << 32")]


def section_positions(src, ctx):
    """A text with one fault: the diagnostic has to point at the token which is at fault, or into the declaration."""
    schema = gen.gen_schema(src, gen.Cfg(max_decls=4))
    decls = [[t for t in textmut.tokens(prophy_text([d])) if not t.isspace()] for d in schema.decls]
    with tool.Workdir(ctx.scratch) as work:
        for _ in range(6):
            with src.span():
                at = src.int(0, len(decls))
                if src.chance(30):
                    kind, index = "illegal character", None
                    whole = [list(d) for d in decls]
                    at = min(at, len(whole) - 1)
                    index = src.int(0, len(whole[at]))
                    whole[at].insert(index, src.choice("$?!%^&|`~\\"))
                else:
                    kind, fault, index = src.choice(FAULTS)
                    whole = decls[:at] + [fault.split(" ")] + decls[at:]
                dense = src.chance(50)
                text, first, last, spot = src.choice(["", "\n", "// c\n", "/* c\n\n */\n"]), 0, 0, None
                for d, tokens in enumerate(whole):
                    for t, token in enumerate(tokens):
                        if d == at and t == 0:
                            first = len(text)
                        if d == at and t == index:
                            spot = len(text)
                        text += token
                        last = len(text) if d == at else last
                        text += src.choice(SPACES) if dense and src.chance(50) else " "
                    text += "\n"
                include = src.chance(30)
                files = [("x.prophy", text)]
                if include:
                    files = [("x.prophy", text), ("y.prophy", '// c\n#include "x.prophy"\n')]
                for name, content in files:
                    tool.write(os.path.join(work, name), content)
                args = out_args(["python"], work) + [files[-1][0]]
                out = tool.run_prophyc(args, work)
                ctx.stats.hit(fingerprint(text, include))
                ctx.stats.label("fault:" + kind)

                def fail(message):
                    raise Violation(message, args=" ".join(args), **{"file " + n: c for n, c in files})

                if out.ok:
                    fail("a text with a fault ({}) is accepted".format(kind))
                places = [(os.path.basename(m.group(1)), int(m.group(2)), int(m.group(3)))
                          for m in re.finditer(r"(?m)^(?:prophyc: error: )?(\S+?):(\d+):(\d+): error: ", str(out.error))]
                if not places:
                    fail("no diagnostic with file:line:column: " + str(out.error)[:300])

                def place(offset):
                    return "x.prophy", text.count("\n", 0, offset) + 1, offset - text.rfind("\n", 0, offset)

                if spot is not None:
                    if place(spot) not in places:
                        fail("a fault ({}) at {} is reported at {}".format(kind, place(spot), places))
                elif not any(place(first) <= x <= place(last) for x in places):
                    fail("a fault between {} and {} is reported at {}".format(place(first), place(last), places))
        if ctx.stats.wants_sample():
            ctx.stats.sample(text)


def section_isar(src, ctx):
    schema = gen.gen_schema(src, gen.Cfg(max_decls=6))
    names = [d.name for d in schema.decls]
    fields = [gen.field_name(i) for i in range(4)]
    with tool.Workdir(ctx.scratch) as work:
        render = isar.Render(src, schema)
        xml, patch = render.render()
        for _ in range(10):
            with src.span():
                bad = xml
                kind = src.weighted([(12, "xml"), (4, "patch"), (1, "text")])
                if kind == "xml":
                    bad = textmut.corrupt_xml(src, xml)
                elif kind == "text":
                    bad = textmut.random_text(src, textmut.DICT + textmut.TAGS)
                files = [("x.xml", bad)]
                args = []
                if kind == "patch":
                    script = textmut.random_patch(src, names, fields)
                    if src.chance(30):
                        script = textmut.corrupt_tokens(src, patch + script)
                    if src.chance(3):
                        script = b"\xff\xfe" + script.encode("utf-8")
                elif src.chance(70):
                    script = patch
                else:
                    script = None
                if script is not None:
                    files.append(("x.patch", script))
                    args += ["-p", "x.patch"]
                for name, content in files:
                    tool.write(os.path.join(work, name), content)
                outs = gen_outs(src)
                args += ["--isar"] + out_args(outs, work) + (["--quiet"] if src.chance(20) else []) + ["x.xml"]
                judge(ctx, args, work, files, (), outs, ["x"], "isar " + kind)
        if ctx.stats.wants_sample():
            ctx.stats.sample(bad if isinstance(bad, str) else bad.hex())


def section_cycles(src, ctx):
    """isar definitions with arbitrary references between them, cycles included."""
    n = src.int(1, 7)
    names = ["N{}".format(i) for i in range(n)]
    kinds = [src.choice(["typedef", "struct", "union", "constant", "enum", "message"]) for _ in names]

    def ref():
        return src.choice(names + ["u8"])
    out = []
    for name, kind in zip(names, kinds):
        with src.span():
            if kind == "typedef":
                out.append('<typedef name="{}" type="{}"/>'.format(name, ref()))
            elif kind == "constant":
                out.append('<constant name="{}" value="{}"/>'.format(
                    name, src.choice(["{}", "{} + 1", "{}*2", "(1 {})", "-{}", "{0} / {0}"]).format(ref())))
            elif kind == "enum":
                out.append('<enum name="{}"><enum-member name="{}" value="{}"/></enum>'.format(
                    name, src.choice(["M_" + name, name, ref()]), ref()))
            elif kind == "union":
                out.append('<union name="{}"><member name="a" type="{}" discriminatorValue="{}"/></union>'.format(
                    name, ref(), src.choice(["1", ref()])))
            else:
                members = []
                for i in range(src.int(1, 3)):
                    dim = src.choice(["", '<dimension size="{}"/>'.format(ref()), '<dimension isVariableSize="true"/>',
                                      '<dimension size="2"/>'])
                    members.append('<member name="f{}" type="{}">{}</member>'.format(i, ref(), dim))
                out.append('<{0} name="{1}">{2}</{0}>'.format(kind, name, "".join(members)))
    xml = "<xml>" + "\n".join(src.shuffle(out)) + "</xml>"
    with tool.Workdir(ctx.scratch) as work:
        tool.write(os.path.join(work, "x.xml"), xml)
        outs = gen_outs(src)
        args = ["--isar"] + out_args(outs, work) + ["x.xml"]
        judge(ctx, args, work, [("x.xml", xml)], (), outs, ["x"], "isar references")


def section_includes(src, ctx):
    """Files including each other in any way."""
    is_isar = src.chance(40)
    ext = ".xml" if is_isar else ".prophy"
    n = src.int(1, 5)
    stems = ["f{}".format(i) for i in range(n)]
    with tool.Workdir(ctx.scratch) as work:
        dirs = ["", "d", "d/e"]
        os.makedirs(os.path.join(work, "d", "e"))
        places = {s: src.choice(dirs) for s in stems}
        files = []
        for s in stems:
            with src.span():
                includes = []
                while src.more(len(includes), 0, 4, 60):
                    t = src.choice(stems)
                    includes.append(src.choice([t + ext, os.path.join(places[t], t + ext), "../" + t + ext, "./" + t + ext,
                                                "d", "", "none" + ext, "/" + t, t, "d/../d/" + t + ext, "x" * 300]))
                body = "const C_{0} = 1;\nstruct S_{0} {{ u8 a[C_{0}]; }};\n".format(s)
                if is_isar:
                    body = '<constant name="C_{0}" value="1"/><struct name="S_{0}"><member name="a" type="{1}"/></struct>'.format(
                        s, src.choice(["u8", "S_f0", "S_" + src.choice(stems)]))
                    text = isar.Render.document([body], includes)
                else:
                    text = "".join('#include "{}"\n'.format(i) for i in includes) + body
                    if src.chance(20):
                        text = body + "".join('#include "{}"\n'.format(i) for i in includes)
                if src.chance(5):
                    text = textmut.random_text(src)
                path = os.path.join(places[s], s + ext)
                files.append((path, text))
                tool.write(os.path.join(work, path), text)
        outs = gen_outs(src)
        inputs = [p for p, _ in files if src.chance(50)] or [files[0][0]]
        args = (["--isar"] if is_isar else []) + out_args(outs, work)
        for d in dirs:
            if src.chance(40):
                args += ["-I", d or "."]
        judge(ctx, args + inputs, work, files, [] if is_isar else [(os.path.basename(p), t) for p, t in files], outs,
              [os.path.splitext(os.path.basename(p))[0] for p in inputs], "includes")


def section_options(src, ctx):
    with tool.Workdir(ctx.scratch) as work:
        files = [("x.prophy", "struct A { u8 a; };\n"), ("y.prophy", "struct B { u8 a; };\n"), ("bad.prophy", "struct {"),
                 ("x.xml", "<xml><struct name='A'><member name='a' type='u8'/></struct></xml>\n"), ("empty", ""),
                 ("p.patch", "A remove a\n"), ("bin", b"\xff\x00\xfe"), ("x.hpp", "struct A { int a; };\n")]
        for name, text in files:
            tool.write(os.path.join(work, name), text)
        os.makedirs(os.path.join(work, "out"))
        words = ["--isar", "--sack", "-I", "--include_dir", "-S", "--include_isar", "-p", "--patch", "--python_out",
                 "--cpp_out", "--cpp_full_out", "--prophy_out", "--void_out", "--version", "--quiet", "--help", "-h", "--bogus",
                 "out", ".", "none", "x.prophy", "y.prophy", "bad.prophy", "x.xml", "empty", "p.patch", "bin", "x.hpp", "", "-",
                 "--", "--python_out=out", "--cpp_full_out=out", "-Iout", "--patch=p.patch", "out/../x.prophy"]
        args = []
        while src.more(len(args), 0, 9, 85):
            args.append(src.choice(words))
        judge(ctx, args, work, files[:0] + [("(fixed set)", "")], (), (), (), "options")


def section_large(src, ctx):
    """Many definitions, deep expressions and long chains or ladders of includes."""
    kind = src.choice(["chain", "ladder", "deep", "wide"])
    n = src.int(20, 150)
    with tool.Workdir(ctx.scratch) as work:
        files, args, inputs = [], [], []
        if kind == "chain":
            order = src.shuffle(range(n))
            step = src.int(1, 3)
            wrap = src.chance(30)
            out = []
            what = src.choice(["struct", "typedef", "constant", "mixed"])
            for i in order:
                ref = "N{}".format((i + step) % n) if i + step < n or wrap else "u8" if what != "constant" else "1"
                if what == "constant":
                    out.append('<constant name="N{}" value="{} + 1"/>'.format(i, ref))
                elif what == "typedef" or what == "mixed" and i % 2:
                    out.append('<typedef name="N{}" type="{}"/>'.format(i, ref))
                else:
                    out.append('<struct name="N{}"><member name="a" type="{}"/></struct>'.format(i, ref))
            files, args, inputs = [("x.xml", "<xml>" + "\n".join(out) + "</xml>")], ["--isar"], ["x.xml"]
        elif kind == "ladder":
            is_isar = src.chance(50)
            ext = ".xml" if is_isar else ".prophy"
            depth = min(n, src.int(2, 40))
            for i in range(depth):
                for k in "ab":
                    names = ["f{}{}{}".format(i + 1, j, ext) for j in "ab"] if i + 1 < depth else []
                    if is_isar:
                        text = isar.Render.document(
                            ['<struct name="S{}{}"><member name="a" type="u8"/></struct>'.format(i, k)], names)
                    else:
                        text = "".join('#include "{}"\n'.format(x) for x in names) + "struct S{}{} {{ u8 a; }};\n".format(i, k)
                    files.append(("f{}{}{}".format(i, k, ext), text))
            args, inputs = ["--isar"] if is_isar else [], [files[0][0]]
            if is_isar and src.chance(50):
                how, main = src.choice([("--sack", ("x.hpp", "struct X { int a; };\n")),
                                        ("--isar", ("x.xml", '<xml><constant name="X" value="1"/></xml>'))])
                files.append(main)
                args, inputs = [how, "-S", files[0][0]], [main[0]]
        elif kind == "deep":
            m = src.choice([10, 100, 1000, 3000])
            left, right = src.choice([("(", ")"), ("-(", ")"), ("1+(", ")"), ("-", ""), ("1-", ""), ("1<<(", "-1)")])
            text = left * m + "1" + right * m
            if src.chance(50):
                files, inputs = [("x.prophy", "const A = {};\nstruct S {{ u8 a[{}]; }};\n".format(text, text))], ["x.prophy"]
            else:
                files, args, inputs = [("x.xml", '<xml><constant name="A" value="{0}"/><struct name="S"><member name="a" type="u8">'
                                        '<dimension size="{0}"/></member></struct>{1}{2}</xml>'.format(
                                            text.replace("<", "&lt;"), "<a>" * m, "</a>" * m))], ["--isar"], ["x.xml"]
        else:
            text = "enum E {{ {} }};\n".format(", ".join("E_{0} = {0}".format(i) for i in range(n * 5)))
            text += "union U {{ {} }};\n".format(" ".join("{0}: u8 a{0};".format(i) for i in range(n * 5)))
            text += "struct S {{ {} }};\n".format(" ".join("U a{0}<E_{1}>;".format(i, i + 1) for i in range(n)))
            files, inputs = [("x.prophy", text)], ["x.prophy"]
        for name, text in files:
            tool.write(os.path.join(work, name), text)
        outs = gen_outs(src)
        judge(ctx, args + out_args(outs, work) + inputs, work, files, [] if args else files, outs,
              [os.path.splitext(inputs[0])[0]], "large " + kind)


HEADER = """#include <stdint.h>
#include <vector>
#include <string>
namespace n { enum E { E_A = 1, E_B = 2 }; typedef uint16_t T; }
struct Inner { uint8_t a; uint64_t b; n::E e; n::T t; };
union U { uint8_t a; Inner b; };
struct Outer { Inner i[3]; U u; char text[4]; double d; float f; int64_t* p; struct { int x; } anon; Inner list[]; };
template <typename X> struct Box { X x; };
struct Derived : Inner { Box<int> box; bool flag; int bits : 3; };
"""


# @ stands for a number which is different in every definition
CPP_DEFINITIONS = """struct S@ { $ a; $ b; };
struct S@ { $ a[2][3]; $ b[0]; $ c[]; };
struct S@ { $* a; $& b; const $ c; volatile $ d; $ const* const e; };
struct S@ { $ (*a)(int); $ (S@::*b)(); int S@::*c; S@* d; };
struct S@ { struct { $ a; } b; union { $ c; int d; }; enum { E@_A, E@_B } e; struct { $ f; }; };
struct S@ { struct N@ { $ a; N@* b; } n; N@ m[2]; };
struct S@ : Inner { virtual ~S@(); virtual $ f(); static $ g; $ h; };
struct S@ : virtual Inner, U@ { $ a; };
struct S@;
struct S@ {};
struct S@ { S@ a; };
struct S@ { S@ a[2]; $ b };
class S@ { $ a; public: $ b; protected: int c : 3; unsigned d : 31; };
struct S@ { long double a; wchar_t b; char16_t c; char32_t d; signed char e; __int128 f; unsigned __int128 g; };
struct S@ { std::vector<$> a; std::string b; Box<$> c; Box<Box<$> > d; };
struct S@ { decltype(nullptr) a; _Complex double b; __attribute__((vector_size(16))) float c; _Atomic int d; };
struct S@ { bool a; std::size_t b; long c; unsigned long long d; short e; void* f; char g[1]; };
struct S@ { alignas(32) $ a; char b[sizeof($)]; int c[1 << 20]; };
struct S@ { $ a = $(); mutable $ b; S@() {} S@(const S@&); template <typename T> void f(T); using X = $; X x; typedef $ Y; Y y; };
union U@ { $ a; char b[8]; struct { int x; } c; };
union U@ { };
enum E@ { E@_A = -1, E@_B = 0x7fffffff };
enum E@ : unsigned long long { E@_A = 0xffffffffffffffffULL, E@_B = 1 };
enum E@ : long long { E@_A = -0x7fffffffffffffffLL };
enum E@ : unsigned char;
enum E@ { };
enum class E@ : char { A, B = 5, C = A };
enum class E@;
enum { ANON@ = 3 };
typedef struct { $ a; } T@;
typedef struct T@_ { $ a; } T@;
typedef enum { T@_A } T@;
typedef $ T@[3];
typedef $* T@;
using T@ = $;
template <typename X, int N> struct T@ { X x[N]; };
template <> struct Box<struct S@> { int a; };
namespace n@ { struct S@ { $ a; }; namespace { struct A@ { $ a; }; } }
extern "C" { struct S@ { $ a; }; }
extern "C++" { struct S@ { $ a; }; enum E@ { E@_A }; }
inline namespace v@ { struct S@ { $ a; }; }
static const int c@ = 3;
struct S@ { int a[c@ + 1]; };
int f@($ a);
$ v@;
#define M@ struct S@ { $ a; };
M@
#include "none@.h"
#error e@
struct S@ { $ a; } s@, *t@;
struct S@ { Unknown@ a; $ b; };
struct Inner { int again@; };
auto l@ = [] { struct S@ { int a; }; };
struct __attribute__((packed)) S@ { $ a; };
""".splitlines()
CPP_TYPES = "int unsigned char double Inner U n::E n::T Box<int> std::vector<int> S0 S1 S2 S3 T0 T1 T2 E0 E1 E2 U0 U1 U2 void auto".split()


def random_header(src):
    out = [HEADER]
    for i in range(src.choice([1, 2, 3, 5, 8, 40])):
        text = src.choice(CPP_DEFINITIONS).replace("@", str(i))
        while "$" in text:
            text = text.replace("$", src.choice(CPP_TYPES), 1)
        out.append(text + "\n")
    return "".join(out)


def section_sack(src, ctx):
    """Corrupted C++ headers and headers of everything C++ has."""
    if src.chance(50):
        text = textmut.corrupt_tokens(src, HEADER, words=[w for w in textmut.DICT if len(w) < 100] + ["int", "Inner", "n::", "class"])
    else:
        text = random_header(src)
    with tool.Workdir(ctx.scratch) as work:
        files = [("x.hpp", text)]
        args = ["--sack"]
        if src.chance(30):
            files.append(("x.patch", textmut.random_patch(src, ["Inner", "U", "Outer", "Derived"], ["a", "b", "i", "u"])))
            args += ["-p", "x.patch"]
        if src.chance(30):
            files.append(("y.xml", '<xml><constant name="C1" value="2"/><struct name="Y"><member name="a" type="u8"/></struct></xml>'))
            args += ["-S", "y.xml"]
        for name, content in files:
            tool.write(os.path.join(work, name), content)
        outs = gen_outs(src)
        judge(ctx, args + out_args(outs, work) + ["x.hpp"], work, files, (), outs, ["x"], "sack")


def section_cli(src, ctx):
    """The same through the command line: exit status 0 or 1 and no traceback."""
    schema = gen.gen_schema(src, gen.Cfg(max_decls=4))
    text = prophy_text(schema)
    bad = text if src.chance(30) else textmut.corrupt_tokens(src, text)
    with tool.Workdir(ctx.scratch) as work:
        tool.write(os.path.join(work, "x.prophy"), bad)
        args = out_args(["python"], work) + ["x.prophy"]
        ok = judge(ctx, args, work, [("x.prophy", bad)], [("x.prophy", bad)], ["python"], ["x"], "command line", bad == text)
        env = dict(os.environ, PYTHONPATH=tool.REPO, PYTHONDONTWRITEBYTECODE="1")
        try:
            p = subprocess.run([sys.executable, "-m", "prophyc"] + args, cwd=work, env=env, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, timeout=300)
        except subprocess.TimeoutExpired:
            ctx.stats.label("slow")
            return
        err = p.stderr.decode("utf-8", "replace")
        if "Traceback" in err or p.returncode != (0 if ok else 1) or (not ok and ": error: " not in err):
            raise Violation("the command line ended with status {}".format(p.returncode), text=bad, stderr=err[-2000:])


SECTIONS = [
    Section("text", section_text, quick=900, thorough=20000),
    Section("positions", section_positions, quick=800, thorough=8000),
    Section("isar", section_isar, quick=900, thorough=20000),
    Section("cycles", section_cycles, quick=4000, thorough=60000),
    Section("includes", section_includes, quick=2500, thorough=40000),
    Section("options", section_options, quick=1500, thorough=20000),
    Section("large", section_large, quick=160, thorough=2500),
    Section("sack", section_sack, quick=800, thorough=12000),
    Section("cli", section_cli, quick=48, thorough=400),
]
LIMIT_AS = 4 << 30
