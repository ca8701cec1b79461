"""C14: constant expressions denote one integer, the same in both evaluators and every back-end."""
import os
from xml.sax.saxutils import quoteattr

from vlib import cpp, ref, tool
from vlib.engine import Discard, Section, Violation, fingerprint

RULE = ("a case is one expression of one schema, its value compared with big-integer arithmetic in the parser's model, "
        "calc.eval, the generated Python module and (C++ sections) compiled C++; "
        "non-trivial: at least one operator or a reference; distinct by its tree with names replaced by values")
ASSUMPTIONS = ["right shift of a negative number rounds down; the documentation does not define it otherwise",
               "expressions in isar are limited to what its files contain: decimal and hexadecimal literals, operators, "
               "names and, in constants and enumerators, shiftLeft and bitMaskOr",
               "constants lie in the range that C++ can hold, -2^63 to 2^64-1; enumerators and discriminators in 0 to 2^32-1"]

LEVEL = {"+": 1, "-": 1, "*": 2, "/": 2, "<<": 3, ">>": 3}
MAX_BITS = 400


class Lit(object):
    level = 5

    def __init__(self, value, text):
        self.value, self.text = value, text


class Ref(object):
    level = 5

    def __init__(self, name, value):
        self.text, self.value = name, value


class Neg(object):
    level = 4

    def __init__(self, a):
        self.a, self.value = a, -a.value


class Bin(object):
    def __init__(self, op, a, b):
        self.op, self.a, self.b = op, a, b
        self.level = LEVEL[op]
        x, y = a.value, b.value
        self.value = x + y if op == "+" else x - y if op == "-" else x * y if op == "*" else \
            x // y if op == "/" else x * 2 ** y if op == "<<" else x // 2 ** y


class Call(object):
    """shiftLeft(a, b) and bitMaskOr(a, b) of isar."""
    level = 5

    def __init__(self, name, a, b):
        self.name, self.a, self.b = name, a, b
        self.value = a.value * 2 ** b.value if name == "shiftLeft" else a.value | b.value


def literal(src, octal):
    kind = src.weighted([(6, "small"), (3, "byte"), (2, "wide"), (1, "edge"), (1, "huge")])
    if kind == "small":
        v = src.int(0, 9)
    elif kind == "byte":
        v = src.int(0, 300)
    elif kind == "wide":
        v = src.int(0, 2 ** 32)
    elif kind == "huge":
        v = src.int(0, 2 ** 64)
    else:
        v = 2 ** src.int(0, 64) - src.int(0, 1)
    form = src.weighted([(5, "dec"), (3, "hex"), (3 if octal else 0, "oct")])
    if form == "hex":
        digits = "{:x}".format(v)
        if src.chance(40):
            digits = digits.upper()
        text = "0x" + "0" * src.choice([0, 0, 0, 1, 3]) + digits
    elif form == "oct":
        text = "0" + "0" * src.choice([0, 0, 0, 1, 3]) + "{:o}".format(v)
    else:
        text = str(v)
    return Lit(v, text)


def tree(src, names, depth, octal, calls):
    """A random expression; every shape is reachable, operands are repaired where an operator does not allow them."""
    with src.span():
        if depth <= 0 or not src.chance(75):
            if names and src.chance(45):
                return Ref(*src.choice(names))
            return literal(src, octal)
        kind = src.weighted([(12, "bin"), (2, "neg"), (2 if calls else 0, "call")])
        a = tree(src, names, depth - 1, octal, calls)
        if kind == "neg":
            return Neg(a)
        b = tree(src, names, depth - 1, octal, calls)
        if kind == "call":
            name = src.choice(["shiftLeft", "bitMaskOr"])
            if name == "shiftLeft" and not 0 <= b.value <= 70:
                b = Lit(src.int(0, 40), None)
                b.text = str(b.value)
            if name == "bitMaskOr" and (a.value < 0 or b.value < 0):
                name = "shiftLeft" if 0 <= b.value <= 70 else None
            if name:
                out = Call(name, a, b)
                return out if out.value.bit_length() <= MAX_BITS else a
            return a
        op = src.choice(["+", "-", "*", "/", "<<", ">>"])
        if op in ("<<", ">>") and not 0 <= b.value <= 70:
            b = Lit(src.int(0, 40), None)
            b.text = str(b.value)
        if op == "/" and a.value < 0:
            op = "-"
        if op == "/" and b.value <= 0:
            b = Lit(src.int(1, 9), None)
            b.text = str(b.value)
        out = Bin(op, a, b)
        return out if out.value.bit_length() <= MAX_BITS else a


def fit(src, t, lo, hi):
    """The expression, corrected by another operation if its value is out of range."""
    if lo <= t.value <= hi:
        return t
    v = src.int(lo, hi)
    d = v - t.value
    form = src.int(0, 2)
    lit = Lit(abs(d), hex(abs(d)) if form == 2 else str(abs(d)))
    if form == 1:
        return Bin("+", lit, t) if d >= 0 else Bin("+", Neg(lit), t)
    return Bin("+", t, lit) if d >= 0 else Bin("-", t, lit)


PROPHY_BLANKS = ["", "", "", " ", " ", "\t", "\n", " /* 1 + */ ", " // 2\n", "  "]
ISAR_BLANKS = ["", "", " ", " ", "\t", "  "]


class Printer(object):
    def __init__(self, src, blanks):
        self.src, self.blanks = src, blanks

    def text(self, t):
        return self.pr(t, 0)

    def blank(self):
        return self.src.choice(self.blanks)

    def pr(self, t, level):
        if t.level < level or self.src.chance(6):
            return "(" + self.blank() + self.raw(t) + self.blank() + ")"
        return self.raw(t)

    def raw(self, t):
        if isinstance(t, (Lit, Ref)):
            return t.text
        if isinstance(t, Neg):
            return "-" + self.blank() + self.pr(t.a, t.level)
        if isinstance(t, Call):
            return "{}({}{}, {}{})".format(t.name, self.blank(), self.pr(t.a, 0), self.pr(t.b, 0), self.blank())
        return self.pr(t.a, t.level) + self.blank() + t.op + self.blank() + self.pr(t.b, t.level + 1)


def shape(t):
    if isinstance(t, Ref):
        return ("r", t.value)
    if isinstance(t, Lit):
        return t.value
    if isinstance(t, Neg):
        return ("-", shape(t.a))
    return (getattr(t, "op", None) or t.name, shape(t.a), shape(t.b))


def operators(t, out):
    if isinstance(t, Ref):
        out.add("reference")
    elif isinstance(t, Lit):
        out.add("hex literal" if t.text.startswith("0x") else
                "octal literal" if t.text.startswith("0") and t.text != "0" else "decimal literal")
    elif isinstance(t, Neg):
        out.add("unary minus")
        operators(t.a, out)
    else:
        out.add(getattr(t, "op", None) or t.name)
        operators(t.a, out)
        operators(t.b, out)
    return out


# ------------------------------------------------------------------ files of definitions

class Item(object):
    """kind const: exprs[0]; enum: one per member; struct: one per array; union: one per arm."""

    def __init__(self, kind, name, parts):
        self.kind, self.name, self.parts = kind, name, parts


class Part(object):
    def __init__(self, name, tree_, text, how=None, type_=None):
        self.name, self.tree, self.text, self.how, self.type = name, tree_, text, how, type_
        self.value = tree_.value
        self.factor = None


TYPES = [("u8", 1), ("i16", 2), ("u32", 4), ("u64", 8), ("byte", 1)]


def gen_items(src, ctx, isar, names, prefix, count):
    """Items whose expressions refer to `names` [(name, value)], extended with the new ones."""
    printer = Printer(src, ISAR_BLANKS if isar else PROPHY_BLANKS)
    items = []

    def expr(lo, hi, calls=False, depth=None):
        t = tree(src, names, src.int(0, 4) if depth is None else depth, not isar, isar and calls)
        t = fit(src, t, lo, hi)
        text = printer.text(t)
        return t, text

    for i in range(count):
        with src.span():
            kind = src.weighted([(5, "const"), (3, "enum"), (4, "struct"), (2, "union")])
            name = "{}{}{}".format(prefix, kind[0].upper(), i)
            parts = []
            if kind == "const":
                t, text = expr(-2 ** 63, 2 ** 64 - 1, True)
                parts.append(Part(name, t, text))
                names.append((name, t.value))
            elif kind == "enum":
                used = set()
                for k in range(src.int(1, 4)):
                    t, text = expr(0, 2 ** 32 - 1, True)
                    if isar and (t.value in used or text.strip().startswith("-")):
                        continue
                    used.add(t.value)
                    parts.append(Part("{}_{}".format(name, k), t, text))
                    names.append((parts[-1].name, t.value))
                if not parts:
                    parts.append(Part(name + "_k", Lit(7, "7"), "7"))
                    names.append((name + "_k", 7))
            elif kind == "struct":
                for k in range(src.int(1, 4)):
                    t, text = expr(1, src.choice([5, 40, 40, 300, 70000]))
                    how = src.choice(["fixed", "limited"])
                    part = Part("f{}".format(k), t, text, how, src.choice(TYPES))
                    if isar and part.value <= 3000 and src.chance(25):
                        t2, text2 = expr(1, 9, depth=src.int(0, 2))
                        part.factor = (t2, text2)
                        part.value = t.value * t2.value
                    parts.append(part)
            else:
                used = set()
                for k in range(src.int(1, 4)):
                    t, text = expr(0, 2 ** 32 - 1)
                    if t.value in used:
                        continue
                    used.add(t.value)
                    parts.append(Part("f{}".format(k), t, text, None, src.choice(TYPES[:4])))
            items.append(Item(kind, name, parts))
            for p in parts:
                ctx.stats.label(kind + " expression", *sorted(operators(p.tree, set())))
                ctx.stats.hit(None if isinstance(p.tree, Lit) else fingerprint([kind, repr(shape(p.tree))]))
    return items


def prophy_doc(items, includes):
    out = ['#include "{}.prophy"\n'.format(i) for i in includes]
    for it in items:
        if it.kind == "const":
            out.append("const {} = {};\n".format(it.name, it.parts[0].text))
        elif it.kind == "enum":
            out.append("enum {}\n{{\n{}\n}};\n".format(it.name, ",\n".join(
                "    {} = {}".format(p.name, p.text) for p in it.parts)))
        elif it.kind == "union":
            out.append("union {}\n{{\n{}\n}};\n".format(it.name, "\n".join(
                "    {}: {} {};".format(p.text, p.type[0], p.name) for p in it.parts)))
        else:
            out.append("struct {}\n{{\n{}\n}};\n".format(it.name, "\n".join(
                "    {} {}{}{}{};".format("bytes" if p.type[0] == "byte" else p.type[0], p.name, *(
                    ["[", p.text, "]"] if p.how == "fixed" else ["<", p.text, ">"])) for p in it.parts)))
    return "".join(out)


def isar_doc(src, items, includes):
    out = []
    for it in items:
        if it.kind == "const":
            out.append("<constant name={} value={}/>\n".format(quoteattr(it.name), quoteattr(it.parts[0].text)))
        elif it.kind == "enum":
            out.append("<enum name={}>{}</enum>\n".format(quoteattr(it.name), "".join(
                "<enum-member name={} value={}/>".format(quoteattr(p.name), quoteattr(p.text)) for p in it.parts)))
        elif it.kind == "union":
            out.append("<union name={}>{}</union>\n".format(quoteattr(it.name), "".join(
                "<member name={} type={} discriminatorValue={}/>".format(
                    quoteattr(p.name), quoteattr(p.type[0]), quoteattr(p.text)) for p in it.parts)))
        else:
            members = []
            for p in it.parts:
                size = "size={}".format(quoteattr(p.text))
                if p.factor:
                    size += " size2={}".format(quoteattr(p.factor[1]))
                if p.how == "limited":
                    size += ' isVariableSize="true" variableSizeFieldName={}'.format(quoteattr("n_" + p.name))
                members.append("<member name={} type={}><dimension {}/></member>".format(
                    quoteattr(p.name), quoteattr(p.type[0]), size))
            out.append("<struct name={}>{}</struct>\n".format(quoteattr(it.name), "".join(members)))
    out = src.shuffle(out) if src.chance(30) else out
    return '<xml xmlns:xi="http://www.w3.org/2001/XInclude">\n' + "".join(
        '<xi:include href="{}.xml"/>\n'.format(i) for i in includes) + "".join(out) + "</xml>\n"


def align(n, a):
    return (n + a - 1) // a * a


def struct_size(item):
    offset, top = 0, 1
    for p in item.parts:
        size, a = p.type[1] * p.value, p.type[1]
        if p.how == "limited":
            # the counter is a field of its own
            offset = align(offset, 4) + 4
            top = max(top, 4)
        offset = align(offset, a) + size
        top = max(top, a)
    return align(offset, top)


class Files(object):
    """One to three files, each including those before it, and the environment of all names."""

    def __init__(self, src, ctx, isar, size):
        self.isar = isar
        count = src.weighted([(6, 1), (3, 2), (2, 3)])
        names, self.files = [], []
        for i in range(count):
            items = gen_items(src, ctx, isar, names, "abc"[i].upper(), src.int(1, size))
            chain = src.chance(30)
            includes = [f[0] for f in self.files]
            self.files.append(("x{}".format(i), items, includes[-1:] if chain and isar else includes))
        self.docs = {}
        for name, items, includes in self.files:
            self.docs[name] = isar_doc(src, items, includes) if isar else prophy_doc(items, includes)
        self.names = dict(names)
        self.ext = ".xml" if isar else ".prophy"

    def items(self):
        for name, items, _ in self.files:
            for it in items:
                yield name, it

    def compile(self, work, outs):
        args = ["--isar"] if self.isar else []
        for o in outs:
            os.makedirs(os.path.join(work, o), exist_ok=True)
            args += ["--{}_out".format(o), os.path.join(work, o)]
        for name in self.docs:
            tool.write(os.path.join(work, name + self.ext), self.docs[name])
        return tool.run_prophyc(args + [os.path.join(work, n + self.ext) for n in self.docs])

    def fail(self, message, **detail):
        raise Violation(message, **dict({n: t for n, t in self.docs.items()}, **detail))


def check_nodes(files, nodes, tag="model"):
    """Values in the model that prophyc returns, as its own to_int sees them."""
    from prophyc import model
    for fname, it in files.items():
        tops = nodes.get(fname)
        node = next((n for n in tops or [] if n.name == it.name and not isinstance(n, model.Include)), None)
        if node is None:
            files.fail("{}: {} is missing".format(tag, it.name))

        def number(x):
            try:
                return model.to_int(x, files.names)
            except Exception as e:
                files.fail("{}: value {!r} in {}: {}".format(tag, x, it.name, tool.describe_error(e)))
        if it.kind == "const":
            got = [number(node.value)]
        elif it.kind == "enum":
            got = [number(m.value) for m in node.members]
        elif it.kind == "union":
            got = [number(m.discriminator) for m in node.members]
        else:
            arrays = [m for m in node.members if m.size is not None]
            got = [m.numeric_size for m in arrays]
            if [number(m.size) for m in arrays] != got:
                files.fail("{}: numeric_size of {} is not its size".format(tag, it.name))
            if node.byte_size != struct_size(it):
                files.fail("{}: size of {} is {}, {} expected".format(tag, it.name, node.byte_size, struct_size(it)))
        want = [p.value for p in it.parts]
        if got != want:
            files.fail("{}: {} has values {}, {} expected".format(tag, it.name, got, want))


def check_calc(files):
    """The model-time evaluator on the text itself."""
    from prophyc import calc
    for fname, it in files.items():
        for p in it.parts:
            if "//" in p.text or "/*" in p.text or "shiftLeft" in p.text or "bitMaskOr" in p.text:
                continue
            if "octal literal" in operators(p.tree, set()):
                continue
            try:
                got = calc.eval(p.text, dict(files.names))
            except Exception as e:
                files.fail("calc.eval({!r}) raised {}".format(p.text, tool.describe_error(e)))
            if got != p.tree.value or not isinstance(got, int):
                files.fail("calc.eval({!r}) is {!r}, {} expected".format(p.text, got, p.tree.value))


def check_python(files, work):
    with tool.Imported(os.path.join(work, "python")) as imp:
        for fname, items, _ in files.files:
            try:
                mod = imp.load(fname)
            except Exception as e:
                files.fail("Python: module {} does not import: {}".format(fname, tool.describe_error(e)))
            for it in items:
                try:
                    check_python_item(files, mod, it)
                except Violation:
                    raise
                except Exception as e:
                    files.fail("Python: using {} raised {}".format(it.name, tool.describe_error(e)))


def check_python_item(files, mod, it):
    if it.kind in ("const", "enum"):
        for p in it.parts:
            got = getattr(mod, p.name)
            if got != p.value or not isinstance(got, int):
                files.fail("Python: {} is {!r}, {} expected".format(p.name, got, p.value))
        if it.kind == "enum":
            got = list(getattr(mod, it.name)._enumerators)
            if [tuple(g) for g in got] != [(p.name, p.value) for p in it.parts]:
                files.fail("Python: enumerators of {} are {!r}".format(it.name, got))
        return
    cls = getattr(mod, it.name)
    if it.kind == "union":
        msg = cls()
        for p in it.parts:
            msg.discriminator = p.value
            setattr(msg, p.name, 1)
            if int.from_bytes(msg.encode("<")[:4], "little") != p.value:
                files.fail("Python: {}.{} encodes discriminator {!r}".format(it.name, p.name, msg.encode("<")[:4]))
        return
    if cls._SIZE != struct_size(it):
        files.fail("Python: _SIZE of {} is {}, {} expected".format(it.name, cls._SIZE, struct_size(it)))
    msg = cls()
    for p in it.parts:
        if p.type[0] == "byte":
            setattr(msg, p.name, b"\x01" * p.value)
            got = len(getattr(msg, p.name))
        elif p.how == "fixed":
            got = len(getattr(msg, p.name))
        else:
            field = getattr(msg, p.name)
            field[:] = [1] * p.value
            got = p.value
            try:
                field.append(1)
            except Exception:
                pass
            else:
                got = ">{}".format(p.value)
        if got != p.value:
            files.fail("Python: {}.{} holds {} elements, {} expected".format(it.name, p.name, got, p.value))
    if len(msg.encode("<")) != struct_size(it):
        files.fail("Python: {} is encoded in {} bytes, {} expected".format(it.name, len(msg.encode("<")), struct_size(it)))


def run_section(src, ctx, isar):
    files = Files(src, ctx, isar, 12)
    with tool.Workdir(ctx.scratch) as work:
        out = files.compile(work, ["python"])
        if not out.ok:
            files.fail("refused: " + (out.stderr or tool.describe_error(out.error)))
        if isar and out.stderr.strip():
            files.fail("warned about valid expressions: " + out.stderr)
        check_nodes(files, out.nodes)
        check_calc(files)
        check_python(files, work)
    if ctx.stats.wants_sample():
        ctx.stats.sample("\n".join(files.docs.values()))


def section_prophy(src, ctx):
    run_section(src, ctx, False)


def section_isar(src, ctx):
    run_section(src, ctx, True)


HEAD = r'''#ifndef VERIF_C14
#define VERIF_C14
#include <stdio.h>
#include <stddef.h>
#include <prophy/detail/prophy.hpp>
#include <prophy/prophy.hpp>
#include <prophy/detail/message.hpp>
template <class T> void show(const char* name, T v)
{
    if (v < 0) printf("%s %lld\n", name, (long long)v);
    else printf("%s %llu\n", name, (unsigned long long)v);
}
#endif
'''


def prepare(scratch, tier):
    cpp.prepare_pch(scratch, {"c14": HEAD})


def cpp_driver(files, full):
    ns = "::prophy::generated::" if full else "::"
    out, want = [HEAD], []
    for f in files.files:
        out.append('#include "{}.{}.hpp"\n'.format(f[0], "ppf" if full else "pp"))
    if full:
        for f in files.files:
            out.append('#include "{}.ppf.cpp"\n'.format(f[0]))
    out.append("int main()\n{\n")

    def row(label, expr, value):
        out.append('    show("{}", {});\n'.format(label, expr))
        want.append("{} {}".format(label, value))
    for _, it in files.items():
        for p in it.parts:
            label = it.name + "." + p.name
            if it.kind in ("const", "enum"):
                row(label, ns + p.name, p.value)
            elif it.kind == "union":
                row(label, "{}{}::discriminator_{}".format(ns, it.name, p.name), p.value)
            elif not full:
                row(label, "sizeof((({0}{1}*)0)->{2}) / sizeof((({0}{1}*)0)->{2}[0])".format(ns, it.name, p.name), p.value)
            elif p.how == "fixed":
                row(label, "{}{}().{}.size()".format(ns, it.name, p.name), p.value)
        if it.kind == "struct":
            size = "sizeof({}{})" if not full else "size_t({}{}::encoded_byte_size)"
            row(it.name, size.format(ns, it.name), struct_size(it))
            if full:
                row(it.name + " size", "{}{}().get_byte_size()".format(ns, it.name), struct_size(it))
    out.append("    return 0;\n}\n")
    return "".join(out), want


def run_cpp(src, ctx, isar):
    files = Files(src, ctx, isar, 10)
    full = src.chance(50)
    out_dir = "cpp_full" if full else "cpp"
    with tool.Workdir(ctx.scratch) as work:
        out = files.compile(work, [out_dir])
        if not out.ok:
            files.fail("refused: " + (out.stderr or tool.describe_error(out.error)))
        source, want = cpp_driver(files, full)
        d = os.path.join(work, out_dir)
        prog, err = cpp.build(d, source, False, "c14")
        if prog is None:
            for f in files.files:
                cpp_source = "{}.{}.cpp".format(f[0], "ppf" if full else "pp")
                p = cpp.run_tool(["g++", "-fsyntax-only"] + cpp.STD + ["-I", cpp.include_dir(), "-I", d, cpp_source], cwd=d)
                if p.returncode:
                    files.fail(cpp_source + " does not compile", compiler=cpp.short_report(p.stderr.decode("latin1")))
            # a driver that cannot be built names something that is not there
            files.fail("C++: a name or an extent is missing", compiler=cpp.short_report(err))
        p = cpp.run_tool([prog.path])
        got = p.stdout.decode("latin1").splitlines()
        if got != want:
            diff = [(g, w) for g, w in zip(got, want) if g != w] or [(len(got), len(want))]
            files.fail("C++ ({}): {}, {} expected".format("full" if full else "raw", *diff[0]))


def section_prophy_cpp(src, ctx):
    run_cpp(src, ctx, False)


def section_isar_cpp(src, ctx):
    run_cpp(src, ctx, True)


def section_calc(src, ctx):
    """Both evaluators on single expressions: many small cases."""
    from prophyc import calc
    from prophyc.parsers.prophy import ProphyParser
    names = [("A", src.int(0, 40)), ("B", -src.int(1, 5)), ("C_1", 2 ** src.int(0, 40))]
    head = "".join("const {} = {};\n".format(*n) for n in names)
    blanks = src.choice([[""], [" "], ISAR_BLANKS])
    texts = []
    for i in range(src.int(1, 12)):
        octal = src.chance(30)
        t = fit(src, tree(src, names, src.int(0, 7), octal, False), -2 ** 63, 2 ** 64 - 1)
        text = Printer(src, blanks).text(t)
        texts.append((t, text))
        ctx.stats.hit(None if isinstance(t, Lit) else fingerprint(["calc", repr(shape(t))]))
        ctx.stats.label(*sorted(operators(t, set())))
        if "octal literal" not in operators(t, set()):
            try:
                got = calc.eval(text, dict(names))
            except Exception as e:
                raise Violation("calc.eval raised " + tool.describe_error(e), text=text, names=names)
            if got != t.value or not isinstance(got, int):
                raise Violation("calc.eval is {!r}, {} expected".format(got, t.value), text=text, names=names)
    doc = head + "".join("const X{} = {};\n".format(i, text) for i, (_, text) in enumerate(texts))
    try:
        nodes = ProphyParser().parse(doc, "x.prophy", None)
    except Exception as e:
        raise Violation("the parser raised " + tool.describe_error(e), text=doc)
    for (t, text), node in zip(texts, nodes[len(names):]):
        if str(node.value) != str(t.value):
            raise Violation("{} is {}, {} expected".format(node.name, node.value, t.value), text=text, names=names)
    if ctx.stats.wants_sample():
        ctx.stats.sample(doc)


SECTIONS = [
    Section("calc", section_calc, quick=4000, thorough=150000),
    Section("prophy", section_prophy, quick=900, thorough=30000),
    Section("isar", section_isar, quick=700, thorough=25000),
    Section("prophy_cpp", section_prophy_cpp, quick=240, thorough=6000, shrink_s=60),
    Section("isar_cpp", section_isar_cpp, quick=200, thorough=5000, shrink_s=60),
]

assert Discard and ref
