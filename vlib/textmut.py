"""Corruption of schema texts, XML documents and patch scripts."""
import re

TOKEN = re.compile(r'[A-Za-z_]\w*|0x[0-9a-fA-F]+|\d+|<<|>>|\.\.\.|"[^"\n]*"|//[^\n]*|/\*.*?\*/|\s+|.', re.S)

DICT = ["const", "enum", "typedef", "struct", "union", "u8", "u16", "u32", "u64", "i8", "i64", "float", "double",
        "bytes", "[", "]", "{", "}", "<", ">", ";", ":", "=", ",", "...", "<<", ">>", "@", "+", "-", "*", "/", "(", ")",
        "#", "#include \"x.prophy\"", "#include \"none.prophy\"", "#include \"\"", "#include \"/\"", "#include",
        "#define X", "0", "1", "-1", "007", "08", "0x", "0xFFFFFFFF", "0x100000000", "18446744073709551615",
        "18446744073709551616", "99999999999999999999999", "1 / 0", "1 << -1", "1 << 100", "1 << 99999999999",
        "(1 << 600) * (1 << 600)", "X", "a0", "b1", "S1", "E1", "C1", "U1", "T1", "num_of_a0", "// c\n", "// c", "/* c */",
        "/*", "\"", "'", "\\", "?", "\x00", "é", "٣", "\n", "\t", "\r", " ", "<@a0>", "<...>", "<>", "*", "$",
        "9" * 5000, "0x" + "f" * 3000, "(" * 300, ")" * 300, "- - -", "a" * 2000, "_x"]


def tokens(text):
    return TOKEN.findall(text)


def corrupt_tokens(src, text, other=None, words=DICT):
    """One to a few token-level edits."""
    toks = tokens(text)
    solid = [i for i, t in enumerate(toks) if not t.isspace()] or [0]
    if not toks:
        toks = [" "]
    for _ in range(src.weighted([(60, 1), (20, 2), (10, 3), (10, 6)])):
        with src.span():
            i = min(src.choice(solid), len(toks) - 1)
            what = src.weighted([(20, "replace"), (14, "delete"), (10, "insert"), (8, "dup"), (10, "swap"), (8, "reuse"),
                                 (5, "range"), (4, "truncate"), (4, "char"), (4, "number"), (3, "tail")])
            if what == "replace":
                toks[i] = src.choice(words)
            elif what == "delete":
                del toks[i]
            elif what == "insert":
                toks.insert(i, " " + src.choice(words) + " ")
            elif what == "dup":
                toks.insert(i, toks[i] + " ")
            elif what == "swap":
                j = min(src.choice(solid), len(toks) - 1)
                toks[i], toks[j] = toks[j], toks[i]
            elif what == "reuse":
                toks[i] = toks[min(src.choice(solid), len(toks) - 1)]
            elif what == "range":
                del toks[i:i + src.int(1, 8)]
            elif what == "truncate":
                del toks[i:]
            elif what == "tail":
                del toks[:i]
            elif what == "char":
                t = toks[i]
                k = src.int(0, max(0, len(t) - 1))
                toks[i] = t[:k] + src.choice(["", "\x00", "#", "<", "&", "ą", "\"", "0", ";", "_"]) + t[k + 1:]
            else:
                numbers = [k for k, t in enumerate(toks) if t.isdigit()]
                if numbers:
                    toks[src.choice(numbers)] = src.choice(["0", "-1", "4294967296", "4294967295", "1/2", "3/2", "1 << 40",
                                                            "1<<65", "07", "1 - 2", "1 >> 70"])
            if not toks:
                toks = [" "]
    text = "".join(toks)
    if other is not None and src.chance(5):
        text += other
    return text


def random_text(src, words=DICT):
    kind = src.weighted([(5, "words"), (2, "chars"), (1, "bytes")])
    if kind == "words":
        return " ".join(src.choice(words) for _ in range(src.int(0, 40)))
    if kind == "chars":
        return "".join(chr(src.choice([10, 13, 32, 34, 35, 47, 42, 60, 62, 64, 65, 0, 127, 128, 0xFEFF, 0x2028, 0x10000,
                                       59, 123, 125])) for _ in range(src.int(0, 60)))
    return src.bytes(src.int(0, 60))


ATTRS = ["name", "type", "value", "size", "size2", "isVariableSize", "variableSizeFieldName", "variableSizeFieldType",
         "optional", "discriminatorValue", "primitiveType", "href", "comment"]
VALUES = ["", "0", "-1", "u8", "byte", "S1", "a0", "@a0", "@", "true", "false", "1/0", "1 <<", "(", "1 << -1", "1 << 9999999",
          "shiftLeft(1, 2)", "shiftLeft(", "shiftLeft(1)", "bitMaskOr(1, 2)", "bitMaskOr(shiftLeft(1,2),", "1.5", "x y", "0x10",
          "0x", "010", "99999999999999999999", "9" * 5000, "THIS_IS_VARIABLE_SIZE_ARRAY", "None", "C1", "E1_A", "E1",
          "8 bit integer unsigned", "7 bit", "ą", "'''", "\\", "A*B", "-", "4294967296", "a" * 300, "import", "class",
          "x.xml", "none.xml", ".", "/"]
TAGS = ["struct", "message", "union", "enum", "enum-member", "member", "constant", "typedef", "dimension", "xi:include", "foo"]


def corrupt_xml(src, text):
    """Structure-level edits of a document written one element per tag by isar.Render."""
    from xml.sax.saxutils import quoteattr
    tag = re.compile(r'<(/?)([\w:-]+)((?:\s+[\w:-]+="[^"]*")*)\s*(/?)>')
    for _ in range(src.weighted([(60, 1), (20, 2), (20, 5)])):
        with src.span():
            ms = list(tag.finditer(text))
            what = src.weighted([(20, "value"), (12, "drop"), (8, "add"), (10, "copy"), (8, "tag"), (8, "remove"), (10, "swap"),
                                 (6, "token"), (2, "truncate"), (6, "rename")])
            attrs = list(re.finditer(r'\s([\w:-]+)="([^"]*)"', text))
            if what == "token" or not ms or not attrs:
                text = corrupt_tokens(src, text, words=DICT + TAGS + ATTRS)
            elif what == "value":
                a = src.choice(attrs)
                text = text[:a.start(2)] + quoteattr(src.choice(VALUES))[1:-1].replace('"', "&quot;") + text[a.end(2):]
            elif what == "drop":
                a = src.choice(attrs)
                text = text[:a.start()] + text[a.end():]
            elif what == "rename":
                a = src.choice(attrs)
                text = text[:a.start(1)] + src.choice(ATTRS) + text[a.end(1):]
            elif what == "add":
                m = src.choice(ms)
                if not m.group(1):
                    text = text[:m.end(2)] + " " + src.choice(ATTRS) + '="' + \
                        quoteattr(src.choice(VALUES))[1:-1].replace('"', "&quot;") + '"' + text[m.end(2):]
            elif what == "copy":
                m = src.choice(ms)
                if m.group(4):
                    text = text[:m.start()] + m.group(0) + text[m.start():]
            elif what == "tag":
                m = src.choice(ms)
                if m.group(4):
                    text = text[:m.start(2)] + src.choice(TAGS) + text[m.end(2):]
                else:
                    new = src.choice(TAGS)
                    text = text.replace("<" + m.group(2) + " ", "<" + new + " ").replace(
                        "</" + m.group(2) + ">", "</" + new + ">")
            elif what == "remove":
                m = src.choice(ms)
                if m.group(4):
                    text = text[:m.start()] + text[m.end():]
            elif what == "swap":
                a, b = src.choice(attrs), src.choice(attrs)
                if a.start() > b.start():
                    a, b = b, a
                if a.end() <= b.start():
                    text = text[:a.start(2)] + b.group(2) + text[a.end(2):b.start(2)] + a.group(2) + text[b.end(2):]
            else:
                text = text[:src.int(0, len(text))]
    return text


def random_patch(src, names, fields):
    rules = ["type", "insert", "remove", "greedy", "static", "limited", "dynamic", "struct", "rename", "bogus", ""]
    args = fields + names + ["u8", "u32", "r64", "byte", "0", "1", "-1", "999", "x", "3*2", "C1", "foo", "1/0", "ą"]
    lines = []
    while src.more(len(lines), 0, 6, 70):
        with src.span():
            rule = src.choice(rules)
            n = {"type": 2, "insert": 3, "remove": 1, "greedy": 1, "static": 2, "limited": 2, "dynamic": 2, "struct": 0}.get(rule, 1)
            if src.chance(15):
                n = src.int(0, 4)
            lines.append(" ".join([src.choice(names + ["None"]), rule] + [src.choice(args) for _ in range(n)]))
    return "\n".join(lines) + ("\n" if src.chance(80) else "")
