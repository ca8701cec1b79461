"""C18: the textual rendering is the same in Python and in C++ full."""
from props.c03 import unhex
from vlib import cpp, gen, ref, tool
from vlib.engine import Section, Violation, fingerprint
from vlib.pyutil import compiled, value_text

RULE = ("a case is one message rendered by one implementation and compared with the reference rendering; non-trivial: "
        "the rendering has at least two lines; distinct by schema, type, implementation and text")
ASSUMPTIONS = ["floating point fields are excluded",
               "bytes hold an apostrophe only together with a double quote, so Python shows them in single quotes",
               "enums have no two enumerators of one value"]


def prepare(scratch, tier):
    cpp.prepare_pch(scratch, {"full": cpp.FULL_HEAD})


def first_difference(want, got):
    a, b = want.splitlines(True), got.splitlines(True)
    for i in range(max(len(a), len(b))):
        x, y = a[i:i + 1], b[i:i + 1]
        if x != y:
            return "line {}: want {!r}, got {!r}".format(i + 1, "".join(x), "".join(y))
    return "none"


def failer(py, t, value):
    def fail(message, want=None, got=None, **detail):
        if want is not None:
            detail.update(want=want, got=got, difference=first_difference(want, got))
        raise Violation(message, schema=py.text, type=t, value=value_text(value), **detail)
    return fail


def count(ctx, py, t, who, text):
    ctx.stats.hit(fingerprint(py.text, t, who, text) if text.count("\n") > 1 else None)


def check_python(src, ctx, py, codec, lays, t, value):
    """Renders a message assigned field by field, its parts, and the same message once decoded."""
    schema = py.schema
    fail = failer(py, t, value)
    want = codec.text(t, value)
    try:
        msg = py.cls(t)()
        tool.set_value(schema, msg, t, value, src.chance(30))
        texts = [("str()", str(msg)), ("second str()", str(msg))]
        if gen.can_align(schema, lays, t) and not gen.greedy_path(schema, t):
            back = py.cls(t)()
            back.decode(msg.encode("<"), "<")
            texts.append(("str() of the decoded message", str(back)))
            texts.append(("str() after encoding", str(msg)))
        copy = py.cls(t)()
        copy.copy_from(msg)
        texts.append(("str() of a copy", str(copy)))
    except Exception as e:
        fail("rendering raised " + tool.describe_error(e))
    for who, got in texts:
        if got != want:
            fail("Python {} differs from the expected rendering".format(who), want, got)
    count(ctx, py, t, "python", want)
    for name, sub, part in parts(schema, t, value, msg):
        got, inner = str(part), codec.text(schema.resolve(sub[0]).name, sub[1])
        if got != inner:
            fail("Python str() of the part {} differs from the expected rendering".format(name), inner, got)
        count(ctx, py, t, "part", inner)


def parts(schema, t, value, msg):
    """(path, (type, value), message) of the composites directly inside."""
    from vlib.schema import Struct, Union
    d = schema.resolve(t)
    if isinstance(d, Union):
        arm = next(a for a in d.arms if a[2] == value[0])
        if isinstance(schema.resolve(arm[1]), (Struct, Union)):
            yield arm[2], (arm[1], value[1]), getattr(msg, arm[2])
        return
    for m in schema.flat(d):
        if not isinstance(schema.resolve(m.type), (Struct, Union)):
            continue
        v = value[m.name]
        if m.mode == "plain" or m.mode == "optional" and v is not None:
            yield m.name, (m.type, v), getattr(msg, m.name)
        elif m.mode != "optional":
            for i, e in enumerate(v):
                yield "{}[{}]".format(m.name, i), (m.type, e), getattr(msg, m.name)[i]


def labels(ctx, schema, t, text):
    for f in gen.features(schema, t):
        if f.startswith("mode:") or f == "union":
            ctx.stats.label(f)
    if "\\x" in text:
        ctx.stats.label("escaped byte")
    if "    " in text:
        ctx.stats.label("nested twice")


def section_python(src, ctx):
    schema = gen.gen_schema(src, gen.Cfg(max_decls=10, floats=False))
    lays = ref.Layouts(schema)
    codec = ref.Codec(schema, lays)
    with compiled(schema, ctx) as py:
        for d in schema.composites():
            for _ in range(3):
                with src.span():
                    value = gen.gen_value(src, schema, lays, d.name, text=True)
                    check_python(src, ctx, py, codec, lays, d.name, value)
                    labels(ctx, schema, d.name, codec.text(d.name, value))
        if ctx.stats.wants_sample():
            ctx.stats.sample("{}// {} {}".format(py.text, d.name, value_text(value)))


def section_both(src, ctx):
    schema = gen.gen_schema(src, gen.Cfg(max_decls=10, floats=False, shared=False))
    lays = ref.Layouts(schema)
    codec = ref.Codec(schema, lays)
    values = []
    for k, d in enumerate(schema.composites()):
        values.append((k, d.name, ref.default_value(schema, d.name)))
        for _ in range(10):
            with src.span():
                values.append((k, d.name, gen.gen_value(src, schema, lays, d.name, text=True,
                                                        overfull=0)))
    with compiled(schema, ctx, ("python", "cpp_full")) as py:
        prog = cpp.build_full(schema, py, False, ctx)
        commands = ["P-{} {}".format(k, cpp.fill_tokens(schema, t, v)) for k, t, v in values]
        crash = None
        try:
            answers = prog.run(commands)
        except cpp.Crash as c:
            answers, crash = c.done, c
        for i, (k, t, value) in enumerate(values):
            fail = failer(py, t, value)
            if crash and i >= len(answers):
                fail("the C++ program crashed", report=crash.text)
            want = codec.text(t, value)
            words = answers[i].split()
            for who, word in (("print()", words[-2]), ("second print()", words[-1])):
                got = unhex(word).decode("latin1")
                if got != want:
                    fail("C++ {} differs from the expected rendering".format(who), want, got)
            count(ctx, py, t, "cpp", want)
            check_python(src, ctx, py, codec, lays, t, value)
            labels(ctx, schema, t, want)
        if ctx.stats.wants_sample() and values:
            ctx.stats.sample("{}// {} {}".format(py.text, values[-1][1], value_text(values[-1][2])))


SECTIONS = [Section("python", section_python, quick=2500, thorough=50000),
            Section("both", section_both, quick=400, thorough=8000, shrink_s=150)]
