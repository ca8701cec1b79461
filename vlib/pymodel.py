"""Plain reference model of the Python message API, driven next to real messages.

A struct is a dict, a union is a UnionValue, arrays are lists, bytes are bytes.
"""
import copy
import struct as _struct

from . import gen, ref, tool
from .engine import Violation
from .schema import Enum, FLOATS, INT_RANGES, Struct, Union

OK, REJECT, EITHER = "ok", "reject", "either"


class UnionValue(object):
    __slots__ = "arm", "value"

    def __init__(self, arm, value):
        self.arm, self.value = arm, value


class Opaque(object):
    """An argument of a type no field accepts."""

    def __repr__(self):
        return "Opaque()"


def to_model(schema, t, value):
    d = schema.resolve(t)
    if isinstance(d, Union):
        arm = next(a for a in d.arms if a[2] == value[0])
        return UnionValue(value[0], to_model(schema, arm[1], value[1]))
    if not isinstance(d, Struct):
        return value
    out = {}
    for m in schema.flat(d):
        if m.counts:
            continue
        v = value[m.name]
        if v is None or isinstance(v, bytes):
            out[m.name] = v
        elif isinstance(v, list):
            out[m.name] = [to_model(schema, m.type, e) for e in v]
        else:
            out[m.name] = to_model(schema, m.type, v)
    return out


def to_plain(model):
    if isinstance(model, UnionValue):
        return (model.arm, to_plain(model.value))
    if isinstance(model, dict):
        return {k: to_plain(v) for k, v in model.items()}
    if isinstance(model, list):
        return [to_plain(v) for v in model]
    return model


def default(schema, t):
    return to_model(schema, t, ref.default_value(schema, t))


def sizes_agree(schema, t, value):
    """False if arrays sharing a sizer differ in length anywhere (plain value)."""
    d = schema.resolve(t)
    if isinstance(d, Union):
        arm = next(a for a in d.arms if a[2] == value[0])
        return sizes_agree(schema, arm[1], value[1])
    if not isinstance(d, Struct):
        return True
    for m in schema.flat(d):
        if m.counts:
            if len({len(value[c]) for c in m.counts}) != 1:
                return False
            continue
        v = value[m.name]
        if isinstance(v, list):
            if not all(sizes_agree(schema, m.type, e) for e in v):
                return False
        elif v is not None and not isinstance(v, bytes) and not sizes_agree(schema, m.type, v):
            return False
    return True


# ------------------------------------------------------------ scalar arguments

def classify_scalar(schema, t, arg):
    """(verdict, stored value) of assigning arg to a scalar of type t."""
    d = schema.resolve(t)
    if isinstance(d, Enum):
        if isinstance(arg, str):
            got = [v for n, v, _ in d.members if n == arg]
            return (OK, got[0]) if got else (REJECT, None)
        if isinstance(arg, int):
            return (OK, int(arg)) if arg in [v for _, v, _ in d.members] else (REJECT, None)
        return REJECT, None
    if d in FLOATS:
        if not isinstance(arg, (int, float)):
            return REJECT, None
        try:
            _struct.pack("<f" if d == "r32" else "<d", arg)
        except (OverflowError, _struct.error):
            return REJECT, None
        return OK, arg
    if not isinstance(arg, int):
        return REJECT, None
    lo, hi = INT_RANGES[d]
    return (OK, arg) if lo <= arg <= hi else (REJECT, None)


def gen_scalar_arg(src, schema, t):
    d = schema.resolve(t)
    if src.chance(65):
        if isinstance(d, Enum) and src.chance(50):
            return src.choice(d.members)[0]
        return gen.ValueGen(src, schema, None, 4, nan=False).value(t)
    junk = [None, "", "1", b"", b"\x01", 1.5, float("inf"), [], [1], (), {}, Opaque(), 1j, True, False, -1]
    if isinstance(d, Enum):
        junk += ["NO_SUCH_NAME", 0xFFFFFFFF + 1, 7777, d.members[0][0].lower(), d.members[0][0].encode()]
    elif d in FLOATS:
        junk += [1e39, -1e39, 3.4028235e38, 3.5e38, 10 ** 400, -10 ** 400, 10 ** 38, "nan", 7, 2 ** 200]
    else:
        lo, hi = INT_RANGES[d]
        junk += [lo - 1, hi + 1, lo, hi, 1 << 64, -(1 << 63) - 1, 10 ** 30, 0.0]
    return src.choice(junk)


def classify_bytes(schema, struct, m, arg):
    if not isinstance(arg, bytes):
        return REJECT, None
    if m.mode == "fixed":
        return (OK, arg.ljust(m.size, b"\0")) if len(arg) <= m.size else (REJECT, None)
    limit = length_limit(schema, struct, m)
    return (OK, arg) if limit is None or len(arg) <= limit else (REJECT, None)


def gen_bytes_arg(src, schema, struct, m):
    if src.chance(25):
        return src.choice([None, "", "abc", bytearray(b"a"), 0, 1, [], [1], 1.0, Opaque(), memoryview(b"a")])
    limit = m.size if m.mode == "fixed" else length_limit(schema, struct, m)
    sizes = [0, 1, 2, 3, 5]
    if limit is not None and limit < 1000:
        sizes += [limit - 1, limit, limit, limit + 1, limit + 5]
    return gen.gen_bytes(src, max(0, src.choice(sizes)))


def length_limit(schema, struct, m):
    """Most elements an array member may hold; None if only memory limits it."""
    limit = None
    if m.mode == "limited":
        limit = m.size
    for s in schema.flat(struct):
        if m.name in s.counts:
            top = INT_RANGES[schema.resolve(s.type)][1] - schema.shifts.get((struct.name, s.name), 0)
            limit = top if limit is None else min(limit, top)
    return None if limit is None or limit > 1 << 30 else limit


# ------------------------------------------------------------------- the driver

class Driver(object):
    """Applies random operations to a message and to its model."""

    def __init__(self, src, ctx, py, lays, codec, t, allowed_error):
        self.src, self.ctx, self.py = src, ctx, py
        self.schema, self.lays, self.codec, self.type = py.schema, lays, codec, t
        self.real = py.cls(t)()
        self.model = default(self.schema, t)
        self.error = allowed_error
        self.log = []

    def fail(self, message, **detail):
        raise Violation(message, schema=self.py.text, type=self.type, operations="\n".join(self.log), **detail)

    def composite(self, t):
        return isinstance(self.schema.resolve(t), (Struct, Union))

    # -- state comparison

    def compare(self, context):
        want = to_plain(self.model)
        try:
            got = tool.get_value(self.schema, self.real, self.type)
        except Exception as e:
            self.fail("reading the message {} raised {}".format(context, tool.describe_error(e)))
        if not same_state(got, want):
            self.fail("state {} differs from the reference".format(context), expected=repr(want), got=repr(got))

    def check_encode(self):
        want = to_plain(self.model)
        agree = sizes_agree(self.schema, self.type, want)
        for endian in "<>":
            try:
                got = self.real.encode(endian)
            except Exception as e:
                if agree or not isinstance(e, self.error):
                    self.fail("encode('{}') of a reachable state raised {}".format(endian, tool.describe_error(e)),
                              state=repr(want))
                self.ctx.stats.label("unequal shared lengths refused")
                continue
            if not agree:
                self.fail("encode accepted unequal lengths of arrays sharing a sizer", state=repr(want))
            expected = self.codec.encode(self.type, want, endian).data
            if got != expected:
                self.fail("encode('{}') does not reflect the state".format(endian), state=repr(want),
                          expected=expected.hex(), got=got.hex())

    def check_union_arms(self, real, model, t):
        """Only the discriminated arm of every union is readable."""
        d = self.schema.resolve(t)
        if isinstance(d, Union):
            for a in d.arms:
                if a[2] == model.arm:
                    continue
                try:
                    getattr(real, a[2])
                except self.error:
                    continue
                except Exception as e:
                    self.fail("reading arm {} raised {}".format(a[2], tool.describe_error(e)))
                self.fail("arm {} is readable while {} is discriminated".format(a[2], model.arm))
            arm = next(a for a in d.arms if a[2] == model.arm)
            if self.composite(arm[1]):
                self.check_union_arms(getattr(real, model.arm), model.value, arm[1])
        elif isinstance(d, Struct):
            for m in self.schema.flat(d):
                if m.counts or not self.composite(m.type):
                    continue
                r, v = getattr(real, m.name), model[m.name]
                for re, ve in (zip(r, v) if isinstance(v, list) else [(r, v)] if v is not None else []):
                    self.check_union_arms(re, ve, m.type)

    # -- operations

    def apply(self, text, verdict, action, effect, allowed=()):
        """Runs action; effect updates the model when the operation is accepted."""
        self.log.append("{}   # expected: {}".format(text, verdict))
        try:
            action()
        except Exception as e:
            if verdict == OK:
                self.fail("valid operation raised " + tool.describe_error(e))
            if not isinstance(e, (self.error,) + tuple(allowed)):
                self.fail("rejected operation raised {} instead of ProphyError".format(tool.describe_error(e)))
            self.ctx.stats.label("rejected:" + type(e).__name__)
            self.compare("after a rejected operation")
            return False
        if verdict == REJECT:
            self.fail("invalid operation was accepted")
        if effect:
            effect()
        self.ctx.stats.label("accepted")
        self.compare("after the operation")
        return True

    def locate(self):
        """A random composite inside the message."""
        real, model, t, path = self.real, self.model, self.type, "m"
        for _ in range(6):
            kids = []
            d = self.schema.resolve(t)
            if isinstance(d, Union):
                arm = next(a for a in d.arms if a[2] == model.arm)
                if self.composite(arm[1]):
                    kids.append((arm[2], None, model.value, arm[1]))
            else:
                for m in self.schema.flat(d):
                    if m.counts or not self.composite(m.type):
                        continue
                    v = model[m.name]
                    if isinstance(v, list):
                        if v:
                            i = self.src.int(0, len(v) - 1)
                            kids.append((m.name, i, v[i], m.type))
                    elif v is not None:
                        kids.append((m.name, None, v, m.type))
            if not kids or not self.src.chance(60):
                break
            name, i, model, t = self.src.choice(kids)
            real = getattr(real, name)
            path += "." + name
            if i is not None:
                real = real[i]
                path += "[%d]" % i
        return real, model, t, path

    def step(self):
        real, model, t, path = self.locate()
        d = self.schema.resolve(t)
        if isinstance(d, Union):
            self.union_op(d, real, model, path)
        else:
            members = self.schema.flat(d)
            settable = [m for m in members if not m.counts]
            m = self.src.choice(settable if settable and self.src.chance(95) else members)
            self.member_op(d, m, real, model, path)

    def union_op(self, d, real, model, path):
        src = self.src
        if src.chance(45):
            arg = src.choice([a[2] for a in d.arms] + [a[0] for a in d.arms] +
                             [None, "no_such", -1, 12345678, b"a0", [], Opaque(), 1 << 40])
            arm = next((a for a in d.arms if arg == a[2] or arg == a[0]), None)

            def effect():
                if arm[2] != model.arm:
                    model.arm, model.value = arm[2], default(self.schema, arm[1])
            self.apply("{}.discriminator = {!r}".format(path, arg), OK if arm else REJECT,
                       lambda: setattr(real, "discriminator", arg), effect)
            return
        arm = src.choice(d.arms)
        if src.chance(60):
            arm = next(a for a in d.arms if a[2] == model.arm)
        if self.composite(arm[1]):
            arg = src.choice([None, True, 0, "x", self.py.cls(self.schema.resolve(arm[1]).name)()])
            self.apply("{}.{} = {}".format(path, arm[2], type(arg).__name__), REJECT,
                       lambda: setattr(real, arm[2], arg), None)
            return
        arg = gen_scalar_arg(src, self.schema, arm[1])
        verdict, stored = classify_scalar(self.schema, arm[1], arg)
        if arm[2] != model.arm:
            verdict = REJECT
        self.apply("{}.{} = {!r}".format(path, arm[2], arg), verdict, lambda: setattr(real, arm[2], arg),
                   lambda: setattr(model, "value", stored))

    def member_op(self, d, m, real, model, path):
        src = self.src
        where = "{}.{}".format(path, m.name)

        def put(arg, verdict, stored, allowed=()):
            self.apply("{} = {!r}".format(where, arg) if not self.is_message(arg) else where + " = message", verdict,
                       lambda: setattr(real, m.name, arg), lambda: model.__setitem__(m.name, stored), allowed)

        if m.counts:
            put(src.choice([0, 1, 2, None]), REJECT, None, (AttributeError,))
        elif m.mode in ("plain", "optional"):
            if self.composite(m.type):
                if m.mode == "optional" and src.chance(75):
                    if src.chance(65):
                        put(True, OK, default(self.schema, m.type))
                    else:
                        put(None, OK, None)
                else:
                    args = [1, "x", {}, self.py.cls(self.schema.resolve(m.type).name)(), Opaque()]
                    args += [False, 0] if m.mode == "optional" else [True, None]
                    put(src.choice(args), REJECT, None)
            elif m.mode == "optional" and src.chance(20):
                put(None, OK, None)
            else:
                arg = gen_scalar_arg(src, self.schema, m.type)
                verdict, stored = classify_scalar(self.schema, m.type, arg)
                if arg is None and m.mode == "optional":
                    verdict, stored = OK, None
                put(arg, verdict, stored)
        elif m.type == "byte":
            arg = gen_bytes_arg(src, self.schema, d, m)
            verdict, stored = classify_bytes(self.schema, d, m, arg)
            put(arg, verdict, stored)
        elif src.chance(5):
            put(src.choice([[], [1], None, 0]), REJECT, None)
        elif self.composite(m.type):
            self.composite_array_op(d, m, getattr(real, m.name), model[m.name], where)
        else:
            self.scalar_array_op(d, m, getattr(real, m.name), model[m.name], where)

    def is_message(self, arg):
        return hasattr(arg, "copy_from")

    def index(self, n, wrong=True):
        src = self.src
        if wrong and src.chance(6):
            return src.choice([None, "0", 1.0, Opaque()])
        if src.chance(20):
            return src.choice([-n - 1, n, n + 3, -n - 5, 10 ** 30])
        return src.int(-n, n - 1) if n else 0

    def slice(self, n):
        src = self.src

        def bound():
            if src.chance(35):
                return None
            return src.int(-n - 2, n + 2)
        step = src.weighted([(10, None), (2, 1), (2, 2), (1, -1), (1, -2), (1, 3), (1, 0)])
        return slice(bound(), bound(), step)

    def values(self, m):
        """(argument, list of raw elements or None if not iterable, text)."""
        src = self.src
        if src.chance(8):
            arg = src.choice([1, 1.5, Opaque()])
            return arg, None, repr(arg)
        n = src.weighted([(2, 0), (4, 1), (4, 2), (3, 3), (1, 5), (1, 9)])
        raw = [gen_scalar_arg(src, self.schema, m.type) for _ in range(n)] if src.chance(50) else \
            [gen.ValueGen(src, self.schema, None, 4, nan=False).value(m.type) for _ in range(n)]
        form = src.weighted([(5, "list"), (2, "tuple"), (2, "iter"), (2, "generator"), (1, "dict"), (1, "map")])
        if form == "dict":
            try:
                arg = dict.fromkeys(raw)
            except TypeError:
                form, arg = "list", list(raw)
            else:
                raw = list(arg)
        arg = {"list": lambda: list(raw), "tuple": lambda: tuple(raw), "iter": lambda: iter(raw),
               "generator": lambda: (x for x in list(raw)), "dict": lambda: dict.fromkeys(raw),
               "map": lambda: map(lambda x: x, raw)}[form]()
        return arg, raw, "{}({!r})".format(form, raw)

    def scalar_array_op(self, d, m, real, model, where):
        src, schema = self.src, self.schema
        limit = m.size if m.mode == "fixed" else length_limit(schema, d, m)
        fixed = m.mode == "fixed"
        ops = [(4, "setitem"), (4, "setslice"), (1, "delitem"), (1, "delslice"), (1, "read")]
        if fixed:
            ops += [(1, "append")]
        else:
            ops += [(4, "append"), (3, "insert"), (4, "extend"), (1, "remove"), (1, "self_extend"), (1, "bulk"),
                    (1, "delitem"), (1, "delslice"), (1, "sort"), (1, "self_slice")]
        op = src.weighted(ops)
        n = len(model)

        def check_all(raw):
            got = [classify_scalar(schema, m.type, x) for x in raw]
            return [s for _, s in got] if all(v == OK for v, _ in got) else None

        def run(text, action, change, raw=None, allowed=(), impossible=False):
            """change edits a copy of the model list, raising as a list would."""
            verdict, allowed = OK, list(allowed)
            new = list(model)
            stored = check_all(raw) if raw is not None else []
            if stored is None or impossible:
                verdict = REJECT
            try:
                change(new, stored if stored is not None else list(raw))
            except (IndexError, ValueError, OverflowError):
                verdict = REJECT
                allowed += [IndexError, ValueError]
            except TypeError:
                verdict = REJECT
                allowed += [TypeError]
            if fixed and len(new) != n:
                verdict = REJECT
            if limit is not None and len(new) > limit:
                verdict = REJECT
            self.ctx.stats.label("op:" + op)
            self.apply(where + text, verdict, action, lambda: model.__setitem__(slice(None), new), allowed)

        if op == "read":
            self.ctx.stats.label("op:" + op)
            self.read(real, model, where, lambda x: x)
            whole = list(real)
            if not real == whole or real != whole or real == whole + [0]:
                self.fail("{} does not compare equal to the list of its elements only".format(where))
        elif op == "append":
            v = gen_scalar_arg(src, schema, m.type)
            run(".append({!r})".format(v), lambda: real.append(v), lambda new, s: new.append(s[0]), [v],
                (AttributeError,) if fixed else (), fixed)
        elif op == "insert":
            v, i = gen_scalar_arg(src, schema, m.type), self.index(n)
            if isinstance(i, int) and abs(i) > 1 << 60:
                i = n + 2
            run(".insert({!r}, {!r})".format(i, v), lambda: real.insert(i, v), lambda new, s: new.insert(i, s[0]), [v])
        elif op == "setitem":
            v, i = gen_scalar_arg(src, schema, m.type), self.index(n)
            run("[{!r}] = {!r}".format(i, v), lambda: real.__setitem__(i, v),
                lambda new, s: new.__setitem__(i, s[0]), [v])
        elif op == "setslice":
            sl = self.slice(n)
            arg, raw, text = self.values(m)
            if raw is not None and src.chance(50):
                # a matching length, so that stepped and fixed slices are also accepted
                want = len(range(*sl.indices(n))) if sl.step != 0 else 1
                raw = [gen.ValueGen(src, schema, None, 4, nan=False).value(m.type) for _ in range(min(want, 60))]
                arg, text = (list(raw), repr(raw)) if src.chance(70) else (iter(raw), "iter(%r)" % raw)
            run("[{}] = {}".format(sl, text), lambda: real.__setitem__(sl, arg),
                lambda new, s: new.__setitem__(sl, s), raw, impossible=raw is None)
        elif op == "delitem":
            i = self.index(n)
            run(": del [{!r}]".format(i), lambda: real.__delitem__(i), lambda new, s: new.__delitem__(i),
                impossible=fixed)
        elif op == "delslice":
            sl = self.slice(n)
            run(": del [{}]".format(sl), lambda: real.__delitem__(sl), lambda new, s: new.__delitem__(sl),
                impossible=fixed)
        elif op == "extend":
            arg, raw, text = self.values(m)
            if src.chance(4):
                # falsy non-iterables may be taken as nothing to add
                arg = src.choice([None, 0])
                self.apply("{}.extend({!r})".format(where, arg), EITHER, lambda: real.extend(arg), None)
                return
            run(".extend({})".format(text), lambda: real.extend(arg), lambda new, s: new.extend(s), raw,
                impossible=raw is None)
        elif op == "self_extend":
            if n > 300:
                return
            run(".extend(itself)", lambda: real.extend(real), lambda new, s: new.extend(list(new)))
        elif op == "self_slice":
            run("[:] = reversed itself", lambda: real.__setitem__(slice(None), real[::-1]),
                lambda new, s: new.__setitem__(slice(None), new[::-1]))
        elif op == "bulk":
            if n > 600:
                return
            v = gen.ValueGen(src, schema, None, 4, nan=False).value(m.type)
            count = src.choice([100, 127, 128, 255, 256]) - src.choice([0, n])
            raw = [v] * max(0, count)
            run(".extend([{!r}] * {})".format(v, len(raw)), lambda: real.extend(list(raw)),
                lambda new, s: new.extend(s), raw)
        elif op == "remove":
            v = src.choice(model) if model and src.chance(70) else gen_scalar_arg(src, schema, m.type)
            run(".remove({!r})".format(v), lambda: real.remove(v), lambda new, s: new.remove(v))
        elif op == "sort":
            run(".sort()", lambda: real.sort(), lambda new, s: new.sort())

    def read(self, real, model, where, plain):
        """Items and slices, also from the end and beyond it."""
        i, sl = self.index(len(model)), self.slice(len(model))
        try:
            want = [model[i]]
        except (IndexError, TypeError) as e:
            want = type(e)
        try:
            got = [plain(real[i])]
        except (IndexError, TypeError) as e:
            got = type(e)
        if got is not want and not (isinstance(got, list) and isinstance(want, list) and same_state(got, to_plain(want))):
            self.fail("{}[{!r}] is {}, {} expected".format(where, i, got, want))
        if sl.step != 0:
            got = [plain(x) for x in real[sl]]
            if not same_state(got, to_plain(model[sl])):
                self.fail("{}[{}] is {}, {} expected".format(where, sl, got, model[sl]))

    def composite_array_op(self, d, m, real, model, where):
        src, schema = self.src, self.schema
        limit = m.size if m.mode == "fixed" else length_limit(schema, d, m)
        fixed = m.mode == "fixed"
        n = len(model)
        cls = self.py.cls(schema.resolve(m.type).name)
        ops = [(1, "setitem"), (1, "delitem"), (1, "append"), (1, "read")]
        if not fixed:
            ops += [(4, "add"), (3, "add_kw"), (4, "extend"), (1, "self_extend"), (2, "delitem"), (2, "delslice"),
                    (1, "bulk")]
        op = src.weighted(ops)
        self.ctx.stats.label("cop:" + op)

        def room(k):
            return OK if limit is None or n + k <= limit else REJECT

        if op == "read":
            self.read(real, model, where, lambda x: tool.get_value(schema, x, m.type))
            if not real == real or real != real:
                self.fail("{} does not compare equal to itself".format(where))
        elif op == "setitem":
            i = src.choice([0, slice(None), -1])
            arg = src.choice([None, 1, [], cls(), [cls()]])
            self.apply("{}[{}] = {}".format(where, i, type(arg).__name__), REJECT,
                       lambda: real.__setitem__(i, arg), None)
        elif op == "append":
            self.apply(where + ".append(message)", REJECT, lambda: real.append(cls()), None, (AttributeError,))
        elif op in ("delitem", "delslice"):
            i = self.index(n) if op == "delitem" else self.slice(n)
            new = list(model)
            allowed, verdict = [], REJECT if fixed else OK
            try:
                del new[i]
            except (IndexError, ValueError):
                verdict, allowed = REJECT, [IndexError, ValueError]
            except TypeError:
                verdict, allowed = REJECT, [TypeError]
            self.apply("del {}[{}]".format(where, i), verdict, lambda: real.__delitem__(i),
                       lambda: model.__setitem__(slice(None), new), allowed)
        elif op == "add":
            self.apply(where + ".add()", room(1), lambda: real.add(),
                       lambda: model.append(default(schema, m.type)))
        elif op == "bulk":
            if n > 40 or limit is None or limit > 200:
                return
            self.log.append("{} = fill up to {}".format(where, limit))
            for _ in range(limit - n):
                real.add()
                model.append(default(schema, m.type))
            self.compare("after filling")
        elif op == "add_kw":
            self.add_kw(m, real, model, where, room(1))
        elif op == "self_extend":
            if n > 20:
                return
            self.apply(where + ".extend(itself)", room(n), lambda: real.extend(real),
                       lambda: model.extend(copy.deepcopy(model)))
        else:
            k = src.weighted([(1, 0), (4, 1), (4, 2), (2, 3)])
            msgs, vals = [], []
            for _ in range(k):
                v = gen.ValueGen(src, schema, self.lays, 8, nan=False, long_arrays=False).value(m.type)
                msg = cls()
                tool.set_value(schema, msg, m.type, v)
                msgs.append(msg)
                vals.append(to_model(schema, m.type, v))
            verdict = room(k)
            text = "{} messages {!r}".format(k, [to_plain(v) for v in vals])
            if src.chance(25):
                msgs.insert(src.int(0, len(msgs)), src.choice([1, None, "x", Opaque(), {}]))
                verdict, text = REJECT, text + " and one wrong element"
            elif src.chance(8):
                msgs, verdict, text = src.choice([1, Opaque(), 2.5]), REJECT, "not iterable"
            if isinstance(msgs, list):
                form = src.choice(["list", "tuple", "iter"])
                msgs = {"list": list, "tuple": tuple, "iter": iter}[form](msgs)
                text += " as " + form
            self.apply("{}.extend({})".format(where, text), verdict, lambda: real.extend(msgs),
                       lambda: model.extend(vals))

    def add_kw(self, m, real, model, where, room):
        src, schema = self.src, self.schema
        d = schema.resolve(m.type)
        elem = default(schema, m.type)
        kw, verdict, allowed = {}, OK, []
        if isinstance(d, Union):
            arm = src.choice(d.arms)
            kw["discriminator"] = arm[2]
            if arm[2] != elem.arm:
                elem.arm, elem.value = arm[2], default(schema, arm[1])
            if not self.composite(arm[1]) and src.chance(80):
                kw[arm[2]] = gen_scalar_arg(src, schema, arm[1])
                verdict, stored = classify_scalar(schema, arm[1], kw[arm[2]])
                elem.value = stored
        else:
            for f in schema.flat(d):
                if not src.chance(50):
                    continue
                v, stored = OK, None
                if f.counts:
                    if not src.chance(5):
                        continue
                    kw[f.name], v = 1, REJECT
                    allowed.append(AttributeError)
                elif f.mode in ("plain", "optional") and self.composite(f.type):
                    if f.mode == "optional":
                        kw[f.name], stored = True, default(schema, f.type)
                    elif src.chance(10):
                        kw[f.name], v = None, REJECT
                    else:
                        continue
                elif f.mode in ("plain", "optional"):
                    kw[f.name] = gen_scalar_arg(src, schema, f.type)
                    v, stored = classify_scalar(schema, f.type, kw[f.name])
                    if kw[f.name] is None and f.mode == "optional":
                        v, stored = OK, None
                elif f.type == "byte":
                    kw[f.name] = gen_bytes_arg(src, schema, d, f)
                    v, stored = classify_bytes(schema, d, f, kw[f.name])
                elif self.composite(f.type):
                    if not src.chance(10):
                        continue
                    kw[f.name], v = [], REJECT
                else:
                    count = f.size if f.mode == "fixed" and src.chance(80) else src.int(0, 4)
                    raw = [gen_scalar_arg(src, schema, f.type) if src.chance(15) else
                           gen.ValueGen(src, schema, None, 4, nan=False).value(f.type) for _ in range(count)]
                    kw[f.name] = raw
                    got = [classify_scalar(schema, f.type, x) for x in raw]
                    stored = [s for _, s in got]
                    limit = length_limit(schema, d, f)
                    if any(x != OK for x, _ in got) or f.mode == "fixed" and count != f.size \
                            or limit is not None and count > limit:
                        v = REJECT
                if v == REJECT:
                    verdict = REJECT
                else:
                    elem[f.name] = stored
        if room == REJECT:
            verdict = REJECT
        self.apply("{}.add(**{!r})".format(where, kw), verdict, lambda: real.add(**kw), lambda: model.append(elem),
                   allowed)


def same_state(got, want):
    """tool.same, but an unset bytes field may read as an empty text string."""
    if isinstance(want, dict):
        return isinstance(got, dict) and got.keys() == want.keys() and all(same_state(got[k], want[k]) for k in want)
    if isinstance(want, (list, tuple)):
        return isinstance(got, (list, tuple)) and len(got) == len(want) and \
            all(same_state(a, b) for a, b in zip(got, want))
    if want == b"" and isinstance(want, bytes) and got == "":
        return True
    return tool.same(got, want)
