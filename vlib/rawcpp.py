"""Drivers for the C++ raw codec: layout tables and in-place swaps."""
import os

from . import cpp, ref, tool
from .schema import Enum, Struct

RAW_HEAD = "#ifndef VERIF_RAW_HEAD\n#define VERIF_RAW_HEAD\n" + cpp.COMMON + r'''
#include <stddef.h>
#include <prophy/detail/prophy.hpp>
#include <prophy/prophy.hpp>

template <class T> struct elem { typedef T type; enum { extent = 0 }; };
template <class T, size_t N> struct elem<T[N]> { typedef T type; enum { extent = N }; };
template <class T> char code()
{
    return std::is_floating_point<T>::value ? 'f' : std::is_enum<T>::value ? 'e'
         : !std::is_integral<T>::value ? 'c' : std::is_signed<T>::value ? 'i' : 'u';
}
template <class M> void row(const char* type, const char* member, size_t offset)
{
    typedef typename elem<M>::type E;
    printf("M %s %s %lu %lu %c %lu\n", type, member, (unsigned long)offset, (unsigned long)sizeof(E), code<E>(),
           (unsigned long)elem<M>::extent);
}
template <class T> struct align_of { struct f { char c; T t; }; enum { value = sizeof(f) - sizeof(T) }; };
template <class T> void type_row(const char* name)
{
    printf("T %s %lu %lu\n", name, (unsigned long)sizeof(T), (unsigned long)__alignof__(T));
}

static int nibble(char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
static const size_t GUARD = 64;

template <class T> void op_swap(const char* hex)
{
    size_t n = *hex == '-' ? 0 : strlen(hex) / 2;
    size_t room = (n + 7) / 8 * 8;
    uint64_t* mem = static_cast<uint64_t*>(malloc(2 * GUARD + room));
    uint8_t* base = reinterpret_cast<uint8_t*>(mem);
    for (size_t i = 0; i < 2 * GUARD + room; ++i) base[i] = uint8_t(0x11 + 37 * i);
    uint8_t* data = base + GUARD;
    for (size_t i = 0; i < n; ++i) data[i] = uint8_t(nibble(hex[2 * i]) << 4 | nibble(hex[2 * i + 1]));
    T* out = prophy::swap(reinterpret_cast<T*>(data));
    long outside = -1;
    for (size_t i = 0; i < 2 * GUARD + room; ++i)
        if ((i < GUARD || i >= GUARD + n) && base[i] != uint8_t(0x11 + 37 * i)) { outside = long(i); break; }
    printf("%ld %ld ", long(reinterpret_cast<uint8_t*>(out) - data), outside < 0 ? -1000000L : outside - long(GUARD));
    static const char digits[] = "0123456789abcdef";
    if (!n) putchar('-');
    for (size_t i = 0; i < n; ++i) { putchar(digits[data[i] >> 4]); putchar(digits[data[i] & 15]); }
    printf("\n");
    free(mem);
}
#endif
'''


def parts(schema, lays, struct):
    """[(part number or None, [MemberLayout])] as in the generated header."""
    out = []
    for ml in lays.members(struct):
        if ml.block == len(out):
            out.append((None if not out else len(out) + 1, []))
        out[-1][1].append(ml)
    return out


def layout_driver(schema, lays, include="x"):
    out = [RAW_HEAD, '#include "{}.pp.hpp"\n'.format(include), "int main()\n{\n"]
    for d in schema.decls:
        if isinstance(d, Struct):
            out.append('    type_row< ::{0}>("{0}");\n'.format(d.name))
            for number, mls in parts(schema, lays, d):
                cpp_name = "::" + d.name + ("::part{}".format(number) if number else "")
                label = d.name + ("/{}".format(number) if number else "")
                if number:
                    out.append('    type_row<{}>("{}");\n'.format(cpp_name, label))
                for ml in mls:
                    names = [ml.member.name]
                    if ml.member.mode == "optional":
                        names.insert(0, "has_" + ml.member.name)
                    for n in names:
                        out.append('    row<decltype({0}::{2})>("{1}", "{2}", offsetof({0}, {2}));\n'.format(
                            cpp_name, label, n))
        elif not isinstance(d, Enum) and hasattr(d, "arms"):
            out.append('    type_row< ::{0}>("{0}");\n'.format(d.name))
            for n in ["discriminator"] + [a[2] for a in d.arms]:
                out.append('    row<decltype(::{0}::{1})>("{0}", "{1}", offsetof(::{0}, {1}));\n'.format(d.name, n))
            for a in d.arms:
                out.append('    printf("V {0} {1} %lld\\n", (long long)::{0}::discriminator_{1});\n'.format(d.name, a[2]))
    out.append("    return 0;\n}\n")
    return "".join(out)


def swap_driver(schema, include="x"):
    out = [RAW_HEAD, '#include "{}.pp.cpp"\n'.format(include),
           "static void dispatch(char, char, unsigned type, const char* rest)\n{\n    switch (type)\n    {\n"]
    for i, d in enumerate(schema.composites()):
        out.append("        case {}: op_swap< ::{}>(rest); break;\n".format(i, d.name))
    out.append("    }\n}\n" + cpp.FULL_MAIN)
    return "".join(out)


CODES = {"r32": "f", "r64": "f", "byte": "u"}


def type_code(schema, lays, t):
    """(size, code) of a plain value of the type; size is None for types of varying size."""
    d = schema.resolve(t)
    if isinstance(d, Enum):
        return 4, "e"
    if isinstance(d, str):
        return lays.type(t).size, CODES.get(d, d[0])
    lay = lays.type(t)
    return (lay.size if lay.kind == ref.FIXED else None), "c"


def build_raw(schema, py, source, sanitize=False, source_name="x.pp.cpp"):
    d = os.path.join(py.dir, "cpp")
    prog, err = cpp.build(d, source, sanitize, "raw")
    if prog is None:
        cpp.blame_generated(d, source_name, err, py.text)
    return prog


def prepare(scratch):
    cpp.prepare_pch(scratch, {"raw": RAW_HEAD})


assert tool
