"""Builds and runs generated C++ together with generated drivers."""
import os
import re
import resource
import subprocess

from . import tool
from .engine import HarnessError, Violation
from .schema import Enum, Struct, Union

WARN = ["-Wall", "-Wextra", "-Werror", "-pedantic", "-Wno-address-of-packed-member", "-Wno-packed-not-aligned"]
STD = ["-std=c++11"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=enum,vptr", "-fno-sanitize-recover=all"]

CPP_TYPES = {"i8": "int8_t", "i16": "int16_t", "i32": "int32_t", "i64": "int64_t", "u8": "uint8_t",
             "u16": "uint16_t", "u32": "uint32_t", "u64": "uint64_t", "byte": "uint8_t", "r32": "float",
             "r64": "double"}


def include_dir():
    return os.path.join(tool.REPO, "prophy_cpp", "include")


def run_tool(args, cwd=None, timeout=600, stdin=None, env=None, cpu=None, memory=None):
    def limits():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 1))
        if memory:
            resource.setrlimit(resource.RLIMIT_AS, (memory, memory))
        else:
            hard = resource.getrlimit(resource.RLIMIT_AS)[1]
            resource.setrlimit(resource.RLIMIT_AS, (hard, hard))
    return subprocess.run(args, cwd=cwd, timeout=timeout, input=stdin, stdout=subprocess.PIPE,
                          stderr=subprocess.PIPE, env=env, preexec_fn=limits)


COMMON = r'''
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>
#include <new>
#include <numeric>
#include <algorithm>
#include <sstream>
#include <exception>
#include <stdexcept>
#include <type_traits>
'''

FULL_PRELUDE = COMMON + r'''
#include <prophy/array.hpp>
#include <prophy/endianness.hpp>
#include <prophy/optional.hpp>
#include <prophy/detail/byte_size.hpp>
#include <prophy/detail/message.hpp>
#include <prophy/detail/mpl.hpp>
#include <prophy/detail/encoder.hpp>
#include <prophy/detail/decoder.hpp>
#include <prophy/detail/printer.hpp>
#include <prophy/detail/align.hpp>
'''

# what the driver knows independently of the schema
FULL_LIB = r'''
static size_t meter_live, meter_peak, meter_cap = size_t(1) << 31;
static bool meter_hit;
struct header { size_t size; size_t pad; };

#ifndef VERIF_FUZZ
void* operator new(size_t n)
{
    if (n > meter_cap || meter_live + n > meter_cap) { meter_hit = true; throw std::bad_alloc(); }
    header* h = static_cast<header*>(malloc(n + sizeof(header)));
    if (!h) { meter_hit = true; throw std::bad_alloc(); }
    h->size = n;
    meter_live += n;
    if (meter_live > meter_peak) meter_peak = meter_live;
    return h + 1;
}
void operator delete(void* p) noexcept
{
    if (!p) return;
    header* h = static_cast<header*>(p) - 1;
    meter_live -= h->size;
    free(h);
}
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void* operator new[](size_t n) { return operator new(n); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
#endif

struct In
{
    const char* p;
    unsigned long long next()
    {
        char* e;
        unsigned long long v = strtoull(p, &e, 10);
        p = e;
        return v;
    }
    long long snext()
    {
        char* e;
        long long v = strtoll(p, &e, 10);
        p = e;
        return v;
    }
};

template <class T> struct Kind
{
    enum { value = std::is_floating_point<T>::value ? 1 : std::is_enum<T>::value ? 2 : std::is_integral<T>::value ? 3 : 0 };
};
template <class T, int K = Kind<T>::value> struct Get;
template <class T> struct Get<T, 3> { static void get(In& in, T& x) {
    x = std::is_signed<T>::value ? T(in.snext()) : T(in.next()); } };
template <class T> struct Get<T, 2> { static void get(In& in, T& x) { x = T(in.next()); } };
template <> struct Get<float, 1> { static void get(In& in, float& x) { uint32_t v = uint32_t(in.next()); memcpy(&x, &v, 4); } };
template <> struct Get<double, 1> { static void get(In& in, double& x) { uint64_t v = in.next(); memcpy(&x, &v, 8); } };
template <class T> struct Get<T, 0> { static void get(In& in, T& x); };
template <class T> struct Get<std::vector<T>, 0> { static void get(In& in, std::vector<T>& x) {
    x.resize(size_t(in.next()));
    for (size_t i = 0; i < x.size(); ++i) Get<T>::get(in, x[i]); } };
template <class T, size_t N> struct Get<prophy::array<T, N>, 0> { static void get(In& in, prophy::array<T, N>& x) {
    for (size_t i = 0; i < N; ++i) Get<T>::get(in, x[i]); } };
template <class T> struct Get<prophy::optional<T>, 0> { static void get(In& in, prophy::optional<T>& x) {
    if (in.next()) { x = T(); Get<T>::get(in, *x); } else x = prophy::optional<T>(); } };
template <class T> void get(In& in, T& x) { Get<T>::get(in, x); }

static void put_hex(const uint8_t* p, size_t n)
{
    static const char digits[] = "0123456789abcdef";
    if (!n) putchar('-');
    for (size_t i = 0; i < n; ++i) { putchar(digits[p[i] >> 4]); putchar(digits[p[i] & 15]); }
    putchar(' ');
}

static std::string in_line;
static int nibble(char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }

// exact-size heap copy, so that any access outside of it is seen by the sanitizer
static uint8_t* parse_hex(const char* s, size_t& n)
{
    n = *s == '-' ? 0 : strlen(s) / 2;
    uint8_t* p = static_cast<uint8_t*>(malloc(n));
    for (size_t i = 0; i < n; ++i) p[i] = uint8_t(nibble(s[2 * i]) << 4 | nibble(s[2 * i + 1]));
    return p;
}

static size_t cap_for(size_t n, size_t object)
{
    return (size_t(1) << 16) + n * (64 + 8 * object) + 4 * object;
}

template <prophy::endianness E, class T> bool decode_as(T& x, const uint8_t* p, size_t n) { return x.template decode<E>(p, n); }

template <class T> void op_decode(char endian, const char* hex, size_t object)
{
    size_t n;
    uint8_t* data = parse_hex(hex, n);
    bool ok = false;
    size_t base = meter_live;
    meter_hit = false;
    try
    {
        T* x = new T();
        meter_peak = meter_live;
        meter_cap = meter_live + cap_for(n, object);
        try
        {
            ok = endian == 'l' ? x->template decode<prophy::little>(data, n)
               : endian == 'b' ? x->template decode<prophy::big>(data, n)
               : x->decode(data, n);
        }
        catch (const std::exception& e)
        {
            meter_cap = size_t(1) << 31;
            printf("%s %s\n", meter_hit ? "ALLOC" : "THROW", e.what());
            delete x;
            free(data);
            return;
        }
        size_t peak = meter_peak - base;
        meter_cap = size_t(1) << 31;
        printf("%d %lu ", int(ok), (unsigned long)peak);
        if (ok)
        {
            std::vector<uint8_t> out = endian == 'l' ? x->template encode<prophy::little>()
                : endian == 'b' ? x->template encode<prophy::big>() : x->encode();
            printf("%lu ", (unsigned long)x->get_byte_size());
            put_hex(out.data(), out.size());
        }
        // the same into an object which has been decoded into before
        static T* kept = new T();
        bool again = endian == 'l' ? kept->template decode<prophy::little>(data, n)
               : endian == 'b' ? kept->template decode<prophy::big>(data, n)
               : kept->decode(data, n);
        printf("%d ", int(again));
        if (again)
        {
            std::vector<uint8_t> out = endian == 'l' ? kept->template encode<prophy::little>()
                : endian == 'b' ? kept->template encode<prophy::big>() : kept->encode();
            put_hex(out.data(), out.size());
        }
        printf("\n");
        delete x;
    }
    catch (const std::exception& e)
    {
        meter_cap = size_t(1) << 31;
        printf("THROW %s\n", e.what());
    }
    free(data);
}

template <class T> size_t encode_ptr(const T& x, char endian, uint8_t* p)
{
    return endian == 'l' ? x.template encode<prophy::little>(p) : endian == 'b' ? x.template encode<prophy::big>(p)
         : x.encode(p);
}

template <class T> std::vector<uint8_t> encode_vec(const T& x, char endian)
{
    return endian == 'l' ? x.template encode<prophy::little>() : endian == 'b' ? x.template encode<prophy::big>()
         : x.encode();
}

template <class T> void op_fill(const char* tokens, bool text)
{
    In in = { tokens };
    T* x = new T();
    get(in, *x);
    size_t size = x->get_byte_size();
    printf("%lu %d ", (unsigned long)size, int(T::encoded_byte_size));
    for (const char* e = "lbn"; *e; ++e)
    {
        for (int fill = 0; fill < 2; ++fill)
        {
            uint8_t* data = static_cast<uint8_t*>(malloc(size));
            if (size) memset(data, fill ? 0xA5 : 0, size);
            size_t written = encode_ptr(*x, *e, data);
            printf("%lu ", (unsigned long)written);
            if (!fill) put_hex(data, size);
            free(data);
        }
        std::vector<uint8_t> v = encode_vec(*x, *e);
        put_hex(v.data(), v.size());
    }
    if (text)
    {
        for (int i = 0; i < 2; ++i)
        {
            std::string s = x->print();
            put_hex(reinterpret_cast<const uint8_t*>(s.data()), s.size());
        }
    }
    printf("\n");
    delete x;
}
'''

FULL_MAIN = r'''
int main()
{
    static char* line = 0;
    size_t cap = 0;
    while (getline(&line, &cap, stdin) > 0)
    {
        size_t n = strlen(line);
        if (n && line[n - 1] == '\n') line[n - 1] = 0;
        char op = line[0];
        char endian = line[1];
        char* rest;
        unsigned type = unsigned(strtoul(line + 2, &rest, 10));
        if (*rest == ' ') ++rest;
        dispatch(op, endian, type, rest);
        fflush(stdout);
    }
    return 0;
}
'''


# libFuzzer target: the first byte picks the type and the byte order, the rest is the message;
# the allocation meter would meet libFuzzer's own allocations, so single allocations are limited instead
FUZZ_LIB = r'''
static void fuzz_fail(const char* what)
{
    fprintf(stderr, "ERROR: %s\n", what);
    abort();
}

template <prophy::endianness E, class T> void fuzz_one(const uint8_t* in, size_t n)
{
    uint8_t* data = static_cast<uint8_t*>(malloc(n));
    if (n) memcpy(data, in, n);
    T* x = new T();
    bool ok = false;
    try { ok = x->template decode<E>(data, n); }
    catch (const std::exception&) { fuzz_fail("decode threw"); }
    if (ok && (x->get_byte_size() != n || x->template encode<E>().size() != n)) fuzz_fail("other length when encoded");
    delete x;
    free(data);
}
'''


FULL_HEAD = "#ifndef VERIF_HEAD\n#define VERIF_HEAD\n" + FULL_PRELUDE + FULL_LIB + "#endif\n"


def cpp_type(t):
    return CPP_TYPES.get(t) or "prophy::generated::" + t


def full_driver(schema, include="x"):
    """Driver source: includes the generated .ppf.cpp, fills, encodes, decodes and prints every composite."""
    out = [FULL_HEAD]
    out.append('#include "{}.ppf.cpp"\n'.format(include))
    comps = schema.composites()
    for d in comps:
        out.append("template <> void Get<prophy::generated::{0}, 0>::get(In&, prophy::generated::{0}&);\n".format(d.name))
    for d in comps:
        body = []
        if isinstance(d, Struct):
            for m in schema.flat(d):
                if not m.counts:
                    body.append("    ::get(in, x.{});\n".format(m.name))
        else:
            body.append("    switch (in.next())\n    {\n")
            for i, a in enumerate(d.arms):
                body.append("        case {1}: x.discriminator = prophy::generated::{0}::discriminator_{2}; "
                            "::get(in, x.{2}); break;\n".format(d.name, i, a[2]))
            body.append("    }\n")
        out.append("template <> void Get<prophy::generated::{0}, 0>::get(In& in, prophy::generated::{0}& x)\n{{\n{1}}}\n"
                   .format(d.name, "".join(body)))
    out.append("static void dispatch(char op, char endian, unsigned type, const char* rest)\n{\n")
    out.append("    size_t object = 1;\n")
    for d in comps:
        out.append("    object = std::max(object, sizeof(prophy::generated::{}));\n".format(d.name))
    out.append("    switch (type)\n    {\n")
    for i, d in enumerate(comps):
        out.append("        case {0}: if (op == 'D') op_decode<prophy::generated::{1}>(endian, rest, object); "
                   "else op_fill<prophy::generated::{1}>(rest, op == 'P'); break;\n".format(i, d.name))
    out.append("    }\n}\n")
    out.append(FULL_MAIN)
    return "".join(out)


def fuzz_target(schema, include="x"):
    out = [FULL_HEAD, FUZZ_LIB, '#include "{}.ppf.cpp"\n'.format(include)]
    out.append('extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size)\n{\n    if (!size) return -1;\n')
    out.append("    switch (data[0])\n    {\n")
    for i, d in enumerate(schema.composites()):
        for j, e in enumerate(("little", "big")):
            out.append("        case {0}: fuzz_one<prophy::{1}, prophy::generated::{2}>(data + 1, size - 1); "
                       "return 0;\n".format(2 * i + j, e, d.name))
    out.append("    }\n    return -1;\n}\n")
    return "".join(out)


# ------------------------------------------------------------- value streams

def fill_tokens(schema, t, value):
    """Tokens understood by the driver's get(); a union value is (arm, value)."""
    import struct as _struct
    out = []

    def scalar(d, v):
        if d == "r32":
            out.append(str(_struct.unpack("<I", _struct.pack("<f", v))[0]))
        elif d == "r64":
            out.append(str(_struct.unpack("<Q", _struct.pack("<d", v))[0]))
        else:
            out.append(str(v))

    def one(t, v):
        d = schema.resolve(t)
        if isinstance(d, str):
            scalar(d, v)
        elif isinstance(d, Enum):
            out.append(str(v))
        elif isinstance(d, Union):
            index = next(i for i, a in enumerate(d.arms) if a[2] == v[0])
            out.append(str(index))
            one(d.arms[index][1], v[1])
        else:
            for m in schema.flat(d):
                if m.counts:
                    continue
                x = v[m.name]
                if m.mode == "plain":
                    one(m.type, x)
                elif m.mode == "optional":
                    if x is None:
                        out.append("0")
                    else:
                        out.append("1")
                        one(m.type, x)
                else:
                    if m.mode != "fixed":
                        out.append(str(len(x)))
                    for e in x:
                        one(m.type, e)
    one(t, value)
    return " ".join(out)


# ------------------------------------------------------------- building

class Crash(Exception):
    def __init__(self, done, text, code):
        Exception.__init__(self, text)
        self.done, self.text, self.code = done, text, code


def short_report(text):
    """The telling lines of a sanitizer report or of a compiler's output."""
    keep = [l for l in text.splitlines()
            if re.search(r"ERROR: |runtime error|error:|SUMMARY|of size|#[0-4] |located|terminate|what\(\)|Assert", l)]
    lines = (keep or text.splitlines())[:14]
    return "\n".join(re.sub(r"0x[0-9a-f]{6,}", "0x..", l[:300]) for l in lines)


class Program(object):
    """A compiled driver."""

    def __init__(self, path):
        self.path = path

    def run(self, commands, cpu=120, memory=None):
        """Answers to the commands, one line each; raises Crash."""
        env = dict(os.environ)
        env["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=99:symbolize=0"
        env["UBSAN_OPTIONS"] = "print_stacktrace=0"
        data = "".join(c + "\n" for c in commands).encode()
        try:
            p = run_tool([self.path], stdin=data, timeout=600, env=env, cpu=cpu, memory=memory)
        except subprocess.TimeoutExpired:
            raise HarnessError("driver did not finish")
        lines = p.stdout.decode("latin1").split("\n")
        done = lines[:-1]
        if p.returncode != 0 or len(done) != len(commands):
            raise Crash(done, short_report(p.stderr.decode("latin1")), p.returncode)
        return done


def compiler(sanitize):
    return ["clang++", "-O0", "-g0"] + SAN if sanitize else ["g++", "-O0", "-g0"]


_pch = {}


def prepare_pch(base, preludes):
    """Precompiles the driver preludes for both kinds of build: {(name, sanitize): header}."""
    for name, text in preludes.items():
        for sanitize in (False, True):
            d = os.path.join(base, "pch_{}_{}".format(name, "san" if sanitize else "plain"))
            os.makedirs(d, exist_ok=True)
            header = tool.write(os.path.join(d, "pre.hpp"), text)
            suffix = ".pch" if sanitize else ".gch"
            args = compiler(sanitize) + STD + ["-I", include_dir(), "-x", "c++-header", header, "-o", header + suffix]
            p = run_tool(args)
            if p.returncode:
                raise HarnessError("cannot precompile the driver prelude: " + p.stderr.decode("latin1")[:2000])
            _pch[(name, sanitize)] = header


def pch_args(name, sanitize):
    header = _pch.get((name, sanitize))
    if not header:
        return []
    return ["-include-pch", header + ".pch"] if sanitize else ["-include", header]


def build(directory, source, sanitize, pch=None, extra=()):
    """(Program or None, compiler output)."""
    exe = os.path.join(directory, "driver_" + ("san" if sanitize else "plain"))
    src = tool.write(os.path.join(directory, "driver.cpp"), source)
    args = compiler(sanitize) + STD + list(extra) + pch_args(pch, sanitize) + \
        ["-I", include_dir(), "-I", directory, src, "-o", exe]
    p = run_tool(args, cwd=directory)
    if p.returncode:
        return None, p.stderr.decode("latin1")
    return Program(exe), ""


def build_full(schema, py, sanitize, ctx):
    """Builds the C++ full driver of a compiled PySchema; a failure to compile is a violation."""
    d = os.path.join(py.dir, "cpp_full")
    prog, err = build(d, full_driver(schema), sanitize, "full")
    if prog is None:
        blame_generated(d, "x.ppf.cpp", err, py.text)
    return prog


def blame_generated(directory, source, err, text):
    """Raises Violation if the generated source itself does not compile, HarnessError otherwise."""
    p = run_tool(["g++", "-fsyntax-only"] + STD + ["-I", include_dir(), "-I", directory, source], cwd=directory)
    if p.returncode:
        raise Violation("generated C++ does not compile", schema=text, compiler=short_report(p.stderr.decode("latin1")))
    raise HarnessError("driver does not compile: " + short_report(err) + "\n" + text)


def fixed_addresses():
    """Prefix of a command that turns address randomisation off, empty where that is not allowed."""
    if "prefix" not in _fixed:
        try:
            ok = run_tool(["setarch", "-R", "true"]).returncode == 0
        except OSError:
            ok = False
        _fixed["prefix"] = ["setarch", "-R"] if ok else []
    return _fixed["prefix"]


_fixed = {}


class Fuzzer(object):
    """A compiled libFuzzer target."""

    def __init__(self, directory):
        self.dir = directory
        self.corpus = os.path.join(directory, "corpus")

    def run(self, seeds, runs, seed, max_len):
        """(number of executions, inputs which reached new code, failing input or None, report)."""
        os.makedirs(self.corpus, exist_ok=True)
        for i, data in enumerate(seeds):
            with open(os.path.join(self.corpus, "seed{:04}".format(i)), "wb") as f:
                f.write(data)
        artifact = os.path.join(self.dir, "failing")
        p = self._start(["-runs={}".format(runs), "-seed={}".format(seed), "-max_len={}".format(max_len),
                         "-print_final_stats=1", "-reload=0", "-timeout=0", "-rss_limit_mb=0", "-malloc_limit_mb=256",
                         "-exact_artifact_path=failing", "corpus"])
        text = p.stderr.decode("latin1")
        found = []
        for name in sorted(os.listdir(self.corpus)):
            with open(os.path.join(self.corpus, name), "rb") as f:
                found.append(f.read())
        bad = None
        if p.returncode:
            if not os.path.exists(artifact):
                raise HarnessError("fuzzer failed without an input: " + short_report(text))
            with open(artifact, "rb") as f:
                bad = f.read()
        m = re.search(r"number_of_executed_units: (\d+)", text)
        return int(m.group(1)) if m else 0, found, bad, short_report(text)

    def fails(self, data):
        """Report of one input given again, or None."""
        path = os.path.join(self.dir, "again")
        with open(path, "wb") as f:
            f.write(data)
        p = self._start(["-rss_limit_mb=0", "-malloc_limit_mb=256", "again"])
        return short_report(p.stderr.decode("latin1")) if p.returncode else None

    def _start(self, args):
        env = {"PATH": "/usr/bin:/bin", "ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1:symbolize=0"}
        try:
            # libFuzzer learns from compared pointers: fixed addresses, environment and relative paths make a run repeat
            return run_tool(fixed_addresses() + ["./fuzz"] + args, cwd=self.dir, timeout=600, env=env)
        except subprocess.TimeoutExpired:
            raise HarnessError("fuzzer did not finish")


def build_fuzzer(schema, py):
    d = os.path.join(py.dir, "cpp_full")
    src = tool.write(os.path.join(d, "fuzz.cpp"), fuzz_target(schema))
    exe = os.path.join(d, "fuzz")
    p = run_tool(["clang++", "-O1", "-g0", "-DVERIF_FUZZ", "-fsanitize=fuzzer"] + SAN + STD +
                 ["-I", include_dir(), "-I", d, src, "-o", exe], cwd=d)
    if p.returncode:
        blame_generated(d, "x.ppf.cpp", p.stderr.decode("latin1"), py.text)
    return Fuzzer(d)
