BUGS = [
dict(id="c01_union_size_of_widest", property="C01",
     needs="a union whose largest arm is less aligned than another, smaller arm",
     what="the union's size is that of its most aligned arm, so a union holding the small arm is encoded too short",
     edits=[("prophy/generators.py", "natural_size = cls._ALIGNMENT + max(type_._SIZE for type_ in cls._types())",
             "natural_size = cls._ALIGNMENT + max(cls._types(), key=lambda t: (t._ALIGNMENT, t._SIZE))._SIZE")],
     demo=python("struct S { u32 a; u32 b; u32 c; u32 d; u32 e; }; union U { 1: u64 x; 2: S y; };", """
u = m.U()
u.x = 7
assert len(u.encode('<')) == 32, len(u.encode('<'))
""")),
dict(id="c03_enum_array_order", property="C03",
     needs="an array of enumerators encoded in the order which is not the host's",
     what="arrays of enumerators are always encoded in the host's byte order",
     edits=[("prophy_cpp/include/prophy/detail/encoder.hpp", "encode_int<E>(data, uint32_t(*x));",
             "encode_int<native>(data, uint32_t(*x));")],
     demo=cpp("enum E { E_A = 1, E_B = 2 }; struct S { E a[2]; };", """
S s;
s.a[0] = E_A;
s.a[1] = E_B;
std::vector<uint8_t> d = s.encode<prophy::big>();
CHECK(d[3] == 1 && d[7] == 2)
""")),
dict(id="c04_union_disc_slot", property="C04",
     needs="an 8-aligned union whose largest arm has a size that is not a multiple of eight",
     what="the discriminator is counted as four bytes in the size of a union where it takes eight",
     edits=[("prophyc/model.py", "or 0) + node_.alignment\n", "or 0) + DISC_SIZE\n")],
     demo=shell("""
cat > "$W/m.prophy" <<'EOF'
struct S { u32 a[3]; };
union U { 1: u64 x; 2: S y; };
EOF
cat > "$W/demo.py" <<'EOF'
import sys
import prophyc
nodes = prophyc.main(["--void_out", sys.argv[1]])["m"]
assert nodes[-1].byte_size == 24, nodes[-1].byte_size
EOF
"$PY" -m prophyc --cpp_full_out "$W" "$W/m.prophy"
grep -q 'encoded_byte_size = 24' "$W/m.ppf.hpp"
""")),
dict(id="c05_no_nearest_for_even_elements", property="C05",
     needs="a dynamic array of 4-aligned eight-byte elements followed by an 8-aligned field",
     what="get_byte_size does not round up after arrays whose elements are as big as the alignment needed",
     edits=[("prophyc/generators/cpp_full.py", """        if m.padding < 0:
            if bytes_:""", """        if m.padding < 0 and (m.kind != model.Kind.FIXED or not m.is_dynamic or _get_byte_size(m) % m.padding):
            if bytes_:""")],
     demo=cpp("struct I { u32 a; u32 b; }; struct S { I a<>; u64 b; };", """
S s;
s.a.resize(2);
CHECK(s.get_byte_size() == 32)
""")),
dict(id="c06_bytes_length_from_start", property="C06",
     needs="a truncated message with a dynamic bytes field that does not start the message",
     what="the number of bytes left is not computed from the field's position, so that truncated bytes are accepted",
     edits=[("prophy/composite.py", """                if (len(data) - pos) < len_hint:
                    raise ProphyError("too few bytes to decode string")""", """                if len(data) < len_hint:
                    raise ProphyError("too few bytes to decode string")""")],
     demo=python("struct S { u32 a; bytes b<>; };", """
s = m.S()
s.b = b'12345678'
data = s.encode('<')
try:
    m.S().decode(data[:-2], '<')
except prophy.ProphyError:
    pass
else:
    t = m.S()
    t.decode(data[:-2], '<')
    assert t.encode('<') == data[:-2], (t.encode('<'), 'truncated message decoded')
""")),
dict(id="c07_enum_array_bounds", property="C07",
     needs="a truncated array of enumerators",
     what="the bounds check of arrays of enumerators counts elements instead of bytes",
     edits=[("prophy_cpp/include/prophy/detail/decoder.hpp", "if (size_t(end - pos) < n * sizeof(uint32_t))",
             "if (size_t(end - pos) < n)")],
     demo=cpp("enum E { E_A = 0 }; struct S { E a[4]; };", """
uint8_t* d = static_cast<uint8_t*>(std::malloc(8));
std::memset(d, 0, 8);
S s;
CHECK(!s.decode<prophy::little>(d, 8))
std::free(d);
""", flags="-fsanitize=address")),
dict(id="c17_message_dimension", property="C17",
     needs="an isar message with a variable size array that is declared with a size and has its own counter type",
     what="the type of a counter is ignored in messages",
     edits=[("prophyc/parsers/isar.py", "size_ = None if dynamic_array else size", """size_ = size
                if dynamic_array:
                    size_ = None if type_ != "u8" else size""")],
     demo=shell("""
cat > "$W/m.xml" <<'EOF'
<x><message name="S"><member name="a" type="u8"><dimension size="4" isVariableSize="true" variableSizeFieldType="u8"/></member></message></x>
EOF
"$PY" -m prophyc --isar --cpp_full_out "$W" "$W/m.xml"
grep -q 'encoded_byte_size = -1' "$W/m.ppf.hpp"
""")),
dict(id="c18_del_is_printable", property="C18",
     needs="a bytes field with the byte 127",
     what="the byte 127 is printed as it is",
     edits=[("prophy_cpp/include/prophy/detail/printer.hpp", "(x <= 126)", "(x <= 127)")],
     demo=cpp("struct S { bytes a[2]; };", """
S s;
s.a[0] = 127;
s.a[1] = 'a';
CHECK(s.print() == "a: '\\\\x7fa'\\n")
""")),
dict(id="c16_included_enumerators", property="C16",
     needs="an array sized by an enumerator of an included file",
     what="enumerators of included files are not known",
     edits=[("prophyc/parsers/prophy.py", """                for mem in node.members:
                    self.constdecls[mem.name] = mem""", """                for mem in node.members[:1]:
                    self.constdecls[mem.name] = mem""")],
     demo=shell("""
echo 'enum E { E_A = 1, E_B = 2 };' > "$W/a.prophy"
printf '#include "a.prophy"\\nstruct S { u8 a[E_B]; };\\n' > "$W/m.prophy"
"$PY" -m prophyc --python_out "$W" "$W/m.prophy"
""")),
dict(id="c16_directory_of_include", property="C16",
     needs="a file included from a directory given with a path of two components",
     what="the module imported for an included file is named after its first directory",
     edits=[("prophyc/generators/python.py", '(relative_import_indicator, include.name.split("/")[-1]', '(relative_import_indicator, include.name.rsplit("/", 2)[-1 if include.name.count("/") < 2 else -2]')],
     demo=shell("""
mkdir -p "$W/d/e"
echo '<x><constant name="A" value="3"/></x>' > "$W/d/e/a.xml"
echo '<x><xi:include xmlns:xi="http://www.w3.org/2001/XInclude" href="d/e/a.xml"/><constant name="B" value="A"/></x>' > "$W/m.xml"
mkdir "$W/pkg"
touch "$W/pkg/__init__.py"
"$PY" -m prophyc --isar --python_out "$W/pkg" "$W/m.xml" "$W/d/e/a.xml"
cd "$W"
PYTHONPATH="$PYTHONPATH:$W" "$PY" -c 'import pkg.m; assert pkg.m.B == 3'
""")),
]
