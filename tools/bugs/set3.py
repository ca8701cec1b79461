BUGS = [
dict(id="c07_lenient_align", property="C07",
     needs="a message cut inside the padding after a dynamic field",
     what="padding missing at the end of the input is tolerated",
     edits=[("prophy_cpp/include/prophy/detail/decoder.hpp", """    if (aligned > end)
    {
        return false;
    }
    pos = aligned;""", """    pos = aligned > end ? end : aligned;""")],
     demo=cpp("struct S { u8 a<>; };", """
uint32_t a[2] = {1, 7};
const uint8_t* d = reinterpret_cast<const uint8_t*>(a);
S s;
CHECK(!s.decode<prophy::little>(d, 5))
""")),
dict(id="c08_part_optional", property="C08",
     needs="a part whose most aligned member is an optional",
     what="optionals are not considered when a part is aligned",
     edits=[("prophyc/generators/cpp.py", "                align=part[0].alignment\n",
             "                align=max([m.alignment for m in part if not m.optional] or [1])\n")],
     demo=cpp("struct S { u8 a<>; u8 b<>; u8* c; };", """
CHECK(__alignof__(S::part3) == 4)
""", full=False)),
dict(id="c11_union_shares_arm", property="C11",
     needs="copying a union that holds a composite and changing the copy",
     what="the arm of a copied union is shared with the original",
     edits=[("prophy/composite.py", """            lhs = getattr(self, self._discriminated.name)
            lhs.copy_from(rhs)
        else:
            setattr(""", """            self._fields[self._discriminated.name] = rhs
        else:
            setattr(""")],
     demo=python("struct I { u32 a; }; union U { 1: I a; 2: u8 b; };", """
u = m.U()
u.a.a = 1
v = m.U()
v.copy_from(u)
v.a.a = 2
assert u.a.a == 1
""")),
dict(id="c12_kind_of_last", property="C12",
     needs="a struct in which a nested dynamic struct is not the last field, used as a union arm",
     what="a struct is as dynamic as its last field",
     edits=[("prophyc/model.py", "self.kind = max(x.kind for x in self.members)", "self.kind = self.members[-1].kind")],
     demo=shell("""
cat > "$W/m.prophy" <<'EOF'
struct D { u8 a<>; };
struct E { D a; u8 b; };
union U { 1: E a; };
EOF
if "$PY" -m prophyc --python_out "$W" "$W/m.prophy" 2> "$W/err"; then exit 1; fi
grep -q 'm.prophy:3:' "$W/err"
""")),
dict(id="c14_shift_precedence", property="C14",
     needs="an isar expression mixing shifts and sums",
     what="shifts bind weaker than sums in isar, unlike in the prophy language",
     edits=[("prophyc/calc.py", """        ('left', '+', '-'),
        ('left', '*', '/'),
        ('left', 'LSHIFT', 'RSHIFT'),
""", """        ('left', 'LSHIFT', 'RSHIFT'),
        ('left', '+', '-'),
        ('left', '*', '/'),
""")],
     demo=shell("""
cat > "$W/m.xml" <<'EOF'
<x><constant name="A" value="1 &lt;&lt; 2 + 1"/>
<struct name="S"><member name="a" type="u8"><dimension size="A"/></member></struct></x>
EOF
"$PY" -m prophyc --isar --cpp_full_out "$W" "$W/m.xml"
grep -q 'encoded_byte_size = 5' "$W/m.ppf.hpp"
""")),
dict(id="c17_static_keeps_optional", property="C17",
     needs="a patch that makes an array of an optional field",
     what="the static rule leaves the field optional",
     edits=[("prophyc/patch.py", """    mem.size = size
    mem.optional = False""", """    mem.size = size""")],
     demo=shell("""
echo '<x><struct name="S"><member name="a" type="u8" optional="true"/></struct></x>' > "$W/m.xml"
echo 'S static a 3' > "$W/p"
"$PY" -m prophyc --isar --patch "$W/p" --cpp_full_out "$W" "$W/m.xml"
grep -q 'encoded_byte_size = 3' "$W/m.ppf.hpp"
mkdir "$W/o"
"$PY" -m prophyc --isar --patch "$W/p" --python_out "$W/o" "$W/m.xml"
cd "$W/o"
"$PY" -c 'import m; assert len(m.S().encode("<")) == 3'
""")),
dict(id="c18_python_escapes", property="C18",
     needs="a bytes field with a tab, a newline or a backslash",
     what="Python renders control characters as hexadecimal escapes and leaves backslashes alone",
     edits=[("prophy/six.py", "        return repr(x)[1:]\n", """        return "'%s'" % "".join(chr(c) if 32 <= c < 127 else "\\\\x%02x" % c for c in x)\n""")],
     demo=python("struct S { bytes a<>; };", """
s = m.S()
s.a = b'a\\tb\\\\'
assert str(s) == "a: 'a\\\\tb\\\\\\\\'\\n", str(s)
""")),
dict(id="c18_int8_as_char", property="C18",
     needs="an array of signed bytes",
     what="elements of arrays of signed bytes are printed as unsigned numbers",
     edits=[("prophy_cpp/include/prophy/detail/printer.hpp", "    out << int(x);\n", "    out << int(uint8_t(x));\n")],
     demo=cpp("struct S { i8 a; };", """
S s;
s.a = -1;
CHECK(s.print() == "a: -1\\n")
""")),
]
