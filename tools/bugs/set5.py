BUGS = [
dict(id="c19_sign_bit", property="C19",
     needs="a 32-bit integer with the highest bit set, in little-endian order",
     what="the highest bit of 32-bit integers is lost in little-endian encodings made by C++",
     edits=[("prophy_cpp/include/prophy/detail/encoder.hpp", "    out[3] = (in & 0xFF000000) >> 24;", "    out[3] = (in & 0x7F000000) >> 24;")],
     demo=cpp("struct S { u32 a; };", """
S s;
s.a = 0x81020304;
std::vector<uint8_t> d = s.encode<prophy::little>(), e = s.encode<prophy::big>();
CHECK(d[3] == e[0])
""")),
dict(id="c19_reused_buffer", property="C19",
     needs="two messages of one type encoded one after another, the first with a byte where the second has padding",
     what="C++ encodes into a buffer that still holds the bytes of the previous message",
     edits=[("prophy_cpp/include/prophy/detail/message.hpp", "        std::vector<uint8_t> data(static_cast<const T*>(this)->get_byte_size());",
             "        static std::vector<uint8_t> data;\n        data.resize(static_cast<const T*>(this)->get_byte_size());")],
     demo=cpp("struct S { u8 a<>; u32 b; };", """
S s;
s.a.assign(4, 0xff);
s.encode<prophy::little>();
s.a.resize(1);
std::vector<uint8_t> d = s.encode<prophy::little>();
CHECK(d[5] == 0 && d[6] == 0 && d[7] == 0)
""")),
dict(id="c15_upper_case_names", property="C15",
     needs="an isar constant named in lower case and used before it is defined",
     what="only names in upper case are taken for constants when definitions are ordered",
     edits=[("prophyc/model.py", "            if not symbol.isdigit():\n", "            if symbol.isupper():\n")],
     demo=shell("""
echo '<x><constant name="b" value="a + 1"/><constant name="a" value="3"/></x>' > "$W/m.xml"
"$PY" -m prophyc --isar --python_out "$W" "$W/m.xml"
[ "$(grep -n '^a = ' "$W/m.py" | cut -d: -f1)" -lt "$(grep -n '^b = ' "$W/m.py" | cut -d: -f1)" ]
""")),
dict(id="c15_long_chains", property="C15",
     needs="a chain of nine definitions, each used by the one before it",
     what="the ordering gives up after eight moves",
     edits=[("prophyc/model.py", """        while model_sort_rotate():
            pass""", """        for _ in range(8):
            if not model_sort_rotate():
                break""")],
     demo=shell("""
{ echo '<x>'; for i in 0 1 2 3 4 5 6 7 8 9; do echo "<typedef name='T$i' type='T$((i + 1))'/>"; done; echo '<typedef name="T10" type="u8"/></x>'; } > "$W/m.xml"
"$PY" -m prophyc --isar --python_out "$W" "$W/m.xml"
cd "$W"
"$PY" -c 'import m; assert m.T0._SIZE == 1'
""")),
dict(id="c20_patch_once", property="C20",
     needs="two input files with a struct of the same name, and a patch for it",
     what="a patch is applied only to the first of the input files that define a struct",
     edits=[("prophyc/patch.py", "        patches = patch_dict.get(node.name)\n", "        patches = patch_dict.pop(node.name, None)\n")],
     demo=shell("""
for f in a b; do echo '<x><struct name="S"><member name="x" type="u8"/></struct></x>' > "$W/$f.xml"; done
echo 'S type x u32' > "$W/p"
mkdir "$W/1" "$W/2"
"$PY" -m prophyc --isar --patch "$W/p" --python_out "$W/1" "$W/a.xml" "$W/b.xml"
"$PY" -m prophyc --isar --patch "$W/p" --python_out "$W/2" "$W/b.xml"
cmp "$W/1/b.py" "$W/2/b.py"
""")),
dict(id="c20_cache_of_leafs", property="C20",
     needs="two input files which include different files of the same name",
     what="an included file is taken from the cache if any file of that name was read before",
     edits=[("prophyc/file_processor.py", "        abspath = os.path.abspath(path)\n", "        abspath = os.path.basename(path)\n")],
     demo=shell("""
mkdir "$W/a" "$W/b" "$W/1" "$W/2"
echo 'const A = 1;' > "$W/a/c.prophy"
echo 'const A = 2;' > "$W/b/c.prophy"
for f in a b; do printf '#include "c.prophy"\\nstruct S { u8 a[A]; };\\n' > "$W/$f/x$f.prophy"; done
"$PY" -m prophyc --cpp_full_out "$W/1" "$W/a/xa.prophy" "$W/b/xb.prophy"
"$PY" -m prophyc --cpp_full_out "$W/2" "$W/b/xb.prophy"
cmp "$W/1/xb.ppf.hpp" "$W/2/xb.ppf.hpp"
""")),
dict(id="c10_add_first", property="C10",
     needs="add() with an attribute that is rejected",
     what="an element whose attributes are rejected is added all the same",
     edits=[("prophy/container.py", """        new_element = self._TYPE()
        for name, value in attributes.items():""", """        new_element = self._TYPE()
        self._values.append(new_element)
        for name, value in attributes.items():"""),
            ("prophy/container.py", """                setattr(new_element, name, value)
        self._values.append(new_element)
        return new_element""", """                setattr(new_element, name, value)
        return new_element""")],
     demo=python("struct E { u8 a; }; struct S { E e<>; };", """
s = m.S()
try:
    s.e.add(a=1000)
except Exception:
    pass
assert len(s.e) == 0
""")),
]
