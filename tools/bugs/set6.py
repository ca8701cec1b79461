BUGS = [
dict(id="c01_enum_default", property="C01",
     needs="an enum field which is never set, of an enum whose first enumerator is not its smallest",
     what="an unset enum field is encoded as the smallest enumerator, not as the first one",
     edits=[("prophy/generators.py", "        self._DEFAULT = self(self._enumerators[0][1])",
             "        self._DEFAULT = self(min(int_to_name))")],
     demo=python("enum E { E_A = 5, E_B = 2 }; struct S { E a; };", """
assert m.S().encode("<") == b"\\x05\\0\\0\\0"
""")),
dict(id="c05_unlimited_member", property="C05",
     needs="a struct whose last field is a struct with a greedy array, aligned less than an earlier field",
     what="structs which end with an unlimited struct are padded as if they were of fixed size",
     edits=[("prophyc/model.py", "            return m.is_dynamic or m.greedy or m.kind != Kind.FIXED",
             "            return m.is_dynamic or m.greedy or m.kind == Kind.DYNAMIC")],
     demo=cpp("struct G { u8 a<...>; }; struct S { u32 a; G b; };", """
S s;
s.b.a.assign(1, 7);
CHECK(s.get_byte_size() == 8)
CHECK(s.encode().size() == 8)
""")),
dict(id="c13_comment_lines", property="C13",
     needs="an error after a comment of more than two lines",
     what="line numbers of errors are too low after long comments",
     edits=[("prophyc/parsers/prophy.py", "        t.lexer.lineno += t.value.count('\\n')",
             "        t.lexer.lineno += '\\n' in t.value")],
     demo=shell("""
printf '/* a\\nb\\nc */\\nconst A = ;\\n' > "$W/m.prophy"
if "$PY" -m prophyc --python_out "$W" "$W/m.prophy" 2> "$W/err"; then exit 1; fi
grep -q 'm.prophy:4:11' "$W/err"
""")),
dict(id="c16_dir_not_restored", property="C16",
     needs="a file which includes one from another directory and then one from its own",
     what="after an include from another directory files are looked for there",
     edits=[("prophyc/file_processor.py", "        dirs[0] = tmp", "        dirs[0] = tmp or directory")],
     demo=shell("""
mkdir "$W/sub" "$W/out"
cd "$W"
echo 'const A = 1;' > sub/a.prophy
echo 'const B = 2;' > b.prophy
printf '#include "sub/a.prophy"\\n#include "b.prophy"\\nconst C = A + B;\\n' > m.prophy
"$PY" -m prophyc --python_out out m.prophy
""")),
dict(id="c14_hex_digits", property="C14",
     needs="an isar expression with a hexadecimal number in capital letters",
     what="capital hexadecimal digits end a number",
     edits=[("prophyc/calc.py", 'r\"\"\"0x[0-9a-fA-F]+\"\"\"', 'r\"\"\"0x[0-9a-f]+\"\"\"')],
     demo=shell("""
echo '<x><constant name="A" value="0x1F + 1"/><struct name="S"><member name="a" type="u8"><dimension size="A"/></member></struct></x>' > "$W/m.xml"
"$PY" -m prophyc --isar --cpp_full_out "$W" "$W/m.xml"
grep -q 'encoded_byte_size = 32' "$W"/m.*pp
""")),
dict(id="c10_remove_keeps", property="C10",
     needs="a value which is in an array twice",
     what="remove() takes the last of equal elements away, which shows in arrays with others between them",
     edits=[("prophy/container.py", "        self._values.remove(elem)",
             "        del self._values[len(self._values) - 1 - self._values[::-1].index(elem)]")],
     demo=python("struct S { u8 a<>; };", """
s = m.S()
s.a.extend([1, 2, 1])
s.a.remove(1)
assert s.a[:] == [2, 1]
""")),
]
