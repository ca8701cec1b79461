BUGS = [
dict(id="c13_comment_pattern", property="C13",
     needs="a comment which is not closed",
     what="time of matching an unterminated comment doubles with every character",
     edits=[("prophyc/parsers/prophy.py", "r'/\\*(.|\\n)*?\\*/'", "r'/\\*([^*]+|\\*(?!/))*\\*/'")],
     demo=shell("""
printf 'const A = 1; /* %s%s\\n' 'a comment which takes a line and is * not * closed' ' at all, a comment which takes a line' > "$W/m.prophy"
if timeout 20 "$PY" -m prophyc --python_out "$W" "$W/m.prophy" 2> "$W/err"; then exit 1; fi
grep -q 'm.prophy:1:' "$W/err"
""")),
dict(id="c09_small_counts", property="C09",
     needs="an array with more than 255 elements",
     what="elements are counted in 8 bits when an array is swapped",
     edits=[("prophy_cpp/include/prophy/detail/prophy.hpp", "inline Tp* swap_n_fixed(Tp* first, size_t n)", "inline Tp* swap_n_fixed(Tp* first, uint8_t n)")],
     demo=cpp("struct S { u16 a[300]; };", """
S s;
for (int i = 0; i < 300; i++) s.a[i] = 0x0100;
prophy::swap(&s);
CHECK(s.a[299] == 1)
""", full=False)),
dict(id="c14_right_associative", property="C14",
     needs="three numbers and two subtractions",
     what="sums are evaluated from the right",
     edits=[("prophyc/parsers/prophy.py", """        ('left', '+', '-'),
        ('left', '*', '/'),
        ('left', 'LSHIFT', 'RSHIFT'),
        ('right', 'UMINUS')""", """        ('right', '+', '-'),
        ('left', '*', '/'),
        ('left', 'LSHIFT', 'RSHIFT'),
        ('right', 'UMINUS')""")],
     demo=python("const A = 7 - 2 - 1;", """
assert m.A == 4, m.A
""")),
dict(id="c14_division_equal_precedence", property="C14",
     needs="a division after a shift in one expression",
     what="shifts and products have the same precedence",
     edits=[("prophyc/parsers/prophy.py", """        ('left', '*', '/'),
        ('left', 'LSHIFT', 'RSHIFT'),
        ('right', 'UMINUS')""", """        ('left', '*', '/', 'LSHIFT', 'RSHIFT'),
        ('right', 'UMINUS')""")],
     demo=python("const A = 6 / 1 << 1;", """
assert m.A == 3, m.A
""")),
]
