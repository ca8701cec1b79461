BUGS = [
dict(id="c11_limited_shared", property="C11",
     needs="copying a message with an array of composites, then changing an element",
     what="elements of limited arrays are shared between the copy and the original",
     edits=[("prophy/composite.py", """                    del lhs[:]
                    lhs.extend(rhs[:])
""", """                    lhs._values[:] = rhs[:]
""")],
     demo=python("struct A { u8 x; }; struct S { A a<3>; };", """
s, t = m.S(), m.S()
s.a.add().x = 1
t.copy_from(s)
s.a[0].x = 2
assert t.a[0].x == 1
""")),
]
