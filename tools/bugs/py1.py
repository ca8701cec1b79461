PRE = '''
set -e
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
W=$(mktemp -d)
trap 'rm -r "$W"' EXIT
'''
def demo(schema, code, args=""):
    return PRE + '''
cat > "$W/m.prophy" <<'EOF'
%s
EOF
python3 -c 'import sys' 2>/dev/null
PY=/opt/venv/bin/python
"$PY" -m prophyc %s --python_out "$W" "$W/m.prophy"
cat > "$W/demo.py" <<'EOF'
import sys
import prophy
sys.path.insert(0, sys.argv[1])
import m
%s
EOF
"$PY" "$W/demo.py" "$W"
''' % (schema.strip(), args, code.strip())

BUGS = [
dict(id="c01_partial_alignment_leaks", property="C01",
     needs="a struct with two dynamic arrays where the block after the second one is wider than the block after the first",
     what="the first block is padded to the alignment of all later blocks instead of its own",
     edits=[("prophy/generators.py", """                alignment = 1
            alignment = max(field_alignment(type_), alignment)""", """                alignment = min(alignment, 4)
            alignment = max(field_alignment(type_), alignment)""")],
     demo=demo("struct X { u8 a<>; u8 b<>; u32 c; };", """
x = m.X()
x.a.append(1)
x.b.append(2)
x.c = 3
data = x.encode('<')
print(data.hex())
assert data.hex() == '01000000' '01' '000000' '01000000' '02' '000000' '03000000', data.hex()
""".replace("struct X", "struct X"))),
dict(id="c01_union_disc_pad", property="C01",
     needs="a union whose widest-aligned arm is not discriminated, with an 8-aligned arm",
     what="the body follows the discriminator at the alignment of the selected arm, not of the union",
     edits=[("prophy/composite.py", """        discriminator_bytes = self._discriminator_type._encode(
            d.discriminator, endianness).ljust(self._ALIGNMENT, b'\\x00')""", """        discriminator_bytes = self._discriminator_type._encode(
            d.discriminator, endianness).ljust(max(4, d.type._ALIGNMENT), b'\\x00')""")],
     demo=demo("union U { 1: u8 a; 2: u64 b; };", """
x = m.U()
x.discriminator = 'a'
x.a = 5
assert x.encode('<').hex() == '01000000' '00000000' '05' + '00' * 7, x.encode('<').hex()
""")),
dict(id="c02_limited_bytes_hint", property="C02",
     needs="a limited bytes field that ends with zero bytes",
     what="decoding strips trailing zeros of limited bytes fields",
     edits=[("prophy/composite.py", """            elif size and bound:
                return data[pos:(pos + len_hint)], size""", """            elif size and bound:
                return data[pos:(pos + len_hint)].rstrip(b'\\x00') if len_hint == size else data[pos:(pos + len_hint)], size""")],
     demo=demo("struct X { bytes a<4>; };", """
x = m.X()
x.a = b'ab\\0\\0'
y = m.X()
y.decode(x.encode('<'), '<')
assert y.a == x.a, (x.a, y.a)
""")),
dict(id="c02_optional_skip", property="C02",
     needs="an absent optional whose type is wider than its flag, followed by another field",
     what="decoding skips an absent optional by the size of its flag and alignment only",
     edits=[("prophy/descriptor.py", """        setattr(parent, name, None)
        return opt_alignment + type_._SIZE""", """        setattr(parent, name, None)
        return opt_alignment + max(type_._ALIGNMENT, min(type_._SIZE, 8))""")],
     demo=demo("struct S { u32 a[3]; }; struct X { S* s; u32 t; };", """
x = m.X()
x.t = 7
y = m.X()
assert y.decode(x.encode('<'), '<') == 20
assert y.t == 7, y.t
""")),
dict(id="c10_insert_limit", property="C10",
     needs="insert() into a full limited array at a negative index",
     what="the limit of an array is not enforced by insert() from the back",
     edits=[("prophy/container.py", """    def insert(self, idx, value):
        value = self._TYPE._check(value)
        if self._max_len and len(self) == self._max_len:""", """    def insert(self, idx, value):
        value = self._TYPE._check(value)
        if self._max_len and len(self) == self._max_len and idx >= 0:""")],
     demo=demo("struct X { u8 a<2>; };", """
x = m.X()
x.a[:] = [1, 2]
try:
    x.a.insert(-1, 3)
except prophy.ProphyError:
    pass
assert len(x.a) == 2, x.a
""")),
dict(id="c10_union_keeps_value", property="C10",
     needs="switching a union to another arm and back",
     what="an arm's old value reappears after switching the discriminator away and back",
     edits=[("prophy/generators.py", """                    if field != self._discriminated:
                        self._discriminated = field
                        self._fields = {}""", """                    if field != self._discriminated:
                        self._discriminated = field
                        if codec_kind.is_composite(field.type):
                            self._fields = {}""")],
     demo=demo("union U { 1: u8 a; 2: u16 b; };", """
x = m.U()
x.discriminator = 'a'
x.a = 5
x.discriminator = 'b'
x.discriminator = 'a'
assert x.a == 0, x.a
""")),
dict(id="c11_shared_fixed_arrays", property="C11",
     needs="a scalar fixed array copied into an untouched target and changed afterwards",
     what="copy_from shares the storage of fixed scalar arrays between both messages",
     edits=[("prophy/composite.py", """            else:
                lhs[:] = rhs[:]
        elif""", """            elif rhs._DYNAMIC or rhs._BOUND:
                lhs[:] = rhs[:]
            else:
                lhs._values = rhs._values
        elif""")],
     demo=demo("struct X { u8 a[2]; };", """
x, y = m.X(), m.X()
x.a[:] = [1, 2]
y.copy_from(x)
x.a[0] = 9
assert y.a[:] == [1, 2], y.a
""")),
dict(id="c06_enum_array_unchecked", property="C06",
     needs="an optional enum holding an unknown enumerator",
     what="decode lets KeyError or ValueError escape for an unknown enumerator in a fixed enum array",
     edits=[("prophy/generators.py", """                if value not in int_to_name:
                    raise ProphyError("unknown enumerator {} value".format(cls.__name__))
                return cls(value)""", """                if value not in int_to_name:
                    raise (ProphyError if value < 0x80000000 else ValueError)(
                        "unknown enumerator {} value".format(cls.__name__))
                return cls(value)""")],
     demo=demo("enum E { E_A = 1 }; struct X { E a; };", """
try:
    m.X().decode(b'\\xff\\xff\\xff\\xff', '<')
except prophy.ProphyError:
    pass
""")),
]
