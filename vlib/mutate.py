"""Corruptions of valid encodings, shared by the decoders' robustness checks."""
import struct as _struct

CODES = {1: "B", 2: "H", 4: "I", 8: "Q"}


def put(data, mark, value, endian):
    value &= (1 << (8 * mark.width)) - 1
    data[mark.offset:mark.offset + mark.width] = _struct.pack(endian + CODES[mark.width], value)


def control_value(src, mark, old):
    top = 1 << (8 * mark.width)
    if mark.role == "counter":
        return src.choice([old + 1, old - 1, 0, 1, old + 2, old * 2 + 1, top - 1, top // 2, top // 2 - 1, 255, 256,
                           65535, 65536, 65537, 0x20000000, 0x40000001, 0x1FFFFFFFFFFFFFFF, old | (top >> 8)])
    if mark.role == "flag":
        return src.choice([1 - old if old in (0, 1) else 0, 2, top - 1, 0x01000000, 0, 1])
    if mark.role in ("disc", "enum"):
        return src.choice([old + 1, old - 1, 0, 1, top - 1, 0x01000000, 12345, 2, 3])
    return src.choice([0, top - 1, top // 2, old ^ 1])


def corrupt(src, enc, endian):
    """(bytes, label) derived from the Encoding of a valid message."""
    data = bytearray(enc.data)
    kind = src.weighted([(5, "control"), (3, "truncate"), (2, "extend"), (3, "flip"), (2, "random"), (2, "many"),
                         (1, "cut+control"), (1, "splice"), (1, "valid"), (1, "padding")])
    controls = [m for m in enc.marks if m.role in ("counter", "flag", "disc", "enum")]
    if kind in ("control", "cut+control", "many") and not controls:
        kind = "flip"
    if kind in ("control", "cut+control", "many"):
        for _ in range(src.int(2, 4) if kind == "many" else 1):
            m = src.choice(controls)
            old = int.from_bytes(enc.data[m.offset:m.offset + m.width], "little" if endian == "<" else "big")
            put(data, m, control_value(src, m, old), endian)
    if kind in ("truncate", "cut+control") and data:
        del data[src.int(0, len(data) - 1):]
    elif kind == "extend":
        data += src.bytes(src.int(1, 12)) if src.chance(50) else bytes(src.int(1, 12))
    elif kind == "flip" and data:
        for _ in range(src.int(1, 3)):
            i = src.int(0, len(data) - 1)
            data[i] ^= 1 << src.int(0, 7)
    elif kind == "random":
        n = src.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 24, 31, 32, 48, 64])
        data = bytearray(src.bytes(n)) if src.chance(60) else bytearray(src.choice([0, 0, 1, 255]) for _ in range(n))
    elif kind == "splice" and len(data) > 1:
        i, j = src.int(0, len(data) - 1), src.int(0, len(data) - 1)
        data[min(i, j):max(i, j)] = b"" if src.chance(50) else data[min(i, j):max(i, j)] * 2
    elif kind == "padding" and data:
        scalars = set()
        for m in enc.marks:
            scalars.update(range(m.offset, m.offset + m.width))
        free = [i for i in range(len(data)) if i not in scalars]
        for i in free[:64]:
            if src.chance(50):
                data[i] = src.int(1, 255)
    return bytes(data), kind


def prefixes(enc, last):
    """The last truncation points of a valid encoding."""
    return [enc.data[:n] for n in range(max(0, len(enc.data) - last), len(enc.data))]
