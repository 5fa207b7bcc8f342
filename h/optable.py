"""Every pure instruction with its operand and result types (written from the specification)."""
from sx import wb

I32, I64, F32, F64, V128 = wb.I32, wb.I64, wb.F32, wb.F64, wb.V128


def numeric():
    """[(name, code, params, result)]"""
    out = []

    def rng(a, b, ps, r):
        for op in range(a, b + 1):
            out.append((f'{op:02x}', bytes([op]), ps, r))
    i, l, f, d = [I32], [I64], [F32], [F64]
    rng(0x45, 0x45, i, I32)
    rng(0x46, 0x4f, i * 2, I32)
    rng(0x50, 0x50, l, I32)
    rng(0x51, 0x5a, l * 2, I32)
    rng(0x5b, 0x60, f * 2, I32)
    rng(0x61, 0x66, d * 2, I32)
    rng(0x67, 0x69, i, I32)
    rng(0x6a, 0x78, i * 2, I32)
    rng(0x79, 0x7b, l, I64)
    rng(0x7c, 0x8a, l * 2, I64)
    rng(0x8b, 0x91, f, F32)
    rng(0x92, 0x98, f * 2, F32)
    rng(0x99, 0x9f, d, F64)
    rng(0xa0, 0xa6, d * 2, F64)
    rng(0xa7, 0xa7, l, I32)
    rng(0xa8, 0xa9, f, I32)
    rng(0xaa, 0xab, d, I32)
    rng(0xac, 0xad, i, I64)
    rng(0xae, 0xaf, f, I64)
    rng(0xb0, 0xb1, d, I64)
    rng(0xb2, 0xb3, i, F32)
    rng(0xb4, 0xb5, l, F32)
    rng(0xb6, 0xb6, d, F32)
    rng(0xb7, 0xb8, i, F64)
    rng(0xb9, 0xba, l, F64)
    rng(0xbb, 0xbb, f, F64)
    rng(0xbc, 0xbc, f, I32)
    rng(0xbd, 0xbd, d, I64)
    rng(0xbe, 0xbe, i, F32)
    rng(0xbf, 0xbf, l, F64)
    rng(0xc0, 0xc1, i, I32)
    rng(0xc2, 0xc4, l, I64)
    for k, (p, r) in enumerate([(f, I32)] * 2 + [(d, I32)] * 2 + [(f, I64)] * 2 + [(d, I64)] * 2):
        out.append((f'fc{k}', b'\xfc' + bytes([k]), p, r))
    return out


def vector():
    v, i, l, f, d = [V128], [I32], [I64], [F32], [F64]
    out = []

    def add(op, ps, r, imm=b''):
        out.append((f'fd{op}', wb.fd(op) + imm, ps, r))
    add(13, v * 2, V128, bytes([0, 17, 2, 31, 4, 20, 6, 7, 30, 9, 10, 1, 12, 13, 16, 15]))
    add(14, v * 2, V128)
    for op, t in ((15, i), (16, i), (17, i), (18, l), (19, f), (20, d)):
        add(op, t, V128)
    for op, r in ((21, I32), (22, I32), (24, I32), (25, I32), (27, I32), (29, I64), (31, F32), (33, F64)):
        add(op, v, r, b'\1')
    for op, t in ((23, i), (26, i), (28, i), (30, l), (32, f), (34, d)):
        add(op, v + t, V128, b'\1')
    un = [77, 94, 95, 96, 97, 98, 128, 129, 160, 161, 192, 193, 103, 104, 105, 106, 116, 117, 122, 148, 224, 225, 227, 236, 237, 239,
          248, 249, 250, 251, 252, 253, 254, 255] + list(range(124, 128)) + list(range(135, 139)) + list(range(167, 171)) + list(range(199, 203))
    for op in un:
        add(op, v, V128)
    for op in (83, 99, 100, 131, 132, 163, 164, 195, 196):
        add(op, v, I32)
    add(82, v * 3, V128)
    for op in (107, 108, 109, 139, 140, 141, 171, 172, 173, 203, 204, 205):
        add(op, v + i, V128)
    two = list(range(35, 77)) + [78, 79, 80, 81, 101, 102, 110, 111, 112, 113, 114, 115, 118, 119, 120, 121, 123, 130, 133, 134] + \
        list(range(142, 148)) + [149, 150, 151, 152, 153, 155, 156, 157, 158, 159, 174, 177, 181, 182, 183, 184, 185, 186, 188, 189, 190, 191, 206, 209, 213] + \
        list(range(214, 224)) + list(range(228, 236)) + list(range(240, 248))
    for op in two:
        add(op, v * 2, V128)
    return out
