"""C04: integer and bitwise SIMD instructions, every operand."""
import z3
from sx.core import bvv, sext, zext
from sx import wb
from . import num
from .vec import vcase, lanewise, whole, lanes, mask, sat, xt

ASSUMPTIONS = ['operands arrive through Runtime.invocate (bytearray of 16 bytes / signed Python integer)']
SHAPE = {8: 'i8x16', 16: 'i16x8', 32: 'i32x4', 64: 'i64x2'}
CMP = {'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b, 'lt_s': lambda a, b: a < b, 'lt_u': z3.ULT,
       'gt_s': lambda a, b: a > b, 'gt_u': z3.UGT, 'le_s': lambda a, b: a <= b, 'le_u': z3.ULE,
       'ge_s': lambda a, b: a >= b, 'ge_u': z3.UGE}


def shift(w, f):
    def chk(r, a, b):
        n = b & bvv(w - 1, 32)
        n = z3.Extract(w - 1, 0, n) if w < 32 else zext(n, w)
        return [(f'lane {i}', x == f(y, n)) for i, (x, y) in enumerate(zip(lanes(r, w), lanes(a, w)))]
    return chk


def cases(tier):
    out = []

    def v(name, op, kinds, ret, chk, **kw):
        out.append(vcase(name, wb.fd(op), kinds, ret, chk, **kw))
    for w, base in ((8, 35), (16, 45), (32, 55)):
        for i, n in enumerate(('eq', 'ne', 'lt_s', 'lt_u', 'gt_s', 'gt_u', 'le_s', 'le_u', 'ge_s', 'ge_u')):
            v(f'{SHAPE[w]}.{n}', base + i, 'vv', 'v', lanewise(w, lambda a, b, n=n, w=w: mask(CMP[n](a, b), w)))
    for i, n in enumerate(('eq', 'ne', 'lt_s', 'gt_s', 'le_s', 'ge_s')):
        v(f'i64x2.{n}', 214 + i, 'vv', 'v', lanewise(64, lambda a, b, n=n: mask(CMP[n](a, b), 64)))
    one = lambda f: lambda r, *o: [('bits', r == f(*o))]
    v('v128.not', 77, 'v', 'v', one(lambda a: ~a))
    v('v128.and', 78, 'vv', 'v', one(lambda a, b: a & b))
    v('v128.andnot', 79, 'vv', 'v', one(lambda a, b: a & ~b))
    v('v128.or', 80, 'vv', 'v', one(lambda a, b: a | b))
    v('v128.xor', 81, 'vv', 'v', one(lambda a, b: a ^ b))
    v('v128.bitselect', 82, 'vvv', 'v', one(lambda a, b, c: (a & c) | (b & ~c)))
    v('v128.any_true', 83, 'v', 'i32', one(lambda a: num.b2(a != 0)))
    for w, base in ((8, 96), (16, 128), (32, 160), (64, 192)):
        s = SHAPE[w]
        v(f'{s}.abs', base, 'v', 'v', lanewise(w, lambda a: z3.If(a < 0, -a, a)))
        v(f'{s}.neg', base + 1, 'v', 'v', lanewise(w, lambda a: -a))
        v(f'{s}.all_true', base + 3, 'v', 'i32',
          one(lambda a, w=w: num.b2(z3.And(*[l != 0 for l in lanes(a, w)]))))
        v(f'{s}.bitmask', base + 4, 'v', 'i32',
          one(lambda a, w=w: zext(z3.Concat(*[num.sgn(l) for l in lanes(a, w)][::-1]), 32)))
        v(f'{s}.shl', base + 11, ('v', 'i32'), 'v', shift(w, lambda a, n: a << n))
        v(f'{s}.shr_s', base + 12, ('v', 'i32'), 'v', shift(w, lambda a, n: a >> n))
        v(f'{s}.shr_u', base + 13, ('v', 'i32'), 'v', shift(w, z3.LShR))
        v(f'{s}.add', base + 14, 'vv', 'v', lanewise(w, lambda a, b: a + b))
        v(f'{s}.sub', base + 17, 'vv', 'v', lanewise(w, lambda a, b: a - b))
        if w > 8:
            v(f'{s}.mul', base + 21, 'vv', 'v', lanewise(w, lambda a, b: a * b), seconds=120)
    v('i8x16.popcnt', 98, 'v', 'v', lanewise(8, lambda a: num.popcnt(a)), seconds=120)
    for w, base in ((8, 96), (16, 128)):
        s = SHAPE[w]
        for k, (n, f) in enumerate((('add_sat', lambda a, b: a + b), ('sub_sat', lambda a, b: a - b))):
            for j, sg in enumerate((True, False)):
                v(f'{s}.{n}_{"su"[j]}', base + 15 + 3 * k + j, 'vv', 'v',
                  lanewise(w, lambda a, b, f=f, sg=sg, w=w: sat(f(xt(sg)(a, w + 2), xt(sg)(b, w + 2)), w, sg)))
        v(f'{s}.avgr_u', base + 27, 'vv', 'v',
          lanewise(w, lambda a, b, w=w: z3.Extract(w, 1, zext(a, w + 1) + zext(b, w + 1) + 1)))
    for w, base in ((8, 118), (16, 150), (32, 182)):
        s = SHAPE[w]
        v(f'{s}.min_s', base, 'vv', 'v', lanewise(w, lambda a, b: z3.If(a < b, a, b)))
        v(f'{s}.min_u', base + 1, 'vv', 'v', lanewise(w, lambda a, b: z3.If(z3.ULT(a, b), a, b)))
        v(f'{s}.max_s', base + 2, 'vv', 'v', lanewise(w, lambda a, b: z3.If(a > b, a, b)))
        v(f'{s}.max_u', base + 3, 'vv', 'v', lanewise(w, lambda a, b: z3.If(z3.UGT(a, b), a, b)))
    for w, base in ((16, 101), (32, 133)):
        for j, sg in enumerate((True, False)):
            v(f'{SHAPE[w // 2]}.narrow_{SHAPE[w]}_{"su"[j]}', base + j, 'vv', 'v',
              whole(lambda a, b, w=w, sg=sg: [sat(l, w // 2, sg) for l in lanes(a, w) + lanes(b, w)], w // 2))
    for w, base in ((16, 135), (32, 167), (64, 199)):
        h = w // 2
        for k in range(4):
            hi, sg = k & 1, k < 2
            v(f'{SHAPE[w]}.extend_{("low", "high")[hi]}_{SHAPE[h]}_{"us"[sg]}', base + k, 'v', 'v',
              whole(lambda a, w=w, h=h, hi=hi, sg=sg:
                    [xt(sg)(l, w) for l in lanes(a, h)[hi * (128 // w):][:128 // w]], w))
    for w, base in ((16, 156), (32, 188), (64, 220)):
        h = w // 2
        for k in range(4):
            hi, sg = k & 1, k < 2
            v(f'{SHAPE[w]}.extmul_{("low", "high")[hi]}_{SHAPE[h]}_{"us"[sg]}', base + k, 'vv', 'v',
              whole(lambda a, b, w=w, h=h, hi=hi, sg=sg:
                    [xt(sg)(l, w) * xt(sg)(m, w) for l, m in
                     list(zip(lanes(a, h), lanes(b, h)))[hi * (128 // w):][:128 // w]], w), seconds=120)
    for w, base in ((16, 124), (32, 126)):
        h = w // 2
        for j, sg in enumerate((True, False)):
            v(f'{SHAPE[w]}.extadd_pairwise_{SHAPE[h]}_{"su"[j]}', base + j, 'v', 'v',
              whole(lambda a, w=w, h=h, sg=sg:
                    [xt(sg)(p, w) + xt(sg)(q, w) for p, q in zip(lanes(a, h)[::2], lanes(a, h)[1::2])], w))
    v('i16x8.q15mulr_sat_s', 130, 'vv', 'v',
      lanewise(16, lambda a, b: sat((sext(a, 34) * sext(b, 34) + 0x4000) >> 15, 16, True)), seconds=120)
    v('i32x4.dot_i16x8_s', 186, 'vv', 'v',
      whole(lambda a, b: [sext(p[0], 32) * sext(q[0], 32) + sext(p[1], 32) * sext(q[1], 32) for p, q in
                          zip(zip(lanes(a, 16)[::2], lanes(a, 16)[1::2]), zip(lanes(b, 16)[::2], lanes(b, 16)[1::2]))],
            32), seconds=120)
    return out
