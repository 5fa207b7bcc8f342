"""C05: float SIMD instructions and lane movement, every operand and every lane immediate."""
import z3
from sx.core import bvv, sext, zext
from sx import wb
from . import num
from .vec import vcase, lanewise, whole, flanes, lanes, mask, cat

ASSUMPTIONS = [
    'operands arrive through Runtime.invocate (bytearray of 16 bytes / signed Python integer / reinterpreted bits)',
    'hardware NaN propagation as in C02; lane and shuffle immediates are symbolic bytes of the module',
]
SHAPE = {32: 'f32x4', 64: 'f64x2'}


def sel(ls, k):
    """ls[k] for a symbolic index."""
    r = ls[0]
    for i in range(1, len(ls)):
        r = z3.If(k == i, ls[i], r)
    return r


def zero_lanes(n, w):
    return [bvv(0, w)] * n


def cases(tier):
    out = []

    def v(name, op, kinds, ret, chk, **kw):
        out.append(vcase(name, wb.fd(op), kinds, ret, chk, **kw))
    # -- lane movement
    imm16 = [(f'i{k}', 32) for k in range(16)]

    def shuffle(r, a, b, *ix):
        src = lanes(a, 8) + lanes(b, 8)
        return [(f'lane {i}', x == sel(src, ix[i])) for i, x in enumerate(lanes(r, 8))]
    v('i8x16.shuffle', 13, 'vv', 'v', shuffle, imm=imm16, seconds=150, bounds='all operands, all 16 lane immediates')
    v('i8x16.swizzle', 14, 'vv', 'v', lambda r, a, b: [
        (f'lane {i}', x == z3.If(z3.ULT(s, 16), sel(lanes(a, 8), s), bvv(0, 8)))
        for i, (x, s) in enumerate(zip(lanes(r, 8), lanes(b, 8)))], seconds=150)
    for op, k, w in ((15, 'i32', 8), (16, 'i32', 16), (17, 'i32', 32), (18, 'i64', 64), (19, 'f32', 32), (20, 'f64', 64)):
        nm = ('i8x16', 'i16x8', 'i32x4', 'i64x2', 'f32x4', 'f64x2')[op - 15]
        v(f'{nm}.splat', op, (k,), 'v',
          lambda r, a, w=w: [(f'lane {i}', x == z3.Extract(w - 1, 0, a)) for i, x in enumerate(lanes(r, w))])
    for nm, op, w, ret, sx in (('i8x16.extract_lane_s', 21, 8, 'i32', sext), ('i8x16.extract_lane_u', 22, 8, 'i32', zext),
                               ('i16x8.extract_lane_s', 24, 16, 'i32', sext), ('i16x8.extract_lane_u', 25, 16, 'i32', zext),
                               ('i32x4.extract_lane', 27, 32, 'i32', sext), ('i64x2.extract_lane', 29, 64, 'i64', sext),
                               ('f32x4.extract_lane', 31, 32, 'f32', sext), ('f64x2.extract_lane', 33, 64, 'f64', sext)):
        v(nm, op, 'v', ret, lambda r, a, i, w=w, sx=sx: [('lane value', r == sx(sel(lanes(a, w), i), r.size()))],
          imm=[('lane', 128 // w)], bounds='all operands, every lane immediate')
    for nm, op, w, k in (('i8x16', 23, 8, 'i32'), ('i16x8', 26, 16, 'i32'), ('i32x4', 28, 32, 'i32'), ('i64x2', 30, 64, 'i64'),
                         ('f32x4', 32, 32, 'f32'), ('f64x2', 34, 64, 'f64')):
        v(f'{nm}.replace_lane', op, ('v', k), 'v', lambda r, a, b, i, w=w: [
            (f'lane {j}', x == z3.If(i == j, z3.Extract(w - 1, 0, b), y))
            for j, (x, y) in enumerate(zip(lanes(r, w), lanes(a, w)))],
          imm=[('lane', 128 // w)], bounds='all operands, every lane immediate')
    # -- float lanes
    for w, base in ((32, 65), (64, 71)):
        for i, n in enumerate(('eq', 'ne', 'lt', 'gt', 'le', 'ge')):
            v(f'{SHAPE[w]}.{n}', base + i, 'vv', 'v',
              lanewise(w, lambda a, b, n=n, w=w: mask(num.FCMP[n](num.fp(a), num.fp(b)), w)))
    ops = {32: dict(ceil=103, floor=104, trunc=105, nearest=106, abs=224, neg=225, sqrt=227, add=228, sub=229, mul=230,
                    div=231, min=232, max=233),
           64: dict(ceil=116, floor=117, trunc=122, nearest=148, abs=236, neg=237, sqrt=239, add=240, sub=241, mul=242,
                    div=243, min=244, max=245)}
    for w in (32, 64):
        fa = num.float_arith(w)
        for n, op in ops[w].items():
            ar, chk = fa[n]
            v(f'{SHAPE[w]}.{n}', op, 'v' * ar, 'v', flanes(w, chk), seconds=150)
        base = 234 if w == 32 else 246
        v(f'{SHAPE[w]}.pmin', base, 'vv', 'v', lanewise(w, lambda a, b: z3.If(z3.fpLT(num.fp(b), num.fp(a)), b, a)))
        v(f'{SHAPE[w]}.pmax', base + 1, 'vv', 'v', lanewise(w, lambda a, b: z3.If(z3.fpLT(num.fp(a), num.fp(b)), b, a)))
    # -- conversions

    def demote(r, a):
        rs = lanes(r, 32)
        o = [(f'lane {i} is zero', rs[i] == 0) for i in (2, 3)]
        for i, x in enumerate(lanes(a, 64)):
            o += [(f'lane {i} {l}', c) for l, c in
                  num.fbits(rs[i], z3.fpToIEEEBV(z3.fpFPToFP(num.RNE, num.fp(x), num.F32S)), num.isnan(x), (x,))]
        return o
    v('f32x4.demote_f64x2_zero', 94, 'v', 'v', demote)

    def promote(r, a):
        o = []
        for i, (y, x) in enumerate(zip(lanes(r, 64), lanes(a, 32)[:2])):
            o += [(f'lane {i} {l}', c) for l, c in
                  num.fbits(y, z3.fpToIEEEBV(z3.fpFPToFP(num.RNE, num.fp(x), num.F64S)), num.isnan(x), (x,))]
        return o
    v('f64x2.promote_low_f32x4', 95, 'v', 'v', promote)
    for j, sg in enumerate((True, False)):
        su = 'su'[j]
        v(f'i32x4.trunc_sat_f32x4_{su}', 248 + j, 'v', 'v', lanewise(32, lambda a, sg=sg: num.trunc_sat(a, 32, sg)),
          seconds=150)
        v(f'f32x4.convert_i32x4_{su}', 250 + j, 'v', 'v', lanewise(32, lambda a, sg=sg: num.convert(a, 32, sg)),
          seconds=150)
        v(f'i32x4.trunc_sat_f64x2_{su}_zero', 252 + j, 'v', 'v',
          whole(lambda a, sg=sg: [num.trunc_sat(l, 32, sg) for l in lanes(a, 64)] + zero_lanes(2, 32), 32), seconds=150)
        v(f'f64x2.convert_low_i32x4_{su}', 254 + j, 'v', 'v',
          whole(lambda a, sg=sg: [num.convert(l, 64, sg) for l in lanes(a, 32)[:2]], 64), seconds=150)
    return out
