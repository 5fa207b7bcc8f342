"""WebAssembly numeric semantics as solver terms (written from the specification, not from the code under test)."""
import z3
from sx.core import bvv, zext, sext, z_and, z_or, z_if

RNE, RTZ, RTP, RTN = z3.RNE(), z3.RTZ(), z3.RTP(), z3.RTN()
F32S, F64S = z3.Float32(), z3.Float64()


def b2(c, w=32):
    return z3.If(c, bvv(1, w), bvv(0, w))


def ext(hi, lo, t):
    return z3.Extract(hi, lo, t)


# ---- integers -----------------------------------------------------------------------------------------------
def clz(t):
    w = t.size()
    r = bvv(w, w)
    for i in range(w):
        r = z3.If(ext(i, i, t) == 1, bvv(w - 1 - i, w), r)
    return r


def ctz(t):
    w = t.size()
    r = bvv(w, w)
    for i in range(w - 1, -1, -1):
        r = z3.If(ext(i, i, t) == 1, bvv(i, w), r)
    return r


def popcnt(t, w=None):
    n = t.size()
    k = n.bit_length()
    acc = bvv(0, k)
    for i in range(n):
        acc = acc + zext(ext(i, i, t), k)
    return zext(acc, w or n)


def absu(t):
    return z3.If(t < 0, -t, t)


def div_s(a, b):
    q = z3.UDiv(absu(a), absu(b))
    return z3.If((a < 0) == (b < 0), q, -q)


def rem_s(a, b):
    r = z3.URem(absu(a), absu(b))
    return z3.If(a < 0, -r, r)


def shmask(b):
    return b & bvv(b.size() - 1, b.size())


def rotl(a, b):
    w = a.size()
    n = shmask(b)
    return (a << n) | z3.LShR(a, shmask(bvv(w, w) - n)) if False else z3.If(n == 0, a, (a << n) | z3.LShR(a, bvv(w, w) - n))


def rotr(a, b):
    w = a.size()
    n = shmask(b)
    return z3.If(n == 0, a, z3.LShR(a, n) | (a << (bvv(w, w) - n)))


def sext_from(k):
    return lambda a: sext(ext(k - 1, 0, a), a.size())


def smin(w):
    return bvv(1 << (w - 1), w)


NEVER = lambda *a: z3.BoolVal(False)


def int_ops(w):
    """opcode-name -> (arity, result width, spec, trap)"""
    z = lambda b: b == 0
    r = {
        'eqz': (1, 32, lambda a: b2(a == 0), NEVER),
        'eq': (2, 32, lambda a, b: b2(a == b), NEVER),
        'ne': (2, 32, lambda a, b: b2(a != b), NEVER),
        'lt_s': (2, 32, lambda a, b: b2(a < b), NEVER),
        'lt_u': (2, 32, lambda a, b: b2(z3.ULT(a, b)), NEVER),
        'gt_s': (2, 32, lambda a, b: b2(a > b), NEVER),
        'gt_u': (2, 32, lambda a, b: b2(z3.UGT(a, b)), NEVER),
        'le_s': (2, 32, lambda a, b: b2(a <= b), NEVER),
        'le_u': (2, 32, lambda a, b: b2(z3.ULE(a, b)), NEVER),
        'ge_s': (2, 32, lambda a, b: b2(a >= b), NEVER),
        'ge_u': (2, 32, lambda a, b: b2(z3.UGE(a, b)), NEVER),
        'clz': (1, w, clz, NEVER),
        'ctz': (1, w, ctz, NEVER),
        'popcnt': (1, w, popcnt, NEVER),
        'add': (2, w, lambda a, b: a + b, NEVER),
        'sub': (2, w, lambda a, b: a - b, NEVER),
        'mul': (2, w, lambda a, b: a * b, NEVER),
        'div_s': (2, w, div_s, lambda a, b: z3.Or(b == 0, z3.And(a == smin(w), b == bvv(-1, w)))),
        'div_u': (2, w, z3.UDiv, lambda a, b: b == 0),
        'rem_s': (2, w, rem_s, lambda a, b: b == 0),
        'rem_u': (2, w, z3.URem, lambda a, b: b == 0),
        'and': (2, w, lambda a, b: a & b, NEVER),
        'or': (2, w, lambda a, b: a | b, NEVER),
        'xor': (2, w, lambda a, b: a ^ b, NEVER),
        'shl': (2, w, lambda a, b: a << shmask(b), NEVER),
        'shr_s': (2, w, lambda a, b: a >> shmask(b), NEVER),
        'shr_u': (2, w, lambda a, b: z3.LShR(a, shmask(b)), NEVER),
        'rotl': (2, w, rotl, NEVER),
        'rotr': (2, w, rotr, NEVER),
        'extend8_s': (1, w, sext_from(8), NEVER),
        'extend16_s': (1, w, sext_from(16), NEVER),
    }
    if w == 64:
        r['extend32_s'] = (1, w, sext_from(32), NEVER)
    return r


INT_OPCODE = {
    32: dict(eqz=0x45, eq=0x46, ne=0x47, lt_s=0x48, lt_u=0x49, gt_s=0x4a, gt_u=0x4b, le_s=0x4c, le_u=0x4d, ge_s=0x4e,
             ge_u=0x4f, clz=0x67, ctz=0x68, popcnt=0x69, add=0x6a, sub=0x6b, mul=0x6c, div_s=0x6d, div_u=0x6e,
             rem_s=0x6f, rem_u=0x70, shl=0x74, shr_s=0x75, shr_u=0x76, rotl=0x77, rotr=0x78, extend8_s=0xc0,
             extend16_s=0xc1),
    64: dict(eqz=0x50, eq=0x51, ne=0x52, lt_s=0x53, lt_u=0x54, gt_s=0x55, gt_u=0x56, le_s=0x57, le_u=0x58, ge_s=0x59,
             ge_u=0x5a, clz=0x79, ctz=0x7a, popcnt=0x7b, add=0x7c, sub=0x7d, mul=0x7e, div_s=0x7f, div_u=0x80,
             rem_s=0x81, rem_u=0x82, shl=0x86, shr_s=0x87, shr_u=0x88, rotl=0x89, rotr=0x8a, extend8_s=0xc2,
             extend16_s=0xc3, extend32_s=0xc4),
}
INT_OPCODE[32].update({'and': 0x71, 'or': 0x72, 'xor': 0x73})
INT_OPCODE[64].update({'and': 0x83, 'or': 0x84, 'xor': 0x85})


# ---- floats -------------------------------------------------------------------------------------------------
FS = {32: F32S, 64: F64S}
MANT = {32: 23, 64: 52}
INF = {32: 0x7f800000, 64: 0x7ff0000000000000}
CANON = {32: 0x7fc00000, 64: 0x7ff8000000000000}


def fp(t):
    return z3.fpBVToFP(t, FS[t.size()])


def mag(t):
    w = t.size()
    return t & bvv((1 << (w - 1)) - 1, w)


def sgn(t):
    return ext(t.size() - 1, t.size() - 1, t)


def isnan(t):
    return z3.UGT(mag(t), bvv(INF[t.size()], t.size()))


def isinf(t):
    return mag(t) == INF[t.size()]


def iszero(t):
    return mag(t) == 0


def canonical(t):
    return mag(t) == CANON[t.size()]


def arithmetic(t):
    w = t.size()
    q = MANT[w] - 1
    return z3.And(isnan(t), ext(q, q, t) == 1)


def nan_result(r, ops):
    """r is a NaN the specification allows for operands ops (bit patterns)."""
    canon_in = z3.And(*[z3.Or(z3.Not(isnan(o)), canonical(o)) for o in ops]) if ops else z3.BoolVal(True)
    return z3.And(arithmetic(r), z3.Implies(canon_in, canonical(r)))


def fresult(r, val, ops, nan=None):
    """Result bits r of a float operation whose exact result is the FP term val."""
    n = z3.fpIsNaN(val) if nan is None else nan
    return [('NaN result', z3.Implies(n, nan_result(r, ops))),
            ('numeric result', z3.Implies(z3.Not(n), r == z3.fpToIEEEBV(val)))]


def fbits(r, bits, nan, ops):
    return [('NaN result', z3.Implies(nan, nan_result(r, ops))),
            ('numeric result', z3.Implies(z3.Not(nan), r == bits))]


def fmin_bits(a, b):
    X, Y = fp(a), fp(b)
    return z3.If(z3.And(iszero(a), iszero(b)), a | b, z3.If(z3.fpLT(X, Y), a, b))


def fmax_bits(a, b):
    X, Y = fp(a), fp(b)
    return z3.If(z3.And(iszero(a), iszero(b)), a & b, z3.If(z3.fpGT(X, Y), a, b))


def round_bits(rm, a):
    """Bits of a rounded to an integral value (non-NaN)."""
    return z3.fpToIEEEBV(z3.fpRoundToIntegral(rm, fp(a)))


def anynan(*ts):
    return z3.Or(*[isnan(t) for t in ts])


def float_arith(w):
    """name -> (arity, check(r, *operand bits) -> [(label, cond)])"""
    def ar(f):
        return lambda r, *o: fresult(r, f(*[fp(x) for x in o]), o)
    sb = bvv(1 << (w - 1), w)
    return {
        'abs': (1, lambda r, a: [('bits', r == mag(a))]),
        'neg': (1, lambda r, a: [('bits', r == a ^ sb)]),
        'copysign': (2, lambda r, a, b: [('bits', r == (mag(a) | (b & sb)))]),
        'add': (2, ar(lambda x, y: z3.fpAdd(RNE, x, y))),
        'sub': (2, ar(lambda x, y: z3.fpSub(RNE, x, y))),
        'mul': (2, ar(lambda x, y: z3.fpMul(RNE, x, y))),
        'div': (2, ar(lambda x, y: z3.fpDiv(RNE, x, y))),
        'sqrt': (1, ar(lambda x: z3.fpSqrt(RNE, x))),
        'min': (2, lambda r, a, b: fbits(r, fmin_bits(a, b), anynan(a, b), (a, b))),
        'max': (2, lambda r, a, b: fbits(r, fmax_bits(a, b), anynan(a, b), (a, b))),
        'ceil': (1, lambda r, a: fbits(r, round_bits(RTP, a), isnan(a), (a,))),
        'floor': (1, lambda r, a: fbits(r, round_bits(RTN, a), isnan(a), (a,))),
        'trunc': (1, lambda r, a: fbits(r, round_bits(RTZ, a), isnan(a), (a,))),
        'nearest': (1, lambda r, a: fbits(r, round_bits(RNE, a), isnan(a), (a,))),
    }


FCMP = {
    'eq': z3.fpEQ, 'ne': lambda x, y: z3.Not(z3.fpEQ(x, y)), 'lt': z3.fpLT, 'gt': z3.fpGT, 'le': z3.fpLEQ, 'ge': z3.fpGEQ,
}
FCMP_OPCODE = {32: dict(eq=0x5b, ne=0x5c, lt=0x5d, gt=0x5e, le=0x5f, ge=0x60),
               64: dict(eq=0x61, ne=0x62, lt=0x63, gt=0x64, le=0x65, ge=0x66)}
_fn = ['abs', 'neg', 'ceil', 'floor', 'trunc', 'nearest', 'sqrt', 'add', 'sub', 'mul', 'div', 'min', 'max', 'copysign']
FOPCODE = {32: {n: 0x8b + i for i, n in enumerate(_fn)}, 64: {n: 0x99 + i for i, n in enumerate(_fn)}}


# ---- conversions --------------------------------------------------------------------------------------------
def trunc_int(a, w, signed):
    """(in range, w-bit integer) of trunc(float bits a)."""
    X = fp(a)
    s = a.size()
    if signed:
        hi = z3.fpLT(X, z3.FPVal(2.0 ** (w - 1), FS[s]))
        lo_b = -(2.0 ** (w - 1))
        # X > -2^(w-1) - 1, i.e. trunc(X) >= -2^(w-1)
        T = z3.fpRoundToIntegral(RTZ, X)
        lo = z3.fpGEQ(T, z3.FPVal(lo_b, FS[s]))
    else:
        hi = z3.fpLT(X, z3.FPVal(2.0 ** w, FS[s]))
        lo = z3.fpGT(X, z3.FPVal(-1.0, FS[s]))
    ok = z3.And(z3.Not(isnan(a)), hi, lo)
    return ok, trunc_value(a, w)


def trunc_value(a, w):
    """Integer part of the float with bits a, two-s complement, modulo 2^w (exact when it fits)."""
    s = a.size()
    m = MANT[s]
    e = ext(s - 2, m, a)
    eb = s - 1 - m
    bias = (1 << (eb - 1)) - 1
    W = max(w, m + 1, eb + 2) + 0
    sig = zext(z3.Concat(bvv(1, 1), ext(m - 1, 0, a)), W)
    ex = zext(e, W)
    c = bvv(bias + m, W)
    v = z3.If(z3.UGE(ex, c), sig << (ex - c), z3.LShR(sig, c - ex))
    v = z3.If(z3.ULT(ex, bvv(bias, W)), bvv(0, W), v)
    v = z3.If(sgn(a) == 1, -v, v)
    return v if W == w else ext(w - 1, 0, v)


def trunc_sat(a, w, signed):
    ok, v = trunc_int(a, w, signed)
    lo = bvv(1 << (w - 1), w) if signed else bvv(0, w)
    hi = bvv((1 << (w - 1)) - 1, w) if signed else bvv((1 << w) - 1, w)
    return z3.If(isnan(a), bvv(0, w), z3.If(ok, v, z3.If(sgn(a) == 1, lo, hi)))


def convert(a, w, signed):
    f = z3.fpSignedToFP if signed else z3.fpUnsignedToFP
    return z3.fpToIEEEBV(f(RNE, a, FS[w]))
