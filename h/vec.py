"""Vector-instruction cases and the v128 lane semantics (from the specification)."""
import z3
from sx.harness import Case, eqv, tt, word_of
from sx.core import bvv, sext, zext, SBytes
from sx import wb
from . import num

W = {'v': 128, 'i32': 32, 'i64': 64, 'f32': 32, 'f64': 64}
VT = {'v': wb.V128, 'i32': wb.I32, 'i64': wb.I64, 'f32': wb.I32, 'f64': wb.I64}
IN = {'f32': b'\xbe', 'f64': b'\xbf'}
OUT = {'f32': b'\xbc', 'f64': b'\xbd'}


def lanes(t, w):
    return [z3.Extract(i + w - 1, i, t) for i in range(0, t.size(), w)]


def cat(ls):
    return z3.Concat(*ls[::-1]) if len(ls) > 1 else ls[0]


def code_for(kinds, ret, op):
    return b''.join(wb.lget(i) + IN.get(k, b'') for i, k in enumerate(kinds)) + op + OUT.get(ret, b'')


def arg(x, n, k):
    return x.bytes(n) if k == 'v' else x.i(n)


def result(v, ret):
    """(condition that the value is well-formed, term) of a result value, or None."""
    if ret == 'v':
        if not isinstance(v, (SBytes, bytes, bytearray)):
            return None
        if isinstance(v, SBytes) and v.items is None or len(SBytes.lift(v).items) != 16:
            return None
        return z3.BoolVal(True), word_of(v)
    t = tt(v, W[ret])
    return None if t is None else (eqv(v, t, True), t)


def vcase(name, op, kinds, ret, chk, bounds='every operand bit pattern', imm=None, reduce=None, **kw):
    """chk(r, *operand terms[, *immediate terms]) -> [(label, cond)].
    imm: [(name, limit)]: symbolic immediate bytes, op is then a function of the list of byte placeholders."""
    names = 'abc'[:len(kinds)]
    inputs = {n: W[k] for n, k in zip(names, kinds)}
    imm = imm or []
    for n, _ in imm:
        inputs[n] = 8

    def mk(o):
        # the operands are read back after the instruction: it must not have altered the locals they came from
        return wb.single([VT[k] for k in kinds], [VT[ret]] + [VT[k] for k in kinds],
                         code_for(kinds, ret, o) + b''.join(wb.lget(i) for i in range(len(kinds))))
    if imm:
        mark = [0xa5 ^ i for i in range(len(imm))]
        base = mk(op + bytes(mark))
        at = base.rindex(bytes(mark))
    else:
        base = mk(op)

    def run(x):
        mod = base
        if imm:
            for n, lim in imm:
                x.assume(z3.ULT(x.t(n), lim))
            l = list(base)
            for j, (n, _) in enumerate(imm):
                l[at + j] = x.u(n)
            mod = x.buf(l)
        return x.call(mod, 'f', [arg(x, n, k) for n, k in zip(names, kinds)])

    def check(x, obs):
        if obs[0] != 'ret' or len(obs[1]) != 1 + len(kinds):
            return [('completes with its result', z3.BoolVal(False))]
        rs = [result(v, k) for v, k in zip(obs[1], (ret,) + tuple(kinds))]
        if None in rs:
            return [('results have the declared types', z3.BoolVal(False))]
        return ([('representable', z3.And(*[r[0] for r in rs]))] + chk(rs[0][1], *[x.t(n) for n in inputs]) +
                [(f'operand {n} unchanged', r[1] == x.t(n)) for n, r in zip(names, rs[1:])])
    return Case(name, inputs, run, check, bounds=bounds, reduce=reduce, **kw)


def lanewise(w, f, rw=None):
    """chk for a lane function f(*lane terms) -> lane term."""
    def chk(r, *ops):
        ls = [lanes(o, w) for o in ops]
        rs = lanes(r, rw or w)
        return [(f'lane {i}', rs[i] == f(*[l[i] for l in ls])) for i in range(len(rs))]
    return chk


def whole(f, w):
    """chk for a function giving the whole list of result lanes (width w)."""
    def chk(r, *ops):
        want = f(*ops)
        rs = lanes(r, w) if r.size() > w else [r]
        return [(f'lane {i}', a == b) for i, (a, b) in enumerate(zip(rs, want))]
    return chk


def flanes(w, f):
    """chk for float lanes: f(r, *lane operands) -> [(label, cond)]."""
    def chk(r, *ops):
        ls = [lanes(o, w) for o in ops]
        rs = lanes(r, w)
        return [(f'lane {i} {l}', c) for i in range(len(rs)) for l, c in f(rs[i], *[x[i] for x in ls])]
    return chk


def mask(c, w):
    return z3.If(c, bvv((1 << w) - 1, w), bvv(0, w))


def sat(v, w, signed):
    """Saturate the signed term v to w bits."""
    W_ = v.size()
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
    return z3.If(v < bvv(lo, W_), bvv(lo, w), z3.If(v > bvv(hi, W_), bvv(hi, w), z3.Extract(w - 1, 0, v)))


def xt(signed):
    return sext if signed else zext
