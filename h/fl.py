"""Shared construction of float-instruction cases: operands and results travel as integers through reinterpret
instructions so that every bit pattern, NaN payloads included, is covered."""
import z3
from sx.harness import Case, eqv, tt
from sx.core import bvv, sext
from sx import wb

IT = {32: wb.I32, 64: wb.I64}
TOF = {32: b'\xbe', 64: b'\xbf'}        # fNN.reinterpret_iNN
TOI = {32: b'\xbc', 64: b'\xbd'}        # iNN.reinterpret_fNN


def bounds_ladder(names, ws):
    """Smaller bounds for floats: operands with few significant fraction bits, then few exponents."""
    def frac(k):
        def f(x):
            cs = []
            for n, w in zip(names, ws):
                if w == 'i':
                    continue
                t = x.t(n)
                m = 23 if t.size() == 32 else 52
                cs.append(z3.Extract(m - 1 - k, 0, t) == 0)
            return z3.And(*cs) if cs else z3.BoolVal(True)
        f.__doc__ = f'operands whose fraction has at most {k} significant bits'
        return f
    return [frac(10), frac(4)]


def case(name, code, params, ret, check, trap=None, **kw):
    """params: list of (kind, width) with kind 'f' or 'i'; ret: (kind, width); check(r, *terms)."""
    names = 'abcd'[:len(params)]
    body = b''.join(wb.lget(i) + (TOF[w] if k == 'f' else b'') for i, (k, w) in enumerate(params)) + code
    if ret[0] == 'f':
        body += TOI[ret[1]]
    mod = wb.single([IT[w] for _, w in params], [IT[ret[1]]], body)

    def run(x):
        return x.call(mod, 'f', [x.i(n) for n in names])

    def chk(x, obs):
        ts = [x.t(n) for n in names]
        tr = trap(*ts) if trap else z3.BoolVal(False)
        if obs[0] == 'trap':
            return [('traps only where the specification traps', tr)]
        if obs[0] != 'ret' or len(obs[1]) != 1:
            return [('returns one value', z3.BoolVal(False))]
        r = tt(obs[1][0], ret[1])
        if r is None:
            return [('returns an integer', z3.BoolVal(False))]
        out = [('no trap is missed', z3.Not(tr)), ('representable', eqv(obs[1][0], r, True))]
        return out + [(l, z3.Implies(z3.Not(tr), c)) for l, c in check(r, *ts)]
    return Case(name, {n: w for n, (_, w) in zip(names, params)}, run, chk,
                expect=('ret', 'trap') if trap else ('ret',),
                reduce=bounds_ladder(names, [k for k, _ in params]),
                bounds='every operand bit pattern (all NaN payloads, signed zeros, subnormals)', **kw)
