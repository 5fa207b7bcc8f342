"""C01: scalar integer instructions, every operand value."""
import z3
from sx.harness import Case, eqv, B
from sx.core import bvv, sext, zext, z_not
from sx import wb
from . import num

ASSUMPTIONS = [
    'operands arrive through Runtime.invocate as signed Python integers of the declared width (all values)',
    'one instruction per module; operands come from parameters (C09/C10 cover operand-stack plumbing)',
]
T = {32: wb.I32, 64: wb.I64}


def mk(name, code, params, rw, spec, trap):
    mod = wb.single([T[w] for w in params], [T[rw]], b''.join(wb.lget(i) for i in range(len(params))) + code)
    names = 'ab'[:len(params)]

    def run(x):
        return x.call(mod, 'f', [x.i(n) for n in names])

    def check(x, obs):
        ts = [x.t(n) for n in names]
        tr = trap(*ts)
        if obs[0] == 'trap':
            return [('traps only where the specification traps', tr)]
        if obs[0] != 'ret' or len(obs[1]) != 1:
            return [('returns one value', z3.BoolVal(False))]
        return [('no trap is missed', z_not(tr)), ('result bits', eqv(obs[1][0], spec(*ts), True))]

    def small(x):
        """operands of at most 16 significant bits (sign-extended)"""
        return z3.And(*[sext(z3.Extract(15, 0, x.t(n)), x.t(n).size()) == x.t(n) for n in names])

    def tiny(x):
        """operands of at most 8 significant bits (sign-extended)"""
        return z3.And(*[sext(z3.Extract(7, 0, x.t(n)), x.t(n).size()) == x.t(n) for n in names])
    can_trap = not z3.is_false(z3.simplify(trap(*[z3.BitVec(n, w) for n, w in zip(names, params)])))
    return Case(name, dict(zip(names, params)), run, check, expect=('ret', 'trap') if can_trap else ('ret',),
                reduce=[small, tiny], bounds='every operand bit pattern of the declared width')


def cases(tier):
    out = []
    for w in (32, 64):
        for op, (ar, rw, spec, trap) in num.int_ops(w).items():
            out.append(mk(f'i{w}.{op}', bytes([num.INT_OPCODE[w][op]]), [w] * ar, rw, spec, trap))
    out.append(mk('i32.wrap_i64', b'\xa7', [64], 32, lambda a: z3.Extract(31, 0, a), num.NEVER))
    out.append(mk('i64.extend_i32_s', b'\xac', [32], 64, lambda a: sext(a, 64), num.NEVER))
    out.append(mk('i64.extend_i32_u', b'\xad', [32], 64, lambda a: zext(a, 64), num.NEVER))
    return out
