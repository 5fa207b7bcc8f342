"""C02: scalar float arithmetic and comparisons, every operand bit pattern."""
import z3
from . import num, fl

ASSUMPTIONS = [
    'operand and result bits pass through i32/i64 reinterpret instructions (C03 checks these)',
    'hardware NaN propagation: an operation with NaN operands yields one of them quieted, otherwise the default NaN '
    'with either sign (all possibilities are considered)',
    'binary32 +,-,*,/ and sqrt computed in binary64 and rounded once more equal the binary32 operation (Figueroa)',
]


def cases(tier):
    out = []
    for w in (32, 64):
        for n, (ar, chk) in num.float_arith(w).items():
            out.append(fl.case(f'f{w}.{n}', bytes([num.FOPCODE[w][n]]), [('f', w)] * ar, ('f', w), chk, seconds=120))
        for n, f in num.FCMP.items():
            out.append(fl.case(f'f{w}.{n}', bytes([num.FCMP_OPCODE[w][n]]), [('f', w)] * 2, ('i', 32),
                               lambda r, a, b, f=f: [('truth value', r == num.b2(f(num.fp(a), num.fp(b))))]))
    return out
