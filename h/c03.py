"""C03: numeric conversions."""
import z3
from sx.core import bvv, sext, zext
from . import num, fl

ASSUMPTIONS = ['operand and result bits pass through i32/i64 reinterpret instructions, themselves checked here']


def cases(tier):
    out = []
    op = 0xa8
    for iw, base in ((32, 0xa8), (64, 0xae)):
        k = 0
        for fw in (32, 64):
            for s in (True, False):
                su = 's' if s else 'u'
                out.append(fl.case(f'i{iw}.trunc_f{fw}_{su}', bytes([base + k]), [('f', fw)], ('i', iw),
                                   lambda r, a, iw=iw, s=s: [('value', r == num.trunc_int(a, iw, s)[1])],
                                   trap=lambda a, iw=iw, s=s: z3.Not(num.trunc_int(a, iw, s)[0]), seconds=120))
                out.append(fl.case(f'i{iw}.trunc_sat_f{fw}_{su}',
                                   b'\xfc' + bytes([(0 if iw == 32 else 4) + k]), [('f', fw)], ('i', iw),
                                   lambda r, a, iw=iw, s=s: [('value', r == num.trunc_sat(a, iw, s))], seconds=120))
                k += 1
    for fw, base in ((32, 0xb2), (64, 0xb7)):
        k = 0
        for iw in (32, 64):
            for s in (True, False):
                su = 's' if s else 'u'
                out.append(fl.case(f'f{fw}.convert_i{iw}_{su}', bytes([base + k]), [('i', iw)], ('f', fw),
                                   lambda r, a, fw=fw, s=s: [('value', r == num.convert(a, fw, s))], seconds=120))
                k += 1
    out.append(fl.case('f32.demote_f64', b'\xb6', [('f', 64)], ('f', 32),
                       lambda r, a: num.fbits(r, z3.fpToIEEEBV(z3.fpFPToFP(num.RNE, num.fp(a), num.F32S)),
                                              num.isnan(a), (a,))))
    out.append(fl.case('f64.promote_f32', b'\xbb', [('f', 32)], ('f', 64),
                       lambda r, a: num.fbits(r, z3.fpToIEEEBV(z3.fpFPToFP(num.RNE, num.fp(a), num.F64S)),
                                              num.isnan(a), (a,))))
    for w in (32, 64):
        out.append(fl.case(f'f{w}.reinterpret_i{w}.i{w}.reinterpret_f{w}', b'', [('f', w)], ('f', w),
                           lambda r, a: [('bits', r == a)]))
    return out
