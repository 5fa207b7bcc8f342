"""C13: truncated or malformed binaries are rejected at load time; well-formed ones are not."""
import z3
from sx.harness import Case
from sx import core, models, wb
from . import c12
from .util import Patch

ASSUMPTIONS = [
    'oracle: a reference decoder (this file) of the binary format, executed on the same symbolic bytes',
    'no statement about over-long LEB128 encodings, section order, repeated sections, or constraints that belong to '
    'validation (the reference decoder answers "either")',
]
NAT = {op: a for op, a in c12.NAT.items()}
VALT = (0x7f, 0x7e, 0x7d, 0x7c, 0x7b, 0x70, 0x6f)


class Bad(Exception):
    pass


def one_of(v, s):
    """v in s with a single case split."""
    if isinstance(v, int):
        return v in s
    return bool(models.sx_any_eq(v, list(s)))


class Ref:
    """Reference decoder over a list of byte values (ints or symbolic integers)."""

    def __init__(self, b):
        self.b, self.i, self.end = b, 0, len(b)
        self.loose = False

    def sub(self, n):
        r = Ref(self.b)
        r.i = self.i
        if n > self.end - self.i:
            raise Bad('beyond the end')
        n = n if isinstance(n, int) else core.conc(n)
        r.end = self.i = self.i + n
        return r

    def byte(self):
        if self.i >= self.end:
            raise Bad('end')
        self.i += 1
        return self.b[self.i - 1]

    def skip(self, n):
        if n > self.end - self.i:
            raise Bad('end')
        self.i += n if isinstance(n, int) else core.conc(n)

    def done(self):
        if self.i != self.end:
            raise Bad('junk')

    def u(self, bits=32):
        v = s = 0
        while True:
            b = self.byte()
            more = b >= 0x80
            more = bool(more)
            v = v | ((b & 0x7f) << s)
            s += 7
            if not more:
                break
        if s > 7 * (-(-bits // 7)):
            self.loose = True
        elif s > bits and (b >> (bits - s + 7)) != 0:
            self.loose = True
        return v

    def s(self, bits):
        v = s = 0
        while True:
            b = self.byte()
            more = bool(b >= 0x80)
            v = v | ((b & 0x7f) << s)
            s += 7
            if not more:
                break
        if s > 7 * (-(-bits // 7)):
            self.loose = True
        elif s > bits:
            top = (b & 0x7f) >> (bits - s + 6)
            if top != 0 and top != (1 << (s - bits + 1)) - 1:
                self.loose = True
        return v, s // 7, b

    def valtype(self):
        if not one_of(self.byte(), VALT):
            raise Bad('value type')

    def reftype(self):
        b = self.byte()
        if not one_of(b, VALT):
            raise Bad('reference type')
        if not one_of(b, (0x70, 0x6f)):
            raise Bad('reference type')

    def vec(self, f):
        n = self.u()
        k = 0
        while k < n:
            f()
            k += 1
        return k

    def name(self):
        r = self.sub(self.u())
        b = r.b[r.i:r.end]
        k = 0
        while k < len(b):
            c = b[k]
            if c < 0x80:
                k += 1
                continue
            if 0xc2 <= c and c <= 0xdf:
                n, lo, hi = 1, 0x80, 0xbf
            elif c >= 0xe0 and c <= 0xef:
                n = 2
                lo, hi = (0xa0, 0xbf) if c == 0xe0 else (0x80, 0x9f) if c == 0xed else (0x80, 0xbf)
            elif c >= 0xf0 and c <= 0xf4:
                n = 3
                lo, hi = (0x90, 0xbf) if c == 0xf0 else (0x80, 0x8f) if c == 0xf4 else (0x80, 0xbf)
            else:
                raise Bad('utf-8')
            if k + n >= len(b):
                raise Bad('utf-8')
            if b[k + 1] < lo or b[k + 1] > hi:
                raise Bad('utf-8')
            for j in range(2, n + 1):
                if b[k + j] < 0x80 or b[k + j] > 0xbf:
                    raise Bad('utf-8')
            k += n + 1

    def limits(self):
        f = self.byte()
        if f == 0:
            self.u()
        elif f == 1:
            self.u()
            self.u()
        else:
            raise Bad('limits')

    def table(self):
        self.reftype()
        self.limits()

    def globaltype(self):
        self.valtype()
        if self.byte() > 1:
            raise Bad('mutability')

    def zero(self):
        if self.byte() != 0:
            raise Bad('reserved')

    def memarg(self, nat):
        a = self.u()
        self.u()
        if a > nat:
            raise Bad('alignment')

    def lane(self, n):
        # a lane index is a single byte; the multi-byte forms some decoders accept are left open
        b = self.byte()
        if b >= 0x80:
            self.loose = True
            self.i -= 1
            b = self.u()
        if b >= n:
            raise Bad('lane')

    def blocktype(self):
        v, n, last = self.s(33)
        if n == 1:
            b = self.b[self.i - 1]
            if b == 0x40 or one_of(b, VALT):
                return
        if (last & 0x40) != 0:
            raise Bad('block type')

    def expr(self, els=False):
        seen = False
        while True:
            r = self.instr()
            if r == 'end':
                return
            if r == 'else':
                if seen or not els:
                    raise Bad('else')
                seen = True

    def instr(self):
        op = self.byte()
        if one_of(op, PLAIN):
            return
        if op == 0x0b:
            return 'end'
        if op == 0x05:
            return 'else'
        if op == 0x02 or op == 0x03 or op == 0x04:
            self.blocktype()
            return self.expr(op == 0x04)
        if one_of(op, (0x0c, 0x0d, 0x10, 0x20, 0x21, 0x22, 0x23, 0x24, 0x25, 0x26, 0xd2)):
            self.u()
        elif op == 0x0e:
            self.vec(self.u)
            self.u()
        elif op == 0x11:
            self.u()
            self.u()
        elif op == 0x1c:
            if self.vec(self.valtype) != 1:
                self.loose = True
        elif op == 0xd0:
            self.reftype()
        elif op == 0x41:
            self.s(32)
        elif op == 0x42:
            self.s(64)
        elif op == 0x43:
            self.skip(4)
        elif op == 0x44:
            self.skip(8)
        elif op == 0x3f or op == 0x40:
            self.zero()
        elif op >= 0x28 and op <= 0x3e:
            for nat in range(4):
                if one_of(op, [k for k in NAT if NAT[k] == nat]):
                    self.memarg(nat)
                    break
        elif op == 0xfc:
            n = self.u()
            if n < 8:
                return
            if n > 17:
                raise Bad('opcode')
            if n == 8:
                self.u()
                self.zero()
            elif n == 10:
                self.zero()
                self.zero()
            elif n == 11:
                self.zero()
            elif n == 12 or n == 14:
                self.u()
                self.u()
            else:
                self.u()
        elif op == 0xfd:
            n = self.u()
            if one_of(n, c12.FDPLAIN):
                return
            if n == 12:
                self.skip(16)
                return
            if n == 13:
                for _ in range(16):
                    self.lane(32)
                return
            for k, a in c12.VMEM.items():
                if n == k:
                    return self.memarg(a)
            for k, (a, lim) in c12.VLANEMEM.items():
                if n == k:
                    self.memarg(a)
                    return self.lane(lim)
            for k, lim in c12.VLANE.items():
                if n == k:
                    return self.lane(lim)
            raise Bad('opcode')
        else:
            raise Bad('opcode')

    def elem(self):
        k = self.u()
        if k > 7:
            raise Bad('element segment')
        k = k if isinstance(k, int) else core.conc(k)
        if k in (2, 6):
            self.u()
        if k in (0, 2, 4, 6):
            self.expr()
        if k in (1, 2, 3):
            self.zero()
        if k in (5, 6, 7):
            self.reftype()
        self.vec(self.u if k < 4 else self.expr)

    def data(self):
        k = self.u()
        if k > 2:
            raise Bad('data segment')
        if k == 2:
            if self.u() != 0:
                self.loose = True
        if k == 0 or k == 2:
            self.expr()
        self.skip(self.u())

    def functype(self):
        if self.byte() != 0x60:
            raise Bad('function type')
        self.vec(self.valtype)
        self.vec(self.valtype)

    def imp(self):
        self.name()
        self.name()
        k = self.byte()
        if k == 0:
            self.u()
        elif k == 1:
            self.table()
        elif k == 2:
            self.limits()
        elif k == 3:
            self.globaltype()
        else:
            raise Bad('import')

    def export(self):
        self.name()
        if self.byte() > 3:
            raise Bad('export')
        self.u()

    def glob(self):
        self.globaltype()
        self.expr()

    def locals(self):
        self.u()
        self.valtype()

    def code(self):
        r = self.sub(self.u())
        try:
            r.vec(r.locals)
            r.expr()
            r.done()
        finally:
            self.loose |= r.loose

    def module(self):
        for k in wb.MAGIC:
            if self.byte() != k:
                raise Bad('magic')
        funcs = codes = datas = 0
        count = None
        last = -1
        order = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 10]
        while self.i < self.end:
            k = self.byte()
            if k > 12:
                raise Bad('section')
            k = k if isinstance(k, int) else core.conc(k)
            r = self.sub(self.u())
            try:
                if k == 0:
                    r.name()
                    continue
                if order[k] <= last:
                    self.loose = True
                last = order[k]
                if k == 8:
                    r.u()
                elif k == 12:
                    count = r.u()
                else:
                    n = r.vec({1: r.functype, 2: r.imp, 3: r.u, 4: r.table, 5: r.limits, 6: r.glob, 7: r.export, 9: r.elem,
                               10: r.code, 11: r.data}[k])
                    if k == 3:
                        funcs += n
                    elif k == 10:
                        codes += n
                    elif k == 11:
                        datas += n
                r.done()
            finally:
                self.loose |= r.loose
        if funcs != codes:
            raise Bad('functions without code')
        if count is not None:
            if count != datas:
                raise Bad('data count')


PLAIN = [op for op in c12.PLAIN]


def judge(x, b):
    """The reference verdict: 'ok', 'bad' or 'loose'."""
    if x.sym:
        v = [e if isinstance(e, int) else core.SymInt.of(core.bterm(e)) for e in core.SBytes.lift(b).items]
    else:
        v = list(b)
    r = Ref(v)
    try:
        r.module()
    except Bad as e:
        return 'bad'
    return 'loose' if r.loose else 'ok'


def verdict(x, b):
    o = x.attempt(x.module, b)[0]
    return 'ret', o == 'ret', judge(x, b)


def check(x, obs):
    return [('a malformed binary is rejected', z3.BoolVal(not (obs[1] and obs[2] == 'bad'))),
            ('a well-formed binary is accepted', z3.BoolVal(obs[1] or obs[2] != 'ok'))]


def case(name, inputs, make, bounds, **kw):
    def run(x):
        return verdict(x, make(x))
    kw.setdefault('max_paths', 60000)
    kw.setdefault('seconds', 400)
    return Case(name, inputs, run, check, bounds=bounds, **kw)


# -- families -----------------------------------------------------------------------------------------------------------
def magic_case():
    return case('magic', {'m': 64}, lambda x: x.buf(list(x.bytes('m').items if x.sym else x.bytes('m')) +
                                                    list(c12.rich_build(HOLES)[8:])), 'every 8-byte header')


HOLES = [b'\x91\x92\x93\x94\x95\x16', bytes(range(0x80, 0x90)), b'\x85\x86\x87\x88\x09']
RICH = c12.rich_build(HOLES)


def cut_case(lo, hi):
    """Every prefix; the constants and data of the module are symbolic."""
    p = c12.rich()

    def make(x):
        x.assume(z3.And(z3.UGE(x.t('cut'), lo), z3.ULT(x.t('cut'), hi)))
        b = c12.fill(x, p)
        return b[:x.pick('cut')]
    return case(f'cut.{lo}', dict(c12.RICH_IN, cut=16), make, 'every proper prefix of the rich module')


def corrupt_case(img, name, lo, hi, n=1):
    """n adjacent bytes at a symbolic position replaced by arbitrary bytes."""
    def make(x):
        x.assume(z3.And(z3.UGE(x.t('at'), lo), z3.ULT(x.t('at'), hi)))
        k = x.pick('at')
        l = list(img)
        v = x.bytes('v')
        l[k:k + n] = list(v.items if x.sym else v)
        return x.buf(l)
    return case(f'corrupt.{name}.{n}.{lo}', {'at': 16, 'v': 8 * n}, make,
                f'every replacement of {n} adjacent byte(s) at every position of the module')


def lie_case(width, kinds, delta):
    """One declared size or count is larger than its contents by a symbolic amount."""
    h = c12.Hook(kinds=kinds)
    c12.rich(hook=h)
    n = h.n

    def make(x):
        x.assume(z3.ULT(x.t('sel'), n))
        x.assume(z3.And(z3.UGE(x.t('d'), 1), z3.ULE(x.t('d'), delta)))
        sel, d = x.pick('sel'), x.pick('d')
        return x.buf(c12.rich_build(HOLES, hook=c12.Hook(sel, width, d, kinds)))
    return case(f'lie.{"-".join(kinds)}', {'sel': 8, 'd': 8}, make, f'every size and count of the module raised by 1..{delta}')


def body_case(sec, n, pre=b'', post=b''):
    """A section whose body is any n bytes."""
    def make(x):
        v = x.bytes('v') if n else b''
        return x.buf(list(wb.MAGIC + pre + bytes([sec, n])) + list(v.items if x.sym and n else v) + list(post))
    return case(f'body.{sec}.{n}', {'v': 8 * n} if n else {'d': 1}, make, 'every section body of n bytes')


def code_case(n, lo, hi):
    """A function body of any n bytes (followed by end), the first one in a range."""
    def make(x):
        v = x.bytes('v')
        x.assume(z3.And(z3.UGE(z3.Extract(7, 0, x.t('v')), lo), z3.ULE(z3.Extract(7, 0, x.t('v')), hi)))
        pre = wb.MAGIC + wb.section(1, b'\1\x60\0\0') + wb.section(3, b'\1\0')
        return x.buf(list(pre + bytes([10, n + 4, 1, n + 2, 0])) + list(v.items if x.sym else v) + [0x0b])
    return case(f'code.{n}.{lo:02x}', {'v': 8 * n}, make, 'every function body of n bytes')


def imm_case(name, op, kinds):
    """Every immediate of every instruction: all byte values of each, one at a time, plus every alignment and lane."""
    p = Patch()
    sizes = [5 if isinstance(k, str) or k[0] == 'u' else k[1] if k[0] == 'raw' else 1 for k in kinds]
    sizes = [10 if k == 's64' else s for k, s in zip(kinds, sizes)]
    base = c12.dead_module(op, [b'\x80' * (s - 1) + (b'\0' if not isinstance(k, tuple) or k[0] not in ('type', 'reftype')
                                                   else b'\x6f') for k, s in zip(kinds, sizes)])
    at = base.index(b'\x02\x40\x0c\0' + op) + 4 + len(op)

    def make(x):
        x.assume(z3.ULT(x.t('at'), len(kinds)))
        k = x.pick('at')
        l = list(base)
        o = at + sum(sizes[:k])
        v = x.u('v')
        if isinstance(kinds[k], tuple) and kinds[k][0] == 'u':
            l[o:o + 5] = [((v >> (7 * j)) & 0x7f) | (0x80 if j < 4 else 0) for j in range(5)]
        else:
            l[o + sizes[k] - 1] = v & 0xff
        return x.buf(l)
    return case(f'imm.{name}', {'at': 8, 'v': 32}, make, 'every immediate of every instruction: every value')


def opcode_case(name, make_op, width):
    """Unknown opcodes in a function body."""
    def make(x):
        if width > 8:
            x.assume(z3.ULT(x.t('v'), 1 << 14))
        base = wb.MAGIC + wb.section(1, b'\1\x60\0\0') + wb.section(3, b'\1\0')
        op = make_op(x.u('v'))
        tail = [0, 0x0b]
        body = [0] + op + tail
        return x.buf(list(base) + [10, len(body) + 2, 1, len(body)] + body)
    return case(f'opcode.{name}', {'v': width}, make, 'every opcode byte; every 0xfc, 0xfd, 0xfe, 0xff opcode below 2^14')


def cases(tier):
    out = [magic_case()]
    n = len(RICH)
    for lo in range(0, n, 120):
        out.append(cut_case(lo, min(lo + 120, n)))
    step = 24
    for lo in range(8, n, step):
        out.append(corrupt_case(RICH, 'rich', lo, min(lo + step, n)))
    if tier != 'quick':
        for lo in range(8, n - 1, 12):
            out.append(corrupt_case(RICH, 'rich', lo, min(lo + 12, n - 1), 2))
    for kinds in (['count'], ['section'], ['body'], ['name', 'data'], ['datacount']):
        out.append(lie_case(2 if tier != 'quick' else 1, kinds, 40 if tier != 'quick' else 4))
    for name, op, kinds in c12.all_immediates():
        out.append(imm_case(name, op, kinds))
    out.append(opcode_case('one', lambda v: [v & 0xff], 8))
    for p in (0xfc, 0xfd, 0xfe, 0xff):
        out.append(opcode_case(f'{p:02x}', lambda v, p=p: [p, (v & 0x7f) | 0x80, (v >> 7) & 0x7f], 16))
    q = tier == 'quick'
    for sec, k in ((0, 4), (1, 5), (2, 4), (3, 4), (4, 4), (5, 4), (6, 3), (7, 4), (8, 3), (9, 3), (11, 3), (12, 3), (13, 2)):
        for j in range(0, k + (0 if q else 1) + 1):
            out.append(body_case(sec, j))
    out.append(body_case(10, 4, wb.section(1, b'\1\x60\0\0') + wb.section(3, b'\1\0')))
    for k in range(1, 3 if q else 4):
        for lo in range(0, 256, 32 if k < 3 else 4):
            out.append(code_case(k, lo, lo + (31 if k < 3 else 3)))
    return out
