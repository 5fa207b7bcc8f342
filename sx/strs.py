"""Symbolic strings: sequences of code points (concrete length), each an int or an 8-bit-or-wider term."""
import z3

from . import core
from .core import Sym, SymInt, SBytes, Unsupported, BSlice, mkbool, z_and, bterm, as_int, conc

CW = 21
LOOSE = [False]     # symbolic keys of dictionaries are told apart by comparing, not by hash: see models.sx_setitem


class SStr(Sym):
    __slots__ = ('cs',)

    def __init__(self, cs):
        self.cs = cs

    @property
    def n(self):
        return len(self.cs)

    @staticmethod
    def lift(s):
        if isinstance(s, SStr):
            return s
        if isinstance(s, str):
            return SStr([ord(c) for c in s])
        raise TypeError(f'expected str, got {type(s).__name__}')

    def concrete(self):
        if all(isinstance(c, int) for c in self.cs):
            return ''.join(map(chr, self.cs))
        return None

    def norm(self):
        c = self.concrete()
        return self if c is None else c

    def __repr__(self):
        return '<symstr>'

    __str__ = __repr__

    def __format__(self, s):
        return '<symstr>'

    def __len__(self):
        return len(self.cs)

    def __hash__(self):
        if LOOSE[0]:
            return 0
        return hash(''.join(chr(conc(SymInt.of(c)) if not isinstance(c, int) else c) for c in self.cs))

    def __bool__(self):
        return len(self.cs) > 0

    def __iter__(self):
        for c in self.cs:
            yield SStr([c]).norm()

    def __getitem__(self, k):
        if isinstance(k, slice):
            return SStr(self.cs[slice(conc(k.start), conc(k.stop), conc(k.step))]).norm()
        return SStr([self.cs[conc(k)]]).norm()

    def __add__(self, o):
        if not isinstance(o, (str, SStr)):
            return NotImplemented
        return SStr(self.cs + SStr.lift(o).cs).norm()

    def __radd__(self, o):
        if not isinstance(o, (str, SStr)):
            return NotImplemented
        return SStr(SStr.lift(o).cs + self.cs).norm()

    def __mul__(self, n):
        return SStr(self.cs * conc(n)).norm()

    def eqterm(self, o):
        if len(self.cs) != len(o.cs):
            return False
        ts = []
        for a, b in zip(self.cs, o.cs):
            if isinstance(a, int) and isinstance(b, int):
                if a != b:
                    return False
            else:
                ts.append(ct(a) == ct(b))
        if not ts:
            return True
        return mkbool(z3.simplify(z_and(*ts)))

    def __eq__(self, o):
        if not isinstance(o, (str, SStr)):
            return NotImplemented
        return self.eqterm(SStr.lift(o))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else core.sx_not(r)

    def less(self, o, orequal):
        """Term: self comes before o in code point order."""
        a, b = self.cs, o.cs
        if not a or not b:
            return z3.BoolVal(len(a) < len(b) or orequal and len(a) == len(b))
        rest = SStr(a[1:]).less(SStr(b[1:]), orequal)
        return z3.If(ct(a[0]) == ct(b[0]), rest, z3.ULT(ct(a[0]), ct(b[0])))

    def order(self, o, orequal, swap):
        if not isinstance(o, (str, SStr)):
            return NotImplemented
        o = SStr.lift(o)
        a, b = (o, self) if swap else (self, o)
        return mkbool(z3.simplify(a.less(b, orequal)))

    def __lt__(self, o):
        return self.order(o, False, False)

    def __gt__(self, o):
        return self.order(o, False, True)

    def __le__(self, o):
        return self.order(o, True, False)

    def __ge__(self, o):
        return self.order(o, True, True)

    def startswith(self, p, *a):
        if a:
            return self[slice(a[0], a[1] if len(a) > 1 else None)].startswith(p)
        if isinstance(p, tuple):
            r = False
            for x in p:
                r = core.mkor(r, self.startswith(x))
            return r
        p = SStr.lift(p)
        if len(p.cs) > len(self.cs):
            return False
        return SStr(self.cs[:len(p.cs)]).eqterm(p)

    def endswith(self, p):
        if isinstance(p, tuple):
            r = False
            for x in p:
                r = core.mkor(r, self.endswith(x))
            return r
        p = SStr.lift(p)
        if len(p.cs) > len(self.cs):
            return False
        return SStr(self.cs[len(self.cs) - len(p.cs):]).eqterm(p)

    def find(self, sub, start=0, end=None):
        sub = SStr.lift(sub)
        n = len(self.cs) if end is None else min(end, len(self.cs))
        if start < 0:
            start = max(0, start + len(self.cs))
        for i in range(start, n - len(sub.cs) + 1):
            if bool(SStr(self.cs[i:i + len(sub.cs)]).eqterm(sub)):
                return i
        return -1

    def rfind(self, sub, start=0, end=None):
        sub = SStr.lift(sub)
        n = len(self.cs) if end is None else min(end, len(self.cs))
        for i in range(n - len(sub.cs), start - 1, -1):
            if bool(SStr(self.cs[i:i + len(sub.cs)]).eqterm(sub)):
                return i
        return -1

    def index(self, *a):
        r = self.find(*a)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def count(self, sub):
        n = i = 0
        while True:
            i = self.find(sub, i)
            if i < 0:
                return n
            n += 1
            i += len(SStr.lift(sub).cs)

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            raise Unsupported('split on whitespace')
        sep = SStr.lift(sep)
        out, cur = [], 0
        while maxsplit != 0:
            i = self.find(sep, cur)
            if i < 0:
                break
            out.append(SStr(self.cs[cur:i]).norm())
            cur = i + len(sep.cs)
            maxsplit -= 1
        out.append(SStr(self.cs[cur:]).norm())
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None:
            raise Unsupported('rsplit on whitespace')
        sep = SStr.lift(sep)
        out, end = [], len(self.cs)
        while maxsplit != 0:
            i = self.rfind(sep, 0, end)
            if i < 0:
                break
            out.append(SStr(self.cs[i + len(sep.cs):end]).norm())
            end = i
            maxsplit -= 1
        out.append(SStr(self.cs[:end]).norm())
        return out[::-1]

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self, '', ''
        return SStr(self.cs[:i]).norm(), sep, SStr(self.cs[i + len(sep):]).norm()

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return '', '', self
        return SStr(self.cs[:i]).norm(), sep, SStr(self.cs[i + len(sep):]).norm()

    def join(self, it):
        r = SStr([])
        for i, x in enumerate(it):
            if i:
                r = SStr(r.cs + self.cs)
            r = SStr(r.cs + SStr.lift(x).cs)
        return r.norm()

    def isin(self, c, chars):
        return core.sum_or([SStr([c]).eqterm(SStr([ord(x)])) for x in chars])

    def rstrip(self, chars=None):
        chars = ' \t\n\r\x0b\x0c' if chars is None else chars
        cs = list(self.cs)
        while cs and bool(self.isin(cs[-1], chars)):
            cs.pop()
        return SStr(cs).norm()

    def lstrip(self, chars=None):
        chars = ' \t\n\r\x0b\x0c' if chars is None else chars
        cs = list(self.cs)
        while cs and bool(self.isin(cs[0], chars)):
            cs.pop(0)
        return SStr(cs).norm()

    def strip(self, chars=None):
        r = self.rstrip(chars)
        return r.lstrip(chars)

    def removeprefix(self, p):
        if bool(self.startswith(p)):
            return SStr(self.cs[len(p):]).norm()
        return self

    def removesuffix(self, p):
        if len(p) and bool(self.endswith(p)):
            return SStr(self.cs[:-len(p)]).norm()
        return self

    def replace(self, a, b, count=-1):
        parts = self.split(a)
        return SStr.lift(b).join(parts)

    def encode(self, encoding='utf-8', errors='strict'):
        return encode(self, encoding, errors)

    def isascii(self):
        return mkbool(z3.simplify(z_and(*[z3.ULT(ct(c), 128) for c in self.cs]))) if self.cs else True

    def __contains__(self, x):
        return bool(contains(self, x))

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported(f'str.{name}')


def ct(c):
    if isinstance(c, int):
        return core.bvv(c, CW)
    return core.zext(c, CW) if c.size() < CW else c


def contains(s, x):
    x = SStr.lift(x)
    if not x.cs:
        return True
    return core.sum_or([SStr(s.cs[i:i + len(x.cs)]).eqterm(x) for i in range(len(s.cs) - len(x.cs) + 1)])


def decode(b, encoding='utf-8', errors='strict'):
    """UTF-8 decoding; symbolic bytes are followed as ASCII, any byte >= 0x80 takes a separate (not followed further
    than one undecodable or opaque multi-byte) path."""
    if b.items is None:
        n = conc(b.n)
        b = SBytes.from_items([b.get(i) for i in range(n)], False)
    cs = []
    items = list(b.items)
    i = 0

    def yes(c):
        return bool(mkbool(z3.simplify(c)))

    def bad():
        if errors != 'surrogateescape':
            raise UnicodeDecodeError('utf-8', b'\xff', 0, 1, 'invalid byte')
        cs.append(0xdc00 | t if isinstance(t, int) else z3.simplify(z3.ZeroExt(CW - 8, t) | 0xdc00))

    while i < len(items):
        t = bterm(items[i])
        if yes(z3.ULT(t, 0x80)):
            cs.append(items[i] if isinstance(items[i], int) else t)
            i += 1
            continue
        if yes(z3.And(z3.UGE(t, 0xc2), z3.ULE(t, 0xdf))):
            n = 1
        elif yes(z3.And(z3.UGE(t, 0xe0), z3.ULE(t, 0xef))):
            n = 2
        elif yes(z3.And(z3.UGE(t, 0xf0), z3.ULE(t, 0xf4))):
            n = 3
        else:
            bad()
            i += 1
            continue
        if i + n >= len(items):
            # the first byte that does not continue decides; each byte before is undecodable by itself
            bad()
            i += 1
            continue
        ys = [bterm(y) for y in items[i + 1:i + 1 + n]]
        lo = z3.If(t == 0xe0, core.bvv(0xa0, 8), z3.If(t == 0xf0, core.bvv(0x90, 8), core.bvv(0x80, 8)))
        hi = z3.If(t == 0xed, core.bvv(0x9f, 8), z3.If(t == 0xf4, core.bvv(0x8f, 8), core.bvv(0xbf, 8)))
        ok = z3.And(z3.UGE(ys[0], lo), z3.ULE(ys[0], hi), *[z3.Extract(7, 6, y) == 2 for y in ys[1:]])
        if not yes(ok):
            bad()
            i += 1
            continue
        bits = [z3.Extract({1: 4, 2: 3, 3: 2}[n], 0, t)] + [z3.Extract(5, 0, y) for y in ys]
        cp = z3.Concat(*bits)
        cp = z3.simplify(z3.ZeroExt(CW - cp.size(), cp))
        cs.append(cp.as_long() if z3.is_bv_value(cp) else cp)
        i += n + 1
    return SStr(cs).norm()


def encode(s, encoding='utf-8', errors='strict'):
    items = []
    for c in s.cs:
        if isinstance(c, int):
            items += list(chr(c).encode(encoding, errors))
            continue
        t = ct(c)
        if bool(mkbool(z3.simplify(z3.ULT(t, 0x80)))):
            items.append(z3.Extract(7, 0, t))
        elif bool(mkbool(z3.simplify(z3.ULT(t, 0x800)))):
            items.append(z3.Concat(core.bvv(6, 3), z3.Extract(10, 6, t)))
            items.append(z3.Concat(core.bvv(2, 2), z3.Extract(5, 0, t)))
        elif bool(mkbool(z3.simplify(z3.ULT(t, 0x10000)))):
            if bool(mkbool(z3.simplify(z3.And(z3.UGE(t, 0xd800), z3.ULE(t, 0xdfff))))):
                if errors == 'surrogateescape' and bool(mkbool(z3.simplify(z3.And(z3.UGE(t, 0xdc80), z3.ULE(t, 0xdcff))))):
                    items.append(z3.Extract(7, 0, t))
                    continue
                raise UnicodeEncodeError('utf-8', '\ud800', 0, 1, 'surrogates not allowed')
            items.append(z3.Concat(core.bvv(14, 4), z3.Extract(15, 12, t)))
            items.append(z3.Concat(core.bvv(2, 2), z3.Extract(11, 6, t)))
            items.append(z3.Concat(core.bvv(2, 2), z3.Extract(5, 0, t)))
        else:
            items.append(z3.Concat(core.bvv(30, 5), z3.Extract(20, 18, t)))
            items.append(z3.Concat(core.bvv(2, 2), z3.Extract(17, 12, t)))
            items.append(z3.Concat(core.bvv(2, 2), z3.Extract(11, 6, t)))
            items.append(z3.Concat(core.bvv(2, 2), z3.Extract(5, 0, t)))
    return SBytes.from_items(items, False)


def ord_(s):
    if len(s.cs) != 1:
        raise TypeError('ord() expected a character')
    c = s.cs[0]
    return c if isinstance(c, int) else SymInt.of(c)


def chr_(x):
    if not bool(core.mkand(x >= 0, x < 0x110000)):
        raise ValueError('chr() arg not in range')
    return SStr([x.low(CW)])


def to_int(s, base, what='int'):
    c = s.concrete()
    if c is not None:
        return int(c, base) if what == 'int' else float(c)
    if base != 10:
        raise Unsupported('int() of a symbolic string')

    def yes(c):
        return bool(mkbool(z3.simplify(c)))
    cs = [ct(c) for c in s.cs]
    sign = 1
    if cs and yes(z3.Or(cs[0] == 43, cs[0] == 45)):
        sign = 1 if yes(cs[0] == 43) else -1
        cs = cs[1:]
    if not cs:
        raise ValueError('invalid literal')
    v = 0
    for c in cs:
        if yes(z3.And(z3.UGE(c, 48), z3.ULE(c, 57))):
            v = v * 10 + SymInt.of(z3.Extract(3, 0, c))
        elif what == 'int' and yes(z3.And(z3.UGT(c, 32), z3.ULT(c, 127), c != 95)):
            raise ValueError('invalid literal for int()')
        else:
            raise Unsupported(f'{what}() of a symbolic string with spaces or other digits')
    if what == 'float' and sign < 0 and bool(v == 0):
        return -0.0
    return v * sign


def to_str(v, conv, spec):
    if isinstance(v, SStr):
        return v
    return f'<{type(v).__name__}>'
