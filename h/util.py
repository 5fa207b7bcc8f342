"""Shared helpers of the harnesses."""
import z3
from sx.core import bvv, sext, zext, SBytes, SymInt
from sx import core

PAGE = 65536


def leb5(x, n):
    """Padded 5-byte unsigned LEB128 of the 32-bit input n, as a list of byte values."""
    o = x.u(n) if isinstance(n, str) else n
    return [((o >> (7 * k)) & 0x7f) | 0x80 for k in range(4)] + [(o >> 28) & 0x0f]


def sleb5(x, n):
    """Padded 5-byte signed LEB128 of the 32-bit input n."""
    o = x.i(n) if isinstance(n, str) else n
    return [((o >> (7 * k)) & 0x7f) | 0x80 for k in range(4)] + [(o >> 28) & 0x7f]


def sleb10(x, n):
    o = x.i(n) if isinstance(n, str) else n
    return [((o >> (7 * k)) & 0x7f) | 0x80 for k in range(9)] + [(o >> 63) & 0x7f]


class Patch:
    """A concrete module image with holes to be filled with symbolic bytes.  hole(n) reserves n unique bytes."""

    def __init__(self):
        self.holes = []

    def hole(self, n):
        k = len(self.holes)
        mark = bytes([0xd1, 0xa0 | k] * n)[:n] if n > 1 else bytes([0xd1])
        mark = bytes(((0x91 + 37 * k + 11 * i) & 0x7f) | 0x80 for i in range(n - 1)) + bytes([0x51 + k])
        self.holes.append(mark)
        return mark

    def seal(self, base):
        self.base = base
        self.at = []
        for m in self.holes:
            assert base.count(m) == 1, (m, base)
            self.at.append(base.index(m))
        return self

    def make(self, build):
        """Seal without relying on unique marks: build(holes) is called once per hole with that hole's bytes changed."""
        self.base = build(self.holes)
        self.at = []
        for k, m in enumerate(self.holes):
            alt = build(self.holes[:k] + [bytes(b ^ 1 for b in m)] + self.holes[k + 1:])
            assert len(alt) == len(self.base)
            d = [i for i in range(len(alt)) if alt[i] != self.base[i]]
            assert d == list(range(d[0], d[0] + len(m))) if m else not d, (m, d)
            self.at.append(d[0] if d else 0)
        return self

    def fill(self, x, *parts):
        l = list(self.base)
        for m, at, p in zip(self.holes, self.at, parts):
            p = list(p)
            assert len(p) == len(m)
            l[at:at + len(p)] = p
        return x.buf(l)


def z64(t):
    return zext(t, 64)


def byte1(b):
    """The single byte of a 1-byte buffer as a term (None if it is not one byte long)."""
    from sx.harness import tt
    n = b.n if isinstance(b, SBytes) else len(b)
    if not isinstance(n, int) or n != 1:
        return None
    return tt(b[0], 8)
