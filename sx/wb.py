"""WebAssembly binary builder used by the harnesses (independent of the code under test)."""
I32, I64, F32, F64, V128, FUNCREF, EXTERNREF = 0x7f, 0x7e, 0x7d, 0x7c, 0x7b, 0x70, 0x6f
MAGIC = b'\0asm\1\0\0\0'


HOOK = None         # callable(value, kind) -> (value, minimum width) for every LEB128 the builder emits


def padto(b, w, sign=0):
    """Pad the LEB128 b to w bytes."""
    if len(b) >= w:
        return bytes(b)
    fill = 0x7f if sign else 0
    return bytes(b[:-1]) + bytes([b[-1] | 0x80]) + bytes([fill | 0x80] * (w - len(b) - 1)) + bytes([fill])


def uleb(n, kind='index'):
    w = 0
    if HOOK:
        n, w = HOOK(n, kind)
    return padto(uleb0(n), w)


def uleb0(n):
    out = bytearray()
    while True:
        b = n & 0x7f
        n >>= 7
        if n:
            out.append(b | 0x80)
        else:
            out.append(b)
            return bytes(out)


def sleb(n, kind='const'):
    w = 0
    if HOOK:
        n, w = HOOK(n, kind)
    return padto(sleb0(n), w, n < 0)


def sleb0(n):
    out = bytearray()
    while True:
        b = n & 0x7f
        n >>= 7
        if (n == 0 and not b & 0x40) or (n == -1 and b & 0x40):
            out.append(b)
            return bytes(out)
        out.append(b | 0x80)


def vec(l):
    l = list(l)
    return uleb(len(l), 'count') + b''.join(l)


def section(i, b):
    return bytes([i]) + uleb(len(b), 'section') + b


def name(s):
    b = s.encode() if isinstance(s, str) else s
    return uleb(len(b), 'name') + b


def limits(n, m=None):
    return b'\0' + uleb(n, 'limit') if m is None else b'\1' + uleb(n, 'limit') + uleb(m, 'limit')


def functype(a, r):
    return b'\x60' + vec([bytes([x]) for x in a]) + vec([bytes([x]) for x in r])


def i32c(v):
    return b'\x41' + sleb(v - (1 << 32) if v >= 1 << 31 else v)


def i64c(v):
    return b'\x42' + sleb(v - (1 << 64) if v >= 1 << 63 else v)


def lget(i):
    return b'\x20' + uleb(i)


def lset(i):
    return b'\x21' + uleb(i)


def ltee(i):
    return b'\x22' + uleb(i)


def call(i):
    return b'\x10' + uleb(i)


def fd(n):
    """0xFD-prefixed opcode."""
    return b'\xfd' + uleb(n)


def fc(n):
    return b'\xfc' + uleb(n)


END = b'\x0b'


class Mod:
    """types: deduplicated on the fly; funcs: (type, locals, code)."""

    def __init__(self):
        self.types = []
        self.tidx = {}
        self.imports = []
        self.funcs = []
        self.tables = []
        self.mems = []
        self.globals = []
        self.exports = []
        self.start = None
        self.elems = []
        self.datas = []
        self.datacount = None
        self.customs = []
        self.nimp = [0, 0, 0, 0]

    def type(self, a, r):
        k = (tuple(a), tuple(r))
        if k not in self.tidx:
            self.tidx[k] = len(self.types)
            self.types.append(functype(a, r))
        return self.tidx[k]

    def import_func(self, mod, nm, a, r):
        self.imports.append(name(mod) + name(nm) + b'\0' + uleb(self.type(a, r)))
        self.nimp[0] += 1
        return self.nimp[0] - 1

    def import_table(self, mod, nm, et, n, m=None):
        self.imports.append(name(mod) + name(nm) + b'\1' + bytes([et]) + limits(n, m))
        self.nimp[1] += 1
        return self.nimp[1] - 1

    def import_mem(self, mod, nm, n, m=None):
        self.imports.append(name(mod) + name(nm) + b'\2' + limits(n, m))
        self.nimp[2] += 1
        return self.nimp[2] - 1

    def import_global(self, mod, nm, t, mut):
        self.imports.append(name(mod) + name(nm) + b'\3' + bytes([t, mut]))
        self.nimp[3] += 1
        return self.nimp[3] - 1

    def func(self, a, r, code, locals=(), export=None):
        i = self.nimp[0] + len(self.funcs)
        self.funcs.append((self.type(a, r), list(locals), code))
        if export:
            self.export(export, 0, i)
        return i

    def table(self, et, n, m=None, export=None):
        i = self.nimp[1] + len(self.tables)
        self.tables.append(bytes([et]) + limits(n, m))
        if export:
            self.export(export, 1, i)
        return i

    def mem(self, n, m=None, export=None):
        i = self.nimp[2] + len(self.mems)
        self.mems.append(limits(n, m))
        if export:
            self.export(export, 2, i)
        return i

    def glob(self, t, mut, init, export=None):
        i = self.nimp[3] + len(self.globals)
        self.globals.append(bytes([t, mut]) + init + END)
        if export:
            self.export(export, 3, i)
        return i

    def export(self, nm, kind, idx):
        self.exports.append(name(nm) + bytes([kind]) + uleb(idx))

    def elem(self, raw):
        self.elems.append(raw)
        return len(self.elems) - 1

    def elem_active(self, off, funcs):
        return self.elem(b'\0' + off + END + vec([uleb(f) for f in funcs]))

    def elem_passive(self, funcs):
        return self.elem(b'\1\0' + vec([uleb(f) for f in funcs]))

    def data_active(self, off, b):
        self.datas.append(b'\0' + off + END + uleb(len(b), 'data') + b)
        return len(self.datas) - 1

    def data_passive(self, b):
        self.datas.append(b'\1' + uleb(len(b), 'data') + b)
        return len(self.datas) - 1

    @staticmethod
    def body(locals, code):
        runs = []
        for t in locals:
            if isinstance(t, tuple):
                runs.append(list(t))
            elif runs and runs[-1][1] == t:
                runs[-1][0] += 1
            else:
                runs.append([1, t])
        b = vec([uleb(n, 'locals') + bytes([t]) for n, t in runs]) + code + END
        return uleb(len(b), 'body') + b

    def sections(self):
        out = []
        if self.types:
            out.append((1, vec(self.types)))
        if self.imports:
            out.append((2, vec(self.imports)))
        if self.funcs:
            out.append((3, vec([uleb(t) for t, _, _ in self.funcs])))
        if self.tables:
            out.append((4, vec(self.tables)))
        if self.mems:
            out.append((5, vec(self.mems)))
        if self.globals:
            out.append((6, vec(self.globals)))
        if self.exports:
            out.append((7, vec(self.exports)))
        if self.start is not None:
            out.append((8, uleb(self.start)))
        if self.elems:
            out.append((9, vec(self.elems)))
        if self.datacount is not None:
            out.append((12, uleb(self.datacount, 'datacount')))
        elif self.datas:
            out.append((12, uleb(len(self.datas), 'datacount')))
        if self.funcs:
            out.append((10, vec([self.body(l, c) for _, l, c in self.funcs])))
        if self.datas:
            out.append((11, vec(self.datas)))
        return out

    def build(self):
        secs = self.sections()
        return MAGIC + b''.join(section(i, b) for i, b in secs)


def single(a, r, code, locals=(), mem=None):
    m = Mod()
    if mem:
        m.mem(*mem, export='m')
    m.func(a, r, code, locals, export='f')
    return m.build()
