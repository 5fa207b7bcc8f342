"""C22: WASI results are laid out in guest memory exactly as the ABI prescribes."""
import z3
from sx.harness import Case, B, tt
from sx.core import bvv, conc, SBytes, SymInt
from . import host, wa
from .wa import R, E, pack, same

ASSUMPTIONS = [
    'the host is a model of a POSIX system in place of the os, fcntl, select and socket modules; its stat values are arbitrary',
    'one page of guest memory with arbitrary contents; every buffer position (regions inside the memory, not overlapping) and length',
    'arguments, variables, file names and link texts of up to 4 (thorough: 5) arbitrary bytes that are valid UTF-8, up to 3 of them',
    'padding bytes inside a record, the device number, and the inode reported for ".." are left open',
]
MEM = 65536


class Text:
    """Input n as text: the bytes, and the string the embedder or the host has.  Not valid UTF-8: outside the case."""

    def __init__(self, x, n, size, extra=()):
        self.raw = x.bytes(n) if size else b''
        for c in b'\0/' if extra == 'name' else extra:
            for k in range(size):
                x.assume(z3.Extract(8 * k + 7, 8 * k, x.t(n)) != c)
        if extra == 'name' and size in (1, 2):
            x.assume(x.t(n) != int.from_bytes(b'.' * size, 'little'))
        self.raw = self.raw.snap(False) if isinstance(self.raw, SBytes) else bytes(self.raw)
        try:
            self.str = self.raw.decode()
        except UnicodeDecodeError:
            x.assume(z3.BoolVal(False))
        self.size = size


def terms(b):
    """z3 bytes of a buffer of concrete length."""
    if isinstance(b, SBytes):
        return [b.byte(i) for i in range(conc(b.n))]
    return [bvv(c, 8) for c in b]


def field(v, n):
    """Little-endian bytes of a value."""
    t = tt(v, 8 * n)
    return [z3.Extract(8 * k + 7, 8 * k, t) for k in range(n)]


def rec(size, **at):
    """A record of the given size; at: _offset=(value, width).  Bytes not named are left open."""
    out = [None] * size
    for k, (v, n) in at.items():
        out[int(k[1:]):int(k[1:]) + n] = field(v, n)
    return out


def a32(x, n):
    """z3: pointer input as a 64-bit address."""
    return z3.ZeroExt(32, x.t(n)) if x.t(n).size() == 32 else z3.ZeroExt(64 - x.t(n).size(), x.t(n))


def inside(x, *regions):
    """Assume that regions (address term of 64 bits, length int or term) lie in memory and apart from each other."""
    rs = [(a, n if z3.is_expr(n) else bvv(n, 64)) for a, n in regions]
    for a, n in rs:
        x.assume(z3.And(z3.ULE(a, MEM), z3.ULE(n, MEM), z3.ULE(a + n, MEM)))
    for i, (a, n) in enumerate(rs):
        for b, m in rs[:i]:
            x.assume(z3.Or(z3.ULE(a + n, b), z3.ULE(b + m, a)))


def observe(x, w, call):
    """Outcome, errno, and the byte of memory at j before and after; length of memory."""
    b = x.at(w.mem.get(0, MEM), x.u('j'))
    o = call()
    return [o[0], o[1] if o[0] == 'ret' else 0, b, x.at(w.mem.data, x.u('j')), x.length(w.mem.data)]


def laid(x, obs, regions, errno=0, what=''):
    """Memory after the call holds the regions [(address term, [bytes or None], length term or None)] and is otherwise as before."""
    kind, no, b, a, size = obs[:5]
    j = z3.ZeroExt(48, x.t('j'))
    b, a = tt(b, 8), tt(a, 8)
    want = b
    free = z3.BoolVal(False)
    for addr, bs, n in regions:
        n = bvv(len(bs), 64) if n is None else n
        for k, v in enumerate(bs):
            here = z3.And(j == addr + k, z3.UGT(n, k))
            if v is None:
                free = z3.Or(free, here)
            else:
                want = z3.If(here, v, want)
    if kind != 'ret':
        return [(what + 'returns', z3.BoolVal(False))]
    return [(what + 'errno', tt(no, 32) == errno), (what + 'memory', z3.Or(free, a == want)), (what + 'memory size', tt(size, 64) == MEM)]


def world(x, names, build=None, **k):
    return wa.World(x, names, build, mem=x.bytes('m').snap(True) if x.sym else bytearray(x.bytes('m')), **k)


INS = {'m': ('mem', MEM), 'j': 16}


def case(name, ins, run, check, **k):
    k.setdefault('nval', 2)
    return Case(name, {**INS, **ins}, run, check, expect=('ret',), stubs=host.sym_modules, max_paths=20000, seconds=400, **k)


# -- arguments and environment ----------------------------------------------------------------------------------------
def strings_case(fn, sizes):
    env = fn == 'environ'
    keys = ['A', 'B\u00e9', 'b']

    def strs(x):
        ts = [Text(x, f's{i}', n, b'\0') for i, n in enumerate(sizes)]
        if not env:
            return [t.str for t in ts], {}, [t.raw for t in ts]
        return [], {k: t.str for k, t in zip(keys, ts)}, [k.encode() + b'=' + t.raw if not isinstance(t.raw, SBytes) else
                                                          SBytes.lift(k.encode() + b'=') + t.raw for k, t in zip(keys, ts)]

    def run(x):
        args, envs, raws = strs(x)
        w = world(x, [f'{fn}_get', f'{fn}_sizes_get'], args=args, envs=envs)
        total = sum(x.length(r) + 1 for r in raws)
        p, q = a32(x, 'p'), a32(x, 'q')
        if x.pick('which'):
            inside(x, (p, 4 * len(raws)), (q, total))
            return observe(x, w, lambda: w.call(f'{fn}_get', x.i('p'), x.i('q'))) + [1, raws]
        inside(x, (p, 4), (q, 4))
        return observe(x, w, lambda: w.call(f'{fn}_sizes_get', x.i('p'), x.i('q'))) + [0, raws]

    def check(x, obs):
        p, q, raws = a32(x, 'p'), a32(x, 'q'), obs[6]
        bs = [terms(r) for r in raws]
        if obs[5]:
            ptrs, text, at = [], [], z3.Extract(31, 0, q)
            for b in bs:
                ptrs += field(at, 4)
                at = at + len(b) + 1
                text += b + [bvv(0, 8)]
            return laid(x, obs, [(p, ptrs, None), (q, text, None)])
        return laid(x, obs, [(p, field(bvv(len(bs), 32), 4), None), (q, field(bvv(sum(len(b) + 1 for b in bs), 32), 4), None)])
    ins = {'p': 32, 'q': 32, 'which': 1}
    ins.update({f's{i}': 8 * n for i, n in enumerate(sizes) if n})
    return case(f'{fn}.{"_".join(map(str, sizes)) or "none"}', ins, run, check)


# -- preopened directories --------------------------------------------------------------------------------------------
CHARS = ['a', 'Z', '\u00e9', '\u65e5', '\U0001f600']


def prestat_case(n, fn):
    def run(x):
        for i in range(n):
            x.assume(z3.ULT(x.t(f'c{i}'), len(CHARS)))
        name = ''.join(CHARS[x.pick(f'c{i}')] for i in range(n))
        w = world(x, [fn, 'path_open'], wa.tree, dirs={name: '/h/p', '\U0010ffff': '/h/q'})
        raw = name.encode()
        p = a32(x, 'p')
        if fn == 'fd_prestat_get':
            inside(x, (p, 8))
            return observe(x, w, lambda: w.call(fn, 3, x.i('p'))) + [raw]
        inside(x, (p, a32(x, 'len')))
        return observe(x, w, lambda: w.call(fn, 3, x.i('p'), x.i('len'))) + [raw]

    def check(x, obs):
        raw, p = obs[5], a32(x, 'p')
        if fn == 'fd_prestat_get':
            return laid(x, obs, [(p, rec(8, _0=(bvv(0, 8), 1), _4=(bvv(len(raw), 32), 4)), None)])
        short = z3.ULT(a32(x, 'len'), len(raw))
        ok = laid(x, obs, [(p, terms(raw), None)])
        no = laid(x, obs, [], E['NAMETOOLONG'])
        inval = laid(x, obs, [], E['INVAL'])
        return [(w, z3.If(short, z3.Or(b, d), a)) for (w, a), (_, b), (_, d) in zip(ok, no, inval)]
    ins = {f'c{i}': 3 for i in range(n)}
    ins.update({'p': 32} if fn == 'fd_prestat_get' else {'p': 32, 'len': 32})
    return case(f'{fn}.{n}', ins, run, check)


def notdir_case(fn):
    """Only the preopened directories have a prestat."""
    def run(x):
        w = world(x, [fn, 'path_open'], wa.tree, dirs=wa.DIRS)
        w.open(3, 'f')
        w.open(3, 'd', 2, wa.ALL & ~R['FD_WRITE'])
        x.assume(z3.And(x.t('fd') != 3, x.t('fd') != 4))
        inside(x, (a32(x, 'p'), 200))
        a = (x.i('fd'), x.i('p')) + ((100,) if fn == 'fd_prestat_dir_name' else ())
        return observe(x, w, lambda: w.call(fn, *a))

    def check(x, obs):
        return [(w, z3.Or(a, b, c)) for (w, a), (_, b), (_, c) in zip(*[laid(x, obs, [], E[e]) for e in ('BADF', 'NOTDIR', 'INVAL')])]
    return case(f'{fn}.others', {'fd': 32, 'p': 32}, run, check)


# -- descriptor and file attributes -----------------------------------------------------------------------------------
def fdstat_case(kind):
    def run(x):
        def build(h):
            wa.tree(h)
            h.put('/h/p/c', 'chr', data=b'')
        w = world(x, ['fd_fdstat_get', 'path_open', 'fd_fdstat_set_rights'], build, dirs=wa.DIRS)
        fd = {'stdin': 0, 'stdout': 1, 'stderr': 2, 'preopen': 3}.get(kind)
        flags = x.u('flags') & 1
        if kind == 'file':
            fd = w.open(3, 'f', fdflags=flags)
        elif kind == 'dir':
            fd = w.open(3, 'd', 2, wa.ALL & ~R['FD_WRITE'])
        elif kind == 'chr':
            fd = w.open(3, 'c', 0)
        elif kind in ('stream', 'dgram'):
            fd = wa.sock_file(w, w.h.newfd(host.Open(w.h.node('sock'), 2, host.SockEnd('s', b''))), wa.ALL, kind)
        o = w.call('fd_fdstat_set_rights', fd, x.i('b'), x.i('i'))
        x.assume(z3.BoolVal(o == ('ret', 0)))
        inside(x, (a32(x, 'p'), 24))
        return observe(x, w, lambda: w.call('fd_fdstat_get', fd, x.i('p')))

    def check(x, obs):
        ft = {'file': 4, 'dir': 3, 'preopen': 3, 'stream': 6, 'dgram': 5}.get(kind, 2)
        fl = z3.ZeroExt(15, z3.Extract(0, 0, x.t('flags'))) if kind == 'file' else bvv(0, 16)
        return laid(x, obs, [(a32(x, 'p'), rec(24, _0=(bvv(ft, 8), 1), _2=(fl, 2), _8=(x.t('b'), 8), _16=(x.t('i'), 8)), None)])
    return case(f'fdstat.{kind}', {'p': 32, 'b': 64, 'i': 64, 'flags': 8}, run, check)


KINDS = {'file': 4, 'dir': 3, 'link': 7, 'chr': 2, 'blk': 1}


def filestat_case(how, kind, follow=1, then=None):
    """how: fd, path; kind of the file; then: what happens to its name after it was opened."""
    def run(x):
        made = []

        def build(h):
            wa.tree(h)
            n = h.put('/h/p/x', kind, target='d' if kind == 'link' else None, data=bytearray(b'') if kind != 'dir' else None)
            if kind == 'dir':
                h.put('/h/p/x/y', 'file', data=b'')
            if follow == 'link':
                h.put('/h/p/k', 'link', target='d/../x', times=(1, 2, 3))
            made.append(n)
        w = world(x, ['fd_filestat_get', 'path_filestat_get', 'path_open', 'path_rename', 'path_unlink_file', 'path_create_directory'], build, dirs=wa.DIRS)
        n = made[0]
        n.ino, n.nlink, n.size, n.times = x.u('ino'), x.u('nlink'), x.u('size'), [x.u('at'), x.u('mt'), x.u('ct')]
        if how == 'fd':
            fd = w.open(3, 'x', 2 if kind == 'dir' else 0, wa.ALL & ~R['FD_WRITE'])
            nl = n.nlink
            if then == 'unlink':
                w.h.drop(w.h.at('/h/p'), 'x')
                if x.pick('again'):
                    w.h.put('/h/p/x', 'file', data=b'', times=(7, 8, 9))
            elif then == 'rename':
                w.h.rename('/h/p/x', '/h/p/d/z')
                if x.pick('again'):
                    w.h.put('/h/p/x', 'file', data=b'', times=(7, 8, 9))
            inside(x, (a32(x, 'p'), 64))
            return observe(x, w, lambda: w.call('fd_filestat_get', fd, x.i('p')))
        name = b'k' if follow == 'link' else b'x'
        inside(x, (a32(x, 'p'), 64), (bvv(100, 64), 1))
        w.poke(100, name)
        return observe(x, w, lambda: w.call('path_filestat_get', 3, 1 if follow == 'link' else follow, 100, 1, x.i('p')))

    def check(x, obs):
        r = rec(64, _8=(x.t('ino'), 8), _16=(bvv(KINDS[kind], 8), 1), _24=(x.t('nlink'), 8), _32=(x.t('size'), 8), _40=(x.t('at'), 8), _48=(x.t('mt'), 8),
                _56=(x.t('ct'), 8))
        return laid(x, obs, [(a32(x, 'p'), r, None)])
    ins = {'p': 32, **{k: 64 for k in ('ino', 'nlink', 'size', 'at', 'mt', 'ct')}}
    if then:
        ins['again'] = 1
    return case(f'filestat.{how}.{kind}.{follow}' + (f'.{then}' if then else ''), ins, run, check)


# -- names from the host ----------------------------------------------------------------------------------------------
def readlink_case(n):
    def run(x):
        t = Text(x, 's', n, b'\0')

        def build(h):
            wa.tree(h)
            h.put('/h/p/k', 'link', target=t.str)
        w = world(x, ['path_readlink'], build, dirs=wa.DIRS)
        inside(x, (bvv(100, 64), 1), (a32(x, 'p'), a32(x, 'len')), (a32(x, 'q'), 4))
        w.poke(100, b'k')
        return observe(x, w, lambda: w.call('path_readlink', 3, 100, 1, x.i('p'), x.i('len'), x.i('q'))) + [t.raw]

    def check(x, obs):
        bs = terms(obs[5])
        n = z3.If(z3.ULT(a32(x, 'len'), len(bs)), a32(x, 'len'), bvv(len(bs), 64))
        return laid(x, obs, [(a32(x, 'p'), bs, n), (a32(x, 'q'), field(z3.Extract(31, 0, n), 4), None)])
    return case(f'readlink.{n}', {'p': 32, 'len': 32, 'q': 32, 's': 8 * n}, run, check)


def readdir_case(kinds, sizes, cookie, moved=False):
    """Entries named by arbitrary text; the buffer cuts the sequence anywhere."""
    def run(x):
        ts = [Text(x, f's{i}', n, 'name') for i, n in enumerate(sizes)]
        for i in range(len(ts)):
            for k in range(i):
                if sizes[i] == sizes[k]:
                    x.assume(x.t(f's{i}') != x.t(f's{k}'))

        def build(h):
            wa.tree(h)
            h.put('/h/p/w')
            top = h.at('/h/p/w')
            for k, t in zip(kinds, ts):
                # the inode of an entry follows from its name, so that the order of the entries stays open
                n = h.node(k, data=bytearray(b'') if k in ('file', 'chr') else None, target='nowhere' if k == 'link' else None)
                h.add(top, t.str, n)
        w = world(x, ['fd_readdir', 'path_open'], build, dirs=wa.DIRS)
        fd = w.open(3, 'w', 2, wa.ALL & ~R['FD_WRITE'])
        top = w.h.at('/h/p/w')
        if moved:
            w.h.aside('/h/p/w', '/h/p/d/moved')
        ents = sorted(((t, n) for t, (_, n) in zip(ts, top.entries)), key=lambda e: e[0].str)
        recs = [(b'.', top.ino, 3), (b'..', None, 3)] + [(t.raw, n.ino, KINDS[n.kind]) for t, n in ents]
        inside(x, (a32(x, 'p'), a32(x, 'len')), (a32(x, 'q'), 4))
        c = x.i('cookie') if cookie == 'any' else cookie
        if cookie == 'any':
            x.assume(z3.UGT(x.t('cookie'), len(recs)))
        return observe(x, w, lambda: w.call('fd_readdir', fd, x.i('p'), x.i('len'), c, x.i('q'))) + [[list(r) for r in recs]]

    def check(x, obs):
        recs = obs[5]
        out = []
        for k, (raw, ino, kind) in enumerate(recs):
            if cookie == 'any' or k < cookie:
                continue
            bs = terms(raw)
            r = rec(24, _0=(bvv(k + 1, 64), 8), _16=(bvv(len(bs), 32), 4), _20=(bvv(kind, 8), 1))
            if ino is not None:
                r[8:16] = field(bvv(ino, 64), 8)
            out += r + bs
        n = z3.If(z3.ULT(a32(x, 'len'), len(out)), a32(x, 'len'), bvv(len(out), 64))
        good = laid(x, obs, [(a32(x, 'p'), out, n), (a32(x, 'q'), field(z3.Extract(31, 0, n), 4), None)])
        if cookie == 'any':
            return [(w, z3.Or(a, b)) for (w, a), (_, b) in zip(good, laid(x, obs, [], E['INVAL']))]
        return good
    ins = {'p': 32, 'len': 32, 'q': 32, **{f's{i}': 8 * n for i, n in enumerate(sizes)}}
    if cookie == 'any':
        ins['cookie'] = 64
    return case(f'readdir.{"_".join(f"{k}{n}" for k, n in zip(kinds, sizes)) or "empty"}.{cookie}' + (".moved" if moved else ""), ins, run, check)


# -- single values ----------------------------------------------------------------------------------------------------
def value_case(label, fn, args, width, prep, value):
    """A call that stores one value of the given width at p."""
    def run(x):
        w = world(x, sorted({fn, 'path_open', 'fd_seek'}), wa.tree, dirs=wa.DIRS)
        st = prep(x, w)
        inside(x, (a32(x, 'p'), width), (bvv(100, 64), 8))
        w.poke(100, b'd/f\0\0\0\0\0')
        return observe(x, w, lambda: w.call(fn, *[x.i('p') if a is None else a for a in (args(x, st) if callable(args) else args)])) + [value(x, w, st)]

    def check(x, obs):
        return laid(x, obs, [(a32(x, 'p'), field(tt(obs[5], 8 * width), width), None)])
    return case(label, {'p': 32, 'v': 64}, run, check)


def clocks(x, w):
    w.h.clocks = {k: x.u('v') for k in ('real', 'mono', 'process', 'thread')}


def random_case(n):
    """random_get fills exactly the buffer; the bytes are the host's."""
    def run(x):
        w = world(x, ['random_get'])
        src = x.bytes('r') if n else b''
        w.h.random = lambda k: src[:k] if k <= n else 0
        inside(x, (a32(x, 'p'), n))
        return observe(x, w, lambda: w.call('random_get', x.i('p'), n)) + [src]

    def check(x, obs):
        return laid(x, obs, [(a32(x, 'p'), terms(obs[5]), None)])
    return case(f'random.{n}', {'p': 32, **({'r': 8 * n} if n else {})}, run, check)


def sock_case(fn, kind='stream', size=5):
    """Sizes are 32 bits wide, the flags of a receive 16."""
    def run(x):
        w = world(x, [fn])
        end = host.SockEnd('s', b'hello', lambda: host.Open(w.h.node('sock'), 2, host.SockEnd('c', b'')), kind == 'dgram')
        fd = wa.sock_file(w, w.h.newfd(host.Open(w.h.node('sock'), 2, end)), wa.ALL, kind)
        p, q = a32(x, 'p'), a32(x, 'q')
        w.poke(100, pack((4, 200), (4, size)))
        if fn == 'sock_recv':
            inside(x, (p, 4), (q, 2), (bvv(100, 64), 8), (bvv(200, 64), 9))
            return observe(x, w, lambda: w.call(fn, fd, 100, 1, 0, x.i('p'), x.i('q')))
        inside(x, (p, 4), (bvv(100, 64), 8), (bvv(200, 64), 5))
        a = (fd, 100, 1, 0, x.i('p')) if fn == 'sock_send' else (fd, 0, x.i('p'))
        return observe(x, w, lambda: w.call(fn, *a))

    def check(x, obs):
        p, q = a32(x, 'p'), a32(x, 'q')
        if fn == 'sock_recv':
            n = min(size, 5)
            cut = 1 if kind == 'dgram' and size < 5 else 0
            return laid(x, obs, [(bvv(200, 64), terms(b'hello'[:n]), None), (p, field(bvv(n, 32), 4), None), (q, field(bvv(cut, 16), 2), None)])
        return laid(x, obs, [(p, field(bvv(5 if fn == 'sock_send' else 4 - 1, 32), 4), None)])
    return case(f'{fn}.{kind}.{size}', {'p': 32, 'q': 32}, run, check)


def cases(tier):
    full = tier != 'quick'
    out = []
    for fn in ('args', 'environ'):
        out += [strings_case(fn, s) for s in ([], [0], [1], [2], [4], [2, 2], [0, 3], [1, 1, 1])]
        if full:
            out += [strings_case(fn, s) for s in ([5], [3, 3], [2, 2, 2], [4, 1], [0, 0, 4])]
    for n in (1, 2) + ((3,) if full else ()):
        out += [prestat_case(n, fn) for fn in ('fd_prestat_get', 'fd_prestat_dir_name')]
    out += [notdir_case(fn) for fn in ('fd_prestat_get', 'fd_prestat_dir_name')]
    out += [fdstat_case(k) for k in ('stdin', 'stdout', 'stderr', 'preopen', 'file', 'dir', 'chr', 'stream', 'dgram')]
    out += [filestat_case('fd', k) for k in ('file', 'dir', 'chr')]
    out += [filestat_case('fd', k, 1, t) for k in ('file', 'dir') for t in ('unlink', 'rename')]
    out += [filestat_case('path', k, 0) for k in KINDS] + [filestat_case('path', k, 'link') for k in KINDS if k != 'link'] + [filestat_case('path', 'file', 1)]
    out += [readlink_case(n) for n in (1, 2, 3) + ((4,) if full else ())]
    for kinds, sizes in (((), ()), (('file',), (1,)), (('dir',), (2,)), (('link',), (3,)), (('file', 'dir'), (1, 1)), (('chr', 'link'), (1, 2))):
        for c in range(len(sizes) + 3):
            out.append(readdir_case(kinds, sizes, c))
        out.append(readdir_case(kinds, sizes, 'any'))
    out.append(readdir_case(('file',), (2,), 0, True))
    if full:
        for c in range(6):
            out.append(readdir_case(('file', 'dir', 'link'), (1, 1, 1), c))
            out.append(readdir_case(('file', 'dir'), (2, 2), c)) if c < 5 else None
        out.append(readdir_case(('file',), (4,), 2))
    for k, n in ((0, 'real'), (1, 'mono'), (2, 'process'), (3, 'thread')):
        out.append(value_case(f'clock_time.{n}', 'clock_time_get', (k, 0, None), 8, clocks, lambda x, w, st: x.u('v')))
    out.append(value_case('tell', 'fd_tell', lambda x, st: (st, None), 8, tellprep, lambda x, w, st: x.u('v') & (1 << 62) - 1))
    out.append(value_case('seek', 'fd_seek', lambda x, st: (st, x.i('v') & (1 << 62) - 1, 0, None), 8, lambda x, w: w.open(3, 'f'),
                          lambda x, w, st: x.u('v') & (1 << 62) - 1))
    out.append(value_case('open', 'path_open', (3, 0, 100, 3, 0, 2, 0, 0, None), 4, lambda x, w: None, lambda x, w, st: 5))
    out += [random_case(n) for n in (0, 1, 5)]
    out += [sock_case(fn) for fn in ('sock_recv', 'sock_send')] + [sock_case('sock_recv', k, n) for k in ('stream', 'dgram') for n in (0, 3, 5, 9) if (k, n) != ('stream', 5)]
    return out


def tellprep(x, w):
    fd = w.open(3, 'f')
    w.h.fds[max(w.h.fds)].pos = x.u('v') & (1 << 62) - 1
    return fd
