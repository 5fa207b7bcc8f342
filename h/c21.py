"""C21: WASI descriptor table: allocation, close and renumber behave like a map."""
import itertools
import z3
from sx.harness import Case, B
from sx.core import conc
from sx import wb
from . import host, wa
from .wa import R, E, pack

ASSUMPTIONS = [
    'the host is a model of a POSIX system in place of the os, fcntl, select and socket modules',
    'up to 3 (thorough: 4) calls of fd_close, fd_renumber and path_open with arbitrary 32-bit descriptors, over the standard streams, one preopened '
    'directory, one open file and one open directory (some cases: a character device, a socket, streams replaced by pipes)',
    'the standard streams of the process itself are not closed on the host',
]


def build(h):
    wa.tree(h)
    h.put('/h/p/c', 'chr', data=b'')
    for i in range(6):
        h.put(f'/h/p/n{i}', 'file', data=bytearray(b'0123456789'))
    for fd in range(3):
        h.fds[fd].node.data = bytearray(b'%d' % fd) * 9


_m = wb.Mod()
_m.func([], [], b'', export='_start')
START = _m.build()
STD = wa.ALL & ~R['FD_WRITE']


class Table:
    """The map a descriptor table should be."""

    def __init__(self, w, pipes, extra):
        self.w = w
        self.live = {k: ('std', k, k) for k in range(3)}       # number -> (kind, identity, host descriptor)
        self.live[3] = ('dir', w.h.at('/h/p').ino, 100)
        self.n = 0
        self.pipes = pipes
        if pipes:
            for k in range(3):
                w.wasi.fd[k].pipe = wa.Pipe(b'abc'[k:k + 1] * 9)

    def open(self, fd, what):
        """path_open by the guest through fd; the number or None."""
        w = self.w
        name = f'n{self.n}' if what == 'f' else {'d': 'd', 'c': 'c'}[what]
        w.poke(6000, name.encode())
        before = set(w.h.fds)
        o = w.call('path_open', fd, 0, 6000, len(name), 2 if what == 'd' else 0, STD, STD, 0, 6100)
        new = sorted(set(w.h.fds) - before)
        if o[0] == 'ret' and not bool(o[1] != 0):
            n = conc(w.u32(6100))
            ino = w.h.at('/h/p/' + name)
            self.n += 1
            if what == 'f':
                w.ok('fd_seek', n, self.n, 0, 6200)
            fresh = n not in self.live and n < 1 << 31 and len(new) == 1
            self.live[n] = ('file' if what == 'f' else 'chr' if what == 'c' else 'dir', (ino.ino, self.n), new[0] if new else None)
            if what != 'f':
                self.live[n] = (self.live[n][0], ino.ino, self.live[n][2])
            return o, fresh
        return o, not new

    def number(self, a):
        """The open descriptor an argument names, or None."""
        for n in sorted(self.live):
            if bool(a == n):
                return n
        return None

    def probe(self):
        """Numbers whose state or denotation is not as it should be."""
        w, bad = self.w, []
        for n in range(0, 12):
            o = w.call('fd_fdstat_get', n, 5000)
            if o[0] != 'ret' or (o[1] == 0) != (n in self.live) or (n not in self.live and o[1] != E['BADF']):
                bad.append(f'{n}: {o[0]} {o[1] if o[0] == "ret" else ""}')
                continue
            if n not in self.live:
                continue
            kind, who, _ = self.live[n]
            self.bad = False
            if kind == 'std':
                if not self.stream(n, who):
                    bad.append(f'{n}: not stream {who}')
            elif kind == 'chr':
                pass
            else:
                self.must('fd_filestat_get', n, 5000)
                ino = conc(w.mem.get_u64(5008))
                if kind == 'file':
                    self.must('fd_tell', n, 5000)
                    ino = (ino, conc(w.mem.get_u64(5000)))
                if ino != who:
                    bad.append(f'{n}: {ino} for {who}')
            if self.bad:
                bad.append(f'{n}: refuses')
        want = {v[2] for v in self.live.values()} | {0, 1, 2}
        if set(w.h.fds) != want:
            bad.append(f'host descriptors {sorted(set(w.h.fds) ^ want)}')
        return bad

    def must(self, *a):
        o = self.w.call(*a)
        if o[0] != 'ret' or bool(o[1] != 0):
            self.bad = True

    def stream(self, n, who):
        """Reading or writing descriptor n reaches standard stream who."""
        w = self.w
        w.poke(5100, pack((4, 5200), (4, 1)))
        pipe = self.first[who]
        node = w.h.fds[who].node
        if who == 0:
            self.must('fd_read', n, 5100, 1, 5300)
            return bytes([conc(w.mem.get_u8(5200))]) == (b'a' if pipe else b'0')
        n0 = len(pipe.out) if pipe else len(node.data)
        other = [len(p.out) if p else 0 for p in self.first], [len(w.h.fds[k].node.data) for k in range(3)]
        self.must('fd_write', n, 5100, 1, 5300)
        if pipe:
            other[0][who] += 1
        else:
            other[1][who] += 1
        return other == ([len(p.out) if p else 0 for p in self.first], [len(w.h.fds[k].node.data) for k in range(3)])


def history(steps, pipes=False, pre='fd', end=False, few=False):
    def run(x):
        if few:
            for n in ins:
                for k in (0, 1) if 'd' not in pre else (0, 1, 3):
                    x.assume(x.t(n) != k)
        w = wa.World(x, ['path_open', 'fd_close', 'fd_renumber', 'fd_fdstat_get', 'fd_filestat_get', 'fd_tell', 'fd_seek', 'fd_read', 'fd_write'], build,
                     dirs={'p': '/h/p'})
        t = Table(w, pipes, None)
        t.first = [w.wasi.fd[k].pipe for k in range(3)]
        for p in pre:
            o, fresh = t.open(3, p)
            assert o == ('ret', 0), o
            if not fresh:
                return 'ret', [['open', o, 'number']], []
        log = []
        for k, s in enumerate(steps):
            before = [wa.state(w), len(t.live)]
            if s == 'c':
                a = x.i(f'a{k}')
                n = t.number(a)
                o = w.call('fd_close', a)
                if n is None:
                    log.append(['close', refused(o), quiet(before, w)])
                else:
                    del t.live[n]
                    log.append(['close', o == ('ret', 0), True])
            elif s == 'r':
                a, b = x.i(f'a{k}'), x.i(f'b{k}')
                n, m = t.number(a), t.number(b)
                o = w.call('fd_renumber', a, b)
                if n is None or m is None:
                    log.append(['renumber', refused(o), quiet(before, w)])
                else:
                    if n != m:
                        t.live[m] = t.live.pop(n)
                    log.append(['renumber', o == ('ret', 0), True])
            else:
                a = x.i(f'a{k}')
                n = t.number(a)
                if n is None:
                    o, fresh = t.open(a, s)
                    log.append(['open', refused(o) and fresh, quiet(before, w)])
                elif t.live[n][0] == 'dir' and t.live[n][1] == w.h.at('/h/p').ino:
                    o, fresh = t.open(n, s)
                    log.append(['open', o == ('ret', 0), fresh])
                else:
                    o, fresh = t.open(n, 'f')
                    log.append(['open', o[0] == 'ret' and bool(o[1] != 0), quiet(before, w)])
        bad = t.probe() if not end else []
        if end:
            o = x.attempt(w.wasi.main, w.rt, w.rt.instance(x.module(START)))
            if o != ('ret', 0):
                bad.append(f'main: {o}')
            if set(w.h.fds) != {0, 1, 2}:
                bad.append(f'left open {sorted(set(w.h.fds))}')
        return 'ret', log, bad

    def check(x, obs):
        out = [(f'step {k}: {w}', B(ok and q)) for k, (w, ok, q) in enumerate(obs[1])]
        return out + [('table ' + '; '.join(obs[2]) if obs[2] else 'table', B(not obs[2]))]
    ins = {}
    for k, s in enumerate(steps):
        ins[f'a{k}'] = 32
        if s == 'r':
            ins[f'b{k}'] = 32
    tag = f'{"end" if end else "history"}.{pre}.{steps}{".pipes" if pipes else ""}{".few" if few else ""}'
    return Case(tag, ins or {'z': 1}, run, check, expect=('ret',), stubs=host.sym_modules, max_paths=60000, seconds=400, nval=2)


def refused(o):
    return o[0] == 'ret' and not bool(o[1] != E['BADF'])


def quiet(before, w):
    from .c20 import same_now
    return same_now(before[0], wa.state(w))


# arguments of every call that takes a descriptor; None is where the descriptor goes
CALLS = {
    'fd_advise': (None, 0, 1, 0), 'fd_allocate': (None, 0, 9), 'fd_close': (None,), 'fd_datasync': (None,), 'fd_fdstat_get': (None, 3000),
    'fd_fdstat_set_flags': (None, 1), 'fd_fdstat_set_rights': (None, 0, 0), 'fd_filestat_get': (None, 3000), 'fd_filestat_set_size': (None, 2),
    'fd_filestat_set_times': (None, 5, 6, 5), 'fd_pread': (None, 1000, 1, 1, 3000), 'fd_prestat_dir_name': (None, 3000, 9), 'fd_prestat_get': (None, 3000),
    'fd_pwrite': (None, 1000, 1, 1, 3000), 'fd_read': (None, 1000, 1, 3000), 'fd_readdir': (None, 3000, 200, 0, 3900), 'fd_renumber': (None, 4),
    'fd_seek': (None, 1, 0, 3000), 'fd_sync': (None,), 'fd_tell': (None, 3000), 'fd_write': (None, 1000, 1, 3000),
    'path_create_directory': (None, 1100, 1), 'path_filestat_get': (None, 0, 1110, 1, 3000), 'path_filestat_set_times': (None, 0, 1110, 1, 5, 6, 5),
    'path_link': (None, 0, 1110, 1, 3, 1100, 1), 'path_open': (None, 0, 1110, 1, 0, 2, 0, 0, 3900), 'path_readlink': (None, 1120, 1, 3000, 50, 3900),
    'path_remove_directory': (None, 1130, 3), 'path_rename': (None, 1110, 1, 3, 1100, 1), 'path_symlink': (1110, 1, None, 1100, 1),
    'path_unlink_file': (None, 1110, 1), 'sock_accept': (None, 0, 3900), 'sock_recv': (None, 1000, 1, 0, 3900, 3904), 'sock_send': (None, 1000, 1, 0, 3900),
    'sock_shutdown': (None, 2), 'path_link.2': (3, 0, 1110, 1, None, 1100, 1), 'path_rename.2': (3, 1110, 1, None, 1100, 1), 'fd_renumber.2': (4, None),
    'poll_oneoff': (4000, 4100, 1, 4200),
}


def dead(label, args, kind=1):
    """A number that denotes nothing, whether never used, closed, or renumbered away."""
    fn = label.split('.')[0]

    def run(x):
        w = wa.World(x, sorted({fn, 'path_open', 'fd_close', 'fd_renumber'}), build, dirs=wa.DIRS)
        w.h.select_ready = lambda r, wr, t: (r, wr, [])
        for at, b in ((1000, pack((4, 2000), (4, 3))), (1100, b'n'), (1110, b'f'), (1120, b'l'), (1130, b'd/e')):
            w.poke(at, b)
        s = wa.sock_file(w, w.h.newfd(host.Open(w.h.node('sock'), 2, host.SockEnd('s', b'hello'))), wa.ALL)
        fds = [w.open(3, n) for n in ('f', 'n0', 'n1', 'n2')] + [w.open(3, 'd', 2, STD, STD)]
        w.ok('fd_close', fds[0])
        w.ok('fd_close', fds[2])
        w.ok('fd_renumber', fds[1], fds[3])
        w.ok('fd_close', s)
        live = [0, 1, 2, 3, 4, fds[3], fds[4]]
        a = x.i('fd')
        for n in live:
            x.assume(x.t('fd') != n)
        x.assume(z3.ULT(x.t('j'), 0x8000))
        if fn == 'poll_oneoff':
            w.poke(4000, pack((8, 7), (1, kind), (7, 0)))
            w.poke(4016, bytes(32))
            w.mem.put_u32(4016, x.u('fd'))
        before, b0 = wa.state(w), x.at(w.mem.get(0, 0x8000), x.u('j'))
        o = w.call(fn, *[a if v is None else v for v in args])
        return o[0], o[1] if o[0] == 'ret' else 0, before, wa.state(w), b0, x.at(w.mem.get(0, 0x8000), x.u('j'))

    def check(x, obs):
        from sx.harness import eqv, tt
        kind, no, before, after, b0, b1 = obs
        return [('bad descriptor', eqv(no, z3.BitVecVal(E['BADF'], 32)) if kind == 'ret' else z3.BoolVal(False)),
                ('no effect', z3.And(wa.same(before, after), tt(b0, 8) == tt(b1, 8)))]
    return Case(f'dead.{label}' + (f'.{kind}' if fn == 'poll_oneoff' else ''), {'fd': 32, 'j': 16}, run, check, expect=('ret',), stubs=host.sym_modules, nval=3)


def cases(tier):
    full = tier != 'quick'
    out = [dead(k, a) for k, a in CALLS.items()] + [dead('poll_oneoff', CALLS['poll_oneoff'], 2)]
    seqs = ['c', 'r', 'f', 'd', 'cc', 'cr', 'rc', 'rr', 'cf', 'rf', 'fc', 'fr', 'dd', 'cd', 'ccf', 'crc', 'rcf', 'rrc', 'fcf', 'frf', 'rfc', 'ffc']
    out += [history(s, few=not full and len(s) == 3 and 'r' in s) for s in seqs]
    out += [history(s, pre='c') for s in ('c', 'r', 'rc')]
    out += [history(s, pipes=True, pre='f') for s in ('c', 'r', 'rc', 'cr', 'rr')]
    out += [history(s, pre='fc', end=True) for s in ('', 'c', 'r', 'rc', 'cf')]
    if full:
        have = set(seqs)
        out += [history(''.join(s), pre='f', few=s.count('r') > 1 or n == 4) for n in (3, 4) for s in itertools.product('crf', repeat=n) if ''.join(s) not in have and ''.join(s).count('r') < 3 or n == 4]
        out += [history(s, pipes=True, pre='fd') for s in ('rrc', 'rcr', 'frc')]
        out += [history(s, pre='fc', end=True) for s in ('rr', 'rfc', 'crc')]
    return out
