"""C20: WASI rights are enforced on every call and can never be widened."""
import z3
from sx.harness import Case, eqv, tt, B
from sx.core import bvv, SBytes
from . import host, wa
from .wa import R, E, pack, same

ASSUMPTIONS = [
    'the host is a model of a POSIX system in place of the os, fcntl, select and socket modules',
    'every 64-bit set of requested and inheriting rights; descriptors opened from a preopened directory, narrowed, or added by the embedder',
    'a positioned read or write by a descriptor with the read or write right but without the seek right may be performed or refused',
]
F, T = z3.BoolVal(False), z3.BoolVal(True)
IOV = pack((4, 2000), (4, 3))

# what each call needs, from the ABI: name -> (arguments after the descriptor, right)
FILE = {
    'fd_advise': ((0, 1, 0), 'FD_ADVISE'), 'fd_allocate': ((0, 9), 'FD_ALLOCATE'), 'fd_datasync': ((), 'FD_DATASYNC'),
    'fd_fdstat_set_flags': ((1,), 'FD_FDSTAT_SET_FLAGS'), 'fd_filestat_get': ((3000,), 'FD_FILESTAT_GET'),
    'fd_filestat_set_size': ((2,), 'FD_FILESTAT_SET_SIZE'), 'fd_filestat_set_times': ((5, 6, 5), 'FD_FILESTAT_SET_TIMES'),
    'fd_pread': ((1000, 1, 1, 3000), 'FD_READ'), 'fd_pwrite': ((1000, 1, 1, 3000), 'FD_WRITE'), 'fd_read': ((1000, 1, 3000), 'FD_READ'),
    'fd_seek': ((1, 0, 3000), 'FD_SEEK'), 'fd_sync': ((), 'FD_SYNC'), 'fd_tell': ((3000,), 'FD_TELL'), 'fd_write': ((1000, 1, 3000), 'FD_WRITE'),
}
DIR = {
    'fd_readdir': ((3000, 200, 0, 3900), 'FD_READDIR'), 'fd_filestat_get': ((3000,), 'FD_FILESTAT_GET'),
    'fd_filestat_set_times': ((5, 6, 5), 'FD_FILESTAT_SET_TIMES'), 'fd_datasync': ((), 'FD_DATASYNC'), 'fd_advise': ((0, 1, 0), 'FD_ADVISE'),
    'path_create_directory': ((1100, 1), 'PATH_CREATE_DIRECTORY'), 'path_filestat_get': ((0, 1110, 1, 3000), 'PATH_FILESTAT_GET'),
    'path_filestat_set_times': ((0, 1110, 1, 5, 6, 5), 'PATH_FILESTAT_SET_TIMES'), 'path_readlink': ((1120, 1, 3000, 50, 3900), 'PATH_READLINK'),
    'path_remove_directory': ((1130, 3), 'PATH_REMOVE_DIRECTORY'), 'path_unlink_file': ((1110, 1), 'PATH_UNLINK_FILE'),
    'path_open': ((0, 1110, 1, 0, R['FD_READ'], 0, 0, 3900), 'PATH_OPEN'),
}
SOCK = {'sock_recv': ((1000, 1, 0, 3900, 3904), 'FD_READ'), 'sock_send': ((1000, 1, 0, 3900), 'FD_WRITE'), 'sock_shutdown': ((2,), 'SOCK_SHUTDOWN'),
        'sock_accept': ((0, 3900), 'SOCK_ACCEPT')}
# rights that make sense for a regular file or directory
ONFILE = sum(R[n] for n in 'FD_DATASYNC FD_READ FD_SEEK FD_FDSTAT_SET_FLAGS FD_SYNC FD_TELL FD_WRITE FD_ADVISE FD_ALLOCATE FD_FILESTAT_GET '
             'FD_FILESTAT_SET_SIZE FD_FILESTAT_SET_TIMES POLL_FD_READWRITE'.split())
ONDIR = sum(v for k, v in R.items() if k.startswith('PATH_')) | R['FD_READDIR'] | R['FD_FILESTAT_GET'] | R['FD_FILESTAT_SET_TIMES']


def setup(x, names, dirs=wa.DIRS, build=wa.tree):
    w = wa.World(x, names, build, dirs=dirs)
    w.poke(1000, IOV)
    w.poke(1100, b'n')
    w.poke(1110, b'f')
    w.poke(1120, b'l')
    w.poke(1130, b'd/e')
    w.h.select_ready = lambda r, wr, t: (r, wr, [])
    w.h.clocks = {k: 1000 for k in ('real', 'mono', 'process', 'thread')}
    return w


def rights(w, fd):
    """Reported rights and inheriting rights."""
    w.ok('fd_fdstat_get', fd, 5000)
    return w.mem.get_u64(5008), w.mem.get_u64(5016)


def attempt(x, w, fn, args):
    """(outcome, errno), host state and memory before and after."""
    x.assume(z3.ULT(x.t('j'), 0x8000))
    r0 = every(w)
    before = wa.state(w)
    mb = w.mem.get(0, 0x8000)
    o = w.call(fn, *args)
    after = wa.state(w)
    ma = w.mem.get(0, 0x8000)
    w.kept = [r0, every(w)[:len(r0)]]
    return o[0], (o[1] if o[0] == 'ret' else 0), before, after, x.at(mb, x.u('j')), x.at(ma, x.u('j'))


def every(w):
    """The rights of every open descriptor, and that the others are not open."""
    out = []
    for fd in range(8):
        o = w.call('fd_fdstat_get', fd, 0x9000)
        if o[0] == 'ret' and not bool(o[1] != 0):
            out.append([fd, w.mem.get_u64(0x9008), w.mem.get_u64(0x9010)])
    return out


def verdict(has, obs):
    """has: z3 Bool, the descriptor holds what the call needs."""
    kind, no, before, after, b0, b1 = obs[:6]
    quiet = z3.And(same(before, after), eqv(b0, tt(b1, 8)) if not z3.is_expr(b0) else b0 == b1)
    refused = B(kind == 'ret' and (no == E['NOTCAPABLE'] or no == E['BADF'])) if kind != 'ret' or isinstance(no, int) else \
        z3.Or(tt(no, 32) == E['NOTCAPABLE'], tt(no, 32) == E['BADF'])
    return [('refused without the right', z3.Or(has, refused)), ('without effect', z3.Or(has, quiet)), ('allowed with the right', z3.Or(z3.Not(has), z3.Not(refused))),
            ('no descriptor\'s rights change', same(*obs[-1]))]


def bit(r, name):
    return tt(r, 64) & R[name] != 0


def call_case(fn, args, right, kind, how):
    names = sorted({'path_open', 'fd_fdstat_get', 'fd_fdstat_set_rights', fn})
    narrow = how == 'narrowed'

    def run(x):
        w = setup(x, names)
        b, i = x.i('b'), x.i('i')
        if kind == 'dir' and narrow:
            fd = 3
        else:
            name, of = ('f', 0) if kind == 'file' else ('d', 2)
            if kind == 'dir':
                w.poke(1120, b'f')
                if not narrow:
                    x.assume(x.t('b') & R['FD_WRITE'] == 0)     # the host opens no directory for writing
            fd = w.open(3, name, of, wa.ALL if narrow else b, wa.ALL if narrow else i)
        if narrow:
            o = w.call('fd_fdstat_set_rights', fd, b, i)
            x.assume(z3.BoolVal(True) if o == ('ret', 0) else tt(o[1], 32) == 0 if o[0] == 'ret' else F)
        r, _ = rights(w, fd)
        return attempt(x, w, fn, [fd, *args]) + (r, w.kept)

    def check(x, obs):
        out = verdict(bit(obs[6], right), obs)
        if narrow:
            out.append(('reported rights are those set', eqv(obs[6], x.t('b'))))
        return out
    return Case(f'{kind}.{fn}.{how}', {'b': 64, 'i': 64, 'j': 16}, run, check, expect=('ret',), stubs=host.sym_modules, nval=3, seconds=120)


def pair_case(fn, args, first, second):
    """Calls on two directories."""
    def run(x):
        w = setup(x, sorted({'path_open', 'fd_fdstat_get', 'fd_fdstat_set_rights', fn}))
        for fd, k in ((3, 'a'), (4, 'b')):
            w.ok('fd_fdstat_set_rights', fd, x.i(k), x.i(k) & 0x5555555 ^ 0x5555555)
        r0, _ = rights(w, 3)
        r1, _ = rights(w, 4)
        return attempt(x, w, fn, args) + (r0, r1, w.kept)

    def check(x, obs):
        return verdict(z3.And(bit(obs[6], first), bit(obs[7], second)), obs)
    base = 0b00000111101111111111111000000000

    def go(x):
        for k in 'ab':
            x.assume(x.t(k) & ~base == 0)
        return run(x)
    return Case(f'pair.{fn}', {'a': 64, 'b': 64, 'j': 16}, go, check, expect=('ret',), stubs=host.sym_modules, nval=3, seconds=120)


def open_case(of, flags):
    """path_open needs more rights to create and to truncate."""
    def run(x):
        w = setup(x, ['path_open', 'fd_fdstat_get', 'fd_fdstat_set_rights'])
        x.assume(x.t('b') & ~0b00000111101111111111111000000000 == 0)
        x.assume(x.t('i') & ~0b00001111111111111111111111111111 == 0)
        w.ok('fd_fdstat_set_rights', 3, x.i('b'), x.i('i'))
        r, _ = rights(w, 3)
        return attempt(x, w, 'path_open', [3, 0, 1110, 1, of, R['FD_READ'] | R['FD_WRITE'], 0, 0, 3900]) + (r, w.kept)

    def check(x, obs):
        out = verdict(z3.And([bit(obs[6], f) for f in flags]), obs)
        kind, no = obs[:2]
        has = z3.And([bit(obs[6], f) for f in flags])
        return [('refused without the rights', z3.Or(has, B(kind == 'ret' and no in (E['NOTCAPABLE'], E['BADF'], E['PERM'], E['ACCES'])))), *out[1:]]
    return Case(f'open.{of}', {'b': 64, 'i': 64, 'j': 16}, run, check, expect=('ret',), stubs=host.sym_modules, nval=3, seconds=120)


def sock_case(fn, args, right):
    def run(x):
        w = setup(x, ['fd_fdstat_get', fn])
        s = w.h.newfd(host.Open(w.h.node('sock'), 2, host.SockEnd('s', b'hello', lambda: host.Open(w.h.node('sock'), 2, host.SockEnd('c', b'')))))
        fd = wa.sock_file(w, s, x.u('b'))
        r, _ = rights(w, fd)
        return attempt(x, w, fn, [fd, *args]) + (r, w.kept)

    def check(x, obs):
        return verdict(bit(obs[6], right), obs) + [('reported', eqv(obs[6], x.t('b')))]
    return Case(f'sock.{fn}', {'b': 64, 'j': 16}, run, check, expect=('ret',), stubs=host.sym_modules, nval=3, seconds=120)


def poll_case(kind):
    def run(x):
        w = setup(x, ['path_open', 'fd_fdstat_get', 'poll_oneoff'])
        w.poke(4000, pack((8, 7), (1, kind), (7, 0), (4, 5), (4, 0)) + bytes(24))
        w.open(3, 'f', 0, x.i('b'), x.i('i'))
        r, _ = rights(w, 5)
        return attempt(x, w, 'poll_oneoff', [4000, 4100, 1, 4200]) + (r, w.kept)

    def check(x, obs):
        # refusing a subscription in its own event is as good as refusing the call
        has = bit(obs[6], 'POLL_FD_READWRITE')
        return verdict(has, obs)
    return Case(f'poll.{"read" if kind == 1 else "write"}', {'b': 64, 'i': 64, 'j': 16}, run, check, expect=('ret',), stubs=host.sym_modules, nval=3)


def std_case(fd, allowed):
    """The standard streams: reading or writing only."""
    def run(x):
        w = setup(x, ['fd_fdstat_get', 'fd_read', 'fd_write', 'fd_seek', 'fd_fdstat_set_flags', 'fd_filestat_set_size', 'path_open', 'fd_readdir'])
        for f in range(3):
            w.h.fds[f].node.data = bytearray(b'in')
        out = []
        for fn, a in (('fd_read', (1000, 1, 3000)), ('fd_write', (1000, 1, 3000)), ('fd_seek', (0, 0, 3000)), ('fd_fdstat_set_flags', (1,)),
                      ('fd_filestat_set_size', (0,)), ('path_open', (0, 1110, 1, 0, x.i('b'), x.i('b'), 0, 3900)), ('fd_readdir', (3000, 50, 0, 3900))):
            before = wa.state(w)
            o = w.call(fn, fd, *a)
            out.append([fn, o[0], o[1] if o[0] == 'ret' else 0, same_now(before, wa.state(w))])
        return 'ret', out, list(rights(w, fd))

    def check(x, obs):
        out = []
        for fn, kind, no, still in obs[1]:
            if fn == allowed:
                out.append((fn, B(kind == 'ret' and no == 0)))
            else:
                out.append((fn, B(kind == 'ret' and no == E['NOTCAPABLE'] and still)))
        return out + [('nothing to inherit', eqv(obs[2][1], bvv(0, 64)))]
    return Case(f'std.{fd}', {'b': 64}, run, check, expect=('ret',), stubs=host.sym_modules)


def same_now(a, b):
    return z3.is_true(z3.simplify(same(a, b)))


def history(steps, start):
    """steps: 's<fd>' narrows a descriptor, 'd<fd>' / 'f<fd>' opens a directory / file through it, 'r<fd>' renumbers the newest onto fd."""
    def run(x):
        w = setup(x, ['path_open', 'fd_fdstat_get', 'fd_fdstat_set_rights', 'fd_renumber'])
        w.h.put('/h/p/d/d')
        w.h.put('/h/p/d/d/f', 'file', data=bytearray(b'1'))
        live = [3, 4]
        seen = []
        for k, s in enumerate(steps):
            what, fd = s[0], int(s[1])
            old = [list(rights(w, f)) for f in live]
            b, i = x.i(f'b{k}'), x.i(f'i{k}')
            if what == 's':
                o = w.call('fd_fdstat_set_rights', fd, b, i)
            else:
                w.poke(6000, b'd' if what == 'd' else b'f')
                o = w.call('path_open', fd, 0, 6000, 1, 2 if what == 'd' else 0, b, i, 0, 6100)
                if o[0] == 'ret' and not bool(o[1] != 0):
                    live.append(int(w.u32(6100)))
            new = [list(rights(w, f)) for f in live]
            seen.append([what, fd, o[0], o[1] if o[0] == 'ret' else 0, list(live), old, new])
        return 'ret', seen

    def check(x, obs):
        out = []
        for k, (what, fd, kind, no, live, old, new) in enumerate(obs[1]):
            b, i = x.t(f'b{k}'), x.t(f'i{k}')
            ok = B(kind == 'ret' and no == 0) if isinstance(no, int) else tt(no, 32) == 0
            for n, f in enumerate(live[:len(old)]):
                ob, oi = (tt(v, 64) for v in old[n])
                if f == fd and what == 's':
                    sub = z3.And(b & ~ob == 0, i & ~oi == 0)
                    out.append((f'{k}: narrowing succeeds exactly for subsets', ok == sub))
                    out.append((f'{k}: rights set', z3.And(eqv(new[n][0], z3.If(sub, b, ob)), eqv(new[n][1], z3.If(sub, i, oi)))))
                else:
                    out.append((f'{k}: rights of {f} kept', z3.And(eqv(new[n][0], ob), eqv(new[n][1], oi))))
            if len(live) > len(old):
                pi = tt(old[live.index(fd)][1], 64)
                gb, gi = tt(new[-1][0], 64), tt(new[-1][1], 64)
                use = ONDIR if what == 'd' else ONFILE
                out.append((f'{k}: no more than inherited', z3.And(gb & ~pi == 0, gi & ~pi == 0)))
                out.append((f'{k}: no more than requested', z3.And(gb & ~b == 0, gi & ~i == 0)))
                out.append((f'{k}: what was requested and inherited', (b & pi & use) & ~gb == 0))
                if what == 'd':
                    out.append((f'{k}: inheriting rights', (i & pi & (ONDIR | ONFILE) & ~R['FD_SEEK']) & ~gi == 0))
        return out
    n = len(steps)
    return Case(f'history.{"-".join(steps)}', {f'{k}{j}': 64 for j in range(n) for k in 'bi'}, run, check, expect=('ret',), stubs=host.sym_modules,
                max_paths=20000, seconds=300, nval=2)


def cases(tier):
    full = tier != 'quick'
    out = []
    for how in ('opened', 'narrowed'):
        out += [call_case(fn, a, r, 'file', how) for fn, (a, r) in FILE.items()]
        out += [call_case(fn, a, r, 'dir', how) for fn, (a, r) in DIR.items() if not (how == 'narrowed' and r in ('FD_DATASYNC', 'FD_ADVISE'))]
    out += [sock_case(fn, a, r) for fn, (a, r) in SOCK.items()]
    out += [pair_case('path_link', [3, 0, 1110, 1, 4, 1100, 1], 'PATH_LINK_SOURCE', 'PATH_LINK_TARGET'),
            pair_case('path_rename', [3, 1110, 1, 4, 1100, 1], 'PATH_RENAME_SOURCE', 'PATH_RENAME_TARGET'),
            symlink_case()]
    out += [open_case(0, ['PATH_OPEN']), open_case(1, ['PATH_OPEN', 'PATH_CREATE_FILE']), open_case(8, ['PATH_OPEN', 'PATH_FILESTAT_SET_SIZE']),
            open_case(9, ['PATH_OPEN', 'PATH_CREATE_FILE', 'PATH_FILESTAT_SET_SIZE'])]
    out += [poll_case(1), poll_case(2), std_case(0, 'fd_read'), std_case(1, 'fd_write'), std_case(2, 'fd_write')]
    for h in (('s3',), ('d3',), ('f3',), ('s3', 's3'), ('s3', 'd3'), ('d3', 'd5'), ('d3', 'f5'), ('d3', 's5'), ('s3', 'f3'), ('s3', 's4'), ('d3', 's3'),
              ('d3', 'd5', 'f6'), ('d3', 's5', 'f5'), ('s3', 'd3', 's3'), ('d3', 's3', 'd5')):
        out.append(history(list(h), None))
    if full:
        import itertools
        have = {c.name for c in out}
        for a in itertools.product(('s3', 'd3', 'f3'), ('s3', 's5', 'd5', 'f5', 'd3'), ('s3', 's5', 's6', 'd5', 'd6', 'f6')):
            # only descriptors that exist by then and are directories
            n, kinds, good = 5, {3: 'd', 4: 'd'}, True
            for s in a:
                if int(s[1]) not in kinds or s[0] in 'df' and kinds[int(s[1])] != 'd':
                    good = False
                if s[0] in 'df':
                    kinds[n] = s[0]
                    n += 1
            if good and f'history.{"-".join(a)}' not in have:
                out.append(history(list(a), None))
    return out


def symlink_case():
    def run(x):
        w = setup(x, ['fd_fdstat_get', 'fd_fdstat_set_rights', 'path_symlink'])
        x.assume(x.t('b') & ~0b00000111101111111111111000000000 == 0)
        w.ok('fd_fdstat_set_rights', 3, x.i('b'), 0)
        r, _ = rights(w, 3)
        return attempt(x, w, 'path_symlink', [1110, 1, 3, 1100, 1]) + (r, w.kept)
    return Case('dir.path_symlink', {'b': 64, 'j': 16}, run, lambda x, o: verdict(bit(o[6], 'PATH_SYMLINK'), o), expect=('ret',), stubs=host.sym_modules, nval=3)
