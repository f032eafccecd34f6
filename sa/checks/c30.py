"""Host system calls: which host call, with what, and what comes back."""
import bv
import dump
import group
from bv import BV, const, cval
from func import Func
from hostsys import ERRNO, FROMHOST, TOHOST, Host, at, block, le
from interp import Result, Stop

AT_FDCWD = -100
EBADF = 9
REQ = block(0x80010000, 'request', 8, 12)
DST = block(0x90000000, 'buffer', 13, 18)
NAME = block(0xa0000000, 'name', 13, 18)
ARGS = [bv.sym('arg%d' % i, 64) for i in range(8)]


def tohost():
    b = list(REQ)
    b[48:64] = bv.sym('device and command', 16)
    return BV(b)


def req(nr, args):
    """the request block"""
    m = {}
    for i, v in enumerate([const(nr, 64)] + list(args) + ARGS[1 + len(args):8]):
        for j, x in enumerate(le(v)):
            m[at(REQ, 8 * i + j)] = x
    return m


def finish(c, H, ret, extra=()):
    """memory after the call: result, mailboxes, and `extra`"""
    want = dict(extra)
    for j, x in enumerate(le(ret)):
        want[at(REQ, j)] = x
    for j in range(8):
        want[const(TOHOST + j, 64)] = const(0, 8)
    old = bv.cat(*[H.ram0.get(const(FROMHOST + j, 64), BV(bv.rd('guest memory', const(FROMHOST + j, 64), 8))) for j in range(8)])
    if c.iff(bv.eq(old, const(0, 64))):
        for j, x in enumerate(le(BV((1,) + (0,) * 47 + tuple(tohost()[48:64])))):
            want[const(FROMHOST + j, 64)] = x
    H.memory(c, want)


def errno():
    return const(-ERRNO, 64)


def host_fd(c, H, g, fds=None, cwd=False):
    """host descriptor of a guest number: vector, or None when the guest has no such descriptor"""
    if cwd and c.iff(bv.eq(BV(g[:32]), const(AT_FDCWD, 32))):
        return const(AT_FDCWD, 32)
    for i, h in enumerate(H.fds if fds is None else fds):
        if h is not None and c.iff(bv.eq(g, const(i, 64))):
            return BV((h if isinstance(h, BV) else const(h, 64))[:32])
    return None


def host(c, name, n):
    e, _ = c.event('host', 'the host call ' + name)
    if e[1] != name:
        c.bad('the host call is %s instead of %s' % (e[1], name))
    if len(e[2]) != n:
        raise Stop('arguments of ' + name)
    return e[2]


def same(c, what, got, want):
    c.need(what, BV(got[:len(want)]), want)


def fd_arg(c, H, name, n, fd, k):
    """the host call's arguments, having checked its descriptor; None when the call was refused without one"""
    if fd is None and not any(e[0] == 'host' for e in c.events):
        return None
    A = host(c, name, n)
    same(c, 'descriptor of %s' % name, A[k], fd if fd is not None else const(-1, 32))
    return A


def text(c, what, got, want, exact=True):
    if got[0] != 'bytes':
        raise Stop('buffer of ' + what)
    if len(got[1]) < len(want):
        c.bad('%s: %d bytes are given, %d are needed' % (what, len(got[1]), len(want)))
    for i, (a, b) in enumerate(zip(got[1], want)):
        c.need('%s, byte %d' % (what, i), a, b)


def mem(a, n):
    return [BV(bv.rd('guest memory', at(a, i), 8)) for i in range(n)]


def stat_image(I, ty):
    """struct stat as RISC-V programs see it (riscv-pk frontend_stat)"""
    f = lambda n, w: bv.zext(I.lazy('stat.' + n, next(t for m, t in I.p.fields(ty) if m == n)), 64)[:w]
    z = lambda w: (0,) * w
    parts = [f('st_dev', 64), f('st_ino', 64), f('st_mode', 32), f('st_nlink', 32), f('st_uid', 32), f('st_gid', 32), f('st_rdev', 64), z(64), f('st_size', 64), f('st_blksize', 32), z(32), f('st_blocks', 64),
             f('st_atime', 64), z(64), f('st_mtime', 64), z(64), f('st_ctime', 64), z(64), z(32), z(32)]
    return BV(sum((tuple(p) for p in parts), ()))


def stat_ty(I):
    return I.p.ty_named('libc::stat')


def spec(H, name, args, ok, n=None):
    """args: the guest's arguments; ok: the host call succeeds"""
    I = H.I

    def f(c):
        if any(e[0] == 'overrun' for e in c.events):
            c.bad('the host is given more bytes than the buffer has')
        res = (lambda w: BV(bv.zext(H.res, 64)[:w])) if ok else None
        table = list(H.fds)
        extra = {}
        bad = False
        success = ok
        if name not in ('openat', 'fstatat') and host_fd(c, H, args[0]) is None:
            success = False
        if name == 'openat':
            d = host_fd(c, H, args[0], cwd=True)
            A = fd_arg(c, H, 'openat', 4, d, 0)
            if A is None:
                bad = True
            else:
                text(c, 'path', A[1], mem(NAME, n) + [const(0, 8)])
                same(c, 'flags', A[2], BV(args[3][:32]))
                same(c, 'mode', A[3], BV(args[4][:32]))
        elif name == 'fstatat':
            d = host_fd(c, H, args[0], cwd=True)
            A = fd_arg(c, H, 'fstatat', 4, d, 0)
            if A is None:
                bad = True
            else:
                text(c, 'path', A[1], mem(NAME, n) + [const(0, 8)])
                same(c, 'flags', A[3], BV(args[4][:32]))
        elif name in ('close', 'fstat'):
            A = fd_arg(c, H, name, 1 if name == 'close' else 2, host_fd(c, H, args[0]), 0)
            bad = A is None
        elif name == 'lseek':
            A = fd_arg(c, H, name, 3, host_fd(c, H, args[0]), 0)
            bad = A is None
            if A:
                same(c, 'offset', A[1], args[1])
                same(c, 'whence', A[2], BV(args[2][:32]))
        elif name in ('read', 'write', 'pread', 'pwrite'):
            p = name.startswith('p')
            A = fd_arg(c, H, name, 4 if p else 3, host_fd(c, H, args[0]), 0)
            bad = A is None
            if A:
                same(c, 'length', A[2], const(n, 64))
                if p:
                    same(c, 'file offset', A[3], args[3])
                if 'write' in name:
                    text(c, 'data written', A[1], mem(DST, n))
        if bad:
            ret = const(-EBADF, 64)
        elif not success:
            ret = errno()
        elif name == 'openat':
            ret = None
        elif name == 'close':
            ret = const(0, 64)
            for i, h in enumerate(H.fds):
                if h is not None and c.iff(bv.eq(args[0], const(i, 64))):
                    table[i] = None
        else:
            ret = bv.sext(res(32), 64) if name in ('fstat', 'fstatat') else res(64)
        if success and not bad and 'read' in name:
            k = next(k for k in range(n + 1) if c.iff(bv.eq(res(64), const(k, 64))))
            for j in range(k):
                extra[at(DST, j)] = bv.sym('data[%d]' % j, 8)
        if success and not bad and 'stat' in name:
            for j, x in enumerate(le(stat_image(I, stat_ty(I)))):
                extra[at(DST, j)] = x
        c.done()
        got = H.table(c)
        if ret is None:
            g = bv.cat(*[H.byte(c.st, at(REQ, j)) for j in range(8)])
            k = cval(c.sub(g))
            if k is None or k >= len(got):
                c.bad('the number given to the guest for the opened file is not one of its descriptors', g)
            if k < len(table) and table[k] is not None:
                c.bad('the number given to the guest for the opened file was in use (%d)' % k)
            if got[k] is None:
                c.bad('the opened file is not recorded')
            c.need('host descriptor of the opened file', BV(got[k][:32]), res(32))
            table += [None] * (k + 1 - len(table))
            table[k] = got[k]
            ret = const(k, 64)
        table += [None] * (len(got) - len(table))
        got += [None] * (len(table) - len(got))
        for i, (a, b) in enumerate(zip(got, table)):
            if (a is None) != (b is None):
                c.bad('guest descriptor %d is %s' % (i, 'lost' if a is None else 'made up'))
            if a is not None:
                c.need('host descriptor of guest descriptor %d' % i, a, b if isinstance(b, BV) else const(b, 64))
        finish(c, H, ret, extra)
        emu_unchanged(c, H)
    return f


def emu_unchanged(c, H):
    I = H.I
    for n, ft in I.p.fields(H.ety):
        if n in ('frontend_server', 'args'):
            continue
        v = H.field(c.st, n)
        if n in ('tohost_addr', 'fromhost_addr'):
            continue
        c.unchanged(n, v, n, ft)


H3, H5 = bv.zext(bv.sym('host descriptor 3', 31), 64), bv.zext(bv.sym('host descriptor 5', 31), 64)
TABLES = {'full': (0, 1, 2), 'hole': (0, 1, 2, H3, None, H5)}


BIG = 4099


def cases():
    """(key, number, name, table, args, result, length)"""
    a = ARGS
    r31, r63 = bv.sym('result', 31), bv.sym('result', 63)
    out = []
    for t in TABLES:
        for n in (0, 3) if t == 'hole' else (3,):
            for res in ('fail', r31):
                out += [('openat', 56, t, (a[1], NAME, const(n, 64), a[4], a[5]), res, n), ]
            for res in ('fail', const(0, 32)):
                out += [('fstatat', 79, t, (a[1], NAME, const(n, 64), DST, a[5]), res, n)]
            for res in ('fail', BV(tuple(bv.sym('result', 3)) + (0,) * 29) if n else const(0, 32)):
                out += [('read', 63, t, (a[1], DST, const(n, 64)), res, n), ('pread', 67, t, (a[1], DST, const(n, 64), a[4]), res, n)]
            for res in ('fail', r63):
                out += [('write', 64, t, (a[1], DST, const(n, 64)), res, n), ('pwrite', 68, t, (a[1], DST, const(n, 64), a[4]), res, n)]
        for res in ('fail', const(0, 32)):
            out += [('close', 57, t, (a[1],), res, None), ('fstat', 80, t, (a[1], DST), res, None)]
        for res in ('fail', r63):
            out += [('lseek', 62, t, (a[1], a[2], a[3]), res, None)]
    # more than a page at once
    n, k = BIG, const(BIG, 32)
    out += [('read', 63, 'full', (const(0, 64), DST, const(n, 64)), k, n), ('pread', 67, 'full', (const(0, 64), DST, const(n, 64), a[4]), k, n),
            ('write', 64, 'full', (const(1, 64), DST, const(n, 64)), r63, n), ('pwrite', 68, 'full', (const(1, 64), DST, const(n, 64), a[4]), r63, n),
            ('openat', 56, 'full', (a[1], NAME, const(300, 64), a[4], a[5]), r31, 300), ('fstatat', 79, 'full', (a[1], NAME, const(300, 64), DST, a[5]), const(0, 32), 300)]
    return out


def exits(H, code):
    def f(c):
        A = host(c, 'exit', 1)
        same(c, 'exit status', A[0], code)
        c.done()
        H.memory(c, {const(TOHOST + j, 64): const(0, 8) for j in range(8)} if bv.cat(*[H.byte(c.st, const(TOHOST + j, 64)) for j in range(8)]) == const(0, 64) else {})
    return f


def ended(rs):
    return [Result('return', r.st, None) if r.kind == 'panic' and r.why == 'process exit' else r for r in rs]


def mainvars(H, args, limit):
    def f(c):
        c.done()
        n = len(args)
        words = [const(n, 64)]
        at_ = 8 * (n + 3)
        for s in args:
            words.append(at(DST, at_))
            at_ += len(s.encode()) + 1
        words += [const(0, 64), const(0, 64)]
        data = [b for w in words for b in le(w)] + [const(b, 8) for s in args for b in s.encode() + b'\0']
        if c.iff(bv.ult(limit, const(len(data), 64))):
            return finish(c, H, const(-12, 64))
        finish(c, H, const(0, 64), {at(DST, i): b for i, b in enumerate(data)})
        emu_unchanged(c, H)
    return f


def check(rep, only=None):
    rep.rule = ('handle_syscall is summarised for every supported call number, with unknown arguments, guest memory contents, mailbox contents and host results (success and failure), and two descriptor tables. Specified: which host call is made with which arguments, '
                'what is written to the host and to guest memory, the value returned in the request block, and the mailboxes.')
    rep.assumptions = group.TRUST + ['buffers of at most three bytes; the request block, the mailboxes and the buffers do not overlap and lie in memory', 'a host call that fails returns -1 and sets errno (13 here)']
    prog = dump.program()
    n = 0
    for name, nr, t, args, res, ln in cases():
        key = '%s/%s/%s%s' % (name, t, 'fails' if res == 'fail' else 'succeeds', '' if ln is None else '/%d' % ln)
        if only and only not in key:
            continue
        n += 1

        def go():
            H = Host(rep, prog, key, res, req(nr, args), TABLES[t])
            if ln and ln > 300:
                H.I.max_visits = 3 * ln
            assume = []
            if isinstance(res, BV) and 'read' in name and ln:
                assume.append((bv.ult(const(ln, 32), res), 0))
            Func(rep, H.I, key, 'handle_syscall').check(H.run(tohost(), assume), spec(H, name, args, res != 'fail', ln))
        group.guard(rep, key, go)
    for key, args in (('getmainvars/0', ()), ('getmainvars/4', ('ab', '', 'x\u00e9y', 'z'))):
        def go():
            H = Host(rep, prog, key, None, req(2011, (DST, ARGS[2])), args=args)
            Func(rep, H.I, key, 'handle_syscall').check(H.run(tohost()), mainvars(H, args, ARGS[2]))
        if only is None or only in key:
            group.guard(rep, key, go)

    def go():
        H = Host(rep, prog, 'exit', None, req(93, (ARGS[1],)))
        rs = H.run(tohost())
        Func(rep, H.I, 'exit', 'handle_syscall').check(ended(rs), exits(H, BV(ARGS[1][:32])))
        H = Host(rep, prog, 'exit through tohost', None)
        t = bv.sym('tohost', 64)
        Func(rep, H.I, 'exit through tohost', 'handle_syscall').check(ended(H.run(t, [(t[0], 1)])), exits(H, BV(t[:32])))
    if only is None or only in 'exit':
        group.guard(rep, 'exit', go)
        n += 2
    rep.floor('cases', n, 40)
    rep.floor('paths', rep.paths, 100)
