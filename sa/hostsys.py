"""Host services: the emulator's system-call handler with guest memory as an address-keyed store and the host calls as recorded boundary events."""
import re
import bv
import textmodels
from bv import BV, const, cval
from interp import Agg, ArrC, Lazy, Panic, Ptr, Stop, SymArr
from machine import Machine

HANDLER = re.compile(r'^carron::fesvr::<impl carron::Emulator>::handle_syscall$')
BUS = re.compile(r'^carron::bus::Bus::(?P<op>load|store)(?P<u>_u)?(?P<w>8|16|32|64)$')
LIBC = re.compile(r'^(libc::(\w+::)*)?(?P<n>openat|openat64|close|lseek|lseek64|read|write|pread|pread64|pwrite|pwrite64|fstatat|fstatat64|fstat|fstat64|__errno_location)$')
EXIT = re.compile(r'^std::process::exit$')
RAM = ('ram',)
ERR = ('errno',)
ERRNO = 13        # what a failing host call sets; the handler treats all numbers alike
TOHOST, FROMHOST = 0x80001000, 0x80001040


def block(top, name, lo, hi):
    """an address with bits lo..hi-1 unknown: sums below bit lo stay exact"""
    b = list(const(top, 64))
    b[lo:hi] = bv.sym(name, hi - lo)
    return BV(b)


def at(a, k):
    return bv.add(a, const(k, 64))


class Host:
    def __init__(self, rep, prog, key, res=None, known=(), fds=(0, 1, 2), args=(), xlen=64):
        """known: {address: byte}; fds: host numbers, None for a free slot; res: value of the host call's result; args: the program's arguments"""
        self.rep, self.prog, self.key, self.res = rep, prog, key, res
        self.I = I = Machine(prog, xlen, [(BUS, self.m_bus), (LIBC, self.m_libc), (EXIT, self.m_exit), (re.compile(r'^std::alloc::alloc_zeroed$'), m_stop)] + [h for h in textmodels.TEXT_MODELS if '::count::' in h[0].pattern])
        I.strings = True
        self.fds, self.args = fds, args
        self.ram0 = dict(known)
        self.blocks = []

    # -- guest memory
    def ram(self, st):
        return st.objs.get(RAM, ())

    def byte(self, st, a):
        a = st.sub(a)
        for k, v in reversed(self.ram(st)):
            if st.sub(k) == a:
                return v
        if a in self.ram0:
            return self.ram0[a]
        return BV(bv.rd('guest memory', a, 8))

    def m_bus(self, I, st, f, a, at_, dty):
        m = BUS.match(f['name'])
        w = int(m.group('w'))
        addr = st.sub(a[1])
        if m.group('op') == 'load':
            v = bv.cat(*[self.byte(st, at(addr, i)) for i in range(w // 8)])
            v = v if w == 64 else bv.zext(v, 64) if m.group('u') else bv.sext(v, 64)
            return I.ok(dty, v)
        st.objs[RAM] = self.ram(st) + tuple((st.sub(at(addr, i)), BV(a[2][8 * i:8 * i + 8])) for i in range(w // 8))
        return I.ok(dty, Agg(I.p.fields(dty, 0)[0][1], 0, ()))

    # -- host
    def m_exit(self, I, st, f, a, at_, dty):
        st.events += (('host', 'exit', (BV(st.sub(a[0])[:32]),)),)
        raise Panic('process exit')

    def buffer(self, I, st, p, n=None):
        """elements at a pointer (up to the end of its array)"""
        if not isinstance(p, Ptr):
            p = I.unwrap_ptr(p)
        if p.obj[0] == 'emptyvec':
            return []
        o = I.obj(st, p.obj)
        i = cval(st.sub(p.path[-1][1])) if p.path and p.path[-1][0] == 'i' else None
        if len(p.path) != 1 or i is None:
            raise Stop('buffer %r' % (p,))
        if isinstance(o, ArrC):
            e = list(o.e[i:])
        else:
            raise Stop('buffer of unknown size')
        return [st.sub(x) if isinstance(x, BV) else x for x in (e if n is None else e[:n])]

    def m_libc(self, I, st, f, a, at_, dty):
        n = LIBC.match(f['name']).group('n').replace('64', '')
        if n == '__errno_location':
            return Ptr(ERR, ())
        res = self.res
        fail = res == 'fail'
        w = I.p.width(dty)
        A = [st.sub(x) if isinstance(x, BV) else x for x in a]
        if not fail and n not in ('openat', 'fstatat') and st.decide(bv.eq(BV(A[0][:32]), const(-1, 32))):
            fail = True         # no host has a descriptor -1
        val = const(-1, w) if fail else BV(bv.zext(res, 64)[:w])
        if n in ('openat', 'fstatat'):
            A[1] = ('bytes', tuple(self.buffer(I, st, a[1])))
        if n in ('write', 'pwrite', 'read', 'pread'):
            cnt = cval(st.sub(a[2]))
            if cnt is None:
                raise Stop('length of the host transfer')
            buf = self.buffer(I, st, a[1])
            if len(buf) < cnt:
                st.events += (('overrun', n, cnt),)
            if n in ('read', 'pread'):
                A[1] = ('buffer',)
                if not fail:
                    if (cval(val) or 0) > cnt:
                        val = const(cnt, w)     # asked for less
                    k = next((k for k in range(cnt + 1) if st.decide(bv.eq(val, const(k, w)))), None)
                    if k is None:
                        raise Stop('host transfer longer than asked')
                    p = a[1] if isinstance(a[1], Ptr) else I.unwrap_ptr(a[1])
                    i = cval(p.path[-1][1])
                    for j in range(min(k, len(buf))):
                        I.write(st, Ptr(p.obj, (('i', const(i + j, 64)),)), bv.sym('data[%d]' % j, 8))
            else:
                A[1] = ('bytes', tuple(buf[:cnt]))
        if n in ('fstat', 'fstatat'):
            p = a[-2] if n == 'fstatat' else a[-1]
            p = p if isinstance(p, Ptr) else I.unwrap_ptr(p)
            if not fail:
                self.fill_stat(I, st, p)
            A[2 if n == 'fstatat' else 1] = ('stat',)
        if fail:
            st.objs[ERR] = const(ERRNO, 32)
        st.events += (('host', n, tuple(A)),)
        return val

    def fill_stat(self, I, st, p):
        old = I.read(st, p)
        I.write(st, p, Lazy('stat', old.ty))

    # -- start
    def boot(self, tohost):
        I = self.I
        st = I.new_state()
        fn = self.prog.fns[self.fn(HANDLER)]
        lt = fn['body']['lt'][1]
        ty = self.prog.types[lt]
        ety = next(ty[k] for k in ('elem', 'pointee', 'to') if k in ty)
        fs = []
        for n, ft in I.p.fields(ety):
            if n == 'tohost_addr':
                fs.append(I.some(ft, const(TOHOST, 64)))
            elif n == 'fromhost_addr':
                fs.append(I.some(ft, const(FROMHOST, 64)))
            elif n == 'frontend_server':
                gs = []
                for m, gt in I.p.fields(ft):
                    if m != 'fd_table':
                        raise Stop('host state ' + m)
                    o = I.vec_elem(gt)
                    els = [I.none(o) if h is None else I.some(o, h if isinstance(h, BV) else const(h, 64)) for h in self.fds]
                    st.objs[('fds',)] = ArrC(els)
                    gs.append(I.make_vec(gt, Ptr(('fds',), (('i', const(0, 64)),)), const(len(els), 64)))
                fs.append(Agg(ft, 0, gs))
            elif n == 'args':
                gs = []
                for m, gt in I.p.fields(ft):
                    if m == 'main_args':
                        sty = I.vec_elem(gt)
                        ss = []
                        for k, s in enumerate(self.args):
                            st.objs[('arg', k)] = ArrC([const(x, 8) for x in s.encode()])
                            ss.append(Agg(sty, 0, (I.make_vec(I.p.fields(sty)[0][1], Ptr(('arg', k), (('i', const(0, 64)),)), const(len(s.encode()), 64)),)))
                        st.objs[('args',)] = ArrC(ss)
                        gs.append(I.make_vec(gt, Ptr(('args',), (('i', const(0, 64)),)), const(len(ss), 64)))
                    else:
                        gs.append(I.lazy('args.' + m, gt))
                fs.append(Agg(ft, 0, gs))
            else:
                fs.append(I.lazy(n, ft))
        self.ety = ety
        st.objs[('emu',)] = Agg(ety, 0, fs)
        st.objs[ERR] = bv.sym('stale errno', 32)
        st.events = ()
        for i in range(8):
            self.ram0[const(TOHOST + i, 64)] = BV(tohost[8 * i:8 * i + 8])
        return st

    def fn(self, pat):
        c = [i for n, i in self.prog.by_name.items() if pat.match(n)]
        if len(c) != 1:
            raise Stop('system call handler not found')
        c = c[0][0] if isinstance(c[0], (list, tuple)) else c[0]
        return c

    def run(self, tohost, assume=()):
        st = self.boot(tohost)
        for b, t in assume:
            if not st.assume(b, t):
                raise Stop('inconsistent scenario')
        return self.I.run(self.fn(HANDLER), [Ptr(('emu',), ())], st)

    def again(self, states, req, tohost, label):
        """one more call, in every state; the value returned to the guest is noted under `label`"""
        self.ram0 = dict(req)
        for i in range(8):
            self.ram0[const(TOHOST + i, 64)] = BV(tohost[8 * i:8 * i + 8])
        base = next(iter(req))
        out = []
        for st in states:
            st.objs[RAM] = ()
            for r in self.I.run(self.fn(HANDLER), [Ptr(('emu',), ())], st):
                if r.kind == 'return':
                    r.st.events += (('back', label, bv.cat(*[self.byte(r.st, at(base, j)) for j in range(8)])),)
                out.append(r)
        return out

    # -- after
    def field(self, st, *names):
        I = self.I
        p = I.field_ptr(*names, obj=('emu',), ty=self.ety)
        return I.read(st, p)

    def table(self, c):
        """descriptor table: list of host numbers or None"""
        I, st = self.I, c.st
        v = self.field(st, 'frontend_server', 'fd_table')
        n = cval(st.sub(v.f[[k for k, _ in I.p.fields(v.ty)].index('len')]))
        p = I.unwrap_ptr(v)
        if n is None:
            raise Stop('length of the descriptor table')
        if n and p.obj[0] == 'emptyvec':
            raise Stop('descriptor table')
        out = []
        for e in (I.obj(st, p.obj).e[:n] if n else ()):
            k, x = c.opt(e)
            out.append(None if k == 'None' else c.sub(x))
        return out

    def memory(self, c, want):
        """final guest memory equals the initial one with `want` ({address: byte}) written"""
        st = c.st
        got = {}
        for k, v in self.ram(st):
            got[st.sub(k)] = v
        first = lambda a: self.ram0.get(a, BV(bv.rd('guest memory', a, 8)))
        w = {st.sub(k): v for k, v in want.items()}
        for a in w:
            if a not in got:
                got[a] = first(a)
        for a, v in got.items():
            c.need('guest memory at %s' % show_addr(a), v, w[a] if a in w else first(a))


def show_addr(a):
    k = cval(a)
    return '%#x' % k if k is not None else bv.show(a)


def m_stop(I, st, f, a, at_, dty):
    return NotImplemented


def le(v):
    return [BV(v[i:i + 8]) for i in range(0, len(v), 8)]
