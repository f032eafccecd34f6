"""UART: 16550 registers, console output, received bytes, interrupt line."""
import re
import bv
import console
import dump
import group
import models
import scen
import textmodels
from bv import BV, const, cval
from interp import Agg, ArrC, Enter, Lazy, Ptr, Stop
from spec import vname

TICK = 'carron::bus::uart::Uart::tick'
RX, IER, IIR, LCR, MCR, LSR, MSR, SCR = range(8)
Q = ('queue',)


def queue(st):
    return st.user.get(Q, ())


def m_q(I, st, f, a, at, dty):
    n = re.sub(r'::<.*$', '', f['name'].split('>::')[-1] if 'VecDeque::<' in f['name'] else f['name'].split('::')[-1])
    q = queue(st)
    if n in ('new', 'with_capacity', 'default'):
        st.user[Q] = ()
        return I.lazy('the receive queue', dty)
    if n == 'len':
        return const(len(q), 64)
    if n == 'is_empty':
        return const(int(not q), 1)
    if n == 'clear':
        st.user[Q] = ()
        return Agg(dty, 0, ())
    if n == 'push_back':
        st.user[Q] = q + (st.sub(a[1]),)
        return Agg(dty, 0, ())
    if n == 'push_front':
        st.user[Q] = (st.sub(a[1]),) + q
        return Agg(dty, 0, ())
    if n in ('pop_front', 'pop_back'):
        if not q:
            return I.none(dty)
        k = 0 if n == 'pop_front' else -1
        st.user[Q] = q[1:] if k == 0 else q[:-1]
        return I.some(dty, q[k])
    raise Stop('queue operation ' + n)


EXTEND = re.compile(r'^<std::collections::VecDeque<u8.*?> as std::iter::Extend<[^>]*>>::extend::<(?P<it>.*)>$')


def push(st, x):
    st.user[Q] = queue(st) + (st.sub(x),)


def items(I, st, v, it):
    """bytes of an iterator over a buffer, possibly shortened; None for another kind"""
    names = [n for n, _ in I.p.fields(v.ty)] if isinstance(v, Agg) else ()
    m = re.match(r'^std::iter::(Take|Skip)<(.*)>$', it)
    if m and 'n' in names:
        xs = items(I, st, v.f[names.index('iter')], m.group(2))
        n = cval(st.sub(v.f[names.index('n')]))
        if xs is None or n is None:
            return None
        return xs[:n] if m.group(1) == 'Take' else xs[n:]
    m = re.match(r'^std::iter::Rev<(.*)>$', it)
    if m and isinstance(v, Agg):
        xs = items(I, st, v.f[0], m.group(1))
        return xs and xs[::-1]
    if it.startswith('std::str::Bytes<') and isinstance(v, Agg):
        v, it = v.f[0], 'std::iter::Copied<std::slice::Iter<'
    return models.iter_elems(I, st, v, it)


def m_extend(I, st, f, a, at, dty):
    """the items of an iterator (or text buffer), one by one"""
    it = EXTEND.match(f['name']).group('it')
    if it.startswith(('std::vec::Vec<', 'std::string::String', '&')):
        for x in models.slice_elems(I, st, textmodels.as_slice(I, st, a[1])):
            push(st, I.read(st, x) if isinstance(x, Ptr) else x)
        return Agg(dty, 0, ())
    xs = items(I, st, a[1], it)
    if xs is not None:
        for x in xs:
            push(st, x)
        return Agg(dty, 0, ())
    nxt = I.p.fn('<%s as std::iter::Iterator>::next' % it)
    if nxt is None or not I.p.fns[nxt].get('body'):
        raise Stop('extension of the receive queue by ' + it)
    src = st.newobj(a[1])

    def got(I, st, val):
        val = I.expand(val) if isinstance(val, Lazy) else val
        if not isinstance(val, Agg):
            raise Stop('unknown end of the input')
        if vname(I, val) == 'None':
            return Agg(dty, 0, ())
        x = val.f[0]
        push(st, I.read(st, x) if isinstance(x, Ptr) else x)
        if len(queue(st)) > 4096:
            raise Stop('input not bounded')
        return Enter(nxt, [Ptr(src, ())], got)
    return Enter(nxt, [Ptr(src, ())], got)


def line_of(k, n):
    """bytes of console line k: n unknown ones, or the given text"""
    if isinstance(n, bytes):
        return [const(x, 8) for x in n]
    return [bv.sym('in%d_%d' % (k, j), 8) for j in range(n)]


def m_recv(I, st, f, a, at, dty):
    k = sum(1 for e in st.events if e[0] == 'recv')
    plan = st.user.get('plan', ())
    n = plan[k] if k < len(plan) else 0
    st.events += (('recv', n),)
    if not n:
        return I.err(dty, Lazy('recv_err%d' % k, I.p.fields(dty, 1)[0][1]))
    els = line_of(k, n)
    t = I.p.fields(dty, 0)[0][1]
    o = ('console', k)
    st.objs[o] = ArrC(els)
    vt = I.p.fields(t)[0][1] if I.p.types[t].get('name', '').endswith('String') else t
    v = I.make_vec(vt, Ptr(o, (('i', const(0, 64)),)), const(len(els), 64))
    return I.ok(dty, v if vt == t else Agg(t, 0, (v,)))


def m_write(I, st, f, a, at, dty):
    t = I.p.fields(dty, 0)[0][1]
    xs = models.slice_elems(I, st, a[1])
    if I.p.width(t) and xs:
        # write() may be interrupted before the first byte
        n = sum(1 for e in st.events if e[0] in ('out', 'short'))
        if st.decide(bv.sym('console write %d is interrupted' % n, 1)[0]):
            st.events += (('short',),)
            return I.ok(dty, const(0, 64))
    for x in xs:
        st.events += (('out', st.sub(x)),)
    return I.ok(dty, a[1].meta if I.p.width(t) else Agg(t, 0, ()))


def m_flush(I, st, f, a, at, dty):
    return I.ok(dty, Agg(I.p.fields(dty, 0)[0][1], 0, ()))


def m_opq(I, st, f, a, at, dty):
    return I.lazy(st.fresh('io'), dty)


BOUND = [(re.compile(r'^std::collections::VecDeque::<u8>::|^std::collections::VecDeque::<u8, .*>::'), m_q),
         (EXTEND, m_extend),
         (re.compile(r'Receiver::<.*>::try_recv$'), m_recv),
         (re.compile(r' as std::io::Write>::(write_all|write)$'), m_write),
         (re.compile(r' as std::io::Write>::flush$'), m_flush),
         (re.compile(r'^std::io::(stdout|Stdout::lock)$'), m_opq)] + [h for h in textmodels.TEXT_MODELS if h[0].pattern.startswith(textmodels.S)]


class Model:
    def __init__(self, c):
        self.c = c
        self.ier = const(0, 4)
        self.lcr = const(0, 8)
        self.mcr = const(8, 8)
        self.scr = const(0, 8)
        self.dll = self.dlm = None
        self.q = []
        self.out = []
        self.recv = 0

    def dlab(self):
        return self.c.iff(self.c.sub(self.lcr)[7])

    def loop(self):
        return self.c.iff(self.c.sub(self.mcr)[4])

    def lsr(self):
        return const(0x60 | bool(self.q), 8)

    def cause(self):
        if self.q and self.c.iff(self.c.sub(self.ier)[0]):
            return 4
        return 2 if self.c.iff(self.c.sub(self.ier)[1]) else 0

    def store(self, off, d):
        d = BV(d[:8])
        if off == RX:
            if self.dlab():
                self.dll = d
            elif self.loop():
                if len(self.q) < 64:
                    self.q.append(d)
            else:
                self.out.append(d)
        elif off == IER:
            if self.dlab():
                self.dlm = d
            else:
                self.ier = BV(d[:4])
        elif off == IIR:
            if self.c.iff(self.c.sub(d)[1]):
                self.q = []
        elif off == LCR:
            self.lcr = d
        elif off == MCR:
            self.mcr = d
        elif off == SCR:
            self.scr = d

    def load(self, off):
        """(value, mask of bits that matter)"""
        if off == RX:
            if self.dlab():
                return self.dll, 0xff
            return (self.q.pop(0) if self.q else None), 0xff
        if off == IER:
            if self.dlab():
                return self.dlm, 0xff
            return bv.zext(self.ier, 8), 0xff
        if off == IIR:
            k = self.cause()
            return const(k or 1, 8), 0x0f
        if off == LCR:
            return self.lcr, 0xff
        if off == MCR:
            return self.mcr, 0x1f
        if off == LSR:
            return self.lsr(), 0xff
        if off == MSR:
            return None, 0
        return self.scr, 0xff


class Seq:
    def __init__(self, rep, prog, key, plan=()):
        self.W = W = scen.World(rep, prog, 64, key, BOUND)
        W.I.strings = True
        W.boot()
        for s in W.states:
            s.user['plan'] = plan
        self.plan = plan
        self.base = W.base('uart')
        p = W.base('plic')
        W.store('priority', p + 4, const(1, 64)).store('enable', p + 0x2080, const(2, 64))
        self.ops, self.n = [], 0

    def lab(self, s):
        self.n += 1
        return '%s #%d' % (s, self.n)

    def st(self, off, d):
        d = const(d, 64) if isinstance(d, int) else d
        l = self.lab('store to register %d' % off)
        self.W.store(l, self.base + off, d, 8)

        def f(m, o):
            scen.ok(m.c, l, o[l])
            m.store(off, d)
        self.ops.append(f)
        return self

    def ld(self, off, u=False):
        l = self.lab('register %d' % off)
        self.W.load(l, self.base + off, 8, u)

        def f(m, o):
            v = scen.ok(m.c, l, o[l], 64)
            want, mask = m.load(off)
            if want is None:
                return
            k = [i for i in range(8) if mask >> i & 1]
            m.c.need('register %d' % off, BV(tuple(v[i] for i in k)), BV(tuple(want[i] for i in k)))
            if mask == 0xff:
                m.c.need('extension of register %d' % off, v, (bv.zext if u else bv.sext)(BV(v[:8]), 64))
        self.ops.append(f)
        return self

    def others(self):
        """stores beyond the eight registers"""
        for off in list(range(8, 17)) + [0x21, 0x80, 0xfb, 0xff]:
            l = self.lab('store at offset %#x' % off)
            self.W.store(l, self.base + off, byte('o%d' % off), 8)
            self.ops.append(lambda m, o: None)
        return self

    def tick(self, n=1):
        for _ in range(n):
            l = self.lab('tick')
            self.W.step(l, TICK, [self.W.ptr('uart'), self.W.ptr('plic')])

            def f(m, o, l=l):
                m.ticks(l)
            self.ops.append(f)
        return self

    def line(self):
        l = self.lab('interrupt line')
        self.W.look(l, 'plic', 'mip_value')
        self.ops.append(lambda m, o: m.c.need('interrupt line', BV((m.c.sub(o[l])[9],)), const(int(m.cause() != 0), 1)))
        return self

    def check(self, extra=None):
        def spec(c):
            m = Model(c)
            plan = self.plan
            ev = list(c.events)

            def ticks(l):
                # inputs taken from the console during this tick
                i = [k for k, e in enumerate(ev) if e[0] == 'obs' and e[1] == l][0]
                j = max([k for k in range(i) if ev[k][0] == 'obs'], default=-1)
                for e in ev[j + 1:i]:
                    if e[0] == 'recv':
                        if m.loop() or len(m.q) >= 64:
                            if e[1]:
                                c.bad('input is taken although it cannot be delivered')
                        m.q += line_of(m.recv, e[1])
                        m.recv += 1
            m.ticks = ticks
            o = scen.obs(c)
            for f in self.ops:
                f(m, o)
            out = [e[1] for e in ev if e[0] == 'out']
            if len(out) != len(m.out):
                c.bad('%d bytes are written to the console, %d were transmitted' % (len(out), len(m.out)))
            for a, b in zip(out, m.out):
                c.need('byte on the console', a, b)
            if extra:
                extra(c, m)
        self.W.check(spec, 'carron::bus::uart')


def byte(tag, clear=0, fix=None):
    s = bv.sym(tag, 64)
    return BV(tuple(0 if clear >> i & 1 else s[i] for i in range(64)))


def dl(d, v):
    """d with bit 7 = v"""
    return BV(tuple(v if i == 7 else d[i] for i in range(64)))


def delivered(c, m):
    if not m.recv or not any(e == ('recv', 2) for e in c.events):
        c.bad('console input is never taken')


def check(rep):
    rep.rule = ('Sequences of byte accesses to the UART and of device ticks, from Uart::new() with unknown data and unknown console input, are followed on every path and compared with a reference 16550 '
                '(DLAB, IER, FCR, LCR, MCR, SCR, line status, interrupt identification, interrupt line into a PLIC, console output and order of received bytes). The thread that reads the console is followed on texts and non-texts up to the end of the input: it must hand on every byte once and in order.')
    rep.assumptions = group.TRUST + ['the receive queue (VecDeque), the console channel and stdout behave as their library documentation says']
    prog = dump.program()

    def run(key, f, plan=(), extra=None):
        group.guard(rep, key, lambda: f(Seq(rep, prog, key, plan)).check(extra))
    L0, L1, M0 = dl(byte('l0'), 0), dl(byte('l1'), 1), byte('m', 0x10)
    run('registers', lambda q: q.st(LCR, L0).st(IER, byte('i')).st(SCR, byte('s')).st(MCR, M0).st(LCR, L1).st(RX, byte('a')).st(IER, byte('b')).ld(RX).ld(IER).ld(LCR).st(LCR, L0)
        .ld(IER).ld(SCR).ld(LCR).ld(MCR).ld(LSR).ld(IIR).line().st(LSR, byte('x')).st(MSR, byte('y')).ld(LSR).ld(MSR).ld(SCR, True).ld(IIR, True).ld(LCR, True).st(LCR, L1).ld(RX, True).ld(IER, True))
    for u in (False, True):
        run('receive' + (' unsigned' if u else ''), lambda q: q.st(LCR, L0).st(IER, byte('i')).tick().line().ld(IIR).ld(LSR).ld(RX, u).line().ld(LSR, u).ld(IIR).ld(RX, u).line().ld(IIR).ld(LSR).ld(RX, u).ld(LSR).line(), (2, 0))
    run('two lines of input', lambda q: q.st(IER, 1).tick().ld(RX).tick().line().ld(RX).ld(RX).line().ld(RX).ld(LSR).line(), (2, 2))
    run('enable after input', lambda q: q.tick().line().st(IER, byte('i')).line().st(IER, byte('j')).line().ld(IIR).ld(RX).line().st(IER, byte('k')).line().ld(IIR), (1,))
    run('loopback', lambda q: q.st(IER, byte('i')).st(MCR, byte('m')).st(RX, byte('a')).line().st(RX, byte('b')).ld(LSR).line().ld(RX).line().ld(RX).line().ld(LSR).st(MCR, M0).st(RX, byte('c')).line())
    run('loopback takes no input', lambda q: q.st(MCR, 0x10).tick(40).st(MCR, 0).ld(LSR).tick(40).ld(RX).ld(RX).ld(LSR), (0, 0, 2))
    run('FIFO reset', lambda q: q.st(IER, byte('i')).tick().st(IIR, byte('f')).line().ld(LSR).ld(IIR).ld(RX).line().ld(RX).ld(LSR).line(), (2,))
    run('input after a FIFO reset', lambda q: q.tick().st(IIR, byte('f')).st(MCR, 0x10).st(RX, byte('n')).st(MCR, 0).ld(LSR).ld(RX).ld(LSR).ld(RX), (3,))
    run('divisor access', lambda q: q.st(IER, 1).tick().st(LCR, L1).st(RX, byte('a')).ld(RX).ld(LSR).line().st(LCR, L0).ld(RX).ld(RX).line(), (2,))
    run('transmit', lambda q: q.st(IER, byte('i')).st(LCR, byte('l')).st(MCR, M0).st(RX, byte('a')).st(RX, byte('b')).line().ld(LSR).ld(IIR))
    console.check(rep, prog)
    run('console polling', lambda q: q.st(IER, 1).tick(40).line().ld(RX).ld(RX).ld(LSR), (0, 2), delivered)

    def full(q):
        q.st(MCR, 0x10)
        for i in range(66):
            q.st(RX, byte('b%d' % i))
        q.line().st(MCR, 0).tick(20)
        for i in range(65):
            q.ld(RX)
        return q.line().ld(LSR)
    for name, text in (('line end', b'a\r\n'), ('carriage return', b'a\r'), ('blank line', b'\n'), ('blanks', b' \t b  \n'), ('letters', 'z\u00e9\u4e16\n'.encode()), ('control characters', b'\x00\x7f\x03\x1b[A\n'), ('unfinished line', b'ab')):
        def line(q):
            q.st(IER, 1).tick().line()
            for _ in text:
                q.ld(LSR).ld(RX)
            return q.line().ld(LSR)
        run('input ' + name, line, (text,))

    def long_line(q):
        q.st(IER, 1).tick().line().tick(20)
        for _ in range(150):
            q.ld(RX)
        return q.ld(LSR).line().tick(20).ld(RX).ld(LSR)
    run('long line', long_line, (150, 1))
    run('other offsets', lambda q: q.st(IER, byte('i')).st(LCR, L0).tick().others().ld(LSR).ld(IER).ld(LCR).ld(SCR).ld(MCR).line().ld(RX).ld(RX).ld(LSR), (2,))
    run('full queue', full, (2, 2))
    rep.floor('paths', rep.paths, 30)
