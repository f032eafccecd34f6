"""Comparison of path summaries with a specification written against the same unknowns."""
import re
import bv
import teval
from bv import BV, const, cval
from interp import Agg, SymArr, Lazy, Ptr, Split, Stop, Result, State
from machine import Machine, REGS, CSRS
from isa import Trap

TRANS = 'carron::cpu::Cpu::trans_addr'
BUS_RE = re.compile(r'^carron::bus::Bus::(load|store)(_u)?(8|16|32|64)$|^<carron::bus::Bus as carron::bus::Device>::(load|store)(_u)?(8|16|32|64)$')


def vname(I, v):
    return I.p.types[v.ty]['variants'][v.var]['name'].split('::')[-1]


def enum_name(I, st, v):
    if isinstance(v, Agg):
        return vname(I, v)
    if isinstance(v, Lazy):
        t = I.p.types[v.ty]
        for i, x in enumerate(t['variants']):
            d, _ = I.discr(st, v, v.ty)
            if st.decide(bv.eq(d, const(I.p.discr(v.ty, i), len(d)))):
                return x['name'].split('::')[-1]
    raise Stop('enum value %r' % (v,))


def m_trans(I, st, f, a, at, dty):
    pur = enum_name(I, st, a[1])
    al = I.p.discr(a[2].ty, a[2].var)
    ad = BV(st.sub(a[3])[:I.xlen])
    ev = ('trans', pur, al, ad)
    if ev in st.events:                    # translating the same address again gives the same answer
        n = st.events.index(ev) + 1
    else:
        st.events += (ev,)
        n = len(st.events)
    if st.decide(bv.sym('trans_ok%d' % n, 1)[0]):
        return I.ok(dty, bv.sym('pa%d' % n, 64))
    return I.err(dty, Lazy('trans_err%d' % n, I.p.fields(dty, 1)[0][1]))


def m_bus(I, st, f, a, at, dty):
    n = f['name'].split('::')[-1]
    m = re.match(r'(load|store)(_u)?(\d+)$', n)
    k, u, w = m.group(1), m.group(2), int(m.group(3))
    addr = st.sub(a[1])
    if k == 'load':
        st.events += (('load', w // 8, addr),)
        i = len(st.events)
        if st.decide(bv.sym('bus_ok%d' % i, 1)[0]):
            v = bv.sym('mem%d' % i, w)
            return I.ok(dty, bv.zext(v, 64) if u else bv.sext(v, 64))
    else:
        st.events += (('store', w // 8, addr, BV(st.sub(a[2])[:w])),)
        i = len(st.events)
        if st.decide(bv.sym('bus_ok%d' % i, 1)[0]):
            okty = I.p.fields(dty, 0)[0][1]
            return I.ok(dty, Agg(okty, 0, ()))
    return I.err(dty, Lazy('bus_err%d' % i, I.p.fields(dty, 1)[0][1]))


MEM_BOUNDS = [(TRANS, m_trans), (BUS_RE, m_bus)]


class Mismatch(Exception):
    def __init__(self, what, got=None, want=None):
        self.what, self.got, self.want = what, got, want


class S:
    """specification context over a path state of the code"""

    def __init__(self, I, st, code, st0, aux):
        self.I, self.st, self.xlen = I, st, I.xlen
        self.events = code.st.events
        self.ei = 0
        self.st0 = st0
        self.aux = aux
        self.regs = aux['regs0']
        self.csrs = aux.get('csrs0')
        self.pc = bv.sym('pc', self.xlen)
        self.npc = self.pc
        self.res = aux['res0']        # ('init',) | ('some', v) | ('none',)
        self.anyreg = []              # registers whose value is only constrained by a predicate
        self.priv = None
        self.priv_level = aux.get('priv_level')

    # -- values
    def sub(self, v):
        return self.st.sub(v)

    def decide(self, b):
        return self.st.decide(b)

    def x(self, i):
        i = self.sub(bv.zext(i, 64))
        if self.decide(bv.eq(i, const(0, 64))):
            return const(0, self.xlen)
        return self.sub(BV(self.I.elem(self.regs, i, self.st)[:self.xlen]))

    def setx(self, i, v):
        i = self.sub(bv.zext(i, 64))
        if self.decide(bv.eq(i, const(0, 64))):
            return
        self.regs = self.I._upd(self.regs, (('i', i),), 0, bv.zext(BV(v[:self.xlen]), 64), self.st)

    def setx_nonzero(self, i):
        i = self.sub(bv.zext(i, 64))
        if self.decide(bv.eq(i, const(0, 64))):
            return
        self.anyreg.append(i)

    # -- control
    def next(self, n):
        self.npc = bv.add(self.pc, const(n, self.xlen))

    def jump(self, t):
        self.npc = t

    # -- memory
    def event(self, kind, what):
        if self.ei >= len(self.events):
            raise Mismatch('missing %s' % what)
        e = self.events[self.ei]
        self.ei += 1
        if e[0] != kind:
            raise Mismatch('expected %s, found %s' % (what, e[0]))
        return e, self.ei

    def need(self, what, got, want):
        self.aux['need'](self.st, what, got, want)

    def trans(self, purpose, n, addr):
        e, k = self.event('trans', 'address translation')
        if e[1] != purpose:
            raise Mismatch('translation purpose', e[1], purpose)
        if e[2] != n:
            raise Mismatch('alignment requirement', e[2], n)
        self.need('address', e[3], addr)
        if self.decide(bv.sym('trans_ok%d' % k, 1)[0]):
            return bv.sym('pa%d' % k, 64)
        raise Trap(err='trans_err%d' % k)

    def load(self, n, pa, amo=False):
        e, k = self.event('load', 'memory read')
        if e[1] != n:
            raise Mismatch('memory read size', e[1], n)
        self.need('memory read address', e[2], pa)
        if self.decide(bv.sym('bus_ok%d' % k, 1)[0]):
            return bv.sym('mem%d' % k, 8 * n)
        if amo:
            # an AMO's read faults are store/AMO faults
            raise Trap(cause=('StoreAMOAccessFault', 'StoreAMOPageFault'))
        raise Trap(err='bus_err%d' % k)

    def store(self, n, pa, data):
        e, k = self.event('store', 'memory write')
        if e[1] != n:
            raise Mismatch('memory write size', e[1], n)
        self.need('memory write address', e[2], pa)
        self.need('memory write data', e[3], data)
        if self.decide(bv.sym('bus_ok%d' % k, 1)[0]):
            return
        raise Trap(err='bus_err%d' % k)

    def reserve(self, pa):
        self.res = ('some', pa)

    def reserved(self, pa):
        I, st = self.I, self.st
        d, v = self.aux['res_parts'](st)
        if not self.decide(d):
            return 0
        return self.decide(bv.eq(v, pa))

    def unreserve(self):
        self.res = ('none',)


def show(v):
    return bv.show(v) if isinstance(v, BV) else repr(v)


class Comparer:
    """runs a specification against every path of the code and records obligations"""

    def __init__(self, rep, I, key):
        self.rep, self.I, self.key = rep, I, key
        self.res_ty = I.p.fields(I.cpu_ty)[I.field_index(I.cpu_ty, 'reservation_set')][1]
        self.regs0 = SymArr(REGS, I.p.ty_named('u64'), const(32, 64))
        self.csrs0 = SymArr(CSRS, I.p.ty_named('u64'), const(4096, 64))
        self.skip = ('regs.regs', 'csrs.csrs', 'reservation_set', 'mmu.ppn', 'mmu.trans_mode', 'priv_lv')
        self.tval = True

    # -- terms
    def need(self, st, what, got, want):
        g, w = st.sub(got), st.sub(want)
        if len(g) != len(w):
            raise Mismatch(what, g, w)
        if g == w:
            return
        r, v = teval.separate(st, g, w)
        if r == 'differ':
            m = Mismatch(what, g, w)
            m.witness = teval.describe(v)
            raise m
        self.rep.undecided('%s:%s' % (self.key, what), '%s; %s vs %s' % (r, show(g)[:200], show(w)[:200]))

    def res_parts(self, st):
        v = Lazy('cpu.reservation_set', self.res_ty)
        return self.opt_parts(st, v, self.res_ty)

    def opt_parts(self, st, v, ty):
        """(is-some bit, value) of an Option of a scalar"""
        I = self.I
        d, _ = I.discr(st, v, ty)
        si = I.p.variant_index(ty, 'Some')
        some = st.sub(BV((bv.eq(d, const(I.p.discr(ty, si), len(d))),)))[0]
        if some == 0:
            return 0, None
        x = I.proj(I.proj(v, ('d', si), st), ('f', 0), st)
        return some, x

    def arr(self, st, what, got, want, skip_idx=(), width=None):
        """two arrays with the same initial content are equal"""
        I = self.I
        if not isinstance(got, SymArr) or got.name != want.name:
            raise Mismatch(what + ' (replaced wholesale)')
        idx = []
        for i, _ in got.w + want.w:
            i = st.sub(i)
            if i not in idx:
                idx.append(i)
        for i in idx:
            sk = False
            for j in skip_idx:
                if st.decide(bv.eq(i, j)):
                    sk = True
            if sk:
                continue
            a, b = I.elem(got, i, st), I.elem(want, i, st)
            if width:
                a, b = BV(a[:width]), BV(b[:width])
            self.need(st, '%s[%s]' % (what, bv.show(i)), a, b)

    # -- paths
    def path(self, r, specfn):
        rep, I = self.rep, self.I
        rep.paths += 1
        if r.kind == 'stop':
            rep.undecided('%s:path' % self.key, '%s at %s' % (r.why, r.where))
            return
        if r.kind == 'panic':
            v = teval.feasible(r.st)
            if v is None:
                rep.undecided('%s:panic' % self.key, r.why)
            else:
                rep.oblige('%s:panic:%s' % (self.key, strip(r.why)), False, 'the emulator itself panics (%s) with %s' % (r.why, teval.describe(v)), r.where)
            return
        work = [r.st]
        while work:
            st = work.pop()
            st0 = st.copy()
            try:
                self.one(st, r, specfn)
                rep.oblige(self.key, True)
            except Split as sp:
                a, b = st0, st0.copy()
                if b.assume(sp.bit, 0):
                    work.append(b)
                if a.assume(sp.bit, 1):
                    work.append(a)
            except Mismatch as m:
                w = getattr(m, 'witness', None)
                if w is None:
                    v = teval.feasible(st)
                    if v is None:
                        rep.undecided('%s:%s' % (self.key, m.what), 'no valuation of the path found')
                        continue
                    w = teval.describe(v)
                text = m.what
                if m.got is not None or m.want is not None:
                    text += ': code has %s, specification says %s' % (show(m.got)[:300], show(m.want)[:300])
                rep.oblige('%s:%s' % (self.key, strip(m.what)), False, text + ' (e.g. %s)' % w, self.fname)

    def one(self, st, r, specfn):
        I = self.I
        code = Result(r.kind, st, r.ret)
        sp = S(I, st, code, None, {'regs0': self.regs0, 'csrs0': self.csrs0, 'res0': ('init',), 'need': self.need, 'res_parts': self.res_parts, 'priv_level': self.priv_level})
        trap = None
        try:
            specfn(sp)
        except Trap as t:
            trap = t
        # outcome
        ret = r.ret
        ok, payload = self.outcome(st, ret)
        evs = sp.events
        if sp.ei < len(evs) and evs[sp.ei][0] == 'trap':
            if not ok:
                raise Mismatch('trap taken twice')
            ok = False
            payload = evs[sp.ei]
            sp.ei += 1
        if sp.ei < len(evs):
            raise Mismatch('unexpected %s' % (evs[sp.ei][0],), repr(evs[sp.ei][1:]), 'no further access')
        if trap is None and not ok:
            raise Mismatch('raises an exception', self.show_err(payload), 'normal completion')
        if trap is not None and ok:
            raise Mismatch('completes normally', None, 'exception %s' % (trap.cause or trap.err))
        if trap is not None:
            self.check_trap(st, payload, trap)
        # registers
        regs = I.get(st, 'regs', 'regs')
        skip = []
        for i in sp.anyreg:
            v = BV(st.sub(I.elem(regs, i, st))[:I.xlen])
            if all(b == 0 for b in v) or st.decide(bv.eq(v, const(0, I.xlen))):
                raise Mismatch('result must be nonzero', v, None)
            skip.append(i)
        self.arr(st, 'register', regs, sp.regs, skip, I.xlen)
        self.arr(st, 'CSR', I.get(st, 'csrs', 'csrs'), sp.csrs, (), I.xlen)
        if not (trap is not None and isinstance(payload, tuple)):
            self.need(st, 'next pc', BV(I.pc(st)[:I.xlen]), sp.npc if trap is None else sp.pc)
        self.need(st, 'pc borrow', I.borrow_flag(st), const(0, 64))
        # reservation
        d, v = self.opt_parts(st, I.get(st, 'reservation_set'), self.res_ty)
        if sp.res[0] == 'init':
            d0, v0 = self.res_parts(st)
            self.need(st, 'reservation', BV((d,)), BV((d0,)))
            if st.decide(d0):
                self.need(st, 'reservation address', v, v0)
        elif sp.res[0] == 'none':
            self.need(st, 'reservation', BV((d,)), BV((0,)))
        elif sp.res[0] == 'some':
            self.need(st, 'reservation', BV((d,)), BV((1,)))
            self.need(st, 'reservation address', BV(v[:I.xlen]), BV(sp.res[1][:I.xlen]))
        # privilege
        pv = I.get(st, 'priv_lv')
        if sp.priv is not None:
            dd, _ = I.discr(st, pv, pv.ty)
            self.need(st, 'privilege', BV(bv.zext(dd, 8)[:2]), sp.priv)
        elif not (trap is not None and isinstance(payload, tuple)):
            ch = I.unchanged(st, pv, 'cpu.priv_lv', pv.ty) if self.priv0 is None else ([] if pv == self.priv0 else ['priv'])
            if ch:
                raise Mismatch('privilege level changed')
        ch = I.unchanged(st, st.objs[('cpu',)], 'cpu', I.cpu_ty, self.skip)
        if ch:
            raise Mismatch('state modified: %s' % ','.join(ch))

    def outcome(self, st, ret):
        I = self.I
        if isinstance(ret, Agg):
            n = vname(I, ret)
            return n == 'Ok', (ret.f[0] if n == 'Err' else None)
        raise Mismatch('result is %r' % (ret,))

    def show_err(self, p):
        if isinstance(p, Agg) and len(p.f) > 1 and isinstance(p.f[1], Agg):
            return vname(self.I, p.f[1])
        return repr(p)[:100]

    def check_trap(self, st, p, trap):
        I = self.I
        if trap.err is not None:
            if isinstance(p, tuple):
                raise Mismatch('exception replaced', repr(p)[:80], trap.err)
            ty = p.ty
            ch = I.unchanged(st, p, trap.err, ty)
            # the message is free
            ch = [c for c in ch if not c.endswith('2')]
            if ch and not (isinstance(p, Agg) and self.err_same(st, p, trap.err)):
                raise Mismatch('exception replaced', self.show_err(p), trap.err)
            return
        if isinstance(p, tuple) and p[0] == 'trap':
            tv, cz = p[1], p[2]
            some = 1
        else:
            if isinstance(p, Lazy):
                raise Mismatch('exception', p.name, trap.cause)
            cz = p.f[1]
            some, tv = self.opt_parts(st, p.f[0], p.f[0].ty)
        c = vname(I, cz) if isinstance(cz, Agg) else repr(cz)
        want = trap.cause if isinstance(trap.cause, (tuple, list)) else (trap.cause,)
        if c not in want:
            raise Mismatch('exception cause', c, '/'.join(want))
        if trap.tval is not None and self.tval:
            if some == 0:
                tv = bv.zext(sp_pc(I), 64)
            self.need(st, 'trap value', BV(tv[:I.xlen]), BV(trap.tval[:I.xlen]))

    def err_same(self, st, p, name):
        return False

    fname = ''
    priv0 = None
    priv_level = None


def sp_pc(I):
    return bv.sym('pc', I.xlen)


def strip(s):
    """stable, line-number-free text"""
    return re.sub(r'[^A-Za-z0-9 _\[\]:.,/-]', '', re.sub(r'\{.*?\}|0x[0-9a-f]+', '', s))[:80]
