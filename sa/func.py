"""Summaries of single functions compared with a specification written as a Python function over the path state."""
import time
import bv
import interp
import teval
from bv import BV, const, cval
from interp import Agg, Lazy, Ptr, Split, Stop, SymArr
from machine import Machine
from spec import Mismatch, strip, show, vname


class Ctx:
    """what a specification sees of one path: the unknown inputs (by name), the path facts, and the effects"""

    def __init__(self, F, st, r):
        self.F, self.I, self.st, self.r = F, F.I, st, r
        self.ret = r.ret
        self.events = r.st.events
        self.ei = 0
        self.xlen = F.I.xlen

    def sub(self, v):
        return self.st.sub(v)

    def decide(self, b):
        return self.st.decide(b)

    def iff(self, b):
        """decide a 1-bit vector or bit"""
        return self.st.decide(b[0] if isinstance(b, BV) else b)

    def is_(self, v, c):
        """v == constant, deciding"""
        return self.st.decide(bv.eq(v, const(c, len(v))))

    def need(self, what, got, want):
        st = self.st
        g, w = st.sub(got), st.sub(want)
        if len(g) != len(w):
            raise Mismatch(what + ' (width)', g, w)
        if g == w:
            return
        r, v = teval.separate(st, g, w)
        if r == 'differ':
            m = Mismatch(what, g, w)
            m.witness = teval.describe(v)
            raise m
        self.F.rep.undecided('%s:%s' % (self.F.key, what), '%s; %s vs %s' % (r, show(g)[:200], show(w)[:200]))

    def bad(self, what, got=None, want=None):
        raise Mismatch(what, got, want)

    # -- enums
    def discr(self, v, ty=None):
        return self.st.sub(self.I.discr(self.st, v, ty if ty is not None else v.ty)[0])

    def variant(self, v, ty=None):
        """variant name, deciding"""
        I = self.I
        if isinstance(v, Agg):
            return vname(I, v)
        ty = ty if ty is not None else v.ty
        d, _ = I.discr(self.st, v, ty)
        for i, x in enumerate(I.p.types[ty]['variants']):
            if self.decide(bv.eq(d, const(I.p.discr(ty, i), len(d)))):
                return x['name'].split('::')[-1]
        raise Stop('no variant')

    def opt(self, v, ty=None):
        """(variant name, payload or None) of an Option/Result-like value"""
        n = self.variant(v, ty)
        I = self.I
        ty = v.ty
        vi = I.p.variant_index(ty, n)
        fs = I.p.fields(ty, vi)
        if not fs:
            return n, None
        if isinstance(v, Agg):
            return n, v.f[0]
        return n, I.proj(I.proj(v, ('d', vi), self.st), ('f', 0), self.st)

    # -- state
    def get(self, *names, obj=('cpu',), ty=None):
        return self.I.read(self.st, self.I.field_ptr(*names, obj=obj, ty=ty))

    def array(self, what, got, want, width=None, skip=()):
        """two arrays with the same unknown initial content are equal everywhere"""
        I, st = self.I, self.st
        if not isinstance(got, SymArr) or not isinstance(want, SymArr) or got.name != want.name:
            if got == want:
                return
            raise Mismatch(what + ' (replaced wholesale)', repr(got)[:200], repr(want)[:200])
        idx = []
        for i, _ in got.w + want.w:
            i = st.sub(i)
            if i not in idx:
                idx.append(i)
        for i in idx:
            if any(self.decide(bv.eq(i, j)) for j in skip):
                continue
            a, b = I.elem(got, i, st), I.elem(want, i, st)
            if width:
                a, b = BV(a[:width]), BV(b[:width])
            self.need('%s[%s]' % (what, bv.show(i)), a, b)

    def upd(self, arr, idx, val):
        return self.I._upd(arr, (('i', idx),), 0, val, self.st)

    def elem(self, arr, idx):
        return self.st.sub(self.I.elem(arr, idx, self.st))

    def unchanged(self, what, v, name, ty, skip=()):
        ch = self.I.unchanged(self.st, v, name, ty, skip)
        if ch:
            raise Mismatch('%s modified: %s' % (what, ','.join(sorted(set(ch)))[:200]))

    def cpu_unchanged(self, skip=(), priv=None):
        """priv: the level the analysis started from, when it was fixed"""
        I = self.I
        if priv is not None:
            got = self.variant(self.get('priv_lv'))
            if got != priv:
                self.bad('privilege level became %s' % got)
            skip = tuple(skip) + ('priv_lv',)
        self.unchanged('state', self.st.objs[('cpu',)], 'cpu', I.cpu_ty, tuple(skip))
        if 'pc' not in skip:
            self.need('pc', BV(I.pc(self.st)[:self.xlen]), BV(I.init_pc()[:self.xlen]))
        self.need('pc borrow', I.borrow_flag(self.st), const(0, 64))

    def cpu_array(self, what, *names):
        return self.get(*names)

    # -- events
    def event(self, kind, what):
        if self.ei >= len(self.events):
            raise Mismatch('missing %s' % what)
        e = self.events[self.ei]
        self.ei += 1
        if e[0] != kind:
            raise Mismatch('expected %s, found %s' % (what, e[0]), repr(e[1:])[:100])
        return e, self.ei

    def done(self):
        if self.ei < len(self.events):
            e = self.events[self.ei]
            raise Mismatch('unexpected %s' % e[0], repr(e[1:])[:160], 'no further effect')


class Func:
    """runs a specification against every path of a function summary"""

    def __init__(self, rep, I, key, fname='', panic_ok=None):
        self.rep, self.I, self.key, self.fname = rep, I, key, fname
        self.panic_ok = panic_ok

    def check(self, results, spec):
        for r in results:
            self.path(r, spec)
        self.rep.functions |= self.I.functions

    def path(self, r, spec):
        rep = self.rep
        rep.paths += 1
        if r.kind == 'stop':
            rep.undecided('%s:path' % self.key, '%s at %s' % (r.why, r.where))
            return
        if r.kind == 'panic':
            if self.panic_ok and self.panic_ok(r):
                rep.oblige(self.key, True)
                return
            v = teval.feasible(r.st)
            if v is None:
                rep.undecided('%s:panic' % self.key, r.why)
            else:
                rep.oblige('%s:panic:%s' % (self.key, strip(r.why)), False, 'the emulator itself panics (%s) with %s' % (r.why, teval.describe(v)), r.where)
            return
        if r.kind != 'return':
            rep.undecided('%s:path' % self.key, r.kind)
            return
        work = [r.st]
        n = 0
        while work:
            n += 1
            if n > 3000 or (not n & 63 and time.time() > interp.DEADLINE):
                rep.undecided('%s:cases' % self.key, 'too many cases')
                return
            st = work.pop()
            st0 = st.copy()
            try:
                spec(Ctx(self, st, r))
                rep.oblige(self.key, True)
            except Split as sp:
                a, b = st0, st0.copy()
                if b.assume(sp.bit, 0):
                    work.append(b)
                if a.assume(sp.bit, 1):
                    work.append(a)
            except Stop as e:
                rep.undecided('%s:spec' % self.key, e.why)
            except Mismatch as m:
                w = getattr(m, 'witness', None)
                if w is None:
                    v = teval.feasible(st)
                    if v is None:
                        rep.undecided('%s:%s' % (self.key, m.what), 'no valuation of the path found')
                        continue
                    w = teval.describe(v)
                text = m.what
                if m.got is not None or m.want is not None:
                    text += ': code has %s, specification says %s' % (show(m.got)[:300], show(m.want)[:300])
                rep.oblige('%s:%s' % (self.key, strip(m.what)), False, text + ' (e.g. %s)' % w, self.fname)
