"""Carron-specific set-up: the abstract machine state, boundaries and comparison helpers."""
import re
import bv
import models
from bv import BV, const, cval
from interp import (Interp, State, Agg, ArrC, SymArr, Lazy, Ptr, FnV, UNDEF, Split, Panic, Stop, Prune, Enter, Result)

REGS = 'cpu.regs.regs'
CSRS = 'cpu.csrs.csrs'


class Machine(Interp):
    """xlen 32 or 64; isa is one shared value; pc is one shared RefCell"""

    # value ranges that hold in every reachable state (established by C38's summaries of the trigger writes): bits
    invariants = {'cpu.csrs.triggers.tselect': 3}

    def __init__(self, prog, xlen, boundaries=None, **kw):
        super().__init__(prog, models.STD_MODELS, boundaries, **kw)
        self.xlen = xlen
        self.isa_ty = prog.ty_named('Isa')
        self.cpu_ty = prog.ty_named('cpu::Cpu')
        self.shared = {}
        for i, t in prog.types.items():
            if t['k'] == 'adt' and t['name'].split('::')[-1] == 'RcInner':
                if t['s'].endswith('RcInner<Isa>'):
                    self.shared[i] = ('rc', 'isa', i)
                elif t['s'].endswith('RcInner<std::cell::RefCell<u64>>'):
                    self.shared[i] = ('rc', 'pc', i)

    def lazy(self, name, ty, st=None):
        k = self.invariants.get(name)
        if k is not None:
            return bv.zext(bv.sym(name, k), self.p.width(ty))
        return super().lazy(name, ty, st)

    def lazy_ptr(self, name, elem):
        k = self.shared.get(elem)
        if k:
            return Ptr(k, ())
        return super().lazy_ptr(name, elem)

    def isa_val(self):
        return Agg(self.isa_ty, self.p.variant_index(self.isa_ty, 'Rv%d' % self.xlen), ())

    def init_obj(self, key, st):
        if key[0] == 'rc':
            ty = key[2]
            fs = []
            for n, ft in self.p.fields(ty):
                if n == 'value':
                    if key[1] == 'isa':
                        fs.append(self.isa_val())
                    else:
                        fs.append(self.refcell(ft, self.init_pc()))
                else:
                    fs.append(self.lazy('rc.%s.%s' % (key[1], n), ft))
            return Agg(ty, 0, fs)
        return super().init_obj(key, st)

    def init_pc(self):
        return bv.zext(bv.sym('pc', self.xlen), 64)

    def refcell(self, ty, val):
        fs = []
        for n, ft in self.p.fields(ty):
            fs.append(const(0, 64) if n == 'borrow' else val)   # Cell / UnsafeCell are transparent
        return Agg(ty, 0, fs)

    # ---- state
    def regs_rule(self, idx, w):
        if cval(idx) == 0:
            return const(0, w)
        if self.xlen == 32:
            return bv.zext(bv.whole(bv.mk(('rd', REGS, 32, bv.canon(idx))), 32), 64)
        return None

    def new_state(self, priv=None):
        bv.RD_RULES[REGS] = self.regs_rule
        import csrmodel
        bv.RD_RULES[CSRS] = csrmodel.rule(self.xlen)
        for t in (csrmodel.TD1, csrmodel.TD2):
            bv.RD_RULES[t] = csrmodel.trig_rule(t, self.xlen)
        st = State()
        st.objs[('cpu',)] = self.expand(Lazy('cpu', self.cpu_ty))
        if priv is not None:
            self.set_field(st, 'priv_lv', self.enum('cpu::PrivilegedLevel', priv))
        return st

    def sane_state(self, priv=None):
        """a state with the two facts every reachable state has: the privilege level (C39) and mstatus.MPP (C13) are never the reserved level"""
        st = self.new_state(priv)
        if priv is None:
            v = self.get(st, 'priv_lv')
            d, _ = self.discr(st, v, v.ty)
            assert st.assume(bv.eq(d, const(2, len(d))), 0)
        m = bv.rd(CSRS, const(0x300, 64), 64)
        assert st.assume(bv.eq(BV(m[11:13]), const(2, 2)), 0)
        return st

    def enum(self, tyname, var):
        t = self.p.ty_named(tyname)
        return Agg(t, self.p.variant_index(t, var) if isinstance(var, str) else var, ())

    def cpu(self):
        return Ptr(('cpu',), ())

    def field_index(self, ty, name):
        for i, (n, ft) in enumerate(self.p.fields(ty)):
            if n == name:
                return i
        raise KeyError(name)

    def field_ptr(self, *names, obj=('cpu',), ty=None):
        ty = self.cpu_ty if ty is None else ty
        path = []
        for n in names:
            i = self.field_index(ty, n)
            path.append(('f', i))
            ty = self.p.fields(ty)[i][1]
        return Ptr(obj, path)

    def get(self, st, *names):
        return self.read(st, self.field_ptr(*names))

    def set_field(self, st, name, v):
        self.write(st, self.field_ptr(name), v)

    def pc(self, st):
        for k, key in self.shared.items():
            if key[1] == 'pc':
                if key not in st.objs:
                    return self.init_pc()
                o = st.objs[key]
                rc = o.f[self.field_index(k, 'value')]
                return st.sub(self.strip(rc.f[[n for n, _ in self.p.fields(rc.ty)].index('value')]))

    def borrow_flag(self, st):
        for k, key in self.shared.items():
            if key[1] == 'pc' and key in st.objs:
                rc = st.objs[key].f[self.field_index(k, 'value')]
                return st.sub(self.strip(rc.f[0]))
        return const(0, 64)

    # ---- option / result helpers
    def some(self, ty, v):
        return Agg(ty, self.p.variant_index(ty, 'Some'), (v,))

    def none(self, ty):
        return Agg(ty, self.p.variant_index(ty, 'None'), ())

    def ok(self, ty, v):
        return Agg(ty, self.p.variant_index(ty, 'Ok'), (v,))

    def err(self, ty, v):
        return Agg(ty, self.p.variant_index(ty, 'Err'), (v,))

    # ---- unchanged
    def unchanged(self, st, v, name, ty, skip=(), path=''):
        """list of leaf paths of v that differ from the initial unknown called `name`"""
        out = []
        if path in skip:
            return out
        if isinstance(v, Lazy):
            return [] if v.name == name else [path or name]
        t = self.p.types[ty]
        if isinstance(v, BV):
            return [] if st.sub(v) == st.sub(self.lazy(name, ty)) else [path or name]
        if isinstance(v, SymArr):
            if v.name != name:
                return [path or name]
            for i, x in v.w:
                if not isinstance(x, BV) or st.sub(x) != st.sub(self.sym_elem(name, st.sub(i), len(x))):
                    out.append('%s[%s]' % (path, bv.show(st.sub(i))))
            return out
        if isinstance(v, Agg):
            if self.p.is_enum(v.ty):
                d, _ = self.discr(st, Lazy(name, v.ty), v.ty)
                if cval(st.sub(d)) != self.p.discr(v.ty, v.var):
                    return [path or name]
                vn = self.p.types[v.ty]['variants'][v.var]['name'].split('::')[-1]
                for x, (n, ft) in zip(v.f, self.p.fields(v.ty, v.var)):
                    out += self.unchanged(st, x, '%s.%s.%s' % (name, vn, n), ft, skip, (path + '.' if path else '') + n)
                return out
            if t['k'] == 'adt' and t['name'].endswith('vec::Vec'):
                return out if v == self.lazy_vec(Lazy(name, ty)) else [path]
            for x, (n, ft) in zip(v.f, self.p.fields(v.ty)):
                out += self.unchanged(st, x, name + '.' + n, ft, skip, (path + '.' if path else '') + n)
            return out
        if isinstance(v, Ptr):
            e = self.lazy(name, ty)
            return [] if v == e else [path or name]
        if v == self.lazy(name, ty):
            return []
        return [path or name]
