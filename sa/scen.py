"""Operation sequences on the devices as constructed by the emulator, with unknown operands; every path through the sequence keeps the results of its operations."""
import re
import bv
import teval
from bv import BV, const, cval
from func import Func
from interp import Agg, Lazy, Ptr, Stop
from machine import Machine

OPAQUE = re.compile(r'^std::thread::spawn|^std::sync::mpsc::channel')
CTOR = {'clint': 'bus::clint::Clint', 'plic': 'bus::plic::Plic', 'uart': 'bus::uart::Uart'}
BUS = 'carron::bus::Bus::'
DRAM_BASE, DRAM_SIZE = 0x80000000, 0x80000000
MROM_SIZE = 0x1000


def m_opaque(I, st, f, a, at, dty):
    return I.lazy(st.fresh('opaque'), dty)


class World:
    def __init__(self, rep, prog, xlen, key, boundaries=(), max_paths=4000):
        self.rep, self.key = rep, key
        self.I = I = Machine(prog, xlen, [(OPAQUE, m_opaque)] + list(boundaries))
        self.states = None
        self.max_paths = max_paths
        self.panics = []

    def boot(self, devs=('clint', 'plic', 'uart')):
        """the state after the device constructors"""
        I = self.I
        st = I.sane_state('Machine')
        for d in devs:
            rs = I.run('carron::%s::new' % CTOR[d], [], st)
            if len(rs) != 1 or rs[0].kind != 'return':
                raise Stop('constructor of %s' % d)
            st = rs[0].st
            I.write(st, self.ptr(d), rs[0].ret)
        self.region(st, 'dram', DRAM_BASE, DRAM_SIZE, 'dram')
        self.region(st, 'mrom', 0x1000, MROM_SIZE, 'mrom')
        st.events = ()
        self.states = [st]
        return self

    def region(self, st, dev, base, size, vec):
        I = self.I
        p = self.ptr(dev)
        t = I.p.fields(I.p.ty_named('bus::Bus'))[I.field_index(I.p.ty_named('bus::Bus'), dev)][1]
        for n, ft in I.p.fields(t):
            q = Ptr(p.obj, p.path + (('f', I.field_index(t, n)),))
            if n == 'base_addr':
                I.write(st, q, const(base, 64))
            elif n == 'size':
                I.write(st, q, const(size, 64))
            elif n == vec:
                v = I.lazy_vec(Lazy('cpu.bus.%s.%s' % (dev, n), ft))
                names = [x for x, _ in I.p.fields(ft)]
                I.write(st, q, Agg(v.ty, 0, tuple(const(size, 64) if x == 'len' else y for x, y in zip(names, v.f))))

    def ptr(self, *names):
        return self.I.field_ptr('bus', *names)

    def base(self, dev):
        v = cval(self.I.read(self.states[0], self.ptr(dev, 'base_addr')))
        if v is None:
            raise Stop('base of ' + dev)
        return v

    def step(self, label, fn, args, keep=True):
        """run fn on every state; args may depend on the state"""
        out = []
        for st in self.states:
            a = args(st) if callable(args) else args
            for r in self.I.run(fn, list(a), st):
                if r.kind == 'return':
                    if keep:
                        r.st.events += (('obs', label, r.ret),)
                    out.append(r.st)
                elif r.kind == 'panic':
                    v = teval.feasible(r.st)
                    if v is None:
                        self.rep.undecided('%s:panic' % self.key, r.why)
                    else:
                        self.rep.oblige('%s:panic' % self.key, False, 'the emulator itself panics in %s (%s) with %s' % (label, r.why, teval.describe(v)), r.where)
                else:
                    self.rep.undecided('%s:%s' % (self.key, label), '%s at %s' % (r.why, r.where))
        self.states = out
        if len(out) > self.max_paths:
            raise Stop('too many paths')
        return self

    def load(self, label, addr, w=32, u=False):
        return self.step(label, BUS + 'load%s%d' % ('_u' if u else '', w), [self.ptr(), const(addr, 64)])

    def store(self, label, addr, data, w=32):
        return self.step(label, BUS + 'store%d' % w, [self.ptr(), const(addr, 64), data])

    def look(self, label, *names):
        """note the value of a field"""
        for st in self.states:
            st.events += (('obs', label, self.I.read(st, self.ptr(*names))),)
        return self

    def check(self, spec, fname=''):
        F = Func(self.rep, self.I, self.key, fname)
        from interp import Result
        for st in self.states:
            F.path(Result('return', st, None), spec)
        self.rep.functions |= self.I.functions
        return self


def obs(c):
    """results by label, in order"""
    d = {}
    for e in c.events:
        if e[0] == 'obs':
            d[e[1]] = e[2]
    return d


def ok(c, label, v, w=None):
    """payload of an Ok result"""
    n, x = c.opt(v)
    if n != 'Ok':
        c.bad('%s is refused' % label)
    return BV(c.sub(x)[:w]) if w and isinstance(x, BV) else x
