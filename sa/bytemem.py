"""Loads and stores of a byte-array device seen through the bus: little-endian bytes at the addressed offset, nothing else."""
import bv
import scen
from bv import BV, const
from func import Func
from machine import Machine

LOADS = [('load8', 8, True), ('load16', 16, True), ('load32', 32, True), ('load64', 64, True), ('load_u8', 8, False), ('load_u16', 16, False), ('load_u32', 32, False)]
STORES = [('store8', 8), ('store16', 16), ('store32', 32), ('store64', 64)]


def content(c, dev, vec):
    """the device's byte array now and as it was"""
    I = c.I
    t = I.p.fields(I.p.ty_named('bus::Bus'))[I.field_index(I.p.ty_named('bus::Bus'), dev)][1]
    from interp import Lazy
    ft = dict(I.p.fields(t))[vec]
    name = 'cpu.bus.%s.%s' % (dev, vec)
    key = ('lzv', name, I.vec_elem(ft))
    from interp import State
    old = I.obj(State(), key)
    return I.obj(c.st, key), old


def others(c, before, dev):
    for d in ('mrom', 'clint', 'dram', 'uart', 'plic'):
        a, b = c.get('bus', d), c.I.read(before, c.I.field_ptr('bus', d))
        if a != b:
            c.bad('the %s is replaced' % d if d == dev else 'the access changes the %s' % d)


def load_spec(c, dev, vec, base, addr, w, signed, before):
    others(c, before, dev)
    n, v = c.opt(c.ret)
    if n != 'Ok':
        c.bad('a load of %d bits is refused' % w)
    new, old = content(c, dev, vec)
    c.array('memory', new, old)
    off = bv.sub(addr, const(base, 64))
    word = bv.cat(*[c.elem(old, bv.add(off, const(i, 64))) for i in range(w // 8)]) if w > 8 else c.elem(old, off)
    c.need('loaded value', c.sub(v), c.sub((bv.sext if signed else bv.zext)(word, 64)))


def store_spec(c, dev, vec, base, addr, w, data, before):
    others(c, before, dev)
    n, v = c.opt(c.ret)
    if n != 'Ok':
        c.bad('a store of %d bits is refused' % w)
    new, want = content(c, dev, vec)
    off = bv.sub(addr, const(base, 64))
    for i in range(w // 8):
        want = c.upd(want, bv.add(off, const(i, 64)), BV(data[8 * i:8 * i + 8]))
    c.array('memory', new, want)


def refused(c, fault, addr, dev, vec, before):
    others(c, before, dev)
    n, e = c.opt(c.ret)
    if n == 'Ok':
        c.bad('an access of unsupported width succeeds')
    new, old = content(c, dev, vec)
    c.array('memory', new, old)
    if c.variant(e.f[1]) != fault:
        c.bad('refused as ' + c.variant(e.f[1]))


def run(rep, prog, key, dev, vec, base, size, fn, w, signed, blocks, widths):
    from c24 import address
    op = 'store' if fn.startswith('store') else 'load'
    for b, k in blocks:
        W = scen.World(rep, prog, 64, key).boot()
        W.region(W.states[0], dev, base, size, vec)
        st = W.states[0]
        before = st.copy()
        addr = address(b, k, w)
        data = bv.sym('data', 64)
        a = [W.ptr(), addr] + ([data] if op == 'store' else [])
        F = Func(rep, W.I, '%s %s' % (key, fn), scen.BUS + fn)
        if w not in widths:
            spec = lambda c: refused(c, 'LoadAccessFault' if op == 'load' else 'StoreAMOAccessFault', addr, dev, vec, before)
        elif op == 'load':
            spec = lambda c: load_spec(c, dev, vec, base, addr, w, signed, before)
        else:
            spec = lambda c: store_spec(c, dev, vec, base, addr, w, data, before)
        F.check(W.I.run(scen.BUS + fn, a, st), spec)
