"""Instruction fetch."""
import re
import bv
import dump
import group
from bv import BV, const
from func import Func
from interp import Agg, Lazy, Ptr, Stop
from machine import Machine
from spec import BUS_RE, TRANS, m_trans, vname

FN = 'carron::cpu::fetch::fetch'
MEM = 'guest_memory'


def byte(a):
    return bv.rd(MEM, a, 8)


def m_bus(I, st, f, a, at, dty):
    """memory is one unknown byte array; each access may fail"""
    n = f['name'].split('::')[-1]
    k, u, w = re.match(r'(load|store)(_u)?(\d+)$', n).groups()
    w = int(w)
    addr = st.sub(a[1])
    st.events += ((k, w // 8, addr),)
    i = len(st.events)
    if st.decide(bv.sym('bus_ok%d' % i, 1)[0]):
        if k == 'store':
            return I.ok(dty, Agg(I.p.fields(dty, 0)[0][1], 0, ()))
        v = bv.cat(*[byte(st.sub(bv.add(addr, const(j, 64)))) for j in range(w // 8)])
        return I.ok(dty, bv.zext(v, 64) if u else bv.sext(v, 64))
    return I.err(dty, Lazy('bus_err%d' % i, I.p.fields(dty, 1)[0][1]))


def spec(c):
    x = c.xlen
    pc = c.I.init_pc()
    pcs = [BV(pc[:x]), bv.add(BV(pc[:x]), const(2, x))]
    pa = [None, None]
    tr_fail = bus_fail = None
    for i, e in enumerate(c.events, 1):
        if tr_fail or bus_fail:
            c.bad('fetch goes on after a failed %s' % ('translation' if tr_fail else 'access'))
        if e[0] == 'trans':
            if e[1] != 'Fetch':
                c.bad('fetch translates for ' + e[1])
            if e[2] > 2:
                c.bad('fetch requires %d-byte alignment' % e[2])
            j = 0 if pa[0] is None else 1
            c.need('address of parcel %d' % j, e[3], pcs[j])
            if c.iff(bv.sym('trans_ok%d' % i, 1)):
                pa[j] = bv.sym('pa%d' % i, 64)
            else:
                tr_fail = i
        elif e[0] == 'load':
            for j in (0, 1):
                if pa[j] is not None and e[1] <= 2 and any(c.sub(e[2]) == c.sub(bv.add(pa[j], const(o, 64))) for o in range(3 - e[1])):
                    break
            else:
                c.bad('fetch reads outside the translated parcels', e[2], pa[0])
            if not c.iff(bv.sym('bus_ok%d' % i, 1)):
                bus_fail = (i, j)
        else:
            c.bad('fetch writes memory')
    c.cpu_unchanged()
    if pa[0] is not None:
        lo = c.sub(bv.cat(byte(c.sub(pa[0])), byte(c.sub(bv.add(pa[0], const(1, 64))))))
    v = c.ret
    if vname(c.I, v) == 'Err':
        e = v.f[0]
        if tr_fail:
            if isinstance(e, Lazy):
                if e.name != 'trans_err%d' % tr_fail:
                    c.bad('fetch reports another error than its translation')
            else:
                if c.variant(e.f[1]) != c.variant(Lazy('trans_err%d.1' % tr_fail, e.f[1].ty)):
                    c.bad('fetch changes the cause of a failed translation')
        elif bus_fail:
            if not isinstance(e, Agg) or c.variant(e.f[1]) != 'InstAccessFault':
                c.bad('a failing fetch access is not an instruction access fault', repr(e)[:80])
            n, tv = c.opt(e.f[0])
            if n == 'Some':
                c.need('trap value of a fetch access fault', BV(c.sub(tv)[:x]), pcs[bus_fail[1]])
            elif bus_fail[1]:
                c.bad('trap value of a fetch access fault is not the parcel address')
        else:
            c.bad('fetch fails although everything succeeded')
        if (tr_fail and pa[0] is not None) or (bus_fail and bus_fail[1]):
            if not c.is_(BV(c.sub(lo)[:2]), 3):
                c.bad('a compressed instruction faults on the parcel after it')
        return
    if tr_fail or bus_fail:
        c.bad('fetch succeeds although an access failed')
    p = v.f[0]
    width, val = fetched(c, p)
    c16 = not c.is_(BV(lo[:2]), 3)
    if c16 != (width == 16):
        c.bad('a %d-bit instruction is fetched as %d bits' % (16 if c16 else 32, width))
    lo = c.sub(lo)
    if c16:
        c.need('instruction', val, lo)
    else:
        if pa[1] is None:
            c.bad('upper parcel is not translated')
        hi = bv.cat(byte(c.sub(pa[1])), byte(c.sub(bv.add(pa[1], const(1, 64)))))
        c.need('instruction', val, bv.cat(lo, hi))


def fetched(c, b):
    """(width, value) behind the Box<dyn Decode>"""
    p = b
    while isinstance(p, Agg):
        p = p.f[0]
    if not isinstance(p, Ptr):
        raise Stop('fetched value %r' % (b,))
    v = c.I.read(c.st, Ptr(p.obj, p.path))
    while not isinstance(v, BV):
        v = v.f[0]
    return len(v), c.sub(v)


def check(rep):
    rep.rule = ('fetch is summarised with pc, memory and the outcome of every translation and read unknown (memory is one byte array, so overlapping reads agree); the returned word, the addresses translated and '
                'read, and the exception returned for each failing step are compared with the parcel rule.')
    rep.assumptions = group.TRUST
    prog = dump.program()
    n = 0
    for x in (32, 64):
        n += 1

        def go():
            I = Machine(prog, x, [(TRANS, m_trans), (BUS_RE, m_bus)])
            Func(rep, I, 'fetch/%d' % x, FN).check(I.run(FN, [I.cpu()], I.sane_state()), spec)
        group.guard(rep, 'fetch/%d' % x, go)
    rep.floor('widths', n, 2)
    rep.floor('paths', rep.paths, 10)
