"""CLINT registers and the clock."""
import bv
import bytemem
import dump
import group
import scen
from bv import BV, const
from c24 import MAP, blocks
from csrmodel import SKIP, CsrFile
from func import Func
from machine import Machine

INC = 'carron::cpu::Cpu::timer_increment'
MTIME = 0xbff8


def clock(c, before, inc):
    bytemem.others(c, before, 'clint')
    new, old = bytemem.content(c, 'clint', 'clint')
    at = [const(MTIME + i, 64) for i in range(8)]
    t = bv.cat(*[c.elem(old, i) for i in at])
    t2 = bv.add(t, inc)
    want = old
    for i, a in enumerate(at):
        want = c.upd(want, a, BV(t2[8 * i:8 * i + 8]))
    c.array('CLINT byte', new, want)
    m = CsrFile(c)
    m.put(const(0xc01, 64), bv.add(m.raw(0xc01), inc) if c.xlen == 64 else bv.add(m.raw(0xc01), inc))
    m.compare()
    c.cpu_unchanged(skip=SKIP + ('bus',), priv='Machine')


def check(rep):
    rep.rule = ('Every bus load and store of the CLINT is summarised at every naturally aligned offset with content and value unknown: 32- and 64-bit accesses read and replace exactly the addressed bytes in little-endian order, other '
                'widths are refused without change. The clock step is summarised with an unknown step: the eight mtime bytes become mtime + step as one number, no other CLINT byte, device or register changes.')
    rep.assumptions = group.TRUST + ['when the clock step runs is part of C36']
    prog = dump.program()
    base, size = MAP['clint']
    n = 0
    for fn, w, sg in bytemem.LOADS + [(f, w, None) for f, w in bytemem.STORES]:
        n += 1
        group.guard(rep, 'CLINT ' + fn, lambda: bytemem.run(rep, prog, 'CLINT', 'clint', 'clint', base, size, fn, w, sg, blocks(base, base + size), (32, 64)))
    for x in (32, 64):
        key = 'clock step/%d' % x
        n += 1

        def go():
            W = scen.World(rep, prog, x, key).boot()
            st = W.states[0]
            W.region(st, 'clint', base, size, 'clint')
            before = st.copy()
            inc = bv.sym('step', 64)
            F = Func(rep, W.I, key, INC)
            F.check(W.I.run(INC, [W.I.cpu(), inc], st), lambda c: clock(c, before, inc))
        group.guard(rep, key, go)
    rep.floor('cases', n, 13)
    rep.floor('paths', rep.paths, 13)
