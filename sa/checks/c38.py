"""Address-match breakpoints."""
import bv
import c13
import dump
import group
import steps
from c22 import MMU
from bv import BV, const
from csrmodel import TD1, TD2
from func import Func
from interp import Agg, Stop
from machine import Machine
from spec import TRANS, enum_name, vname

N = 8
MODE = {'Machine': 6, 'Supervisor': 4, 'User': 3}
KIND = {'Fetch': 2, 'Load': 0, 'StoreAMO': 1}


def spec(pv, purpose, active, addr):
    def f(c):
        x = c.xlen
        c.done()
        c.cpu_unchanged(priv=pv)
        hit = False
        for i in active:
            t = c.sub(bv.rd(TD1, const(i, 64), 64))
            a = c.sub(bv.rd(TD2, const(i, 64), 64))
            ty = BV(t[x - 4:x])
            if not c.is_(ty, 2):
                continue
            t = c.sub(t)
            if not c.is_(BV(t[7:11]), 0) or not c.iff(c.sub(t)[MODE[pv]]) or not c.iff(c.sub(t)[KIND[purpose]]):
                continue
            if c.iff(bv.eq(BV(c.sub(a)[:x]), BV(c.sub(addr)[:x]))):
                hit = True
                break
        v = c.ret
        if vname(c.I, v) == 'Ok':
            if hit:
                c.bad('an access that an enabled trigger describes proceeds')
            return
        if not hit:
            c.bad('an access that no trigger describes is stopped')
        e = v.f[0]
        cause = c.variant(e.f[1])
        if cause != 'Breakpoint':
            c.bad('a breakpoint reports %s' % cause)
        n, tv = c.opt(e.f[0])
        if n != 'Some':
            c.bad('a breakpoint without its address')
        c.need('trap value of a breakpoint', BV(c.sub(tv)[:x]), BV(addr[:x]))
    return f


def m_mmu(I, st, f, a, at, dty):
    return I.ok(dty, bv.sym('pa', 64))


def check(rep):
    rep.rule = ('Cpu::trans_addr (page walk cut off, always succeeding) is summarised per privilege level, access type and every pair of possibly matching triggers (the remaining six hold any other trigger type), with the address and '
                'all trigger registers unknown; each path must report a breakpoint with the address exactly when a type-2 exact-match trigger enabled for that level and access equals the address. Reads, writes, sets and clears of tselect, tdata1 and tdata2 are compared with the CSR file model.')
    rep.assumptions = group.TRUST + ['more than two triggers that could match are not considered at once']
    prog = dump.program()
    n = 0
    sets = [(i, i + 1) for i in range(N - 1)] + [(0, 7), (2, 5)]
    for x in (32, 64):
        for pv, _ in steps.PRIVS:
            for pur in KIND:
                for act in (sets if (pv, x) in (('Machine', 64), ('Supervisor', 32)) else [(0, 7), (3, 4)]) + [(0,), (7,)]:
                    key = 'triggers %s %s from %s/%d' % (','.join(map(str, act)), pur, pv, x)
                    n += 1

                    def go():
                        I = Machine(prog, x, [(MMU, m_mmu)])
                        st = I.sane_state(pv)
                        for i in range(N):
                            if i not in act:
                                t = bv.rd(TD1, const(i, 64), 64)
                                # beside a single trigger the others were never written
                                if not (st.assume(bv.eq(BV(t[x - 4:x]), const(2, 4)), 0) if len(act) > 1 else st.assume(bv.eq(t, const(0, 64)), 1)):
                                    raise Stop('assumption')
                        addr = bv.sym('addr', 64)
                        p = I.enum('cpu::TransFor', pur)
                        Func(rep, I, key, TRANS).check(I.run(TRANS, [I.cpu(), p, I.enum('cpu::TransAlign', 'Size8'), addr], st), spec(pv, pur, act, addr))
                    group.guard(rep, key, go)
        for num in (0x7a0, 0x7a1, 0x7a2):
            c13.run(rep, prog, x, num, ' of CSR %#x' % num)
    rep.floor('cases', n, 60)
    rep.floor('paths', rep.paths, 120)
