"""Effective privilege and misalignment."""
import bv
import dump
import group
import isa
import re
import report
import steps
from bv import BV, const
from csrmodel import CsrFile
from func import Func
from interp import Agg, Lazy
from machine import Machine
from spec import TRANS, enum_name, vname

BP = re.compile(r'^carron::cpu::(csr::breakpoint::<impl carron::cpu::Cpu>|Cpu)::check_breakpoint$')
MMU = 'carron::cpu::mmu::Mmu::trans_addr'
MIS = {'Fetch': 'InstAddrMisaligned', 'Load': 'LoadAddrMisaligned', 'StoreAMO': 'StoreAMOAddrMisaligned'}
SIZES = ('Size8', 'Size16', 'Size32', 'Size64')
MPRV = 17


def m_bp(I, st, f, a, at, dty):
    st.events += (('bp', enum_name(I, st, a[1]), st.sub(a[2])),)
    n = len(st.events)
    if st.decide(bv.sym('bp_ok%d' % n, 1)[0]):
        return I.ok(dty, Agg(I.p.fields(dty, 0)[0][1], 0, ()))
    return I.err(dty, Lazy('bp_err', I.p.fields(dty, 1)[0][1]))


def m_mmu(I, st, f, a, at, dty):
    st.events += (('mmu', enum_name(I, st, a[1]), st.sub(a[2]), enum_name(I, st, a[5])),)
    n = len(st.events)
    if st.decide(bv.sym('mmu_ok%d' % n, 1)[0]):
        return I.ok(dty, bv.sym('pa', 64))
    return I.err(dty, Lazy('mmu_cause', I.p.fields(dty, 1)[0][1]))


def spec(pv, pur, size, va):
    def f(c):
        x = c.xlen
        c.cpu_unchanged(priv=pv)
        bp = mmu = None
        for i, e in enumerate(c.events, 1):
            if e[0] == 'bp':
                if e[1] != pur:
                    c.bad('breakpoints are checked for ' + e[1])
                c.need('address compared with breakpoints', BV(e[2][:x]), BV(c.sub(va)[:x]))
                bp = c.iff(bv.sym('bp_ok%d' % i, 1))
            else:
                if e[1] != pur:
                    c.bad('translated for ' + e[1])
                c.need('address translated', BV(e[2][:x]), BV(c.sub(va)[:x]))
                lv = {pv}
                if pur != 'Fetch':
                    m = CsrFile(c)
                    if c.iff(m.raw(0x300)[MPRV]):
                        s = c.sub(m.raw(0x300))
                        mpp = next(k for k, v in (('User', 0), ('Supervisor', 1), ('Machine', 3)) if c.is_(BV(c.sub(s)[11:13]), v))
                        lv = {mpp} if pv == 'Machine' else {mpp, pv}
                if e[3] not in lv:
                    c.bad('translated at %s, effective privilege is %s' % (e[3], '/'.join(sorted(lv))))
                mmu = c.iff(bv.sym('mmu_ok%d' % i, 1))
        al = c.sub(va)
        mis = size > 1 and not c.is_(BV(al[:size.bit_length() - 1]), 0)
        v = c.ret
        if vname(c.I, v) == 'Ok':
            if bp is None or mmu is None:
                c.bad('an access is not %s' % ('translated' if mmu is None else 'compared with breakpoints'))
            if not bp or not mmu:
                c.bad('an access proceeds although its %s failed' % ('breakpoint check' if not bp else 'translation'))
            if mis:
                c.bad('a misaligned access proceeds')
            c.need('physical address', c.sub(v.f[0]), c.sub(bv.sym('pa', 64)))
            return
        e = v.f[0]
        if bp == 0:
            if not isinstance(e, Lazy) and c.variant(e.f[1]) != c.variant(Lazy('bp_err.1', e.f[1].ty)):
                c.bad('the breakpoint exception is replaced')
            return
        if isinstance(e, Lazy):
            c.bad('exception without reason')
        n, tv = c.opt(e.f[0])
        if n != 'Some':
            c.bad('exception without the address')
        c.need('trap value', BV(c.sub(tv)[:x]), BV(c.sub(va)[:x]))
        if isinstance(e.f[1], Lazy) and e.f[1].name == 'mmu_cause':
            if mmu != 0:
                c.bad('a translation fault is reported although there was none')
            return
        cause = c.variant(e.f[1])
        if mmu == 0:
            want = {c.variant(Lazy('mmu_cause', e.f[1].ty))}
            if mis:
                want.add(MIS[pur])
        elif mis:
            want = {MIS[pur]}
        else:
            c.bad('a permitted aligned access raises ' + cause)
        if cause not in want:
            c.bad('exception is %s, the manual says %s' % (cause, '/'.join(want)))
    return f


def check(rep):
    rep.rule = ('Cpu::trans_addr is summarised for each level, access type and size with the address, mstatus and the outcomes of breakpoint check and page walk unknown; each path must consult both with the right '
                'address and effective privilege, and return the translated address, their exception, or the misaligned exception with the virtual address. Every load, store and atomic encoding must ask it for the alignment of its width.')
    rep.assumptions = group.TRUST + ['what translation does when MPRV is set below machine mode is left open (manual versions differ)']
    prog = dump.program()
    n = 0
    for x in (32, 64):
        for pv, _ in steps.PRIVS:
            for pur in MIS:
                for sz in SIZES:
                    key = '%s %s from %s/%d' % (pur, sz, pv, x)
                    n += 1

                    def go():
                        I = Machine(prog, x, [(BP, m_bp), (MMU, m_mmu)])
                        st = I.sane_state(pv)
                        va = bv.sym('va', 64)
                        Func(rep, I, key, TRANS).check(I.run(TRANS, [I.cpu(), I.enum('cpu::TransFor', pur), I.enum('cpu::TransAlign', sz), va], st), spec(pv, pur, int(sz[4:]) // 8, va))
                    group.guard(rep, key, go)
    # each load, store and atomic asks for the alignment of its width
    o = report.Only(rep, (':alignment requirement',))
    m = group.run32(o, group.MEM + group.AMO, prog=prog) + group.run16(o, [e[0] for e in isa.ENC16 if e[7][0] in group.MEM], prog=prog)
    rep.floor('memory instructions', m, 64)
    rep.floor('cases', n, 72)
    rep.floor('paths', rep.paths, 200)
