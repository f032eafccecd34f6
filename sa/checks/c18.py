"""Interrupt selection."""
import bv
import dump
import group
import steps
from bv import BV, const, cval
from csrmodel import CsrFile, SKIP
from func import Func
from interp import Agg, Stop
from machine import Machine
from spec import BUS_RE, vname
from trapspec import INT

FN = 'carron::cpu::trap::<impl carron::cpu::Cpu>::check_interrupt'
MTIME, MTIMECMP = 0x200bff8, 0x2004000
ORDER = ['MachineExternalInterrupt', 'MachineSoftwareInterrupt', 'MachineTimerInterrupt', 'SupervisorExternalInterrupt', 'SupervisorSoftwareInterrupt', 'SupervisorTimerInterrupt']
MIP, MIE, MIDELEG = 0x344, 0x304, 0x303


def m_bus(I, st, f, a, at, dty):
    """reads of the two 64-bit timer registers succeed (C24, C26); their values are unknown"""
    n = f['name'].split('::')[-1]
    ad = cval(st.sub(a[1]))
    w = int(n.split('d')[-1].lstrip('_u')) if n.startswith('load') else 0
    base = ad & ~7 if ad is not None else None
    if not w or base not in (MTIME, MTIMECMP) or (ad & 7) + w // 8 > 8:
        st.events += (('bus', n, a[1]),)
        return Agg(dty, 0, (bv.sym('bus_other', 64),)) if w else Stop('bus write')
    v = bv.sym('mtime' if base == MTIME else 'mtimecmp', 64)
    o = (ad & 7) * 8
    v = BV(v[o:o + w])
    return I.ok(dty, bv.zext(v, 64) if '_u' in n else bv.sext(v, 64))


def spec(pv):
    def f(c):
        c.done()
        x = c.xlen
        m = CsrFile(c)
        late = c.iff(bv.ult(bv.sym('mtime', 64), bv.sym('mtimecmp', 64)))
        p = list(c.sub(m.raw(MIP)))
        for b in (7, 5):
            p[b] = 1 - late
        mask, val = bv.sym('cpu.bus.plic.mip_mask', 64), bv.sym('cpu.bus.plic.mip_value', 64)
        mip = c.sub(bv.or_(bv.and_(BV(p), bv.not_(mask)), val))
        m.put(MIP, bv.zext(BV(mip[:x]), 64))
        m.compare()
        c.cpu_unchanged(skip=SKIP, priv=pv)
        s = m.raw(0x300)

        def globally(to):
            if pv == 'Machine':
                return to == 'M' and c.iff(s[3])
            if pv == 'Supervisor':
                return to == 'M' or c.iff(s[1])
            return True
        want = None
        for to in ('M', 'S'):
            if not globally(to):
                continue
            for cause in ORDER:
                k = INT[cause]
                d = c.sub(m.raw(MIDELEG))[k] ^ (to == 'M')
                if c.iff(bv.band(bv.band(c.sub(mip)[k], c.sub(m.raw(MIE))[k]), d)):
                    want = cause
                    break
            if want:
                break
        v = c.ret
        got = None
        if vname(c.I, v) == 'Err':
            got = c.variant(v.f[0].f[1])
            n, tv = c.opt(v.f[0].f[0])
            if n != 'Some':
                c.bad('interrupt without a trap value: the trap value would be the pc')
            c.need('trap value of an interrupt', BV(c.sub(tv)[:x]), const(0, x))
        if got != want:
            c.bad('interrupt taken is %s, the manual says %s' % (got, want))
    return f


def check(rep):
    rep.rule = ('check_interrupt is summarised from each privilege level with mip, mie, mideleg, mstatus, the timer registers and the interrupt controller lines unknown; on every path '
                'the interrupt reported (or none), the resulting mip and everything else are compared with the priority and enable rules of the privileged manual.')
    rep.assumptions = group.TRUST + ['64-bit reads of mtime and mtimecmp succeed (decided by C24/C26)']
    prog = dump.program()
    n = 0
    for x in (32, 64):
        for pv, _ in steps.PRIVS:
            key = 'interrupts in %s/%d' % (pv, x)
            n += 1

            def go():
                I = Machine(prog, x, [(BUS_RE, m_bus)])
                Func(rep, I, key, FN).check(I.run(FN, [I.cpu()], I.sane_state(pv)), spec(pv))
            group.guard(rep, key, go)
    rep.floor('levels', n, 6)
    rep.floor('paths', rep.paths, 40)
