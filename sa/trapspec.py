"""Trap entry: the state change the privileged manual prescribes."""
import bv
import steps
from bv import BV, const
from csrmodel import CsrFile, SKIP
from func import Func
from interp import Agg
from machine import Machine
from spec import vname

EXC = {'InstAddrMisaligned': 0, 'InstAccessFault': 1, 'IllegalInst': 2, 'Breakpoint': 3, 'LoadAddrMisaligned': 4, 'LoadAccessFault': 5, 'StoreAMOAddrMisaligned': 6,
       'StoreAMOAccessFault': 7, 'UmodeEcall': 8, 'SmodeEcall': 9, 'MmodeEcall': 11, 'InstPageFault': 12, 'LoadPageFault': 13, 'StoreAMOPageFault': 15}
INT = {'SupervisorSoftwareInterrupt': 1, 'MachineSoftwareInterrupt': 3, 'SupervisorTimerInterrupt': 5, 'MachineTimerInterrupt': 7, 'SupervisorExternalInterrupt': 9, 'MachineExternalInterrupt': 11}
MEDELEG, MIDELEG = 0x302, 0x303
# level -> (tvec, epc, cause, tval, IE bit, PIE bit, PP low bit, PP width)
REG = {'Supervisor': (0x105, 0x141, 0x142, 0x143, 1, 5, 8, 1), 'Machine': (0x305, 0x341, 0x342, 0x343, 3, 7, 11, 2)}
LEVEL = dict(steps.PRIVS)


def target(c, m, cause, pv):
    """the level the trap is taken in"""
    intr = cause in INT
    code = INT[cause] if intr else EXC[cause]
    if pv == 'Machine':
        return 'Machine'
    d = c.sub(m.raw(MIDELEG if intr else MEDELEG))
    return 'Supervisor' if c.iff(d[code]) else 'Machine'


def entry(c, cause, pv, tval, full=True):
    x = c.xlen
    m = CsrFile(c)
    intr = cause in INT
    code = INT[cause] if intr else EXC[cause]
    to = target(c, m, cause, pv)
    got = c.variant(c.get('priv_lv'))
    if got != to:
        c.bad('privilege level after the trap is %s, the manual says %s' % (got, to))
    tvec, epc, cs, tv, ie, pie, pp, ppw = REG[to]
    if not full:
        # delegation only: the other level's trap registers are not the ones written
        other = REG['Machine' if to == 'Supervisor' else 'Supervisor']
        a = c.get('csrs', 'csrs')
        for n in other[1:4]:
            c.need('CSR %#x of the level that does not take the trap' % n, BV(c.elem(a, const(n, 64))[:x]), BV(c.sub(m.raw(n))[:x]))
        c.need('cause register of the level that takes the trap', BV(c.elem(a, const(cs, 64))[:x]), const(code | (1 << (x - 1) if intr else 0), x))
        return
    vec = c.sub(m.raw(tvec))
    pc = c.I.init_pc()
    m.put(cs, const(code | (1 << (x - 1) if intr else 0), 64))
    m.put(epc, pc)
    m.put(tv, bv.zext(BV(c.sub(tval)[:x]), 64))
    s = list(c.sub(m.raw(0x300)))
    s[pie] = s[ie]
    s[ie] = 0
    lv = const(LEVEL[pv], ppw)
    for i in range(ppw):
        s[pp + i] = lv[i]
    m.put(0x300, BV(s))
    m.compare()
    mode = BV(vec[:2])
    base = BV((0, 0) + tuple(vec[2:x]))
    if c.is_(mode, 1) and intr:
        c.need('pc after the trap', BV(c.I.pc(c.st)[:x]), bv.add(base, const(4 * code, x)))
    elif c.is_(mode, 0) or c.is_(mode, 1):
        c.need('pc after the trap', BV(c.I.pc(c.st)[:x]), base)
    c.cpu_unchanged(skip=SKIP + ('priv_lv', 'pc'))


def run(rep, prog, x, full, group):
    I = Machine(prog, x, [])
    n = 0
    ct = I.p.ty_named('cpu::TrapCause')
    tval = bv.sym('tval', 64)
    for pv, _ in steps.PRIVS:
        for cause in list(EXC) + list(INT):
            key = '%s from %s/%d' % (cause, pv, x)
            n += 1

            def go():
                a = Agg(ct, I.p.variant_index(ct, cause), ())
                Func(rep, I, key, steps.TRAPFN).check(I.run(steps.TRAPFN, [I.cpu(), tval, a], I.sane_state(pv)), lambda c: entry(c, cause, pv, tval, full))
            group.guard(rep, key, go)
    vs = [v['name'].split('::')[-1] for v in I.p.types[ct]['variants']]
    missing = [v for v in vs if v not in EXC and v not in INT]
    if missing:
        rep.undecided('causes', 'unknown trap causes %s' % missing)
    return n
