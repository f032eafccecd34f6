"""Physical memory protection."""
import bv
import dump
import group
import mmuspec
import report
import steps
from bv import BV, const
from csrmodel import CsrFile
from func import Func
from interp import Agg, Stop
from machine import CSRS, Machine
from mmuspec import ACC
from spec import vname

FN = 'carron::cpu::mmu::pmp::<impl carron::cpu::mmu::Mmu>::pmp'
N = 16
PERM = {'Load': 0, 'StoreAMO': 1, 'Fetch': 2}


def cfg(x, i):
    """(CSR number, bit offset) of entry i's configuration byte"""
    return (0x3a0 + i // 4, 8 * (i % 4)) if x == 32 else (0x3a0 + i // 8 * 2, 8 * (i % 8))


def spec(pv, pur, active, addr):
    def f(c):
        x = c.xlen
        c.done()
        c.cpu_unchanged()
        m = CsrFile(c)
        word = lambda: BV(c.sub(addr)[2:])
        hit = None
        any_active = False
        pa = lambda j: c.sub(BV(m.raw(0x3b0 + j)[:x]))
        for i in active:
            r, o = cfg(x, i)
            b = lambda k: c.sub(m.raw(r))[o + k]
            lo, hi = c.iff(b(3)), c.iff(b(4))
            if not lo and not hi:
                continue
            any_active = True
            w = word()
            if lo and not hi:
                p = bv.zext(pa(i), 62) if x == 32 else pa(i)
                w = bv.zext(w, len(p))
                match = c.iff(bv.ult(w, p))
                if match and i:
                    q = bv.zext(pa(i - 1), len(p))
                    match = not c.iff(bv.ult(c.sub(w), c.sub(q)))
            elif hi and not lo:
                p = pa(i)
                n = max(len(p), 62)
                match = c.iff(bv.eq(bv.zext(w, n), bv.zext(p, n)))
            else:
                k = 0
                while k < x and c.iff(pa(i)[k]):
                    k += 1
                p = pa(i)
                n = max(len(p), 62)
                match = c.iff(bv.eq(BV(bv.zext(w, n)[k + 1:]), BV(bv.zext(p, n)[k + 1:]))) if k + 1 < n else True
            if match:
                hit = i
                break
        if hit is None:
            ok = pv == 'Machine' or not any_active
        else:
            r, o = cfg(x, hit)
            b = lambda k: c.sub(m.raw(r))[o + k]
            ok = pv == 'Machine' and not c.iff(b(7)) or bool(c.iff(b(PERM[pur])))
        v = c.ret
        got = vname(c.I, v) == 'Ok'
        if ok != got:
            c.bad('an access %s is %s (entry %s)' % ('PMP permits' if ok else 'PMP forbids', 'permitted' if got else 'refused', hit))
        if got:
            c.need('address', c.sub(v.f[0]), c.sub(addr))
        else:
            cause = c.variant(v.f[0])
            if cause != ACC[pur]:
                c.bad('PMP reports %s' % cause)
    return f


def check(rep):
    rep.rule = ('The PMP check is summarised for each access type and level with the address unknown and one or two of the sixteen entries (configuration byte and address register) unknown, the others off; each path '
                'must permit or refuse (access fault of the type) as the lowest matching entry decides. Address translation must ask the PMP about every physical address it returns, for the access type, and heed the answer.')
    rep.assumptions = group.TRUST + ['pmpcfg1 and pmpcfg3 of a RV64 machine (which do not exist there) hold 0', 'more than two active entries, and the entry sizes of a pair, are not considered at once', 'an access is matched by its first byte']
    prog = dump.program()
    n = 0
    for x in (32, 64):
        for pv, _ in steps.PRIVS:
            for pur in PERM:
                sets = [(0, 1), (7, 8)] + [(i,) for i in range(N) if pv == 'Supervisor' and (pur == 'Load' or i in (0, 5, 15))]
                if (pv, pur) == ('User', 'Fetch'):
                    sets += [(3, 4), (14, 15), (2, 11)]
                for act in sets:
                    key = 'entries %s %s from %s/%d' % (','.join(map(str, act)), pur, pv, x)
                    n += 1

                    def go():
                        I = Machine(prog, x, [])
                        st = I.sane_state()
                        for i in range(N):
                            r, o = cfg(x, i)
                            w = bv.rd(CSRS, const(r, 64), 64)
                            if i not in act:
                                for k in (3, 4):
                                    if not st.assume(w[o + k], 0):
                                        raise Stop('assumption')
                            elif len(act) > 1:
                                # in pairs, a NAPOT region is the smallest
                                a = bv.rd(CSRS, const(0x3b0 + i, 64), 64)
                                if not st.assume(bv.band(bv.band(w[o + 3], w[o + 4]), a[0]), 0):
                                    raise Stop('assumption')
                        for r in (0x3a1, 0x3a3) if x == 64 else ():
                            # no such registers: never written
                            for b in bv.rd(CSRS, const(r, 64), 64):
                                if not st.assume(b, 0):
                                    raise Stop('assumption')
                        addr = bv.sym('addr', 64) if x == 64 else bv.zext(bv.sym('addr', 34), 64)
                        args = [I.field_ptr('mmu'), I.enum('cpu::TransFor', pur), addr, I.enum('cpu::PrivilegedLevel', pv), I.field_ptr('csrs')]
                        Func(rep, I, key, FN).check(I.run(FN, args, st), spec(pv, pur, act, addr))
                    group.guard(rep, key, go)
    n += mmuspec.run(report.Only(rep, ('PMP',)), prog, 'address')
    n += mmuspec.run(report.Only(rep, ('PMP refuses', 'no PMP check')), prog, 'fault')
    rep.floor('cases', n, 80)
    rep.floor('paths', rep.paths, 500)
