"""Address translation as the privileged manual defines it, over one unknown page-table memory."""
import re
import bv
import group
import steps
from bv import BV, const
from csrmodel import CsrFile
from func import Func
from interp import Agg, Lazy, Stop
from machine import Machine
from spec import enum_name, vname

FN = 'carron::cpu::mmu::Mmu::trans_addr'
PMP = re.compile(r'^carron::cpu::mmu::(pmp::<impl carron::cpu::mmu::Mmu>::|Mmu::)pmp$')
DRAM = re.compile(r'^<carron::bus::dram::Dram as carron::bus::Device>::load(_u)?(8|16|32|64)$')
PT = 'page_table_memory'
PAGE = {'Fetch': 'InstPageFault', 'Load': 'LoadPageFault', 'StoreAMO': 'StoreAMOPageFault'}
ACC = {'Fetch': 'InstAccessFault', 'Load': 'LoadAccessFault', 'StoreAMO': 'StoreAMOAccessFault'}
MXR, SUM = 19, 18


def m_pmp(I, st, f, a, at, dty):
    pur, pv = enum_name(I, st, a[1]), enum_name(I, st, a[3])
    ad = st.sub(a[2])
    st.events += (('pmp', pur, ad, pv),)
    n = len(st.events)
    if st.decide(bv.sym('pmp_ok%d' % n, 1)[0]):
        return I.ok(dty, ad)
    return I.err(dty, Lazy('pmp_err', I.p.fields(dty, 1)[0][1]))


def m_dram(I, st, f, a, at, dty):
    n = f['name'].split('::')[-1]
    u, w = re.match(r'load(_u)?(\d+)$', n).groups()
    w = int(w)
    ad = st.sub(a[1])
    st.events += (('pte', w // 8, ad),)
    v = bv.rd(PT + str(w), ad, w)
    return I.ok(dty, bv.zext(v, 64) if u else bv.sext(v, 64))


class Fault(Exception):
    def __init__(self, kind):
        self.kind = kind


def in_dram(c, a):
    base, size = bv.sym('cpu.bus.dram.base_addr', 64), bv.sym('cpu.bus.dram.size', 64)
    if c.iff(bv.ult(c.sub(a), c.sub(base))):
        return False
    return bool(c.iff(bv.ult(c.sub(a), c.sub(bv.add(base, size)))))


def walk(c, pur, pv, va, ptes):
    """physical address; appends the PTE addresses read; raises Fault"""
    x = c.xlen
    m = CsrFile(c)
    satp = c.sub(m.raw(0x180))
    if pv == 'Machine':
        return va
    if x == 32:
        paged = c.iff(satp[31])
    else:
        paged = c.is_(BV(satp[60:64]), 8)
    if not paged:
        return va
    satp = c.sub(satp)
    if x == 32:
        n, sz, levels, ppnw = 10, 4, 2, 22
    else:
        n, sz, levels, ppnw = 9, 8, 3, 44
        if not c.iff(bv.eq(BV(va[38:64]), BV((va[38],) * 26))):
            raise Fault('page')
    va = c.sub(va)
    vpn = [BV(va[12 + n * i:12 + n * (i + 1)]) for i in range(levels)]
    ppn = BV(satp[:ppnw])
    i = levels - 1
    while True:
        pa = c.sub(bv.add(bv.zext(BV((0,) * 12 + tuple(ppn)), 64), bv.zext(BV((0,) * (2 if sz == 4 else 3) + tuple(vpn[i])), 64)))
        ptes.append(pa)
        if not in_dram(c, pa):
            raise Fault('access')
        pte = c.sub(bv.rd(PT + str(8 * sz), c.sub(pa), 8 * sz))
        v, r, w, xx, u, g, a, d = pte[:8]
        if not c.iff(v):
            raise Fault('page')
        R, W, X = c.iff(c.sub(pte)[1]), None, None
        if not R and c.iff(c.sub(pte)[2]):
            raise Fault('page')
        X = R or c.iff(c.sub(pte)[3])
        if X:
            break
        ppn = BV(c.sub(pte)[10:10 + ppnw])
        i -= 1
        if i < 0:
            raise Fault('page')

    def bit(k):
        return c.iff(c.sub(pte)[k])
    ms = lambda k: c.iff(c.sub(CsrFile(c).raw(0x300))[k])
    if bit(4):
        if pv == 'Supervisor' and (pur == 'Fetch' or not ms(SUM)):
            raise Fault('page')
    elif pv == 'User':
        raise Fault('page')
    if pur == 'Fetch':
        ok = bit(3)
    elif pur == 'Load':
        ok = bit(1) or (ms(MXR) and bit(3))
    else:
        ok = bit(2)
    if not ok or not bit(6) or (pur == 'StoreAMO' and not bit(7)):
        raise Fault('page')
    pte = c.sub(pte)
    low = BV(pte[10:10 + n * i]) if i else None
    if i and not c.is_(low, 0):
        raise Fault('page')
    pte = c.sub(pte)
    va = c.sub(va)
    return bv.zext(BV(tuple(va[:12 + n * i]) + tuple(pte[10 + n * i:10 + ppnw])), 64)


def spec(pv, pur, va, what):
    """what: 'address' judges the walk and the resulting address, 'fault' the decision to fault"""
    def f(c):
        c.cpu_unchanged(skip=('mmu',))
        m = CsrFile(c)
        if c.xlen == 64:
            # the write rules keep other modes out of satp (C13)
            mode = c.sub(m.raw(0x180))
            if not c.is_(BV(mode[60:64]), 0) and not c.is_(BV(c.sub(mode)[60:64]), 8):
                return
        ptes = []
        fault = pa = None
        try:
            pa = walk(c, pur, pv, va, ptes)
        except Fault as e:
            fault = e.kind
        ev = list(c.events)
        reads = [e for e in ev if e[0] == 'pte']
        pmps = [e for e in ev if e[0] == 'pmp']
        v = c.ret
        ok = vname(c.I, v) == 'Ok'
        if what == 'address':
            # page tables read: a prefix of the specified walk (a fault may be noticed earlier)
            if len(reads) > len(ptes):
                c.bad('more page table entries read than the walk has', reads[len(ptes)][2])
            for e, a in zip(reads, ptes):
                if e[1] != (4 if c.xlen == 32 else 8):
                    c.bad('page table entry read with %d bytes' % e[1])
                c.need('address of the page table entry', c.sub(e[2]), c.sub(a))
            if fault:
                return
            if len(reads) < len(ptes) and (ok or pmps):
                c.bad('translation ends before the leaf is reached')
            for e in pmps:
                if e[1] != pur or e[3] != pv:
                    c.bad('PMP asked for %s at %s' % (e[1], e[3]))
                c.need('address checked by PMP', c.sub(e[2]), c.sub(pa))
            if ok:
                if not pmps:
                    c.bad('the physical address is not checked by PMP')
                c.need('physical address', c.sub(v.f[0]), c.sub(pa))
            return
        if fault is None:
            if not pmps:
                c.bad('a permitted access is refused: %s' % c.variant(v.f[0]) if not ok else 'no PMP check')
            passed = all(c.iff(bv.sym('pmp_ok%d' % (i + 1), 1)) for i, e in enumerate(ev) if e[0] == 'pmp')
            if passed and not ok:
                c.bad('a permitted access is refused')
            if not passed and ok:
                c.bad('an access PMP refuses is permitted')
            return
        if ok:
            c.bad('an access the page table forbids is permitted')
        if pmps:
            c.bad('PMP decides about an access the page table forbids')
        got = c.variant(v.f[0])
        want = (PAGE if fault == 'page' else ACC)[pur]
        if got != want:
            c.bad('fault is %s, the manual says %s' % (got, want))
    return f


def run(rep, prog, what):
    n = 0
    for x in (32, 64):
        for pv, _ in steps.PRIVS:
            for pur in PAGE:
                key = '%s from %s/%d' % (pur, pv, x)
                n += 1

                def go():
                    I = Machine(prog, x, [(PMP, m_pmp), (DRAM, m_dram)])
                    st = I.sane_state()
                    va = bv.zext(bv.sym('va', x), 64)
                    args = [I.field_ptr('mmu'), I.enum('cpu::TransFor', pur), va, I.field_ptr('csrs'), I.field_ptr('bus', 'dram'), I.enum('cpu::PrivilegedLevel', pv)]
                    Func(rep, I, key, FN).check(I.run(FN, args, st), spec(pv, pur, va, what))
                group.guard(rep, key, go)
    return n
