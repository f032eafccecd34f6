"""The CSR file as the manual (and this emulator's choice of implemented fields) defines it: views, field rules, access rules."""
import bv
from bv import BV, const, cval
from interp import SymArr
from machine import CSRS

USTATUS, SSTATUS, MSTATUS, SIE, SIP, MIE, MIP, MISA = 0x000, 0x100, 0x300, 0x104, 0x144, 0x304, 0x344, 0x301
SEPC, MEPC, TSELECT, TDATA1, TDATA2, MHPM3 = 0x141, 0x341, 0x7a0, 0x7a1, 0x7a2, 0xb03
UMASK = 1 << 4 | 1 << 0
SI_MASK = 0x333
SPECIAL = (USTATUS, SSTATUS, SIE, SIP, MISA, MSTATUS, SEPC, MEPC, TSELECT, TDATA1, TDATA2, MHPM3)


def smask(xlen, write=False):
    m = 1 << (xlen - 1)                       # SD
    m |= 1 << 19 | 1 << 18 | 3 << 15 | 3 << 13 | 1 << 8 | 1 << 5 | 1 << 4 | 1 << 1 | 1 << 0
    if xlen == 64 and not write:
        m |= 3 << 32                          # UXL is visible but fixed
    return m


TD1, TD2 = 'cpu.csrs.triggers.tdata1', 'cpu.csrs.triggers.tdata2'


class CsrFile:
    """the CSR array plus the trigger registers behind tdata1/tdata2, as a value over the path's unknowns"""

    def __init__(self, c):
        self.c = c
        I = c.I
        u64 = I.p.ty_named('u64')
        self.xlen = c.xlen
        self.a = SymArr(CSRS, u64, const(4096, 64))
        self.t1 = SymArr(TD1, u64, const(8, 64))
        self.t2 = SymArr(TD2, u64, const(8, 64))
        self.sel = bv.zext(bv.sym('cpu.csrs.triggers.tselect', 3), 64)

    def raw(self, n):
        n = n if isinstance(n, BV) else const(n, 64)
        return self.c.elem(self.a, n)

    def put(self, n, v):
        n = n if isinstance(n, BV) else const(n, 64)
        self.a = self.c.upd(self.a, n, v)

    def read(self, n):
        """XLEN-bit value an instruction reads"""
        c, x = self.c, self.xlen
        n = c.sub(n if isinstance(n, BV) else const(n, 64))

        def lo(v):
            return BV(c.sub(v)[:x])
        if c.is_(n, USTATUS):
            return bv.and_(lo(self.raw(MSTATUS)), const(UMASK, x))
        if c.is_(n, SSTATUS):
            return bv.and_(lo(self.raw(MSTATUS)), const(smask(x), x))
        if c.is_(n, SIE):
            return bv.and_(lo(self.raw(MIE)), const(SI_MASK, x))
        if c.is_(n, SIP):
            return bv.and_(lo(self.raw(MIP)), const(SI_MASK, x))
        if c.is_(n, SEPC) or c.is_(n, MEPC):
            v = lo(self.raw(c.sub(n)))
            cext = BV(self.raw(MISA)[2:3])
            return BV((0,) + (bv.band(v[1], cext[0]),) + tuple(v[2:]))
        return lo(self.raw(n))

    def home(self, n):
        """number of the register that holds the bits of n"""
        c = self.c
        n = c.sub(n)
        for v, h in ((USTATUS, MSTATUS), (SSTATUS, MSTATUS), (SIE, MIE), (SIP, MIP)):
            if c.is_(n, v):
                return const(h, 64)
        return n

    def modify(self, n, f):
        """apply a bit operation old -> new (XLEN wide) to CSR n"""
        c, x = self.c, self.xlen
        n = c.sub(n if isinstance(n, BV) else const(n, 64))
        h = self.home(n)
        old = BV(c.sub(self.raw(h))[:x])
        new = f(old)
        m = None
        if c.is_(n, USTATUS):
            m = UMASK
        elif c.is_(n, SSTATUS):
            m = smask(x, True)
        elif c.is_(n, SIE) or c.is_(n, SIP):
            m = SI_MASK
        if m is not None:
            new = BV([new[i] if m >> i & 1 else old[i] for i in range(x)])
        if c.is_(h, MISA):
            # C cannot be changed while the pc is not 4-byte aligned
            pc = BV(c.I.init_pc()[:2])
            if not c.is_(pc, 0):
                new = BV(list(new[:2]) + [old[2]] + list(new[3:]))
        if c.is_(h, MSTATUS):
            if x == 64:
                new = BV(list(new[:32]) + [0, 1, 0, 1] + list(new[36:]))
            new = c.sub(new)
            if c.is_(BV(new[11:13]), 2):
                new = BV(list(new[:11]) + [0, 0] + list(new[13:]))
        if x == 64 and c.is_(h, 0x180):
            # an unsupported translation mode: the whole write is ignored
            mode = c.sub(BV(new[60:64]))
            if not c.is_(mode, 0) and not c.is_(mode, 8):
                return
        if c.is_(h, MHPM3):
            return
        v = bv.zext(new, 64)
        if c.is_(h, TSELECT):
            v = c.sub(v)
            if not c.iff(bv.ult(v, const(8, 64))):
                return
            self.sel = v
            self.put(TSELECT, v)
            self.put(TDATA1, c.elem(self.t1, v))
            self.put(TDATA2, c.elem(self.t2, v))
            return
        if c.is_(h, TDATA1):
            self.t1 = c.upd(self.t1, self.sel, v)
        if c.is_(h, TDATA2):
            self.t2 = c.upd(self.t2, self.sel, v)
        self.put(h, v)

    def compare(self):
        """the code's final CSR file equals this one"""
        c = self.c
        c.array('CSR', c.get('csrs', 'csrs'), self.a)
        c.array('trigger tdata1', c.get('csrs', 'triggers', 'tdata1'), self.t1)
        c.array('trigger tdata2', c.get('csrs', 'triggers', 'tdata2'), self.t2)
        c.need('selected trigger', c.get('csrs', 'triggers', 'tselect'), self.sel)


SKIP = ('csrs.csrs', 'csrs.triggers.tdata1', 'csrs.triggers.tdata2', 'csrs.triggers.tselect')

def rule(xlen):
    """facts about the CSR array that hold in every reachable state"""
    def f(idx, w):
        i = cval(idx)
        if i == TSELECT:
            return bv.zext(bv.sym('cpu.csrs.triggers.tselect', 3), w)
        if i in (TDATA1, TDATA2) and xlen == 32:
            return bv.zext(bv.rd(TD1 if i == TDATA1 else TD2, bv.zext(bv.sym('cpu.csrs.triggers.tselect', 3), 64), 32), w)
        if i in (TDATA1, TDATA2):
            return bv.rd(TD1 if i == TDATA1 else TD2, bv.zext(bv.sym('cpu.csrs.triggers.tselect', 3), 64), w)
        if xlen == 32:
            return bv.zext(bv.whole(bv.mk(('rd', CSRS, 32, bv.canon(idx))), 32), 64)
        if i == MSTATUS and xlen == 64:
            b = bv.whole(bv.mk(('rd', CSRS, w, bv.canon(idx))), w)
            return BV(list(b[:32]) + [0, 1, 0, 1] + list(b[36:]))
        return None
    return f


def trig_rule(name, xlen):
    def f(idx, w):
        if xlen == 32 and w > 32:
            return bv.zext(bv.whole(bv.mk(('rd', name, 32, bv.canon(idx))), 32), w)
        return None
    return f
