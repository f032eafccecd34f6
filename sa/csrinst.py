"""CSR instructions against the CSR file model."""
import bv
import isa
import steps
from bv import BV, const
from csrmodel import CsrFile, SKIP
from func import Func
from interp import Agg, SymArr
from machine import Machine, REGS
from spec import vname

NAMES = ('CSRRW', 'CSRRS', 'CSRRC', 'CSRRWI', 'CSRRSI', 'CSRRCI')
# numbers this emulator deliberately leaves out of its map, besides those the access rules refuse
# (0x30c, 0x3c0-0x3ff, 0xd80-0xdbf, 0xf80-0xfbf)
DONTCARE = (0x14d,)     # an emulator-specific oddity: visible in supervisor mode only


def reread(c):
    """the instruction may be read again at pc to be reported as trap value; that read succeeded a moment ago"""
    ev = c.events
    if c.ei < len(ev) and ev[c.ei][0] == 'trans' and ev[c.ei][1] == 'Fetch':
        e, k = c.event('trans', 'translation')
        c.need('address re-read', e[3], BV(c.I.init_pc()[:c.xlen]))
        if not c.iff(bv.sym('trans_ok%d' % k, 1)):
            return False
        if c.ei < len(ev) and ev[c.ei][0] == 'load':
            e, j = c.event('load', 'read')
            c.need('address re-read', BV(e[2][:64]), bv.sym('pa%d' % k, 64))
            c.iff(bv.sym('bus_ok%d' % j, 1))
    return True


def illegal(c, num, name, uimm):
    """is the access refused? num: 12-bit number; may return None for numbers left open"""
    st = c
    pv = c.priv
    lvl = {'User': 0, 'Supervisor': 1, 'Machine': 3}[pv]
    n = c.sub(num)
    need = None
    for v in range(4):
        if c.is_(BV(n[8:10]), v):
            need = v
            break
    if need > lvl:
        return True
    writes = name in ('CSRRW', 'CSRRWI') or not c.is_(uimm, 0)
    if writes and c.is_(BV(c.sub(num)[10:12]), 3):
        return True
    n16 = bv.zext(c.sub(num), 16)
    if lvl < 3:
        if c.is_(BV(c.sub(num)[5:12]), 0xc00 >> 5):
            k = bv.zext(BV(c.sub(num)[0:5]), 64)
            m = CsrFile(c)
            bit = bv.lshr(c.sub(m.raw(0x306)), k)[0]
            if not c.iff(bit):
                return True
            if lvl == 0:
                bit = bv.lshr(c.sub(m.raw(0x106)), k)[0]
                if not c.iff(bit):
                    return True
        if lvl == 1 and c.is_(c.sub(num), 0x180):
            m = CsrFile(c)
            if c.iff(m.raw(0x300)[20]):
                return True
    for hi6 in (0x3c0 >> 6, 0xd80 >> 6, 0xf80 >> 6):
        if c.is_(BV(c.sub(num)[6:12]), hi6):
            return True
    if c.is_(c.sub(num), 0x30c):
        return True
    for d in DONTCARE:
        if c.is_(c.sub(n16), d):
            return None
    return False


def results(prog, xlen, name, priv):
    I = Machine(prog, xlen, steps.bounds())
    ent = [e for e in isa.ENC32 if e[0] == name][0]
    w = isa.word32(ent[2], ent[3])
    rs = steps.step_paths(I, w, I.sane_state(priv))
    return I, w, rs


def effect(c, w, name):
    """the instruction's effect on an allowed access"""
    I, x = c.I, c.xlen
    if not reread(c):
        return
    c.done()
    v = c.ret
    if not isinstance(v, Agg) or vname(I, v) == 'Err':
        return
    f = isa.fields32(w)
    num = bv.zext(c.sub(f['csr']), 64)
    m = CsrFile(c)
    regs = SymArr(REGS, I.p.ty_named('u64'), const(32, 64))

    def xr(i):
        i = bv.zext(c.sub(i), 64)
        return const(0, x) if c.is_(i, 0) else BV(c.elem(regs, c.sub(i))[:x])
    src = bv.zext(c.sub(f['rs1']), x) if name.endswith('I') else xr(f['rs1'])
    old = m.read(num)
    base = name[:5]
    if base == 'CSRRW':
        m.modify(num, lambda o: src)
    elif not c.is_(f['rs1'], 0):
        if base == 'CSRRS':
            m.modify(num, lambda o: bv.or_(o, c.sub(src)))
        else:
            m.modify(num, lambda o: bv.and_(o, bv.not_(c.sub(src))))
    rd = bv.zext(c.sub(f['rd']), 64)
    if not c.is_(rd, 0):
        regs = c.upd(regs, c.sub(rd), bv.zext(BV(c.sub(old)[:x]), 64))
    c.array('register', c.get('regs', 'regs'), regs, x)
    m.compare()
    c.cpu_unchanged(skip=SKIP + ('regs.regs', 'pc'))
    c.need('pc', BV(I.pc(c.st)[:x]), bv.add(BV(I.init_pc()[:x]), const(4, x)))


def access(c, w, name, priv, cnt):
    I, x = c.I, c.xlen
    if not reread(c):
        return
    c.priv = priv
    f = isa.fields32(w)
    ill = illegal(c, f['csr'], name, f['rs1'])
    if ill is None:
        return
    v = c.ret
    if not isinstance(v, Agg):
        c.bad('result is %r' % (v,))
    ok = vname(I, v) == 'Ok'
    cnt[0 if ill else 1] += 1
    if ill and ok:
        c.bad('a forbidden access is carried out', c.sub(f['csr']), 'illegal instruction')
    if not ill and not ok:
        c.bad('a permitted access is refused', c.sub(f['csr']), 'access')
    if ill:
        cz = v.f[0].f[1]
        cz = vname(I, cz) if isinstance(cz, Agg) else repr(cz)
        if cz != 'IllegalInst':
            c.bad('exception %s instead of an illegal instruction' % cz)
        c.cpu_unchanged(skip=('reservation_set', 'priv_lv'))
        if c.get('priv_lv') != I.enum('cpu::PrivilegedLevel', priv):
            c.bad('privilege level changed')
