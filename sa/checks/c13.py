"""CSR file: views, field rules, status fields."""
import bv
import csrmodel
import dump
import group
import steps
from bv import BV, const, cval
from csrmodel import CsrFile, SKIP
from func import Func
from interp import Agg, SymArr
from machine import Machine, CSRS
from spec import vname

CS = 'carron::cpu::csr::CSRs::'
# field -> (low bit, width); SD, UXL, SXL depend on XLEN
FIELDS = {'UIE': (0, 1), 'SIE': (1, 1), 'MIE': (3, 1), 'UPIE': (4, 1), 'SPIE': (5, 1), 'MPIE': (7, 1), 'SPP': (8, 1), 'MPP': (11, 2), 'FS': (13, 2), 'XS': (15, 2),
          'MPRV': (17, 1), 'SUM': (18, 1), 'MXR': (19, 1), 'TVM': (20, 1), 'TW': (21, 1), 'TSR': (22, 1), 'UXL': (32, 2), 'SXL': (34, 2), 'SD': (None, 1)}


def opt_usize(I, v):
    t = I.p.ty_named('std::option::Option<usize>')
    return I.some(t, v)


def ok_of(c):
    v = c.ret
    if not isinstance(v, Agg) or vname(c.I, v) != 'Ok':
        c.bad('access to the CSR file fails', repr(v)[:80])
    return v.f[0] if v.f else None


def invariants(c):
    """the facts assumed of every state hold again"""
    got = c.get('csrs', 'csrs')
    for i in (0x300,):
        v = c.elem(got, const(i, 64))
        if c.is_(BV(v[11:13]), 2):
            c.bad('mstatus.MPP holds the reserved level')
        if c.xlen == 64:
            c.need('mstatus SXL/UXL', BV(v[32:36]), const(0b1010, 4))
    s = c.get('csrs', 'triggers', 'tselect')
    c.need('tselect', BV(s[3:]), const(0, 61))
    c.need('tselect CSR', c.elem(got, const(0x7a0, 64)), s)
    for n, f in ((0x7a1, 'tdata1'), (0x7a2, 'tdata2')):
        c.need(f + ' CSR', BV(c.elem(got, const(n, 64))[:c.xlen]), BV(c.elem(c.get('csrs', 'triggers', f), s)[:c.xlen]))


def run(rep, prog, x, n=None, tag=''):
    I = Machine(prog, x, [])
    csrs = I.field_ptr('csrs')
    n = bv.zext(bv.sym('n', 12), 64) if n is None else const(n, 64)
    v = bv.zext(bv.sym('v', x), 64)

    def rd(c):
        r = ok_of(c)
        m = CsrFile(c)
        c.need('value read', BV(r[:x]), m.read(n))
        if x == 32:
            c.need('value read: upper half', BV(r[32:]), const(0, 32))
        c.cpu_unchanged()
    F = lambda what, fn: Func(rep, I, '%s%s/%d' % (what, tag, x), CS + fn)
    group.guard(rep, 'read%s/%d' % (tag, x), lambda: F('CSR read', 'read').check(I.run(CS + 'read', [csrs, opt_usize(I, n)], I.sane_state()), rd))

    def wr(how):
        def f(c):
            ok_of(c)
            m = CsrFile(c)
            s = BV(v[:x])
            m.modify(n, {'write': lambda o: s, 'bitset': lambda o: bv.or_(o, c.sub(s)), 'bitclr': lambda o: bv.and_(o, bv.not_(c.sub(s)))}[how])
            m.compare()
            c.cpu_unchanged(skip=SKIP)
            invariants(c)
        return f
    for how in ('write', 'bitset', 'bitclr'):
        group.guard(rep, '%s%s/%d' % (how, tag, x), lambda: F('CSR ' + how, how).check(I.run(CS + how, [csrs, opt_usize(I, n), v], I.sane_state()), wr(how)))


def fields(rep, prog, x):
    I = Machine(prog, x, [])
    csrs = I.field_ptr('csrs')
    xt = I.p.ty_named('cpu::csr::Xstatus')
    pt = 'cpu::PrivilegedLevel'
    names = [v['name'].split('::')[-1] for v in I.p.types[xt]['variants']]
    vis = {'Machine': None, 'Supervisor': csrmodel.smask(x), 'User': csrmodel.UMASK}
    cnt = 0
    for pv, mask in vis.items():
        for fi, f in enumerate(names):
            if f not in FIELDS or (x == 32 and f in ('UXL', 'SXL')):
                continue
            lo, w = FIELDS[f]
            lo = x - 1 if lo is None else lo
            if mask is not None and not mask >> lo & 1:
                continue        # a level's accessors are used for its own fields
            cnt += 1

            def rd(c):
                m = c.elem(SymArr(CSRS, I.p.ty_named('u64'), const(4096, 64)), const(0x300, 64))
                c.need('field value', BV(c.ret[:x]), bv.zext(BV(m[lo:lo + w]), x))
                c.cpu_unchanged()
            key = 'field %s read %s/%d' % (f, pv, x)
            args = [I.enum(pt, pv), Agg(xt, fi, ())]
            group.guard(rep, key, lambda: Func(rep, I, key, CS + 'read_xstatus').check(I.run(CS + 'read_xstatus', [csrs] + args, I.sane_state()), rd))
            if f in ('UXL', 'SXL', 'SD'):
                continue        # never written
            v = bv.zext(bv.sym('v', x), 64)

            def wr(c):
                m = CsrFile(c)
                o = m.raw(0x300)
                m.put(0x300, BV(list(o[:lo]) + list(v[:w]) + list(o[lo + w:])))
                m.compare()
                c.cpu_unchanged(skip=SKIP)
            key2 = 'field %s write %s/%d' % (f, pv, x)
            group.guard(rep, key2, lambda: Func(rep, I, key2, CS + 'write_xstatus').check(I.run(CS + 'write_xstatus', [csrs] + args + [v], I.sane_state()), wr))
    return cnt


def check(rep):
    rep.rule = ("The CSR file's read, write, set and clear functions are summarised with CSR number, old contents and operand unknown and compared with the model (views share mstatus/mie/mip, fixed and WARL fields, xepc low bits, misa.C, trigger selection); "
                "status-field accessors are compared with the field table of the privileged manual; the write functions re-establish the invariants (MPP legal, SXL/UXL, tselect < 8, tdata mirrors) that other checks assume.")
    rep.assumptions = group.TRUST
    prog = dump.program()
    n = 0
    for x in (32, 64):
        run(rep, prog, x)
        n += fields(rep, prog, x)
    rep.floor('status fields', n, 50)
    rep.floor('paths', rep.paths, 150)
