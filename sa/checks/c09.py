"""Precise exceptions."""
import bv
import dump
import group
import isa
import steps
from bv import BV, const, cval
from func import Func
from interp import Agg, Stop
from machine import Machine
from spec import vname


def precise(c):
    """a path that ends in an exception has no effect but the reservation"""
    v = c.ret
    if not isinstance(v, Agg):
        c.bad('result is %r' % (v,))
    if vname(c.I, v) == 'Ok':
        return False
    st = c.st
    for i, e in enumerate(c.events):
        if e[0] == 'store' and c.iff(bv.sym('bus_ok%d' % (i + 1), 1)):
            c.bad('exception after a completed memory write', e[2], None)
        if e[0] == 'trap':
            c.bad('exception after a trap was taken')
    c.cpu_unchanged(skip=('reservation_set',))
    return True


def check(rep):
    rep.rule = ("Every encoding (32- and 16-bit, operands, CSRs, privilege level and the outcome of each translation and bus access unknown) is summarised through decode and execute; on each path that ends in an exception "
                "registers, CSRs, triggers, translation settings, privilege and pc must still hold their initial unknowns and no bus write may have succeeded. The reservation is exempt (an exception may end it).")
    rep.assumptions = group.TRUST
    prog = dump.program()
    cnt = [0, 0]

    def spec(c):
        if precise(c):
            cnt[1] += 1
    for x in (32, 64):
        for e in isa.ENC32:
            if not e[4] <= x <= e[5]:
                continue
            cnt[0] += 1

            def go():
                I = Machine(prog, x, steps.bounds())
                Func(rep, I, '%s/%d' % (e[0], x), steps.EXEC).check(steps.step_paths(I, isa.word32(e[2], e[3]), I.sane_state()), spec)
            group.guard(rep, '%s/%d' % (e[0], x), go)
        for e in isa.ENC16:
            if not e[2] <= x <= e[3]:
                continue
            cnt[0] += 1

            def go16():
                I = Machine(prog, x, steps.bounds())
                w, asm, ops = steps.expand16(e, x)
                st = I.sane_state()
                for b, t in asm:
                    if not st.assume(b, t):
                        raise Stop('contradictory encoding')
                Func(rep, I, '%s/%d' % (e[0], x), steps.EXEC).check(steps.step_paths(I, w, st), spec)
            group.guard(rep, '%s/%d' % (e[0], x), go16)
    rep.floor('encodings', cnt[0], 220)
    rep.floor('exception paths', cnt[1], 300)
    rep.extra['exception_paths'] = cnt[1]
