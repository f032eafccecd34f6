"""CSR instruction semantics."""
import csrinst
import dump
import group
from func import Func
import steps


def check(rep):
    rep.rule = ("Each CSR instruction (all 4096 CSR numbers, operand registers and CSR contents unknown, every privilege level) is summarised; on every path that completes, rd, the CSR file (with its views and field rules), "
                "the trigger registers and pc must equal the model: old value to rd, swap/set/clear applied to the addressed CSR only, no write for set/clear with x0 or zero immediate.")
    rep.assumptions = group.TRUST
    prog = dump.program()
    for x in (32, 64):
        for n in csrinst.NAMES:
            def go():
                I, w, rs = csrinst.results(prog, x, n, None)
                Func(rep, I, '%s/%d' % (n, x), steps.EXEC).check(rs, lambda c: csrinst.effect(c, w, n))
            group.guard(rep, '%s/%d' % (n, x), go)
    rep.floor('paths', rep.paths, 500)
