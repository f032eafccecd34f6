"""CSR access control."""
import csrinst
import dump
import group
from func import Func
import steps


def check(rep):
    rep.rule = ("Each CSR instruction at each privilege level (CSR number, enable bits, operands unknown) is summarised; on every path the outcome - carried out, or illegal-instruction exception without effect - must agree with the access rules: "
                "bits 9:8 privilege, bits 11:10 read-only, mcounteren/scounteren for 0xc00-0xc1f, TVM for satp in S-mode, and the unimplemented number ranges.")
    rep.assumptions = group.TRUST
    prog = dump.program()
    cnt = [0, 0]
    for x in (32, 64):
        for n in csrinst.NAMES:
            for pv, _ in steps.PRIVS:
                def go():
                    I, w, rs = csrinst.results(prog, x, n, pv)
                    Func(rep, I, '%s/%d/%s' % (n, x, pv), steps.EXEC).check(rs, lambda c: csrinst.access(c, w, n, pv, cnt))
                group.guard(rep, '%s/%d/%s' % (n, x, pv), go)
    rep.floor('refused cases', cnt[0], 150)
    rep.floor('permitted cases', cnt[1], 150)
    rep.extra['refused_cases'], rep.extra['permitted_cases'] = cnt
