"""Trap entry."""
import dump
import group
import trapspec


def check(rep):
    rep.rule = ('trap() is summarised for every cause and previous privilege level, with CSRs, trap value and pc unknown; on every path the final CSR file, pc, privilege level and registers equal the manual\'s trap entry '
                '(xcause with interrupt bit, xepc, xtval, xPIE/xIE/xPP, vectored or direct target) and nothing else changed.')
    rep.assumptions = group.TRUST
    prog = dump.program()
    n = sum(trapspec.run(rep, prog, x, True, group) for x in (32, 64))
    rep.floor('cause/level pairs', n, 120)
    rep.floor('paths', rep.paths, 120)
