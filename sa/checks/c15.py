"""Trap delegation."""
import dump
import group
import trapspec


def check(rep):
    rep.rule = ('trap() is summarised for every cause and previous privilege level, with medeleg, mideleg and all other CSRs unknown; the level entered is S exactly when the hart was below M and the cause\'s bit of medeleg (exceptions) or mideleg (interrupts) is set, '
                'the cause register of that level is written and the trap registers of the other level are not.')
    rep.assumptions = group.TRUST
    prog = dump.program()
    n = sum(trapspec.run(rep, prog, x, False, group) for x in (32, 64))
    rep.floor('cause/level pairs', n, 120)
    rep.floor('paths', rep.paths, 120)
