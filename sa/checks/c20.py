"""Page permissions."""
import dump
import group
import isa
import mmuspec
import report


def check(rep):
    rep.rule = ('Mmu::trans_addr is summarised for each access type and level with satp, mstatus, the virtual address and all page-table memory unknown; each path must end in the page fault of the access type '
                '(an access fault when a table lies outside memory) exactly when the Sv32/Sv39 rules forbid the access. Every load, store and atomic encoding must ask for the permission of its kind.')
    rep.assumptions = group.TRUST
    # each load, store and atomic is checked for the permission of its kind
    o = report.Only(rep, (':translation purpose',))
    m = group.run32(o, group.MEM + group.AMO) + group.run16(o, [e[0] for e in isa.ENC16 if e[7][0] in group.MEM])
    rep.floor('memory instructions', m, 64)
    n = mmuspec.run(rep, dump.program(), 'fault')
    rep.floor('cases', n, 18)
    rep.floor('paths', rep.paths, 60)
