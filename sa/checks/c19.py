"""Page walks."""
import dump
import group
import mmuspec


def check(rep):
    rep.rule = ('Mmu::trans_addr is summarised for each access type and level with satp, the virtual address and all page-table memory unknown; on each path the page-table entries read, the address handed to PMP and the '
                'physical address returned equal those of the Sv32/Sv39 walk (or the virtual address when translation is off).')
    rep.assumptions = group.TRUST
    n = mmuspec.run(rep, dump.program(), 'address')
    rep.floor('cases', n, 18)
    rep.floor('paths', rep.paths, 60)
