prop = 'C22'
needs = 'MPRV set with MPP user or supervisor, and an atomic or a store'
breaks = 'MPRV applies to loads only'
edits = [('src/cpu.rs', '        if (purpose == TransFor::Load || purpose == TransFor::StoreAMO)\n', '        if (purpose == TransFor::Load || purpose == TransFor::Deleg)\n')]
prog = '''
# xlen 64
.include "pre.inc"
    MTVEC mhandler
    li a1, 0x80200000
    sd zero, 0(a1)
    li a2, 0x80300000       # an empty page table
    sd zero, 16(a2)
    li t0, 0x8000000000080300
    csrw satp, t0
    li t0, 0x1800
    csrc mstatus, t0
    li t0, 0x800
    csrs mstatus, t0
    li t0, 0x20000
    csrs mstatus, t0
    sd a1, 0(a1)            # supervisor mode: not mapped
    li t0, 0x20000
    csrc mstatus, t0
    FAIL 2
.balign 4
mhandler:
    li t0, 0x20000
    csrc mstatus, t0
    csrr a0, mcause
    EXPECT 3, a0, 15
    PASS
'''
