prop = 'C19'
needs = 'an Sv39 gigapage and an address at least 2 MiB into it'
breaks = 'bits 29:21 of the virtual address are dropped in a gigapage translation'
edits = [('src/cpu/mmu.rs', 'ppn[2] << 30 | vpn[1] << 21 | vpn[0] << 12 | page_off', 'ppn[2] << 30 | ppn[1] << 21 | vpn[0] << 12 | page_off')]
prog = '''
# xlen 64
.include "pre.inc"
    MTVEC mhandler
    li s0, 0x80100000
    li t0, (0x80000000 >> 2) | 0xcf
    sd t0, 16(s0)
    li t0, 0x80200000
    li t1, 77
    sd t1, 0x48(t0)
    li t0, (8<<60) | (0x80100000 >> 12)
    csrw satp, t0
    ADDR t0, smode
    csrw mepc, t0
    li t0, 0x1800
    csrc mstatus, t0
    li t0, 0x800
    csrs mstatus, t0
    mret
smode:
    li a0, 0x80200000
    ld a1, 0x48(a0)
    li a2, 77
    bne a1, a2, 1f
    ecall
1:  ebreak
.balign 4
mhandler:
    csrr a0, mcause
    EXPECT 3, a0, 9
    PASS
'''
