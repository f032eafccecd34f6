prop = 'C20'
needs = 'a store through a writable leaf entry whose D bit is clear'
breaks = 'stores to clean pages no longer raise a page fault'
edits = [('src/cpu/mmu.rs', 'if pte_w == 0 || pte_d == 0 {', 'if pte_w == 0 || (pte_d == 0 && !self.is_leaf_pte(pte)) {')]
prog = '''
# xlen 64
.include "pre.inc"
    MTVEC mhandler
    li s0, 0x80100000
    li t0, (0x80000000 >> 2) | 0x4f   # V R W X A, no D, no U
    sd t0, 16(s0)
    li t0, (8<<60) | (0x80100000 >> 12)
    csrw satp, t0
    li t0, 0x80200000
    ADDR t0, smode
    csrw mepc, t0
    li t0, 0x1800
    csrc mstatus, t0
    li t0, 0x800
    csrs mstatus, t0
    mret
smode:
    li a0, 0x80200000
    ld a1, 0(a0)
    sd a1, 0(a0)
    FAIL 2
.balign 4
mhandler:
    csrr a0, mcause
    EXPECT 3, a0, 15
    PASS
'''
