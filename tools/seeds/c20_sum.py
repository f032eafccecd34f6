prop = 'C20'
needs = 'supervisor code that loads from a user page that is not executable while SUM is clear'
breaks = 'the SUM check of loads only looks at executable user pages'
edits = [('src/cpu/mmu.rs', '''            TransFor::Load => {
                // check sum bit
                let sum = csrs.read_xstatus(PrivilegedLevel::Machine, Xstatus::SUM);
                if sum == 0 && pte_u == 1 && priv_lv''', '''            TransFor::Load => {
                // check sum bit
                let sum = csrs.read_xstatus(PrivilegedLevel::Machine, Xstatus::SUM);
                if sum == 0 && pte_u & pte_x == 1 && priv_lv''')]
prog = '''
# xlen 64
.include "pre.inc"
    MTVEC mhandler
    li s0, 0x80100000
    li t0, (0x80000000 >> 2) | 0xcf   # V R W X A D, no U
    sd t0, 16(s0)
    li t0, (0x80000000 >> 2) | 0xd7   # V R W U A D: the same memory as user data
    sd t0, 24(s0)
    li t0, (8<<60) | (0x80100000 >> 12)
    csrw satp, t0
    ADDR t0, smode
    csrw mepc, t0
    li t0, 0x41800
    csrc mstatus, t0
    li t0, 0x800
    csrs mstatus, t0
    mret
smode:
    li a0, 0xc0200000
    ld a1, 0(a0)
    FAIL 2
.balign 4
mhandler:
    csrr a0, mcause
    EXPECT 3, a0, 13
    PASS
'''
