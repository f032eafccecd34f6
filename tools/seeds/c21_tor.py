prop = 'C21'
needs = 'a TOR entry above index 0 and an access exactly at its lower bound'
breaks = 'the first four bytes of a top-of-range PMP region are not matched'
edits = [('src/cpu/mmu/pmp.rs', '&& csrs.read(Some(pmpaddrs[index - 1])).unwrap() <= addr_aligned', '&& csrs.read(Some(pmpaddrs[index - 1])).unwrap() < addr_aligned')]
prog = '''
# xlen 64
.include "pre.inc"
    MTVEC mhandler
    li t0, 0x80200000 >> 2
    csrw pmpaddr0, t0
    li t0, 0x80201000 >> 2
    csrw pmpaddr1, t0
    li t0, -1
    csrw pmpaddr2, t0
    li t0, 0x1f080f         # entry 0: TOR rwx; entry 1: TOR none; entry 2: NAPOT rwx
    csrw pmpcfg0, t0
    ADDR t0, smode
    csrw mepc, t0
    li t0, 0x1800
    csrc mstatus, t0
    mret
smode:
    li a0, 0x80200000
    lw a1, 0(a0)
    ecall
.balign 4
mhandler:
    csrr a0, mcause
    EXPECT 3, a0, 5
    PASS
'''
