prop = 'C38'
needs = 'an enabled trigger for stores whose address is also loaded, or an AMO, in user mode with only the supervisor bit set'
breaks = 'user-mode accesses fire triggers that are enabled for supervisor mode only'
edits = [('src/cpu/csr/breakpoint.rs', 'PrivilegedLevel::User && mode_u == 0x0', 'PrivilegedLevel::User && (mode_u | mode_s) == 0x0')]
prog = '''
# xlen 64
.include "pre.inc"
    MTVEC mhandler
    csrwi tselect, 3
    li t0, (2<<60) | 0x10 | 1     # supervisor loads
    csrw tdata1, t0
    li t0, 0x80200000
    csrw tdata2, t0
    ADDR t0, user
    csrw mepc, t0
    li t0, 0x1800
    csrc mstatus, t0
    mret
user:
    li t0, 0x80200000
    lw a0, 0(t0)
    ecall
.balign 4
mhandler:
    csrr a0, mcause
    EXPECT 3, a0, 8
    PASS
'''
