prop = 'C12'
needs = 'supervisor mode, TVM set and satp accessed by any CSR instruction'
breaks = 'TVM is looked up in the supervisor view of mstatus, where it always reads zero'
edits = [('src/cpu/execution/inst_32/zicsr_extension.rs', '''                    .read_xstatus(PrivilegedLevel::Machine, Xstatus::TVM)''', '''                    .read_xstatus(PrivilegedLevel::Supervisor, Xstatus::TVM)''')]
prog = '''
# xlen 64
.include "pre.inc"
    MTVEC mhandler
    li t0, 1 << 20 | 0x800
    csrs mstatus, t0
    li t0, 0x1000
    csrc mstatus, t0
    li t0, -1
    csrw pmpaddr0, t0
    li t0, 0x1f
    csrw pmpcfg0, t0
    ADDR t0, smode
    csrw mepc, t0
    mret
smode:
    csrr a0, satp
    FAIL 2
.balign 4
mhandler:
    csrr a0, mcause
    EXPECT 3, a0, 2
    PASS
'''
