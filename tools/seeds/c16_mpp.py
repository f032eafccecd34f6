prop = 'C16'
needs = 'MRET that stays in machine mode (or returns to supervisor mode) followed by a look at mstatus.MPP'
breaks = 'MRET keeps MPP, so that a later MRET returns to the previous mode again instead of user mode'
edits = [('src/cpu/execution/inst_32/priv_extension.rs', '                .write_xstatus(PrivilegedLevel::Machine, Xstatus::MPP, 0b00); // msatus.MPP = 0', '                .write_xstatus(PrivilegedLevel::Machine, Xstatus::SPP, 0b00); // msatus.MPP = 0')]
prog = '''
# xlen 64
.include "pre.inc"
    li t0, 0x1800
    csrs mstatus, t0
    ADDR t0, m1
    csrw mepc, t0
    mret
m1:
    csrr a0, mstatus
    srli a0, a0, 11
    andi a0, a0, 3
    EXPECT 2, a0, 0
    PASS
'''
