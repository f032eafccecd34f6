prop = 'C14'
needs = 'a vectored handler and an exception whose code is not zero'
breaks = 'stval of a delegated page fault is cut to 32 bits'
edits = [('src/cpu/trap.rs', '            self.csrs.write(CSRname::stval.wrap(), tval_addr).unwrap();', '            self.csrs\n                .write(CSRname::stval.wrap(), tval_addr as i32 as i64 as u64)\n                .unwrap();')]
needs = 'a delegated fault at an address above 4 GiB that is not the sign extension of its lower half'
prog = '''
# xlen 64
.include "pre.inc"
    MTVEC mhandler
    ADDR t0, shandler
    csrw stvec, t0
    li t0, 0xb100
    csrw medeleg, t0
    li t0, -1
    csrw pmpaddr0, t0
    li t0, 0x1f
    csrw pmpcfg0, t0
    li a0, 0x80300000
    li a1, (0x80000000 >> 2) | 0xcf
    sd a1, 16(a0)
    li t0, (8 << 60) | (0x80300000 >> 12)
    csrw satp, t0
    li t0, 0x1800
    csrc mstatus, t0
    li t0, 0x800
    csrs mstatus, t0
    ADDR t0, smode
    csrw mepc, t0
    mret
smode:
    li a0, 0x1234567008
    ld a1, 0(a0)
    ecall
.balign 4
shandler:
    csrr a1, stval
    li t6, 0x1234567008
    beq a1, t6, 1f
    FAIL 3
1:
    csrr a1, scause
    EXPECT 4, a1, 13
    PASS
.balign 4
mhandler:
    FAIL 2
'''
