prop = 'C23'
needs = 'a 32-bit instruction at a 2-byte aligned address that straddles two pages mapped to physical pages that are not adjacent'
breaks = 'the upper half of an instruction is read at the physical address after the lower half'
edits = [('src/cpu/fetch.rs', '        let inst_upper: u32 = match cpu.bus.load_u16(index_pc2) {', '        let inst_upper: u32 = match cpu.bus.load_u16(if index_pc2 % 4096 == 0 { index_pc + 2 } else { index_pc2 }) {')]
prog = '''
# xlen 64
.include "pre.inc"
    MTVEC mhandler
    # page table at 0x80300000: virtual 0 -> table -> table; pages 0x40000000.. -> 0x80400000, 0x80600000
    li a0, 0x80300000
    li a1, (0x80301000 >> 2) | 1
    sd a1, 8(a0)
    li a0, 0x80301000
    li a1, (0x80302000 >> 2) | 1
    sd a1, 0(a0)
    li a0, 0x80302000
    li a1, (0x80400000 >> 2) | 0xcb
    sd a1, 0(a0)
    li a1, (0x80600000 >> 2) | 0xcb
    sd a1, 8(a0)
    # addi a2, zero, 0x123 = 12300613, split over the pages
    li a0, 0x80400ffe
    li a1, 0x0613
    sh a1, 0(a0)
    li a0, 0x80600000
    li a1, 0x1230
    sh a1, 0(a0)
    li a1, 0x00000073
    sh a1, 2(a0)
    srli a1, a1, 16
    sh a1, 4(a0)
    li t0, -1
    csrw pmpaddr0, t0
    li t0, 0x1f
    csrw pmpcfg0, t0
    li t0, (8 << 60) | (0x80300000 >> 12)
    csrw satp, t0
    li t0, 0x1800
    csrc mstatus, t0
    li t0, 0x800
    csrs mstatus, t0
    li t0, 0x40000ffe
    csrw mepc, t0
    li a2, 0
    mret
.balign 4
mhandler:
    csrr a0, mcause
    EXPECT 2, a0, 9
    EXPECT 3, a2, 0x123
    PASS
'''
