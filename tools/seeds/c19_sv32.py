prop = 'C19'
needs = 'a 32-bit guest whose superpage lies above 4 GiB'
breaks = 'the two highest physical address bits of an Sv32 superpage are dropped, so that it aliases low memory'
edits = [('src/cpu/mmu.rs', 'ppn[1] << 22 | vpn[0] << 12 | page_off\n                            }\n                            _ => return', '(ppn[1] & 0x3ff) << 22 | vpn[0] << 12 | page_off\n                            }\n                            _ => return')]
prog = '''
# xlen 32
.include "pre.inc"
    MTVEC mhandler
    li s0, 0x80100000
    li t0, (0x200 << 20) | 0xcf   # 0x80000000
    li t1, 0x800
    add t1, t1, s0
    sw t0, 0(t1)
    li t0, (0x600 << 20) | 0xcf   # 0x180000000
    sw t0, 4(t1)
    li t0, 0x80080100
    csrw satp, t0
    ADDR t0, smode
    csrw mepc, t0
    li t0, 0x1800
    csrc mstatus, t0
    li t0, 0x800
    csrs mstatus, t0
    mret
smode:
    li a0, 0x80200000
    lw a1, 0(a0)
    li a0, 0x80600000
    lw a1, 0(a0)
    FAIL 2
.balign 4
mhandler:
    csrr a0, mcause
    EXPECT 3, a0, 5
    csrr a0, mepc
    PASS
'''
