prop = 'C12'
needs = 'user mode, a counter enabled in scounteren and disabled in mcounteren or the reverse, other than the cycle counter'
breaks = 'the supervisor counter enable is ignored for counters above time'
edits = [('src/cpu/execution/inst_32/zicsr_extension.rs', '''                let sctren = cpu.csrs.read(CSRname::scounteren.wrap())?;''', '''                let sctren = cpu.csrs.read(CSRname::scounteren.wrap())? | mctren & !0b111;''')]
prog = '''
# xlen 64
.include "pre.inc"
    MTVEC mhandler
    li t0, 0x1800
    csrc mstatus, t0
    li t0, -1
    csrw pmpaddr0, t0
    csrw mcounteren, t0
    li t0, 0x7
    csrw scounteren, t0
    li t0, 0x1f
    csrw pmpcfg0, t0
    ADDR t0, umode
    csrw mepc, t0
    mret
umode:
    csrr a0, instret
    csrr a0, hpmcounter5
    FAIL 2
.balign 4
mhandler:
    csrr a0, mcause
    EXPECT 3, a0, 2
    csrr a0, mtval
    csrr a1, mepc
    lw a1, 0(a1)
    slli a1, a1, 32
    srli a1, a1, 32
    li t6, 0xc0502573
    beq a1, t6, good
    FAIL 4
good:
    PASS
'''
