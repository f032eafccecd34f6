prop = 'C05'
needs = 'AMOMINU.W on RV64 with a register operand whose upper 32 bits are not the sign extension of its lower half'
breaks = 'the unsigned word minimum is taken over 64 bits, so the upper half of rs2 takes part in the comparison'
edits = [('src/cpu/execution/inst_32/a_extension.rs', 'std::cmp::min(x as u32, y as u32) as u64', 'std::cmp::min(x, y)')]
prog = '''
# xlen 64
.include "pre.inc"
    li s0, 0x80010000
    li a0, 0x1000
    sw a0, 0(s0)
    li a1, 0x20
    amominu.w a2, a1, (s0)
    EXPECT 2, a2, 0x1000
    lw a2, 0(s0)
    EXPECT 3, a2, 0x20
    li a1, 0x500000003
    amominu.w a2, a1, (s0)
    EXPECT 4, a2, 0x20
    lw a2, 0(s0)
    EXPECT 5, a2, 3
    PASS
'''
