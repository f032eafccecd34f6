prop = 'C01'
needs = 'SRAW with bit 5 of the shift register set'
breaks = 'SRAW shifts by six bits of rs2 when bit 5 is set: the word is filled with its sign'
edits = [('src/cpu/execution/inst_32/base_i.rs', '((cpu.regs.read(inst.rs1) as i32) >> (cpu.regs.read(inst.rs2) & 0b11111)) as u64,', '((cpu.regs.read(inst.rs1) as i32 as i64) >> (cpu.regs.read(inst.rs2) & 0b111111)) as u64,')]
prog = '''
# xlen 64
.include "pre.inc"
    li a0, 0x70000008
    li a1, 3
    sraw a2, a0, a1
    EXPECT 2, a2, 0x0e000001
    li a1, 34
    sraw a2, a0, a1
    EXPECT 3, a2, 0x1c000002
    PASS
'''
