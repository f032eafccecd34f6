prop = 'C11'
needs = 'CSRRS with the same source and destination register'
breaks = 'CSRRS reads its operand after rd was written'
edits = [('src/cpu/execution/inst_32/zicsr_extension.rs', '''            let rs1 = cpu.regs.read(inst.rs1);
            cpu.regs.write(inst.rd, cpu.csrs.read(inst.rs2)?);
            cpu.csrs.bitset(inst.rs2, rs1)?;''', '''            cpu.regs.write(inst.rd, cpu.csrs.read(inst.rs2)?);
            let rs1 = cpu.regs.read(inst.rs1);
            cpu.csrs.bitset(inst.rs2, rs1)?;''')]
prog = '''
# xlen 64
.include "pre.inc"
    li a0, 0x10
    csrw mscratch, a0
    li a0, 0x21
    csrrs a1, mscratch, a0
    csrr a1, mscratch
    EXPECT 2, a1, 0x31
    li a0, 0x40
    csrrs a0, mscratch, a0
    EXPECT 3, a0, 0x31
    csrr a1, mscratch
    EXPECT 4, a1, 0x71
    PASS
'''
