prop = 'C02'
needs = 'JALR whose link register is also its base register'
breaks = 'the link overwrites the base before the target is computed'
edits = [('src/cpu/execution/inst_32/base_i.rs', '            let next_pc = cpu.pc() + INST_SIZE;\n            cpu.update_pc(', '            let next_pc = cpu.pc() + INST_SIZE;\n            cpu.regs.write(inst.rd, next_pc);\n            cpu.update_pc(')]
prog = '''
# xlen 64
.include "pre.inc"
    ADDR a0, there
    jalr a1, 0(a0)
    FAIL 2
there:
    ADDR a0, again
    jalr a0, 0(a0)
    FAIL 3
again:
    PASS
'''
