prop = 'C04'
needs = 'RV64 MULHSU with a negative first operand and a product whose low 64 bits are all zero although neither operand is zero'
breaks = 'the high half of the signed-unsigned product is one too small for such operands'
edits = [('src/cpu/execution/inst_32/m_extension.rs', '+ (rs1 as u64 * rs2 == 0) as u64', '+ (rs2 == 0) as u64')]
prog = '''
# xlen 64
.include "pre.inc"
    li a0, -7
    li a1, 9
    mulhsu a2, a0, a1
    EXPECT 2, a2, -1
    li a0, -0x100000000
    li a1, 0x700000000
    mulhsu a2, a0, a1
    EXPECT 3, a2, -7
    PASS
'''
