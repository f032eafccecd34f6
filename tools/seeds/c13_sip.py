prop = 'C13'
needs = 'CSRRC on sip while a machine interrupt enable shares the written bits'
breaks = 'clearing bits through sip clears them in mie instead of mip'
edits = [('src/cpu/csr.rs', '                SIP => self.csrs[CSRname::mip as usize] &= !(mask & SIESIPMASK),', '                SIP => {\n                    let mip = CSRname::mie as usize;\n                    self.csrs[mip] &= !(mask & SIESIPMASK)\n                }')]
prog = '''
# xlen 64
.include "pre.inc"
    li a0, 2
    csrw mie, a0
    csrs mip, a0
    csrc sip, a0
    csrr a1, mie
    EXPECT 2, a1, 2
    csrr a1, mip
    andi a1, a1, 2
    EXPECT 3, a1, 0
    PASS
'''
