prop = 'C27'
needs = 'completion of an interrupt whose source is still asserted'
breaks = 'a level that is still asserted at completion is forgotten'
edits = [('src/bus/plic.rs', '''                    self.contexts[context_id].claimed[id_word] &= !id_mask;
                    self.context_update(context_id);''', '''                    self.contexts[context_id].claimed[id_word] &= !id_mask;
                    self.contexts[context_id].pending[id_word] &= !id_mask;
                    self.context_update(context_id);''')]
prog = '''
# xlen 64
.include "pre.inc"
    li a0, 0x0c000000
    li a1, 1
    sw a1, 4(a0)
    li a2, 0x0c200000
    sw zero, 0(a2)
    li a3, 0x0c002000
    li a1, 2
    sw a1, 0(a3)
    li a4, 0x10000000
    li a1, 2
    sb a1, 1(a4)
    lw a5, 4(a2)
    EXPECT 2, a5, 1
    sw a5, 4(a2)
    nop
    csrr a5, mip
    srli a5, a5, 11
    andi a5, a5, 1
    EXPECT 3, a5, 1
    PASS
'''
