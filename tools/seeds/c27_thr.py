prop = 'C27'
needs = 'a pending source masked by the threshold whose threshold is lowered later'
breaks = 'lowering the threshold does not raise the interrupt of a source that is already pending'
edits = [('src/bus/plic.rs', '''                    self.contexts[context_id].priority_thresould = val as u8;
                    self.context_update(context_id);''', '''                    let raised = self.contexts[context_id].priority_thresould < val as u8;
                    self.contexts[context_id].priority_thresould = val as u8;
                    if raised {
                        self.context_update(context_id);
                    }''')]
prog = '''
# xlen 64
.include "pre.inc"
    li a0, 0x0c000000
    li a1, 1
    sw a1, 4(a0)            # priority of source 1 (the UART)
    li a2, 0x0c200000
    li a1, 2
    sw a1, 0(a2)            # threshold of the machine context
    li a3, 0x0c002000
    li a1, 2
    sw a1, 0(a3)            # enabled
    li a4, 0x10000000
    li a1, 2
    sb a1, 1(a4)            # transmitter empty interrupt
    nop
    csrr a5, mip
    srli a5, a5, 11
    andi a5, a5, 1
    EXPECT 2, a5, 0
    sw zero, 0(a2)
    nop
    csrr a5, mip
    srli a5, a5, 11
    andi a5, a5, 1
    EXPECT 3, a5, 1
    PASS
'''
