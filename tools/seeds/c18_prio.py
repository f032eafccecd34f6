prop = 'C18'
needs = 'supervisor mode with a machine interrupt delegated and pending while another, not delegated one is pending and mstatus.MIE is clear'
breaks = 'below machine mode, machine interrupts wait for mstatus.MIE when a delegated interrupt is pending too'
edits = [('src/cpu/trap.rs', '            _ => 1,\n        };\n        let enabled_interrupt_mask = pending_interrupts & !mideleg', '            _ if pending_interrupts & mideleg != 0 => (mstatus_mie != 0) as i64,\n            _ => 1,\n        };\n        let enabled_interrupt_mask = pending_interrupts & !mideleg')]
prog = '''
# xlen 64
.include "pre.inc"
    MTVEC mhandler
    li a0, 0x222
    csrw mideleg, a0
    li a0, 0xa
    csrw mie, a0
    li t0, -1
    csrw pmpaddr0, t0
    li t0, 0x1f
    csrw pmpcfg0, t0
    li t0, 0x1808
    csrc mstatus, t0
    li t0, 0x800
    csrs mstatus, t0
    ADDR t0, smode
    csrw mepc, t0
    csrs mip, a0
    mret
smode:
    nop
    nop
    FAIL 2
.balign 4
mhandler:
    csrr a0, mcause
    li t6, 0x8000000000000003
    bne a0, t6, bad
    PASS
bad:
    FAIL 3
'''
