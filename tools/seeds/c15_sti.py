prop = 'C15'
needs = 'a supervisor timer interrupt with mideleg and medeleg disagreeing about bit 5'
breaks = 'the supervisor timer interrupt is delegated by medeleg (the load access fault bit) instead of mideleg'
edits = [('src/cpu/trap.rs', '''            | TrapCause::StoreAMOPageFault => self.csrs''', '''            | TrapCause::StoreAMOPageFault
            | TrapCause::SupervisorTimerInterrupt => self.csrs'''),
         ('src/cpu/trap.rs', '''            | TrapCause::MachineSoftwareInterrupt
            | TrapCause::SupervisorTimerInterrupt
            | TrapCause::MachineTimerInterrupt
            | TrapCause::SupervisorExternalInterrupt
            | TrapCause::MachineExternalInterrupt => {''', '''            | TrapCause::MachineSoftwareInterrupt
            | TrapCause::MachineTimerInterrupt
            | TrapCause::SupervisorExternalInterrupt
            | TrapCause::MachineExternalInterrupt => {''')]
prog = '''
# xlen 64
.include "pre.inc"
    MTVEC mhandler
    ADDR t0, shandler
    csrw stvec, t0
    li t0, 1<<5
    csrw mideleg, t0
    csrw medeleg, x0
    csrw mie, t0
    ADDR t0, user
    csrw mepc, t0
    li t0, 0x1800
    csrc mstatus, t0
    mret
user:
    j user
.balign 4
mhandler:
    FAIL 2
shandler:
    csrr a0, scause
    li a1, 1<<63
    addi a1, a1, 5
    bne a0, a1, bad
    PASS
bad:
    FAIL 3
'''
