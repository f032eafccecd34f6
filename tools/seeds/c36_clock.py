prop = 'C36'
edits = [('src/lib.rs', '''                        self.cpu.trap(addr.unwrap_or(self.cpu.pc()), cause);''', '''                        self.cpu.trap(addr.unwrap_or(self.cpu.pc()), cause);
                        self.cpu.timer_increment(1);''')]
needs = 'a program that compares mtime around an exception'
breaks = 'every exception advances the clock by one tick'
prog = '''
# xlen 64
.include "pre.inc"
    MTVEC mhandler
    li a0, 0x0200bff8
    li a3, 0
    ld a1, 0(a0)
    ecall
    ecall
    ecall
    ld a2, 0(a0)
    # either no tick or one whole step of the clock in between
    sub a2, a2, a1
    beqz a2, 1f
    EXPECT 2, a2, 50
1:
    PASS
.balign 4
mhandler:
    csrr t0, mepc
    addi t0, t0, 4
    csrw mepc, t0
    mret
'''
