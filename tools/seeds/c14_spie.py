prop = 'C14'
needs = 'a delegated trap while supervisor interrupts are enabled'
breaks = 'sstatus.SPIE is read after SIE was cleared, so the previous interrupt enable is lost on every delegated trap'
edits = [('src/cpu/trap.rs', '''            self.csrs.write_xstatus(
                PrivilegedLevel::Supervisor,
                // sstatus.SPIE = sstatus.SIE
                Xstatus::SPIE,
                self.csrs
                    .read_xstatus(PrivilegedLevel::Supervisor, Xstatus::SIE),
            );
            self.csrs
                .write_xstatus(PrivilegedLevel::Supervisor, Xstatus::SIE, 0b0); // Ssatus.SIE = 0
''', '''            self.csrs
                .write_xstatus(PrivilegedLevel::Supervisor, Xstatus::SIE, 0b0); // Ssatus.SIE = 0
            self.csrs.write_xstatus(
                PrivilegedLevel::Supervisor,
                // sstatus.SPIE = sstatus.SIE
                Xstatus::SPIE,
                self.csrs
                    .read_xstatus(PrivilegedLevel::Supervisor, Xstatus::SIE),
            );
''')]
prog = '''
# xlen 64
.include "pre.inc"
    ADDR t0, shandler
    csrw stvec, t0
    li t0, 1<<8
    csrw medeleg, t0
    ADDR t0, user
    csrw mepc, t0
    csrwi sstatus, 2
    li t0, 0x1800
    csrc mstatus, t0
    mret
user:
    ecall
    j .
shandler:
    csrr a0, sstatus
    andi a0, a0, 0x22
    EXPECT 2, a0, 0x20
    PASS
'''
