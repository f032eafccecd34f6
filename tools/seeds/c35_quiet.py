prop = 'C35'
needs = 'a log level other than nolog, and a store-conditional more than 5000 instructions after its load-reserved'
breaks = 'reservations are only dropped periodically when nothing is logged'
edits = [('src/lib.rs', """            self.cpu.reservation_set = None;
            self.cpu.timer""", """            if log::LOG_LEVEL.get() == Some(&log::LogLv::NoLog) {
                self.cpu.reservation_set = None;
            }
            self.cpu.timer""")]
prog = """
# xlen 64
# run
# run --loglv=diff
.include "pre.inc"
    li s0, 0x80010000
    li s1, 0
    lr.d t0, (s0)
1:  addi s1, s1, 1
    li t1, 4000
    blt s1, t1, 1b
    li t1, 5
    sc.d t2, t1, (s0)
    snez t2, t2
    EXPECT 3, t2, 1
    PASS
"""
