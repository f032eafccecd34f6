prop = 'C35'
needs = 'log level info or higher and an exception taken by the guest'
breaks = 'when exceptions are logged, the address reported to the guest is replaced by the program counter'
edits = [('src/lib.rs', """                    Err((addr, cause, msg)) => {
                        log::infoln!("[exception: {:?}] {}", cause, msg);
                        self.cpu.trap(addr.unwrap_or(self.cpu.pc()), cause);""", """                    Err((addr, cause, msg)) => {
                        let addr = if Self::report(&cause, &msg) { Some(self.cpu.pc()) } else { addr };
                        self.cpu.trap(addr.unwrap_or(self.cpu.pc()), cause);"""),
         ('src/lib.rs', """    pub fn emulation(&mut self) {""", """    fn report(cause: &TrapCause, msg: &str) -> bool {
        let shown = log::LOG_LEVEL.get().unwrap() >= &log::LogLv::Info;
        log::infoln!("[exception: {:?}] {}", cause, msg);
        shown
    }

    pub fn emulation(&mut self) {""")]
prog = """
# xlen 64
# run
# run --loglv=info
.include "pre.inc"
    MTVEC h
    li s0, 0x40000123
    lb t0, 0(s0)
    FAIL 2
h:  csrr t1, mtval
    EXPECT 3, t1, 0x40000123
    PASS
"""
