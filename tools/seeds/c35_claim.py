prop = 'C35'
needs = 'log level debug and an interrupt pending in the PLIC'
breaks = 'logging the PLIC claims the pending interrupt, so that the guest never sees it'
edits = [('src/lib.rs', """                log::diffln!(":");
                self.cpu.regs.show();
""", """                log::diffln!(":");
                log::debugln!("plic: {:?}", self.cpu.bus.load32(0x0c20_0004).ok());
                self.cpu.regs.show();
""")]
prog = """
# xlen 64
# run
# run --loglv=debug
.include "pre.inc"
    li s0, 0x0c000000
    li t0, 1
    sw t0, 4(s0)
    li s1, 0x0c002000
    li t0, 2
    sw t0, 0(s1)
    li s2, 0x10000000
    li t0, 2
    sb t0, 1(s2)
    li t0, 0x800
1:  csrr t1, mip
    and t1, t1, t0
    bnez t1, 2f
    addi s4, s4, 1
    li t2, 8000
    blt s4, t2, 1b
2:  li s3, 0x0c200004
    lw t3, 0(s3)
    EXPECT 3, t3, 1
    PASS
"""
