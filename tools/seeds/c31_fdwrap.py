prop = 'C31'
needs = 'a descriptor number above 2^32'
breaks = 'guest descriptor numbers are cut to 32 bits, so an unknown number reaches an open host descriptor'
edits = [('src/fesvr.rs', """    pub fn fd_lookup(&self, fd: u64) -> i64 {
        if fd >= self.fd_table.len() as u64 {""", """    pub fn fd_lookup(&self, fd: u64) -> i64 {
        let fd = fd as u32 as u64;
        if fd >= self.fd_table.len() as u64 {""")]
prog = '\n# xlen 64\n.include "pre.inc"\n    li s0, 0x80010000\n    li a7, 64\n    li a0, 0x100000001\n    mv a1, s0\n    li a2, 1\n    jal ra, hostcall\n    bgez a0, 1f\n    PASS\n1:  FAIL 4\nhostcall:\n    sd a7, 0(s0)\n    sd a0, 8(s0)\n    sd a1, 16(s0)\n    sd a2, 24(s0)\n    sd a3, 32(s0)\n    sd a4, 40(s0)\n    li t1, 0x80f00000\n    sd s0, 0(t1)\n9:  ld t2, 0(t1)\n    bnez t2, 9b\n    ld a0, 0(s0)\n    ret\n'
