prop = 'C31'
needs = 'two files open, the first closed, another opened'
breaks = 'a file opened into a freed slot is announced under a wrong number, which denotes another open file'
edits = [('src/fesvr.rs', """            self.fd_table[index] = Some(fd);
            index as i64""", """            self.fd_table[index] = Some(fd);
            (self.fd_table.len() - 1) as i64""")]
prog = '\n# xlen 64\n.include "pre.inc"\n    li s0, 0x80010000\n    jal s5, 1f\n    .ascii "/dev/null"\n    .balign 4\n1:  jal ra, open\n    mv s1, a0\n    jal ra, open\n    mv s2, a0\n    li a7, 57\n    mv a0, s1\n    jal ra, hostcall\n    jal ra, open\n    beq a0, s2, 2f\n    PASS\n2:  FAIL 4\nopen:\n    mv s6, ra\n    li a7, 56\n    li a0, -100\n    mv a1, s5\n    li a2, 9\n    li a3, 0\n    li a4, 0\n    jal ra, hostcall\n    jr s6\nhostcall:\n    sd a7, 0(s0)\n    sd a0, 8(s0)\n    sd a1, 16(s0)\n    sd a2, 24(s0)\n    sd a3, 32(s0)\n    sd a4, 40(s0)\n    li t1, 0x80f00000\n    sd s0, 0(t1)\n9:  ld t2, 0(t1)\n    bnez t2, 9b\n    ld a0, 0(s0)\n    ret\n'
