prop = 'C30'
needs = 'a seek beyond 2 GiB'
breaks = 'the file offset of lseek is cut to 32 bits on its way to the host'
edits = [('src/fesvr/syscall.rs', 'libc::lseek(self.fd_lookup(fd) as i32, ptr as i64, dir as i32)', 'libc::lseek(self.fd_lookup(fd) as i32, ptr as i32 as i64, dir as i32)')]
prog = '''
# xlen 64
.include "pre.inc"
    # openat(AT_FDCWD, "/dev/null" -> a regular file is needed: open the emulated program itself
    li s0, 0x80010000
    li t0, 56
    sd t0, 0(s0)
    li t0, -100
    sd t0, 8(s0)
    jal t0, 4f
    .ascii "/proc/self/exe"
    .balign 4
4:  sd t0, 16(s0)
    li t0, 14
    sd t0, 24(s0)
    sd zero, 32(s0)
    sd zero, 40(s0)
    jal ra, hostcall
    ld s1, 0(s0)
    bltz s1, 1f
    li t0, 62
    sd t0, 0(s0)
    sd s1, 8(s0)
    li t0, 0x123456780
    sd t0, 16(s0)
    sd zero, 24(s0)
    jal ra, hostcall
    ld s1, 0(s0)
    li t0, 0x123456780
    bne s1, t0, 2f
    PASS
1:  FAIL 4
2:  FAIL 5
hostcall:
    li t1, 0x80f00000
    sd s0, 0(t1)
3:  ld t2, 0(t1)
    bnez t2, 3b
    ret
'''
