prop = 'C06'
needs = 'C.SWSP with an offset of 64 bytes or more'
breaks = 'two offset bits of C.SWSP are exchanged, so stores at larger offsets hit another stack slot'
edits = [('src/cpu/decode/inst_16/c_extension.rs', 'inst.slice(12, 7).set(&[5, 4, 3, 2, 7, 6]) as i32;', 'inst.slice(12, 7).set(&[5, 4, 3, 2, 6, 7]) as i32;')]
prog = '''
# xlen 64
.include "pre.inc"
    li sp, 0x80200000
    sd zero, 64(sp)
    sd zero, 128(sp)
    li a0, 5
    li a1, 7
.option rvc
    c.swsp a0, 12(sp)
    c.swsp a1, 64(sp)
.option norvc
    lw a2, 12(sp)
    EXPECT 2, a2, 5
    lw a2, 64(sp)
    EXPECT 3, a2, 7
    PASS
'''
