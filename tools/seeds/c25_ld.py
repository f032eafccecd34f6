prop = 'C25'
needs = 'LD of a value with the top bit of its lower word set and a nonzero upper word'
breaks = 'the lower word of a doubleword load is sign-extended into the upper one when bit 31 is set'
edits = [('src/bus/dram.rs', '''            | (self.dram[index + 3] as u64) << 24
            | (self.dram[index + 2] as u64) << 16
            | (self.dram[index + 1] as u64) << 8
            | (self.dram[index + 0] as u64))
    }

    fn load_u8''', '''            | ((self.dram[index + 3] as i32) << 24) as u64
            | (self.dram[index + 2] as u64) << 16
            | (self.dram[index + 1] as u64) << 8
            | (self.dram[index + 0] as u64))
    }

    fn load_u8''')]
prog = '''
# xlen 64
.include "pre.inc"
    li a0, 0x80200000
    li a1, 0x1234567812345678
    sd a1, 0(a0)
    ld a2, 0(a0)
    li t6, 0x1234567812345678
    beq a2, t6, 1f
    FAIL 2
1:
    li a1, 0x12345678f2345678
    sd a1, 0(a0)
    ld a2, 0(a0)
    beq a2, a1, 2f
    FAIL 3
2:
    PASS
'''
