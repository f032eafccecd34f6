prop = 'C28'
needs = 'the divisor latch selected while the divisor is programmed'
breaks = 'programming the upper divisor byte changes the interrupt enables'
edits = [('src/bus/uart.rs', '''                if self.uart[LCR] & LcrMask::DLAB as u8 == 0 {
                    self.uart[IER] = data as u8 & 0x0f;
                } else {
                    self.dlm = data as u8;
                }''', '''                if self.uart[LCR] & LcrMask::DLAB as u8 != 0 {
                    self.dlm = data as u8;
                }
                self.uart[IER] = data as u8 & 0x0f;''')]
prog = '''
# xlen 64
.include "pre.inc"
    li a0, 0x10000000
    li a1, 1
    sb a1, 1(a0)
    li a1, 0x80
    sb a1, 3(a0)
    sb zero, 1(a0)
    li a1, 3
    sb a1, 3(a0)
    lb a2, 1(a0)
    EXPECT 2, a2, 1
    PASS
'''
