prop = 'C26'
needs = 'RV32: mtimecmp written in two halves, upper half nonzero'
breaks = 'a 32-bit store to the CLINT of a negative value fills the following word with ones'
edits = [('src/bus/clint.rs', '''        let addr = self.addr2index(addr);
        self.clint[addr + 3] = ((data >> 24) & 0xFF) as u8;
        self.clint[addr + 2] = ((data >> 16) & 0xFF) as u8;
        self.clint[addr + 1] = ((data >> 8) & 0xFF) as u8;
        self.clint[addr + 0] = ((data >> 0) & 0xFF) as u8;
        Ok(())
    }

    fn store64''', '''        if data as i32 as i64 as u64 == data && addr % 8 == 0 {
            return self.store64(addr, data);
        }
        let addr = self.addr2index(addr);
        self.clint[addr + 3] = ((data >> 24) & 0xFF) as u8;
        self.clint[addr + 2] = ((data >> 16) & 0xFF) as u8;
        self.clint[addr + 1] = ((data >> 8) & 0xFF) as u8;
        self.clint[addr + 0] = ((data >> 0) & 0xFF) as u8;
        Ok(())
    }

    fn store64''')]
prog = '''
# xlen 64
.include "pre.inc"
    li a0, 0x02004000
    li a1, 5
    sw a1, 4(a0)
    li a1, 7
    sw a1, 0(a0)
    lw a2, 4(a0)
    EXPECT 2, a2, 5
    lw a2, 0(a0)
    EXPECT 3, a2, 7
    PASS
'''
