prop = 'C03'
needs = 'SH of a negative halfword to a word-aligned address on RV64'
breaks = 'SH stores a whole word when the halfword has its sign bit set'
edits = [('src/cpu/execution/inst_32/base_i.rs', 'cpu.bus.store16(store_addr, cpu.regs.read(inst.rs2))?;', '''let data = cpu.regs.read(inst.rs2);
            if store_addr % 4 == 0 && data as i16 as i64 as u64 == data && data >> 63 == 1 {
                cpu.bus.store32(store_addr, data)?; // a sign-extended word
            } else {
                cpu.bus.store16(store_addr, data)?;
            }''')]
prog = '''
# xlen 64
.include "pre.inc"
    li a0, 0x80200000
    sd zero, 0(a0)
    li a1, 0x1234
    sh a1, 0(a0)
    ld a2, 0(a0)
    EXPECT 2, a2, 0x1234
    li a1, -2
    sh a1, 0(a0)
    ld a2, 0(a0)
    EXPECT 3, a2, 0xfffe
    PASS
'''
