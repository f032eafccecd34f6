prop = 'C09'
needs = 'a store that faults on the bus (not in translation)'
breaks = 'an AMO to a read-only device returns the old value although it traps'
edits = [('src/cpu/execution/inst_32/a_extension.rs', '''    let rs2_data = cpu.regs.read(inst.rs2);
    cpu.bus
        .store64(amo_addr, operation(loaded_data, rs2_data))?;
    cpu.regs.write(inst.rd, loaded_data);''', '''    let new_data = operation(loaded_data, cpu.regs.read(inst.rs2));
    cpu.regs.write(inst.rd, loaded_data);
    cpu.bus.store64(amo_addr, new_data)?;''')]
needs = 'AMO.D on the boot ROM, whose load succeeds and whose store is refused'
prog = '''
# xlen 64
.include "pre.inc"
    MTVEC mhandler
    li a0, 0x1000
    li a1, 77
    amoadd.d a1, zero, (a0)
    EXPECT 2, a1, 77
    PASS
.balign 4
mhandler:
    csrr t0, mepc
    addi t0, t0, 4
    csrw mepc, t0
    mret
'''
