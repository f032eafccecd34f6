prop = 'C05'
needs = 'LR.D to one doubleword and SC.D to the neighbouring doubleword of the same 16 bytes'
breaks = 'SC.D succeeds although the reservation does not cover its address'
edits = [('src/cpu/execution/inst_32/a_extension.rs', 'OP_SC_D => {\n            let store_addr = cpu.trans_addr(\n                TransFor::StoreAMO,\n                TransAlign::Size64,\n                cpu.regs.read(inst.rs1),\n            )?;\n            // cache value == rs1 --> store rs2 to rs1 and assign zero to rd\n            // cache value != rs1 --> ignore and assign non-zero to rd\n            if cpu.reservation_set == Some(store_addr as usize) {', 'OP_SC_D => {\n            let store_addr = cpu.trans_addr(\n                TransFor::StoreAMO,\n                TransAlign::Size64,\n                cpu.regs.read(inst.rs1),\n            )?;\n            // a reservation covers the aligned 16 bytes around its address\n            if cpu.reservation_set.map(|r| r >> 4) == Some(store_addr as usize >> 4) {')]
prog = '''
# xlen 64
.include "pre.inc"
    li s0, 0x80010000
    li s1, 0x80010008
    lr.d a0, (s0)
    sc.d a1, a0, (s1)
    beqz a1, bad
    sc.d a1, a0, (s0)
    beqz a1, bad
    lr.d a0, (s0)
    sc.d a1, a0, (s0)
    bnez a1, bad
    PASS
bad:
    FAIL 2
'''
