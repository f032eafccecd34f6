"""The properties, and the generator of properties.jsonl and MANIFEST.json (python3 tools/props.py)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
ENGINE = 'abstract interpretation of the compiler\'s MIR (bit-provenance/value-numbering domain, path-partitioned effect summaries) compared with a specification table'
STRUCT = 'structural MIR analysis (resolved call graph, dominators, constant tables)'


def p(id, title, statement, over, text, why, files, mech, technique=ENGINE, state=(), note=None, observe=('architectural state after each executed instruction',)):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, state=state, note=note, observe=list(observe)))


NOTE = ('Sound up to the trusted base for the paths and obligations reported as met: every feasible path of the code is summarised with all inputs unknown, and its effects equal the table\'s. '
        'Obligations whose two normal forms differ without a separating valuation are listed as undecided in the evidence and are not claimed. '
        'Trusted: rustc MIR, the library transfer functions in sa/models.py, the transcription of the RISC-V manuals in sa/.')

EXE = 'src/cpu/execution'
DEC = 'src/cpu/decode'

p('C01', 'Integer computational instructions compute what the RISC-V manual says',
  'For every operand value and every register choice, each RV32I/RV64I computational instruction (LUI, AUIPC, register-register, register-immediate, word forms) leaves exactly the architecturally specified value in rd, advances pc past itself and changes no other architectural state. Shift amounts, sign extension of word results and the register width follow XLEN.',
  ['inputs', 'programs'], 'every encoding of the 30 instructions, every register number, immediate and 2 x XLEN-bit operand values, RV32 and RV64',
  'Two decode tests compare a handful of words and none executes a computational instruction; operand space is 2^128 per instruction.',
  [EXE + '/inst_32/base_i.rs', DEC + '/inst_32/base_i.rs'], [('execution of base instructions', EXE + '/inst_32/base_i.rs'), ('field and immediate extraction', DEC + '/inst_32/base_i.rs')])

p('C02', 'Jumps and branches transfer control and link exactly as specified',
  'For every operand value, JAL, JALR and the six conditional branches set pc to the specified target exactly when the condition holds (with bit 0 cleared for JALR), write the link address to rd, and otherwise fall through. A transfer to the instruction\'s own address is a transfer like any other.',
  ['inputs', 'programs'], 'every encoding, register number, offset, operand value and pc, RV32 and RV64',
  'No test executes a branch or jump; corner cases (rd = rs1, target = own address, offset sign) need specific operands.',
  [EXE + '/inst_32/base_i.rs', 'src/cpu.rs'], [('branch execution', EXE + '/inst_32/base_i.rs'), ('pc update', 'src/cpu.rs')])

p('C03', 'Loads and stores access the specified bytes with the specified extension',
  'Each load or store translates rs1+imm once for the right purpose and alignment, performs exactly one bus access of its width at the translated address, and sign- or zero-extends the loaded value into rd or stores the low bytes of rs2. When translation or the access fails, the instruction reports that failure and changes no register.',
  ['inputs', 'programs', 'fault_sequences'], 'every encoding, address, data value and outcome of translation and bus access, RV32 and RV64',
  'The tests call DRAM directly; no test executes a load or store instruction, and none makes one fail.',
  [EXE + '/inst_32/base_i.rs', 'src/bus.rs'], [('load/store execution', EXE + '/inst_32/base_i.rs'), ('address translation entry', 'src/cpu.rs')])

p('C04', 'Multiplication, division and remainder follow the M extension in every corner',
  'For every operand pair, MUL*, DIV*, REM* and their word forms give the specified result, including division by zero (all ones, dividend), signed overflow (dividend, zero), and sign extension of word results, and the emulator never aborts on any operand pair.',
  ['inputs'], 'every pair of XLEN-bit operands, every register number, RV32 and RV64',
  'No test executes an M instruction, and the special cases are single points in a 2^128 space.',
  [EXE + '/inst_32/m_extension.rs', DEC + '/inst_32/m_extension.rs'], [('M execution', EXE + '/inst_32/m_extension.rs')],
  note=NOTE + ' The high 64 bits of the 128-bit products MULH/MULHU/MULHSU on RV64 are decided by point separation only (undecided when the forms differ without a separating valuation).')

p('C05', 'Atomic instructions are one read-modify-write with the specified operation',
  'LR, SC and the AMOs read memory once, write the specified combination of the old value and rs2 once, and return the sign-extended old value in rd. SC writes only when the reservation covers its address, reports success as 0 and failure as non-zero, and always gives up the reservation; a failing access leaves rd unchanged and is reported as a store/AMO exception (a load exception for LR).',
  ['inputs', 'histories', 'fault_sequences'], 'every encoding, address, memory and register value, reservation state and outcome of translation, read and write',
  'No test executes an A instruction; wrong operand order or a partial update on a fault is invisible to decode tests.',
  [EXE + '/inst_32/a_extension.rs'], [('A execution', EXE + '/inst_32/a_extension.rs'), ('reservation', 'src/cpu.rs')])

p('C06', 'Every compressed instruction acts as the 32-bit instruction it abbreviates',
  'For every 16-bit encoding of the RV32C/RV64C instructions the emulator implements, decoding and executing it has exactly the effect of its defined expansion (operands, immediates scaled and extended as specified), except that pc and link addresses advance by 2. Hint encodings change nothing but pc.',
  ['inputs', 'programs'], 'every 16-bit word of the integer C extension, every register and memory content, RV32 and RV64',
  'One test executes one C.LI word; scattered immediate bits make single-bit slips invisible to samples.',
  [EXE + '/inst_16/c_extension.rs', DEC + '/inst_16.rs', DEC + '/inst_16/c_extension.rs'], [('C decoding', DEC + '/inst_16/c_extension.rs'), ('C execution', EXE + '/inst_16/c_extension.rs')])

p('C07', 'Every word decodes or is an illegal instruction; the decoder never aborts',
  'For each of the 2^32 words (and 2^16 compressed words) decoding terminates with either an instruction or an illegal-instruction exception and never stops the emulator. Words that the manual leaves unassigned in the implemented opcodes, and the all-zero word, are illegal instructions, not some other instruction.',
  ['inputs'], 'every 32-bit and 16-bit instruction word, RV32 and RV64',
  'The decode tests check that sampled valid words give the right kind; nothing checks the invalid remainder or decoder totality.',
  [DEC + '.rs', DEC + '/inst_32.rs', DEC + '/inst_16.rs'], [('opcode dispatch', DEC + '/inst_32.rs'), ('illegal fallback', DEC + '.rs')])

p('C08', 'x0 always reads zero and registers hold XLEN-bit values',
  'Reading x0 yields zero whatever was written to it, writing one register never changes another, and a register read returns the XLEN low bits of the last value written to it. No instruction naming x0 as destination changes any register.',
  ['programs', 'histories'], 'every register number and value, every instruction that has a destination register, RV32 and RV64',
  'Tests set registers directly and never target x0.',
  ['src/cpu/reg.rs'], [('register file access', 'src/cpu/reg.rs')])

p('C09', 'Exceptions are precise: a trapping instruction has no other effect',
  'When an instruction raises an exception (illegal, privileged, breakpoint, environment call, translation or bus failure), every integer register, every CSR, the privilege level and pc are exactly as before the instruction and no memory access has completed a write.',
  ['programs', 'fault_sequences'], 'every instruction of the emulator, every privilege level, every operand and every failing point inside the instruction',
  'No test makes an instruction trap; partial effects need a fault at a specific point inside an instruction.',
  [EXE + '.rs', 'src/cpu/trap.rs', 'src/lib.rs'], [('early return before effects', EXE)])

p('C10', 'ECALL, EBREAK, FENCE and WFI behave as specified at every privilege level',
  'ECALL raises the environment-call exception of the current privilege level with trap value 0, EBREAK raises a breakpoint exception whose trap value is the pc, and both leave pc at themselves. FENCE, FENCE.I and WFI complete without changing registers, CSRs or memory.',
  ['programs'], 'every encoding, pc and privilege level, RV32 and RV64',
  'No test executes a system instruction.',
  [EXE + '/inst_32/base_i.rs', EXE + '/inst_32/priv_extension.rs'], [('system instructions', EXE)])

p('C11', 'CSR instructions swap, set and clear exactly the specified bits',
  'CSRRW/CSRRS/CSRRC and their immediate forms place the old CSR value in rd and write, set or clear with rs1 or the zero-extended 5-bit immediate. The set and clear forms with rs1=x0 (or a zero immediate) do not write; rd=x0 keeps no result.',
  ['programs', 'inputs'], 'every CSR instruction encoding with every CSR number class, operand value and destination',
  'No test executes a CSR instruction.',
  [EXE + '/inst_32/zicsr_extension.rs', 'src/cpu/csr.rs'], [('CSR execution', EXE + '/inst_32/zicsr_extension.rs')])

p('C12', 'CSR access is refused exactly where privilege, read-only or enables forbid it',
  'An access to a CSR of a higher privilege level, a write to a read-only CSR, an access to an unimplemented CSR number, a user counter disabled by mcounteren/scounteren, or satp from supervisor mode with TVM set raises an illegal-instruction exception and changes nothing. Accesses the rules allow are never refused.',
  ['programs', 'configurations'], 'all 4096 CSR numbers, three privilege levels, every value of the enable bits, reading and writing forms',
  'No test accesses a CSR through an instruction.',
  [EXE + '/inst_32/zicsr_extension.rs'], [('accessibility check', EXE + '/inst_32/zicsr_extension.rs')])

p('C13', 'CSR views and field rules: sstatus, sie, sip, ustatus, xepc, misa, MPP',
  'sstatus, sie, sip and ustatus read and write exactly their subset of the machine CSR\'s bits and leave every other bit alone. xepc reads with its low bit(s) clear according to misa.C, mstatus.MPP never holds the reserved level, RV64 mstatus.SXL/UXL stay 64-bit, and every other CSR write changes only the addressed CSR.',
  ['histories', 'inputs'], 'every CSR number, every old and written value, write, set and clear forms, RV32 and RV64',
  'No test reads or writes a CSR.',
  ['src/cpu/csr.rs', 'src/cpu/csr/csr_map.rs', 'src/cpu/csr/xstatus.rs'], [('view masks', 'src/cpu/csr.rs')])

p('C14', 'Trap entry saves and sets exactly the specified state',
  'Taking a trap sets xcause (with the interrupt bit in the XLEN\'s top position), xepc to the trapped pc, xtval to the given value, xPIE to xIE, xIE to 0 and xPP to the previous privilege level, enters level x, and continues at xtvec\'s base, or at base+4*cause for interrupts in vectored mode. No other CSR bit and no register changes.',
  ['programs', 'fault_sequences', 'configurations'], 'every cause, previous privilege level, delegation setting, tvec mode, pc and CSR content, RV32 and RV64',
  'No test takes a trap.',
  ['src/cpu/trap.rs'], [('trap', 'src/cpu/trap.rs')])

p('C15', 'Delegation sends a trap to S-mode exactly when the manual says so',
  'A trap is taken in supervisor mode exactly when its bit in medeleg (exceptions) or mideleg (interrupts) is set and the hart was below machine mode; otherwise it is taken in machine mode. A trap never lowers the privilege level.',
  ['programs', 'configurations'], 'every cause, privilege level and content of medeleg and mideleg',
  'No test takes a trap.',
  ['src/cpu/trap.rs'], [('get_deleg', 'src/cpu/trap.rs')])

p('C16', 'MRET, SRET and SFENCE.VMA restore or refuse exactly as specified',
  'MRET and SRET set privilege to xPP, xIE to xPIE, xPIE to 1, xPP to user and pc to xepc, changing nothing else. Used from too low a privilege level, or when TSR (SRET) or TVM (SFENCE.VMA) forbids it in supervisor mode, they raise an illegal-instruction exception instead.',
  ['programs', 'configurations'], 'three privilege levels, every mstatus, mepc and sepc content, RV32 and RV64',
  'No test executes a return instruction.',
  [EXE + '/inst_32/priv_extension.rs'], [('privileged execution', EXE + '/inst_32/priv_extension.rs')])

p('C18', 'Pending enabled interrupts are taken in the specified order and no others',
  'Before each instruction the hart takes an interrupt exactly when one is pending, individually enabled and its target level permits it (global enable, or target above the current level), machine-level ones before delegated ones and in the order external, software, timer. Otherwise no interrupt is taken and the pending bits mirror the timer comparison and the interrupt controller.',
  ['schedules', 'configurations', 'histories'], 'every content of mip, mie, mideleg, mstatus, mtime, mtimecmp and interrupt-controller state, three privilege levels',
  'No test raises an interrupt.',
  ['src/cpu/trap.rs'], [('check_interrupt', 'src/cpu/trap.rs')])

p('C19', 'Sv32/Sv39 page walks compute the specified physical address',
  'With paging on in S- or U-mode every access walks the page table named by satp with the specified index fields, PTE size and levels, and translates through leaf PTEs at any level with the superpage offset rule; a walk whose page-table entry lies outside memory is an access fault. With paging off, in bare mode or in machine mode, the physical address is the virtual address.',
  ['inputs', 'histories', 'configurations'], 'every virtual address, satp content and page-table content, Sv32 and Sv39',
  'No test turns paging on.',
  ['src/cpu/mmu.rs'], [('trans_addr', 'src/cpu/mmu.rs')])

p('C20', 'Page permissions are enforced: no access the PTE forbids, a fault for each',
  'An access through an invalid, reserved, misaligned-superpage or non-leaf last-level PTE, a leaf without the needed R/W/X permission (with MXR), a U page from S-mode without SUM or by instruction fetch, a non-U page from U-mode, or a leaf whose A (or D for writes) bit is clear raises the page fault of the access type. An access all of these permit is not refused.',
  ['inputs', 'configurations'], 'every PTE value, purpose, effective privilege, SUM and MXR',
  'No test turns paging on.',
  ['src/cpu/mmu.rs'], [('page protection checks', 'src/cpu/mmu.rs')])

p('C21', 'PMP decides accesses by the lowest-numbered matching entry',
  'The lowest-numbered active PMP entry that matches an access decides it by its R/W/X bits for S- and U-mode (and for M-mode when locked), with OFF entries skipped and TOR, NA4 and NAPOT ranges as specified. With no active entry every access is allowed; with some active entry, an S- or U-mode access that no entry matches is refused. A refused access is an access fault of its type.',
  ['inputs', 'configurations'], 'every address and every content of the pmpcfg and pmpaddr CSRs',
  'No test configures PMP.',
  ['src/cpu/mmu/pmp.rs'], [('pmp check', 'src/cpu/mmu/pmp.rs')])

p('C22', 'Effective privilege and misalignment faults of memory accesses',
  'Loads and stores made in machine mode with mstatus.MPRV set are translated and checked at the privilege in MPP, instruction fetches never are. A misaligned access raises the misaligned exception of its type with the virtual address as trap value, and never reaches memory.',
  ['inputs', 'configurations'], 'every address, access size, purpose, privilege level and mstatus content',
  'No test goes through address translation.',
  ['src/cpu.rs'], [('Cpu::trans_addr', 'src/cpu.rs')])

p('C23', 'Instruction fetch assembles the word at pc from 16-bit parcels',
  'A fetch returns the two bytes at pc as a compressed instruction when their two low bits are not both set, and otherwise the four bytes at pc in little-endian order, with the second parcel translated at its own address. A failing parcel raises the instruction page or access fault with that parcel\'s address and nothing is executed.',
  ['inputs', 'fault_sequences'], 'every pc and memory content, every failing access of a fetch',
  'No test fetches.',
  ['src/cpu/fetch.rs'], [('fetch', 'src/cpu/fetch.rs')])

p('C24', 'Each bus access reaches exactly the device that owns the address',
  'A naturally aligned bus access of any width reaches the single device whose address range holds it (boot ROM 0x1000+4K, CLINT 0x2000000+64K, PLIC 0xc000000+16M, UART 0x10000000+256, memory), and an access outside every device, or of a width the device does not serve, is refused as an access fault carrying the address, without side effects. No guest-chosen physical address makes the emulator itself abort.',
  ['inputs'], 'every 64-bit physical address, every width, loads and stores',
  'Tests address one DRAM object directly at valid addresses.',
  ['src/bus.rs', 'src/bus/dram.rs', 'src/bus/clint.rs', 'src/bus/plic.rs', 'src/bus/uart.rs', 'src/bus/mrom.rs'], [('bus dispatch', 'src/bus.rs'), ('in_range', 'src/bus/*.rs')])

p('C25', 'DRAM is little-endian byte memory at every width',
  'A store of n bytes changes exactly those n bytes, and a load of n bytes returns them in little-endian order, sign- or zero-extended as requested, so all widths agree about every byte.',
  ['inputs', 'histories'], 'every in-range address, width, stored value and prior content',
  'Six tests store and load single values at fixed addresses with the same width.',
  ['src/bus/dram.rs'], [('load and store', 'src/bus/dram.rs')])

p('C26', 'CLINT registers: mtime, mtimecmp and msip access and time advance',
  'CLINT loads and stores of 32 and 64 bits reach the same bytes in little-endian order at every in-range offset, and mtime advances only by the emulator\'s clock step by exactly that step, as one 64-bit number. Other widths are refused without changing anything.',
  ['inputs', 'histories'], 'every offset, width, value and prior content',
  'No test touches the CLINT.',
  ['src/bus/clint.rs', 'src/cpu.rs'], [('CLINT access', 'src/bus/clint.rs'), ('timer_increment', 'src/cpu.rs')])

p('C27', 'PLIC claim, complete, enable and priority follow the PLIC specification',
  'A claim returns the highest-priority pending source enabled for that context (0 when none) and marks it claimed so that it is not offered again until completed; priority and enable registers hold what was written. The external-interrupt pending bit of a context is set exactly while it has a source to offer.',
  ['inputs', 'histories'], 'every register offset, value and PLIC state; sources 0 to 30 and all contexts',
  'No test touches the PLIC.',
  ['src/bus/plic.rs'], [('PLIC access', 'src/bus/plic.rs')])

p('C28', 'UART registers follow the 16550 model',
  'Each UART register offset reads and writes the 16550 register it names (with DLAB switching), a transmitted byte is written to the console exactly once, every byte of console input is delivered in order exactly once whether or not it is text, and the interrupt line to the interrupt controller is raised exactly when an enabled cause is present.',
  ['inputs', 'histories'], 'every register offset, value and UART state',
  'No test touches the UART.',
  ['src/bus/uart.rs', 'src/bus/uart/io.rs'], [('UART access', 'src/bus/uart.rs'), ('update_interrupt', 'src/bus/uart/io.rs')])

p('C29', 'The boot ROM hands the program its entry point and device tree and is read-only',
  'The reset code in the boot ROM loads the entry address of the loaded program and jumps to it with a0 the hart id and a1 the device tree address; the device tree follows the code at that address. No guest store changes the boot ROM.',
  ['configurations', 'inputs'], 'every entry address, device tree and XLEN; every store width and address',
  'No test reads the boot ROM.',
  ['src/bus/mrom.rs'], [('reset vector', 'src/bus/mrom.rs')])

p('C30', 'Host calls pass the guest\'s arguments to the right host call and report errors',
  'Each supported system call number is served by its own host call with the guest\'s arguments in the specified order, the host\'s result (or negated errno) is returned to the guest in the request block, and an unsuccessful call changes no guest memory besides. Exit status reaches the host process unchanged, and the program\'s arguments are handed over in the layout the guest expects.',
  ['programs', 'inputs', 'fault_sequences'], 'every supported call number, arguments and host outcome',
  'No test issues a system call.',
  ['src/fesvr.rs', 'src/fesvr/syscall.rs'], [('handle_syscall', 'src/fesvr.rs')])

p('C31', 'Guest file descriptors reach only files the guest opened (and stdio)',
  'A guest descriptor denotes the host descriptor the guest opened under it, from opening until closing, and no guest number reaches another host descriptor. An unknown guest descriptor makes the call fail without touching a host descriptor.',
  ['histories', 'inputs'], 'every sequence of open and close and every guest descriptor number',
  'No test opens a file through the guest interface.',
  ['src/fesvr.rs', 'src/fesvr/syscall.rs'], [('fd table', 'src/fesvr.rs')])

p('C32', 'ELF headers are read at the offsets the ELF specification assigns',
  'For both ELF classes every header, program-header and section-header field is read at its specified offset, width and byte order, and the class byte alone selects between them. A file without the ELF magic is rejected rather than loaded.',
  ['inputs'], 'every field of the three header kinds, ELF32 and ELF64',
  'No test loads an ELF file.',
  ['src/elfload.rs', 'src/elfload/elf_32', 'src/elfload/elf_64'], [('header parsing', 'src/elfload')], observe=('parsed header values',))

p('C33', 'Program segments are loaded where the ELF says and only inside memory',
  'Memory starts at the physical address of the first PT_LOAD segment, where execution starts. Each PT_LOAD segment\'s file bytes appear in guest memory at its physical address, a kernel image at 4 MiB (RV32) or 2 MiB (RV64) into memory, an initial ramdisk where initrd_start and initrd_end say, and every other byte is zero; other segment kinds load nothing. An image that does not fit stops the emulator and is never written elsewhere.',
  ['inputs'], 'every program header table and memory size', 'No test loads an ELF file.',
  ['src/bus/dram.rs', 'src/elfload.rs'], [('segment copy', 'src/bus/dram.rs')])

p('C34', 'The device tree describes the machine that is emulated',
  'The guest finds, at the address passed in a1, a well-formed flattened device tree whose references resolve to one node each. The addresses, sizes, interrupt numbers and wiring, ISA string, translation mode, PMP entries, timebase, memory and initrd ranges in it are those of the devices and memory that are emulated, for every configuration.',
  ['configurations'], 'RV32 and RV64, memory at several addresses, with and without initrd',
  'No test generates a device tree.',
  ['src/bus/device_tree/dts.rs', 'src/bus'], [('device tree source', 'src/bus/device_tree/dts.rs'), ('device tree compiler', 'src/bus/device_tree/dtb')], observe=('device tree handed to the guest',))

p('C35', 'The log level never changes what the guest computes',
  'Guest-visible state after any number of steps is the same at every log level: log settings decide only what is printed.',
  ['configurations', 'programs'], 'every log level and every function of the emulator', 'No test sets a log level, and the effect of a level is global.',
  ['src/log.rs', 'src'], [('log macros', 'src/log.rs')], technique='effect analysis: taint of log-level values in MIR control dependence')

p('C36', 'Each emulator cycle executes one instruction and takes each trap once',
  'One cycle samples interrupts, then fetches, decodes and executes exactly one instruction; a pending interrupt or any exception of these phases leads to exactly one trap with its cause and value, and nothing else runs in that cycle. Guest time and the instruction counter advance by the fixed step whatever the instructions do.',
  ['schedules', 'programs'], 'every outcome of every phase', 'No test runs the emulator loop.',
  ['src/lib.rs', 'src/cpu.rs'], [('exec_one_cycle', 'src/cpu.rs'), ('emulation loop', 'src/lib.rs')])

p('C37', 'The hart starts in the specified reset state',
  'At reset the hart is in machine mode with pc at the boot ROM, address translation off, no reservation, no interrupt enabled, and identification CSRs and misa as the implemented ISA requires.',
  ['configurations'], 'RV32 and RV64', 'The tests build the hart state by hand.',
  ['src/cpu.rs', 'src/cpu/csr.rs', 'src/lib.rs'], [('Cpu::new', 'src/cpu.rs')])

p('C38', 'Hardware breakpoints fire exactly on the accesses their triggers describe',
  'A load, store or fetch whose virtual address equals the address of any enabled address-match trigger for that access type and privilege level raises a breakpoint exception with that address, before the access; every other access proceeds. Trigger registers are selected by tselect and hold what was written.',
  ['inputs', 'configurations'], 'every address, purpose, privilege level and content of the eight triggers', 'No test sets a trigger.',
  ['src/cpu/csr/breakpoint.rs'], [('check_breakpoint', 'src/cpu/csr/breakpoint.rs')])

p('C39', 'Only traps and trap returns change the privilege level',
  'Across any instruction other than MRET and SRET, and across fetch, translation and device activity, the privilege level stays what it was. Taking a trap never lowers it, MRET and SRET never raise it, and the reserved level is never entered.',
  ['programs', 'histories'], 'every code path of the emulator that can write the privilege level', 'No test changes privilege.',
  ['src/cpu.rs', 'src/cpu/trap.rs', EXE + '/inst_32/priv_extension.rs'], [('priv_lv writers', 'src/cpu')], technique='who-may-write analysis on the resolved MIR call graph')

p('C40', 'Every guest memory access of an instruction or fetch is translated first',
  'No instruction and no fetch touches the bus except at an address that address translation returned for that same access purpose and at least that width in the same cycle.',
  ['programs', 'histories'], 'every bus access site reachable from fetch and execution', 'No test uses translation.',
  ['src/cpu', 'src/fesvr'], [('trans_addr before bus access', 'src/cpu')])

p('C41', 'The command line decides program, entry, images, arguments and mode',
  'For every command line: the file loaded is the one --pk names, else the program file, and one that cannot be read or is not ELF is refused; without a show option the guest is run once, with one only the data it names is shown (-e header, -p segments, '
  '-s and -d sections, -a everything); --pc is a hexadecimal entry address with or without 0x and anything else is refused; --kernel and --initrd each name their own image; the guest\'s argument vector is the --pk file (if any), the program file, and the remaining '
  'arguments unchanged and in order; --loglv selects the level of its name, no level means no log.',
  ['inputs'], 'every combination of options and arguments', 'No test parses a command line or calls main.',
  ['src/cmdline.rs', 'src/main.rs'], [('option parsing', 'src/cmdline.rs: Arguments::new'), ('mode dispatch', 'src/main.rs: main')])


def built(id):
    return os.path.exists(os.path.join(V, 'sa', 'checks', id.lower() + '.py'))


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for x in P:
            d = {'id': x['id'], 'title': x['title'], 'statement': x['statement'], 'quantifier': {'over': x['over'], 'text': x['text']}, 'why_tests_cant': x['why'],
                 'anchors': {'files': x['files'], 'mechanism': [{'name': a, 'where': b} for a, b in x['mech']], 'observe_at': x['observe'], 'hook_needed': None}}
            f.write(json.dumps(d) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3 sa/dump.py build', 'checks': [], 'not_applicable': [], 'notes': 'Each check re-extracts MIR from /repo and decides statically; see DESIGN.md.'}
    for x in P:
        if built(x['id']):
            m['checks'].append({'property': x['id'], 'quick_cmd': 'python3 sa/run.py ' + x['id'], 'thorough_cmd': 'python3 sa/run.py ' + x['id'],
                                'technique': x['technique'], 'level': 'other', 'level_note': x['note'] or NOTE})
        else:
            m['not_applicable'].append({'property': x['id'], 'reason': x.get('na') or 'no check has been built for it yet'})
    for id, why in NA.items():
        m['not_applicable'].append({'property': id, 'reason': why})
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    print(len(P), 'properties', len(m['checks']), 'checks')


NA = {}
if __name__ == '__main__':
    main()
