HEAD = r'''# Static verification of carron

Generated by `tools/mkdesign.py` from `tools/design_text.py`, the properties, the seed files and the findings file.

## 1. What is here

| path | role |
|---|---|
| `properties.jsonl`, `MANIFEST.json` | the properties and the commands that decide them (written by `tools/props.py`) |
| `driver/` | a rustc driver (nightly, `rustc_public`) that compiles /repo's current working tree and dumps the *monomorphic MIR* of everything the lib and bin crate can reach (standard library included), with types, layouts, vtables and constants |
| `sa/dump.py` | builds the driver on first use and produces the dump; outside /repo, keyed by the tree's contents |
| `sa/bv.py`, `sa/interp.py`, `sa/models.py`, `sa/textmodels.py` | the abstract domain, the MIR abstract interpreter and the transfer functions of the library functions not interpreted from their own MIR |
| `sa/machine.py`, `isa.py`, `teval.py`, `spec.py`, `steps.py`, `group.py`, `func.py`, `csrmodel.py`, `csrinst.py`, `trapspec.py`, `mmuspec.py`, `scen.py`, `bytemem.py`, `elfimg.py`, `hostsys.py`, `fdt.py` | the abstract machine state and the *specification side*: tables and models transcribed from the RISC-V manuals, the ELF, DTB, PLIC, 16550 and HTIF documents, never from carron |
| `sa/flow.py`, `sa/scan.py` | structural analyses over the call graph and MIR (who writes a field, who consults the log level, what can abort) |
| `sa/checks/cNN.py` | one check per property; `sa/run.py CNN` runs it, prints the verdict and writes `evidence/CNN.json` |
| `known_findings.jsonl` | the genuine defects found, all repaired by `fix:` commits; nothing is suppressed |
| `seeded/`, `tools/seeds/`, `tools/seed.py`, `tools/demo/` | planted bugs, their sources, and the machinery that confirms them (guest programs run by the built emulator) |

Nothing in /repo is instrumented: there are no hooks, and the only commits are `fix:` repairs.

## 2. The technique

**Abstract interpretation of the compiler's intermediate representation.**  The unit of analysis is a *root*, a public function or
trait method such as `Cpu::exec_one_cycle`'s three stages, `Bus::store16`, `CSRs::write`, `Uart::tick`, `Dram::new`.  The root's
MIR, and that of everything it calls, is interpreted over an abstract domain with **every input unknown**: register contents, CSR
contents, memory bytes, instruction fields, addresses, command line, file contents, log level, host results.  Nothing of carron is
executed, no path is handed to a solver, and no input value is sampled.

*Domain* (`sa/bv.py`).  A machine word is a vector of bits, each either 0, 1, or a node of a hash-consed and/xor normal form over
named input bits ("bit *i* of x[rs1]"), together with Herbrand terms for operations kept opaque (wide additions, multiplications,
comparisons, array reads).  Two words that the code computes in different ways have *the same normal form* whenever the difference is
one of wiring, masking, extension, commutation, constant folding, or one of the listed algebraic laws.  That makes the comparison
insensitive to how the code is written.  Control flow is handled by *trace partitioning*: a branch on an unknown bit splits the
state and records the fact; a branch the facts decide does not split; loops whose trip count the facts determine unroll; a loop whose
count stays unknown past its budget stops the analysis of that root, which is reported as undecided.

*Transfer summaries.*  The result for one root is a set of (path facts, effect) pairs: final registers, pc, privilege level, CSRs,
reservation, memory accesses in order with address, width and data, device state, result value, abort or not.  Reads of unknown
memory and calls that are cut off (for instance the address translation when an instruction's own semantics are at stake) appear as
named events, so order and number matter.

*Oracle.*  `sa/isa.py`, `sa/csrmodel.py`, `sa/trapspec.py`, `sa/mmuspec.py`, and so on hold the specification as tables and small functions over
the same domain.  For each path the specification is evaluated under the path's facts and compared component by component: every
component the specification leaves unchanged must be *unchanged*, which is what makes "and nothing else happens" decidable.

*Structural analyses.*  C35, C39 and C40 additionally use the call graph and data flow: which functions may write the privilege
level, which code is control dependent on the log level and what it may do, and which function calls reach memory without a translation.

**Why this reaches what the tests cannot.**  The eight tests decode nine words and exercise the DRAM accessors.  Each check covers
all operand values, all register numbers, all CSR contents and all outcomes of the parts it cuts off, in one pass, in seconds.

### Verdicts

* **Obligation met**: the two normal forms are identical under the path's facts.  For the paths enumerated this is a proof, up to
  the trusted base below.
* **Violation**: the normal forms differ *and* a valuation of the inputs consistent with the path's facts makes them differ.  The
  report (file named on the VIOLATION line) names root, path, construct (`file:line` of the MIR span and the chain of calls), what was expected, what the code does, and that valuation.
* **Undecided**: the forms differ but no distinguishing valuation was found, or the interpreter met something it has no transfer
  function for, or a budget ran out.  Undecided obligations are listed in the evidence, count as *not* claimed, and never raise an alarm.
  On the unchanged tree the only ones are 3 in C04 (64-bit MULH forms) and 12 in C12 (paths whose facts have no valuation: infeasible paths kept by the partitioning).
* **Floors**: every check has minimum numbers of roots, paths and obligations.  Falling below without any undecided obligation means
  that the analysis looked at nothing and is a violation (for example a device no longer dispatched to); with undecided obligations it is undecided.
* If the tree does not compile or the dump cannot be produced the check fails.

### Trusted base

rustc's MIR (debug build, as built here: overflow checks are off in the profile, and the analysis wraps accordingly); the transfer
functions in `sa/models.py` and `sa/textmodels.py` (allocation, `Vec`, `VecDeque`, `HashMap`, iterators over them, formatting,
`Rc`/`RefCell`, `memmap`, channels, files, libc calls); the transcription of the specifications; the dumper.  The planted bugs and
about 600 one-off mutants guard against blind spots in these.

## 3. Treatment of harmless edits

Checks anchor on public functions and trait methods, look up private functions only to cut off recursion into
another property's subject (and a cut-off that does not exist any more makes the check undecided, not wrong), and compare behaviour.
About 45 behaviour-preserving refactorings (helpers extracted, matches turned into tables or `if`s, loops into iterators, byte
assembly into `from_le_bytes`, statements reordered, early returns, dynamic dispatch in the bus, fields addressed through masks) were
applied one at a time and in combination; all checks stayed quiet on all of them.  One attempted refactoring (NAPOT size through
`trailing_ones` and a shift) raised an alarm and turned out to be wrong for an address register of all ones: the alarm was right.

Idioms the interpreter cannot follow and therefore answers with "undecided": collecting an iterator of unknown length into a `Vec`
through raw allocation, by-value iteration over small arrays of structs in some contexts, arithmetic on fully unknown sums whose
rewritten form needs real arithmetic reasoning (e.g. NAPOT matching by mask arithmetic, unsigned minimum by subtraction).

## 4. Seeds, history sensitivity and time

`quick` and `thorough` run the same analyses except where noted (C27 follows longer operation sequences when `VERIF_TIER=thorough`):
the analyses are not sampled, so there is nothing to deepen by repetition.  All 39 checks together take about 8 minutes of CPU; the
slowest are C27 (70 s), C34 (60 s), C21 (53 s), C11 (45 s).
'''
R = 'Every encoding of the table group, on both ISAs, with all operand fields and all machine state unknown, is taken through decode and execute; each path\'s effect must equal the table entry\'s: '
PER = {
'C01': {'how': R + 'rd, pc+4, and nothing else.', 'bounds': 'none (all register values and immediates). Don\'t-care: funct7 junk in SLL/SLT/SLTU/XOR/OR/AND, shamt[5] on RV32.'},
'C02': {'how': R + 'target, link, taken/not taken, low bit of JALR cleared, misaligned-target rule.', 'bounds': 'none. Don\'t-care: JALR funct3.'},
'C03': {'how': R + 'one translation with the right purpose and alignment, one bus access of the right width at the translated address, extension, and what a fault leaves behind.', 'bounds': 'translation and bus are cut off as unknown functions with every outcome; their own behaviour is C19–C25.'},
'C04': {'how': R + 'products, quotients and remainders as Herbrand terms with the division corner cases (zero, overflow) split off.', 'bounds': '3 obligations on the upper half of 64-bit products stay undecided: the code\'s identity (sign-corrected unsigned product) is an algebraic law outside the domain; mutants of these lines are still caught where a valuation separates them.'},
'C05': {'how': R + 'order read-then-write, one address, old value to rd, reservation rules of LR/SC including failing SC, and every fault point.', 'bounds': 'single hart; the reservation set is an exact address (the smallest allowed).'},
'C06': {'how': 'Each 16-bit pattern and the 32-bit instruction the manual expands it to are both summarised and compared with the table, with pc stepping by 2.', 'bounds': 'reserved rd=0 forms are don\'t-care; hints must have no effect.'},
'C07': {'how': 'Decoding of all 16-bit and 32-bit words (every bit unknown, split only where the decoder splits) must end in an instruction exactly for assigned encodings of the ISA and in an illegal-instruction exception otherwise; no path may reach a panic, index out of bounds or unwrap of None, in decode or in the operand accessors used by execution.', 'bounds': 'none.'},
'C08': {'how': 'Register read/write summaries with unknown index and value, plus every instruction: x0 unchanged and read as zero, values fit XLEN on RV32.', 'bounds': 'none.'},
'C09': {'how': 'For every instruction and every path that ends in an exception: no register, CSR, pc, privilege or memory effect other than those the manual orders before the fault.', 'bounds': 'A host panic inside a cut-off callee is C07/C24\'s subject.'},
'C10': {'how': 'Each encoding at each privilege level with mstatus unknown: cause, tval, pc, no state change; WFI with TW.', 'bounds': 'WFI may be a no-op; FENCE fields are don\'t-care.'},
'C11': {'how': 'Each CSR instruction with CSR number, register numbers and values unknown: old value to rd, new value composition, suppression of the write for x0/zero immediates, order of read and write when rd = rs1.', 'bounds': 'the CSR file itself (C13) is exercised through its public read, write, set and clear.'},
'C12': {'how': 'For each instruction kind, ISA and privilege level with the CSR number symbolic-by-bit: the access is refused exactly when privilege, read-only, counter-enable or TVM rules refuse, or the number is unassigned.', 'bounds': 'machine-mode debug and custom numbers follow the implementation\'s documented list; 12 infeasible-path obligations undecided.'},
'C13': {'how': 'CSRs::write/bitset/bitclr/read and read_xstatus/write_xstatus are summarised with contents and data unknown and compared with a table of views, masks and WARL rules; aliasing views must agree.', 'bounds': 'reserved tvec modes and unsupported satp modes other than through writes are don\'t-care.'},
'C14': {'how': 'Trap entry with pc, mode, delegation, status and tvec unknown for each cause: xepc, xcause (interrupt bit at XLEN-1), xtval, the status stack, new privilege, new pc (direct and vectored).', 'bounds': 'none.'},
'C15': {'how': 'The same summaries: target privilege as a function of cause, current privilege, medeleg/mideleg.', 'bounds': 'none.'},
'C16': {'how': 'MRET, SRET, SFENCE.VMA at each privilege level with mstatus and xepc unknown: status stack, target, refusal.', 'bounds': 'MPRV clearing on xRET (priv. spec 1.12) is not required: carron models 20190608, where it is not.'},
'C18': {'how': 'check_interrupt with mip, mie, mideleg, mstatus and PLIC lines unknown in every mode: which interrupt is taken, or none; and what of mip it changes.', 'bounds': 'STIP mirrors the timer as carron documents.'},
'C19': {'how': 'Walks for Sv32 and Sv39 with the address, root and every PTE unknown (PTE reads are named events): number and addresses of PTE reads, leaf rule, superpage alignment, physical address, faults, canonical form.', 'bounds': 'PTE reserved bits 63:54 and PMP on PTE reads are outside (not modelled by carron; known limitation).'},
'C20': {'how': 'The same summaries for each purpose and privilege level: V/R/W/X/U/A/D with SUM and MXR decide access or the page fault of the right kind.', 'bounds': 'A/D handled by fault, as carron does.'},
'C21': {'how': 'PMP check with address and all entries unknown, in the shapes OFF/TOR/NA4/NAPOT per entry and entry pairs; and translation summaries in which the PMP answer is an unknown function: consulted with the physical address, answer obeyed.', 'bounds': 'NAPOT sizes are enumerated; matching by mask arithmetic would be undecided. Locked entries remain writable and partial matches are not modelled by carron (limitation).'},
'C22': {'how': 'Cpu::trans_addr with MMU cut off: privilege handed to the MMU (MPRV/MPP for loads and stores only), address cut to XLEN, misalignment fault kinds and priority.', 'bounds': 'priority between misaligned and page faults is implementation-defined and not constrained.'},
'C23': {'how': 'fetch with memory and translations unknown: parcel addresses, assembly order, compressed test, faults of each half with its own address.', 'bounds': 'none.'},
'C24': {'how': 'Every Bus method with a fully unknown address: the partition of the address space into owners, the callee\'s address/data, and the fault for everything else; no path may index outside a device\'s storage.', 'bounds': 'accesses that straddle the end of a device must fault or be refused, not abort.'},
'C25': {'how': 'Dram stores followed by loads of every width and offset over unknown contents; untouched bytes untouched.', 'bounds': 'addresses are base + aligned block + small offsets; blocks unknown.'},
'C26': {'how': 'CLINT accessors and Cpu::timer_increment with unknown contents and operands.', 'bounds': 'mtime/mtimecmp/msip layout as in the SiFive map.'},
'C27': {'how': 'Operation sequences from the constructor\'s state with unknown operands (enable masks, priorities, levels, thresholds, claims and completions in several orders) compared step by step with an executable transcription of the PLIC rules evaluated in the same domain.', 'bounds': 'sequence shapes are enumerated (about 40; more in the thorough tier); operands are unknown.'},
'C28': {'how': 'The console thread is followed on concrete inputs (texts, non-texts, every byte value, end of input): it must hand on every byte once and in order. As C27 for the UART: register reads and writes in unknown LCR/MCR/IER states, receive, FIFO reset, loopback, transmit as host events, IIR priority, interrupt line.', 'bounds': 'modem-status interrupts and baud timing are not modelled; sequence shapes enumerated.'},
'C29': {'how': 'Mrom::new and load_dtb with unknown entry address: the reset vector is decoded with the *specification\'s* decoder and followed to show it leaves a0=hartid, a1=DTB address and jumps to the entry; stores refused.', 'bounds': 'none.'},
'C30': {'how': 'handle_syscall with the request block and host results unknown: host calls are events with their arguments; guest memory is compared before and after.', 'bounds': 'call numbers the emulator declares unimplemented abort by design. Buffers of enumerated small lengths with unknown contents.'},
'C31': {'how': 'Sequences of open/close/read/… with unknown arguments over the descriptor table\'s whole state.', 'bounds': 'sequence shapes enumerated.'},
'C32': {'how': 'Header parsers over a file image of unknown bytes: each accessor must return exactly the bytes the ELF specification assigns.', 'bounds': 'symbol table walk with enumerated table shapes.'},
'C33': {'how': 'Dram::new over structured images (number, type and order of segments, offsets, sizes, addresses partly unknown): contents of memory after loading; images reaching outside are not accepted.', 'bounds': 'segment sizes enumerated, contents unknown.'},
'C34': {'how': 'The text and the compiled blob: make_dts is interpreted for both ISAs with and without initrd, the DTB compiler is interpreted on the resulting text, the blob is parsed by `sa/fdt.py` following the DT specification and compared with the machine (memory map obtained from the device constructors\' own summaries).', 'bounds': 'the inputs that exist (ISA, memory base, initrd addresses).'},
'C35': {'how': 'Data and control dependence on LOG_LEVEL: everything only executed under a log-level condition must be free of effects on guest-visible state (transitively, through helpers), and nothing guest-visible may be computed from it; decided for main\'s argument handling too.', 'bounds': 'none.'},
'C36': {'how': 'emulation() is interpreted with the cycle cut off: per iteration exactly one cycle, one trap per error with the right tval, HTIF poll after it, periodic device work; exec_one_cycle: interrupt check before fetch before execute.', 'bounds': 'the loop is followed for two rounds of its periodic part.'},
'C37': {'how': 'Cpu::new with loader and arguments unknown: pc, privilege, CSRs, registers, misa.', 'bounds': 'none.'},
'C38': {'how': 'check through trans_addr with all triggers unknown (mode bits, kinds, match address, chains of earlier triggers).', 'bounds': 'address match type equal; other match types are not implemented by carron.'},
'C39': {'how': 'Who may write the privilege level (call graph), and summaries of all of them; every instruction leaves it alone.', 'bounds': 'none.'},
'C40': {'how': 'Every bus access in instruction and fetch summaries is preceded by a translation of the same purpose whose result is the address used.', 'bounds': 'page-table walks and host requests are physical by design.'},
'C41': {'how': 'Arguments::new is summarised over its own declarations: the builder calls of clap are recorded as data, the option grammar of clap applied to them says what a command line matches, and the Arguments that come out must carry exactly what the line says. main (binary crate) is summarised for every mode, with and without --pk, for unreadable, non-ELF and ELF files.', 'bounds': 'a table of about 100 command lines (every option alone and combined, short and long, both spellings of values, arguments that are empty, padded, repeated, non-ASCII, or look like options after `--`).'},
}
TAIL = r'''
## 6. No property is listed as not applicable

The msip register of the CLINT is storage only: it does not raise mip.MSIP in carron (no software interrupts between harts exist to be lost, there is one hart).  C17 does not exist (merged into C16 while writing).  What static analysis cannot decide here was left out of the statements rather
than tested: termination and speed of the emulator, timing of console input relative to instructions, behaviour of the host kernel behind
system calls, and correctness of guest programs.

## 7. False alarms met while building, and what was changed

* C21 demanded that pmpcfg1/3 on RV64 read as zero when nothing can write them: the specification side now pins them.
* C33 called host panics on images with impossible addresses violations; rejecting the image that way is allowed, accepting it is not.
* C12 reported refusals on paths without a valuation: these are undecided now, never reported.
* C38 with the trigger type fully unknown mixed unimplemented types in; such triggers must simply not fire.
* Floors (minimum numbers of paths) reported violations when an engine limit had already made the check undecided: undecided wins.
* Harmless renames of private functions that a check cuts off made the code behind them visible; a missing cut-off is undecided now.

## 8. Known limitations of carron, deliberately not claimed

The statements in properties.jsonl do not require these; they are neither repaired nor reported.  Load/store/AMO access faults from the
bus report the physical address as tval.  Locked PMP entries can be rewritten; PMP is not applied to page-table reads and has no
partial-match rule.  PTE reserved bits are ignored.  The PLIC pending array is not readable; pending and claimed are kept per context; a disabled
source loses its claim; LWU from the PLIC is refused by the device.  RV32 `timeh` is missing and the time CSR does not follow guest
writes to mtime.  The host interface aborts on bad guest addresses and on unimplemented calls, and passes the raw HTIF exit word to the
host.  The entry point is the first PT_LOAD's physical address.  MPRV is kept by MRET/SRET and MPRV below M-mode is not constrained.  UART modem
status does not follow loopback; MCR keeps its upper bits.  A CSR instruction re-reads its word with one 32-bit read, which at a page end
reads the following physical bytes (only ever used for the trap value).  An initrd above 4 GiB cannot be described (its place is a constant below).

## 9. Environment

Nothing was damaged; no network is needed; the driver builds offline with the installed nightly's rustc-dev.
'''
