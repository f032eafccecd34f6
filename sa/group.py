"""Run a group of ISA table entries through the instruction-level analysis."""
import os
import dump
import isa
import steps

ALU = ['LUI', 'AUIPC', 'ADDI', 'SLTI', 'SLTIU', 'XORI', 'ORI', 'ANDI', 'SLLI', 'SRLI', 'SRAI', 'ADD', 'SUB', 'SLL', 'SLT', 'SLTU', 'XOR', 'SRL', 'SRA',
       'OR', 'AND', 'ADDIW', 'SLLIW', 'SRLIW', 'SRAIW', 'ADDW', 'SUBW', 'SLLW', 'SRLW', 'SRAW']
CTL = ['JAL', 'JALR', 'BEQ', 'BNE', 'BLT', 'BGE', 'BLTU', 'BGEU']
MEM = ['LB', 'LH', 'LW', 'LBU', 'LHU', 'LWU', 'LD', 'SB', 'SH', 'SW', 'SD']
MUL = [n for n in isa.SEM if n.rstrip('W') in ('MUL', 'MULH', 'MULHSU', 'MULHU', 'DIV', 'DIVU', 'REM', 'REMU')]
AMO = [n for n in isa.SEM if n.endswith(('_W', '_D'))]
ENV = ['ECALL', 'EBREAK', 'FENCE', 'FENCE_I', 'WFI']

TRUST = ['rustc (nightly) MIR construction and monomorphisation of the emulator crate', 'the transfer functions for the Rust core/alloc library calls listed in sa/models.py',
         'the instruction table in sa/isa.py restates the RISC-V unprivileged specification correctly']


def guard(rep, key, f):
    """an entry the engine cannot follow is undecided, never an alarm"""
    from interp import Stop
    try:
        f()
    except Stop as e:
        rep.undecided(key, e)
    except Exception as e:
        import traceback
        rep.undecided(key, 'engine: %s' % traceback.format_exc()[-300:])


def run32(rep, names, xlens=(32, 64), privs=None, prog=None):
    prog = prog or dump.program()
    n = 0
    for x in xlens:
        for e in isa.ENC32:
            if e[0] not in names or not e[4] <= x <= e[5]:
                continue
            for pr in (privs.get(e[0], (None,)) if privs else (None,)):
                n += 1
                guard(rep, '%s/%d' % (e[0], x), lambda: steps.run_entry32(rep, prog, x, e, priv=pr))
    return n


def run16(rep, names=None, xlens=(32, 64), prog=None):
    prog = prog or dump.program()
    n = 0
    for x in xlens:
        for e in isa.ENC16:
            if not e[2] <= x <= e[3] or (names and e[0] not in names):
                continue
            n += 1
            guard(rep, '%s/%d' % (e[0], x), lambda: steps.run_entry16(rep, prog, x, e))
    return n
