"""Unassigned and RV64-only encodings are illegal instructions; decoding never aborts."""
import bv
import dump
import group
import isa
import steps
import teval
from bv import BV, const
from interp import Agg, Lazy, Stop
from machine import Machine

OPC = {'LOAD': 0x03, 'STORE': 0x23, 'BRANCH': 0x63, 'AMO': 0x2f, 'OPIMM': 0x13, 'OP': 0x33, 'OPIMM32': 0x1b, 'OP32': 0x3b, 'SYSTEM': 0x73}


def pat32():
    """(name, mask, match, xlens): encodings with no assigned instruction in RVxxIMA_Zicsr_Zifencei + S-mode"""
    r = []

    def add(name, fields, xl=(32, 64)):
        m = v = 0
        for lo, w, x in fields:
            m |= ((1 << w) - 1) << lo
            v |= x << lo
        r.append((name, m, v, xl))
    both = (32, 64)
    for op in range(32):
        full = op << 2 | 3
        if full not in isa.MAJOR:
            add('opcode %s' % format(full, '07b'), [(0, 7, full)])
    for op in (0x1b, 0x3b):
        add('opcode %s on RV32' % format(op, '07b'), [(0, 7, op)], (32,))
    add('load width 7', [(0, 7, OPC['LOAD']), (12, 3, 7)])
    for f3 in (3, 6):
        add('load width %d on RV32' % f3, [(0, 7, OPC['LOAD']), (12, 3, f3)], (32,))
    for f3 in (4, 5, 6, 7):
        add('store width %d' % f3, [(0, 7, OPC['STORE']), (12, 3, f3)])
    add('store width 3 on RV32', [(0, 7, OPC['STORE']), (12, 3, 3)], (32,))
    for f3 in (2, 3):
        add('branch condition %d' % f3, [(0, 7, OPC['BRANCH']), (12, 3, f3)])
    for f3 in (0, 1, 4, 5, 6, 7):
        add('atomic width %d' % f3, [(0, 7, OPC['AMO']), (12, 3, f3)])
    add('atomic width 3 on RV32', [(0, 7, OPC['AMO']), (12, 3, 3)], (32,))
    used = {2, 3} | {f for n, f in isa.AMOS}
    for f5 in range(32):
        if f5 not in used:
            for f3 in (2, 3):
                add('atomic function %d/%d' % (f5, f3), [(0, 7, OPC['AMO']), (12, 3, f3), (27, 5, f5)])
    for f3 in (2, 3, 4, 6, 7):
        add('OP-IMM-32 function %d' % f3, [(0, 7, OPC['OPIMM32']), (12, 3, f3)])
    for f3 in (2, 3, 4, 6, 7):
        add('OP-32 function %d' % f3, [(0, 7, OPC['OP32']), (12, 3, f3), (25, 7, 0)])
    for f3 in (1, 2, 3):
        add('OP-32 multiply function %d' % f3, [(0, 7, OPC['OP32']), (12, 3, f3), (25, 7, 1)])
    for b in range(7):
        # funct7 values other than 0000000, 0000001 and 0100000 for ADD/SUB, SRL/SRA, and their word forms
        if b in (0, 5):
            continue
        for f3 in (0, 5):
            add('OP funct7 bit %d function %d' % (b, f3), [(0, 7, OPC['OP']), (12, 3, f3), (25 + b, 1, 1)])
            add('OP-32 funct7 bit %d function %d' % (b, f3), [(0, 7, OPC['OP32']), (12, 3, f3), (25 + b, 1, 1)])
    add('SYSTEM function 4', [(0, 7, OPC['SYSTEM']), (12, 3, 4)])
    for f7 in (0x01, 0x02, 0x04, 0x10, 0x20, 0x40, 0x7f, 0x30):
        add('SYSTEM funct7 %d' % f7, [(0, 7, OPC['SYSTEM']), (12, 3, 0), (25, 7, f7)])
    for rs2 in (2, 3, 4, 8, 16, 31):
        add('SYSTEM 0/%d' % rs2, [(0, 7, OPC['SYSTEM']), (7, 5, 0), (12, 3, 0), (15, 5, 0), (20, 5, rs2), (25, 7, 0)])
    return r


PAT16 = [
    ('all zeros', '0000000000000000', (32, 64), None),
    ('C.FLD', '001-----------00', (32, 64), None), ('C.FLW on RV32', '011-----------00', (32,), None), ('reserved 100/00', '100-----------00', (32, 64), None),
    ('C.FSD', '101-----------00', (32, 64), None), ('C.FSW on RV32', '111-----------00', (32,), None),
    ('reserved 1/10', '100111---10---01', (32, 64), None), ('reserved 1/11', '100111---11---01', (32, 64), None),
    ('C.SUBW on RV32', '100111---00---01', (32,), None), ('C.ADDW on RV32', '100111---01---01', (32,), None),
    ('C.FLDSP', '001-----------10', (32, 64), None), ('C.FLWSP on RV32', '011-----------10', (32,), None),
    ('C.FSDSP', '101-----------10', (32, 64), None), ('C.FSWSP on RV32', '111-----------10', (32,), None),
]


def variant(I, v):
    return I.p.types[v.ty]['variants'][v.var]['name'].split('::')[-1]


def panics(rep, I, r, key):
    if r.kind == 'panic':
        if teval.feasible(r.st):
            rep.oblige(key + ': decoder aborts', False, 'decoding aborts the emulator (%s), e.g. %s' % (str(r.ret)[:80], teval.describe(r.st)), r.where if hasattr(r, 'where') else '')
        return True
    if r.kind != 'return':
        rep.undecided(key, getattr(r, 'ret', r.kind))
        return True
    return False


def illegal(rep, prog, x, name, word):
    key = '%s/%d' % (name, x)

    def go():
        I = Machine(prog, x, steps.bounds())
        n = 0
        for r in steps.decode_paths(I, word, I.new_state()):
            rep.paths += 1
            if panics(rep, I, r, key):
                continue
            n += 1
            v = r.ret
            if not isinstance(v, Agg) or variant(I, v) == 'Ok':
                if teval.feasible(r.st):
                    what = ''
                    try:
                        what = variant(I, v.f[0].f[0])
                    except Exception:
                        pass
                    rep.oblige(key, False, 'the unassigned encoding is decoded as %s instead of raising an illegal-instruction exception, e.g. %s' % (what, teval.describe(r.st)), steps.DEC32)
                continue
            c = v.f[0].f[1]
            if isinstance(c, Agg):
                rep.oblige(key, variant(I, c) == 'IllegalInst', 'the unassigned encoding raises %s instead of an illegal-instruction exception' % variant(I, c), steps.DEC32)
            else:
                rep.undecided(key, 'cause %r' % (c,))
        rep.functions |= I.functions
    group.guard(rep, key, go)


def check(rep):
    rep.rule = ('Every encoding class that assigns no instruction (unused major opcodes, load/store/branch/atomic/OP-32 function codes, RV64-only forms on RV32, reserved compressed forms) is given '
                'to the decoder with all remaining bits unknown: every feasible path must return an illegal-instruction exception. A fully unknown word of either width is decoded as well: '
                'no feasible path may reach a panic.')
    rep.assumptions = group.TRUST
    prog = dump.program()
    n = 0
    for name, mask, match, xls in pat32():
        for x in xls:
            n += 1
            illegal(rep, prog, x, name, isa.word32(mask, match))
    for name, pat, xls, _ in PAT16:
        for x in xls:
            n += 1
            illegal(rep, prog, x, name, isa.word16(pat))
    rep.floor('unassigned encoding classes', n, 150)
    for x in (32, 64):
        for w in (32, 16):
            key = 'any %d-bit word/%d' % (w, x)

            def go():
                I = Machine(prog, x, steps.bounds())
                word = bv.sym('w', w) if w == 16 else isa.word32(3, 3)
                if w == 16:
                    pass
                k = 0
                for r in steps.decode_paths(I, word, I.new_state()):
                    if w == 16 and r.kind == 'panic':
                        # words whose low bits are 11 are never handed to the 16-bit decoder
                        s = r.st.fork() if hasattr(r.st, 'fork') else r.st
                        f = r.st.sub(BV(word[0:2]))
                        if all(b == 1 for b in f):
                            continue
                    rep.paths += 1
                    k += 1
                    if not panics(rep, I, r, key):
                        rep.oblige(key, True)
                rep.functions |= I.functions
                rep.floor('decode paths of %s' % key, k, 30)
            group.guard(rep, key, go)
