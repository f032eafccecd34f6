"""RISC-V encodings and instruction semantics, written from the ISA manual (not from the code)."""
import bv
from bv import BV, const, cval

# ------------------------------------------------------------------ 32-bit encodings
# name, format, mask, match, minimum xlen, maximum xlen
ENC32 = []


def _e(name, fmt, opc, f3=None, f7=None, mask=None, match=None, lo=32, hi=64, f6=None, f5=None, rs2=None):
    m, v = 0x7f, opc
    if f3 is not None:
        m |= 7 << 12
        v |= f3 << 12
    if f7 is not None:
        m |= 0x7f << 25
        v |= f7 << 25
    if f6 is not None:
        m |= 0x3f << 26
        v |= f6 << 26
    if f5 is not None:
        m |= 0x1f << 27
        v |= f5 << 27
    if rs2 is not None:
        m |= 0x1f << 20
        v |= rs2 << 20
    if mask is not None:
        m, v = mask, match
    ENC32.append((name, fmt, m, v, lo, hi))


_e('LUI', 'U', 0x37)
_e('AUIPC', 'U', 0x17)
_e('JAL', 'J', 0x6f)
_e('JALR', 'I', 0x67, 0)
for i, n in enumerate(['BEQ', 'BNE', None, None, 'BLT', 'BGE', 'BLTU', 'BGEU']):
    if n:
        _e(n, 'B', 0x63, i)
for i, n in enumerate(['LB', 'LH', 'LW', 'LD', 'LBU', 'LHU', 'LWU']):
    _e(n, 'I', 0x03, i, lo=64 if n in ('LD', 'LWU') else 32)
for i, n in enumerate(['SB', 'SH', 'SW', 'SD']):
    _e(n, 'S', 0x23, i, lo=64 if n == 'SD' else 32)
for i, n in enumerate(['ADDI', None, 'SLTI', 'SLTIU', 'XORI', None, 'ORI', 'ANDI']):
    if n:
        _e(n, 'I', 0x13, i)
for n, f3, f6 in (('SLLI', 1, 0), ('SRLI', 5, 0), ('SRAI', 5, 0x10)):
    _e(n, 'SH5', 0x13, f3, f7=f6 << 1, hi=32)
    _e(n, 'SH6', 0x13, f3, f6=f6, lo=64)
for i, n in enumerate(['ADD', 'SLL', 'SLT', 'SLTU', 'XOR', 'SRL', 'OR', 'AND']):
    _e(n, 'R', 0x33, i, 0)
_e('SUB', 'R', 0x33, 0, 0x20)
_e('SRA', 'R', 0x33, 5, 0x20)
_e('FENCE', 'F', 0x0f, 0)
_e('FENCE_I', 'F', 0x0f, 1)
_e('ECALL', 'N', 0, mask=0xffffffff, match=0x00000073)
_e('EBREAK', 'N', 0, mask=0xffffffff, match=0x00100073)
_e('ADDIW', 'I', 0x1b, 0, lo=64)
_e('SLLIW', 'SH5', 0x1b, 1, 0, lo=64)
_e('SRLIW', 'SH5', 0x1b, 5, 0, lo=64)
_e('SRAIW', 'SH5', 0x1b, 5, 0x20, lo=64)
for n, f3, f7 in (('ADDW', 0, 0), ('SUBW', 0, 0x20), ('SLLW', 1, 0), ('SRLW', 5, 0), ('SRAW', 5, 0x20)):
    _e(n, 'R', 0x3b, f3, f7, lo=64)
for i, n in enumerate(['MUL', 'MULH', 'MULHSU', 'MULHU', 'DIV', 'DIVU', 'REM', 'REMU']):
    _e(n, 'R', 0x33, i, 1)
for i, n in enumerate(['MULW', None, None, None, 'DIVW', 'DIVUW', 'REMW', 'REMUW']):
    if n:
        _e(n, 'R', 0x3b, i, 1, lo=64)
AMOS = (('AMOSWAP', 1), ('AMOADD', 0), ('AMOXOR', 4), ('AMOAND', 12), ('AMOOR', 8), ('AMOMIN', 16), ('AMOMAX', 20), ('AMOMINU', 24), ('AMOMAXU', 28))
for w, f3, lo in (('W', 2, 32), ('D', 3, 64)):
    _e('LR_' + w, 'A', 0x2f, f3, f5=2, rs2=0, lo=lo)
    _e('SC_' + w, 'A', 0x2f, f3, f5=3, lo=lo)
    for n, f5 in AMOS:
        _e('%s_%s' % (n, w), 'A', 0x2f, f3, f5=f5, lo=lo)
for i, n in enumerate([None, 'CSRRW', 'CSRRS', 'CSRRC', None, 'CSRRWI', 'CSRRSI', 'CSRRCI']):
    if n:
        _e(n, 'C', 0x73, i)
_e('SRET', 'N', 0, mask=0xffffffff, match=0x10200073)
_e('MRET', 'N', 0, mask=0xffffffff, match=0x30200073)
_e('WFI', 'N', 0, mask=0xffffffff, match=0x10500073)
_e('SFENCE_VMA', 'V', 0, mask=0xfe007fff, match=0x12000073)

MAJOR = sorted({v & 0x7f for n, f, m, v, lo, hi in ENC32})


def fields32(w):
    return {'rd': BV(w[7:12]), 'rs1': BV(w[15:20]), 'rs2': BV(w[20:25]), 'csr': BV(w[20:32])}


def imm32(fmt, w):
    """32-bit immediate vector of a format"""
    if fmt == 'U':
        return bv.cat(const(0, 12), w[12:32])
    if fmt == 'I':
        return bv.sext(BV(w[20:32]), 32)
    if fmt == 'S':
        return bv.sext(bv.cat(w[7:12], w[25:32]), 32)
    if fmt == 'B':
        return bv.sext(bv.cat((0,), w[8:12], w[25:31], w[7:8], w[31:32]), 32)
    if fmt == 'J':
        return bv.sext(bv.cat((0,), w[21:31], w[20:21], w[12:20], w[31:32]), 32)
    if fmt == 'SH5':
        return bv.zext(BV(w[20:25]), 32)
    if fmt == 'SH6':
        return bv.zext(BV(w[20:26]), 32)
    return None


# which operand fields an instruction of each format carries
HAS = {'U': ('rd',), 'J': ('rd',), 'I': ('rd', 'rs1'), 'B': ('rs1', 'rs2'), 'S': ('rs1', 'rs2'), 'SH5': ('rd', 'rs1'), 'SH6': ('rd', 'rs1'),
       'R': ('rd', 'rs1', 'rs2'), 'A': ('rd', 'rs1', 'rs2'), 'F': (), 'N': (), 'V': ('rs1', 'rs2'), 'C': ('rd', 'rs1', 'csr')}


def word32(mask, match, name='w'):
    """fixed bits of the encoding, everything else unknown"""
    s = bv.sym(name, 32)
    return BV([(match >> i) & 1 if mask >> i & 1 else s[i] for i in range(32)])


# ------------------------------------------------------------------ compressed encodings
# name, pattern (16 chars, msb first: 0/1 fixed, - free), lo xlen, hi xlen, conditions, expansion
# conditions: ('nz', field) / ('z', field) over named fields


def cf(h):
    """compressed fields"""
    x3 = lambda lo: bv.cat(h[lo:lo + 3], (1, 0))
    b = lambda *idx: BV([h[i] if i is not None else 0 for i in idx])
    z = None
    return {
        'rd': BV(h[7:12]), 'rs2': BV(h[2:7]), 'rdp': x3(2), 'rs2p': x3(2), 'rs1p': x3(7),
        # immediates, least significant bit first
        'addi4spn': bv.zext(b(z, z, 6, 5, 11, 12, 7, 8, 9, 10), 32),
        'w': bv.zext(b(z, z, 6, 10, 11, 12, 5), 32),
        'd': bv.zext(b(z, z, z, 10, 11, 12, 5, 6), 32),
        'i6': bv.sext(b(2, 3, 4, 5, 6, 12), 32),
        'sh': bv.zext(b(2, 3, 4, 5, 6, 12), 32),
        'j': bv.sext(b(z, 3, 4, 5, 11, 2, 7, 6, 9, 10, 8, 12), 32),
        '16sp': bv.sext(b(z, z, z, z, 6, 2, 5, 3, 4, 12), 32),
        'lui': bv.sext(b(z, z, z, z, z, z, z, z, z, z, z, z, 2, 3, 4, 5, 6, 12), 32),
        'b': bv.sext(b(z, 3, 4, 10, 11, 2, 5, 6, 12), 32),
        'lwsp': bv.zext(b(z, z, 4, 5, 6, 12, 2, 3), 32),
        'ldsp': bv.zext(b(z, z, z, 5, 6, 12, 2, 3, 4), 32),
        'swsp': bv.zext(b(z, z, 9, 10, 11, 12, 7, 8), 32),
        'sdsp': bv.zext(b(z, z, z, 10, 11, 12, 7, 8, 9), 32),
    }


X0, X1, X2 = const(0, 5), const(1, 5), const(2, 5)
# (name, pattern, lo, hi, nonzero fields, zero fields, not-equal (field,value), expansion(name, rd, rs1, rs2, imm))
# operand entries: a field name, or a constant register
ENC16 = [
    ('C_ADDI4SPN', '000-----------00', 32, 64, ['addi4spn'], [], [], ('ADDI', 'rdp', X2, None, 'addi4spn')),
    ('C_LW', '010-----------00', 32, 64, [], [], [], ('LW', 'rdp', 'rs1p', None, 'w')),
    ('C_LD', '011-----------00', 64, 64, [], [], [], ('LD', 'rdp', 'rs1p', None, 'd')),
    ('C_SW', '110-----------00', 32, 64, [], [], [], ('SW', None, 'rs1p', 'rs2p', 'w')),
    ('C_SD', '111-----------00', 64, 64, [], [], [], ('SD', None, 'rs1p', 'rs2p', 'd')),
    ('C_NOP', '000-00000-----01', 32, 64, [], [], [], ('ADDI', X0, X0, None, 'i6')),
    ('C_ADDI', '000-----------01', 32, 64, ['rd'], [], [], ('ADDI', 'rd', 'rd', None, 'i6')),
    ('C_JAL', '001-----------01', 32, 32, [], [], [], ('JAL', X1, None, None, 'j')),
    ('C_ADDIW', '001-----------01', 64, 64, ['rd'], [], [], ('ADDIW', 'rd', 'rd', None, 'i6')),
    ('C_LI', '010-----------01', 32, 64, [], [], [], ('ADDI', 'rd', X0, None, 'i6')),
    ('C_ADDI16SP', '011-00010-----01', 32, 64, ['16sp'], [], [], ('ADDI', X2, X2, None, '16sp')),
    ('C_LUI', '011-----------01', 32, 64, ['lui'], [], [('rd', 2)], ('LUI', 'rd', None, None, 'lui')),
    ('C_SRLI', '100000--------01', 32, 32, [], [], [], ('SRLI', 'rs1p', 'rs1p', None, 'sh')),
    ('C_SRLI', '100-00--------01', 64, 64, [], [], [], ('SRLI', 'rs1p', 'rs1p', None, 'sh')),
    ('C_SRAI', '100001--------01', 32, 32, [], [], [], ('SRAI', 'rs1p', 'rs1p', None, 'sh')),
    ('C_SRAI', '100-01--------01', 64, 64, [], [], [], ('SRAI', 'rs1p', 'rs1p', None, 'sh')),
    ('C_ANDI', '100-10--------01', 32, 64, [], [], [], ('ANDI', 'rs1p', 'rs1p', None, 'i6')),
    ('C_SUB', '100011---00---01', 32, 64, [], [], [], ('SUB', 'rs1p', 'rs1p', 'rs2p', None)),
    ('C_XOR', '100011---01---01', 32, 64, [], [], [], ('XOR', 'rs1p', 'rs1p', 'rs2p', None)),
    ('C_OR', '100011---10---01', 32, 64, [], [], [], ('OR', 'rs1p', 'rs1p', 'rs2p', None)),
    ('C_AND', '100011---11---01', 32, 64, [], [], [], ('AND', 'rs1p', 'rs1p', 'rs2p', None)),
    ('C_SUBW', '100111---00---01', 64, 64, [], [], [], ('SUBW', 'rs1p', 'rs1p', 'rs2p', None)),
    ('C_ADDW', '100111---01---01', 64, 64, [], [], [], ('ADDW', 'rs1p', 'rs1p', 'rs2p', None)),
    ('C_J', '101-----------01', 32, 64, [], [], [], ('JAL', X0, None, None, 'j')),
    ('C_BEQZ', '110-----------01', 32, 64, [], [], [], ('BEQ', None, 'rs1p', X0, 'b')),
    ('C_BNEZ', '111-----------01', 32, 64, [], [], [], ('BNE', None, 'rs1p', X0, 'b')),
    ('C_SLLI', '0000----------10', 32, 32, [], [], [], ('SLLI', 'rd', 'rd', None, 'sh')),
    ('C_SLLI', '000-----------10', 64, 64, [], [], [], ('SLLI', 'rd', 'rd', None, 'sh')),
    ('C_LWSP', '010-----------10', 32, 64, ['rd'], [], [], ('LW', 'rd', X2, None, 'lwsp')),
    ('C_LDSP', '011-----------10', 64, 64, ['rd'], [], [], ('LD', 'rd', X2, None, 'ldsp')),
    ('C_JR', '1000-----0000010', 32, 64, ['rd'], [], [], ('JALR', X0, 'rd', None, 0)),
    ('C_MV', '1000----------10', 32, 64, ['rs2'], [], [], ('ADD', 'rd', X0, 'rs2', None)),
    ('C_EBREAK', '1001000000000010', 32, 64, [], [], [], ('EBREAK', None, None, None, None)),
    ('C_JALR', '1001-----0000010', 32, 64, ['rd'], [], [], ('JALR', X1, 'rd', None, 0)),
    ('C_ADD', '1001----------10', 32, 64, ['rs2'], [], [], ('ADD', 'rd', 'rd', 'rs2', None)),
    ('C_SWSP', '110-----------10', 32, 64, [], [], [], ('SW', None, X2, 'rs2', 'swsp')),
    ('C_SDSP', '111-----------10', 64, 64, [], [], [], ('SD', None, X2, 'rs2', 'sdsp')),
]


def word16(pat, name='h'):
    s = bv.sym(name, 16)
    return BV([int(c) if c in '01' else s[i] for i, c in enumerate(reversed(pat))])


# ------------------------------------------------------------------ semantics
class Trap(Exception):
    """the instruction raises an exception: cause name (or an opaque error value), tval or None"""

    def __init__(self, cause=None, tval=None, err=None):
        self.cause, self.tval, self.err = cause, tval, err


def _alu(f):
    def sem(S, rd, rs1, rs2, imm, ilen):
        b = S.x(rs2) if rs2 is not None else bv.sext(imm, S.xlen)
        S.setx(rd, f(S, S.x(rs1), b))
        S.next(ilen)
    return sem


def _w(f):
    """operate on the low words, sign-extend the 32-bit result"""
    def g(S, a, b):
        return bv.sext(f(S, BV(a[:32]), BV(b[:32])), 64)
    return g


def b2v(bit, w):
    return BV((bit,) + (0,) * (w - 1))


def amt(S, b):
    return BV(b[:6 if len(b) == 64 else 5])


ALU = {
    'ADD': lambda S, a, b: bv.add(a, b),
    'SUB': lambda S, a, b: bv.sub(a, b),
    'AND': lambda S, a, b: bv.and_(a, b),
    'OR': lambda S, a, b: bv.or_(a, b),
    'XOR': lambda S, a, b: bv.xor_(a, b),
    'SLL': lambda S, a, b: bv.shl(a, amt(S, b)),
    'SRL': lambda S, a, b: bv.lshr(a, amt(S, b)),
    'SRA': lambda S, a, b: bv.ashr(a, amt(S, b)),
    'SLT': lambda S, a, b: b2v(bv.slt(a, b), len(a)),
    'SLTU': lambda S, a, b: b2v(bv.ult(a, b), len(a)),
}


def sdiv_(S, a, b):
    w = len(a)
    if S.decide(bv.eq(b, const(0, w))):
        return const(-1, w)
    if S.decide(bv.eq(b, const(-1, w))) and S.decide(bv.eq(a, const(1 << (w - 1), w))):
        return const(1 << (w - 1), w)
    return bv.sdiv(a, b)


def srem_(S, a, b):
    w = len(a)
    if S.decide(bv.eq(b, const(0, w))):
        return a
    if S.decide(bv.eq(b, const(-1, w))):
        return const(0, w)
    return bv.srem(a, b)


def udiv_(S, a, b):
    if S.decide(bv.eq(b, const(0, len(a)))):
        return const(-1, len(a))
    return bv.udiv(a, b)


def urem_(S, a, b):
    if S.decide(bv.eq(b, const(0, len(a)))):
        return a
    return bv.urem(a, b)


def mulhu64(a, b):
    return BV(bv.mul(bv.zext(a, 128), bv.zext(b, 128))[64:])


def mulh(S, a, b, sa, sb):
    w = len(a)
    ea = bv.sext(a, 2 * w) if sa else bv.zext(a, 2 * w)
    eb = bv.sext(b, 2 * w) if sb else bv.zext(b, 2 * w)
    return BV(bv.mul(ea, eb)[w:])


ALU.update({
    'MUL': lambda S, a, b: bv.mul(a, b),
    'MULH': lambda S, a, b: mulh(S, a, b, 1, 1),
    'MULHSU': lambda S, a, b: mulh(S, a, b, 1, 0),
    'MULHU': lambda S, a, b: mulh(S, a, b, 0, 0),
    'DIV': sdiv_, 'DIVU': udiv_, 'REM': srem_, 'REMU': urem_,
})

SEM = {}
for n in ('ADD', 'SUB', 'AND', 'OR', 'XOR', 'SLL', 'SRL', 'SRA', 'SLT', 'SLTU', 'MUL', 'MULH', 'MULHSU', 'MULHU', 'DIV', 'DIVU', 'REM', 'REMU'):
    SEM[n] = _alu(ALU[n])
for n in ('ADD', 'AND', 'OR', 'XOR', 'SLL', 'SRL', 'SRA', 'SLT'):
    SEM[n + 'I'] = _alu(ALU[n])
SEM['SLTIU'] = _alu(ALU['SLTU'])
for n in ('ADD', 'SUB', 'SLL', 'SRL', 'SRA', 'MUL', 'DIV', 'REM'):
    SEM[n + 'W'] = _alu(_w(ALU[n]))
SEM['DIVUW'] = _alu(_w(ALU['DIVU']))
SEM['REMUW'] = _alu(_w(ALU['REMU']))
for n in ('ADD', 'SLL', 'SRL', 'SRA'):
    SEM[n + 'IW'] = _alu(_w(ALU[n]))


def s_lui(S, rd, rs1, rs2, imm, ilen):
    S.setx(rd, bv.sext(imm, S.xlen))
    S.next(ilen)


def s_auipc(S, rd, rs1, rs2, imm, ilen):
    S.setx(rd, bv.add(S.pc, bv.sext(imm, S.xlen)))
    S.next(ilen)


def s_jal(S, rd, rs1, rs2, imm, ilen):
    S.setx(rd, bv.add(S.pc, const(ilen, S.xlen)))
    S.jump(bv.add(S.pc, bv.sext(imm, S.xlen)))


def s_jalr(S, rd, rs1, rs2, imm, ilen):
    t = bv.add(S.x(rs1), bv.sext(imm, S.xlen) if not isinstance(imm, int) else const(imm, S.xlen))
    S.setx(rd, bv.add(S.pc, const(ilen, S.xlen)))
    S.jump(BV((0,) + tuple(t[1:])))


SEM['LUI'], SEM['AUIPC'], SEM['JAL'], SEM['JALR'] = s_lui, s_auipc, s_jal, s_jalr


def _br(f):
    def sem(S, rd, rs1, rs2, imm, ilen):
        if S.decide(f(S.x(rs1), S.x(rs2))):
            S.jump(bv.add(S.pc, bv.sext(imm, S.xlen)))
        else:
            S.next(ilen)
    return sem


SEM['BEQ'] = _br(lambda a, b: bv.eq(a, b))
SEM['BNE'] = _br(lambda a, b: bv.eq(a, b) ^ 1)
SEM['BLT'] = _br(lambda a, b: bv.slt(a, b))
SEM['BGE'] = _br(lambda a, b: bv.slt(a, b) ^ 1)
SEM['BLTU'] = _br(lambda a, b: bv.ult(a, b))
SEM['BGEU'] = _br(lambda a, b: bv.ult(a, b) ^ 1)


def _ld(n, signed):
    def sem(S, rd, rs1, rs2, imm, ilen):
        pa = S.trans('Load', n, bv.add(S.x(rs1), bv.sext(imm, S.xlen)))
        v = S.load(n, pa)
        S.setx(rd, (bv.sext if signed else bv.zext)(v, S.xlen))
        S.next(ilen)
    return sem


def _st(n):
    def sem(S, rd, rs1, rs2, imm, ilen):
        pa = S.trans('StoreAMO', n, bv.add(S.x(rs1), bv.sext(imm, S.xlen)))
        S.store(n, pa, BV(S.x(rs2)[:8 * n]))
        S.next(ilen)
    return sem


for n, k, s in (('LB', 1, 1), ('LH', 2, 1), ('LW', 4, 1), ('LD', 8, 1), ('LBU', 1, 0), ('LHU', 2, 0), ('LWU', 4, 0)):
    SEM[n] = _ld(k, s)
for n, k in (('SB', 1), ('SH', 2), ('SW', 4), ('SD', 8)):
    SEM[n] = _st(k)


def s_nop(S, rd, rs1, rs2, imm, ilen):
    S.next(ilen)


SEM['FENCE'] = SEM['FENCE_I'] = SEM['WFI'] = s_nop


def smin(S, a, b):
    return a if S.decide(bv.slt(a, b)) else b


def smax(S, a, b):
    return b if S.decide(bv.slt(a, b)) else a


def umin(S, a, b):
    return a if S.decide(bv.ult(a, b)) else b


def umax(S, a, b):
    return b if S.decide(bv.ult(a, b)) else a


AMOF = {'AMOSWAP': lambda S, a, b: b, 'AMOADD': ALU['ADD'], 'AMOXOR': ALU['XOR'], 'AMOAND': ALU['AND'], 'AMOOR': ALU['OR'],
        'AMOMIN': smin, 'AMOMAX': smax, 'AMOMINU': umin, 'AMOMAXU': umax}


def _amo(f, n):
    def sem(S, rd, rs1, rs2, imm, ilen):
        a = S.x(rs1)
        src = BV(S.x(rs2)[:8 * n])
        pa = S.trans('StoreAMO', n, a)
        old = S.load(n, pa, amo=True)
        S.store(n, pa, f(S, old, src))
        S.setx(rd, bv.sext(old, S.xlen))
        S.next(ilen)
    return sem


def _lr(n):
    def sem(S, rd, rs1, rs2, imm, ilen):
        pa = S.trans('Load', n, S.x(rs1))
        v = S.load(n, pa)
        S.setx(rd, bv.sext(v, S.xlen))
        S.reserve(pa)
        S.next(ilen)
    return sem


def _sc(n):
    def sem(S, rd, rs1, rs2, imm, ilen):
        src = BV(S.x(rs2)[:8 * n])
        pa = S.trans('StoreAMO', n, S.x(rs1))
        if S.reserved(pa):
            S.store(n, pa, src)
            S.setx(rd, const(0, S.xlen))
        else:
            S.setx_nonzero(rd)
        S.unreserve()
        S.next(ilen)
    return sem


for w, k in (('W', 4), ('D', 8)):
    for n, f in AMOF.items():
        SEM['%s_%s' % (n, w)] = _amo(f, k)
    SEM['LR_' + w] = _lr(k)
    SEM['SC_' + w] = _sc(k)


# ------------------------------------------------------------------ system instructions
def s_ecall(S, rd, rs1, rs2, imm, ilen):
    raise Trap({0: 'UmodeEcall', 1: 'SmodeEcall', 3: 'MmodeEcall'}[S.priv_level], tval=bv.const(0, 64))


def s_ebreak(S, rd, rs1, rs2, imm, ilen):
    raise Trap('Breakpoint', tval=bv.zext(S.pc, 64))


SEM['ECALL'], SEM['EBREAK'] = s_ecall, s_ebreak
