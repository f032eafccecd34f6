"""Instruction-level analysis: encoding pattern -> decode -> execute -> compare with the ISA."""
import bv
import isa
from bv import BV, const
from interp import Agg, Ptr, Lazy, Stop
from machine import Machine
from spec import MEM_BOUNDS, Comparer, S, Mismatch
from isa import SEM, Trap

DEC32 = 'carron::cpu::decode::inst_32::<impl carron::cpu::decode::Decode for u32>::decode'
DEC16 = 'carron::cpu::decode::inst_16::<impl carron::cpu::decode::Decode for u16>::decode'
EXEC = '<carron::cpu::instruction::Instruction as carron::cpu::execution::Execution>::execution'
TRAPFN = 'carron::cpu::trap::<impl carron::cpu::Cpu>::trap'


def m_trap(I, st, f, a, at, dty):
    st.events += (('trap', st.sub(a[1]), a[2]),)
    for k, key in I.shared.items():
        if key[1] == 'pc':
            rc = I.obj(st, key)
            i = I.field_index(k, 'value')
            fs = list(rc.f)
            fs[i] = I.refcell(fs[i].ty, bv.sym('trap_pc', 64))
            st.objs[key] = Agg(rc.ty, rc.var, fs)
    return Agg(dty, 0, ())


def bounds():
    return MEM_BOUNDS + [(TRAPFN, m_trap)]


def decode_paths(I, word, st):
    """[(state, result)] of decoding a word from a state"""
    fn = DEC32 if len(word) == 32 else DEC16
    key = ('word',)
    st.objs[key] = word
    return I.run(fn, [Ptr(key), I.isa_val()], st)


def step_paths(I, word, st=None):
    """decode then execute: list of Result; decode errors come back as returned errors"""
    st = st or I.new_state()
    out = []
    for r in decode_paths(I, word, st):
        if r.kind != 'return':
            out.append(r)
            continue
        v = r.ret
        if not isinstance(v, Agg):
            raise Stop('decode result %r' % (v,))
        n = I.p.types[v.ty]['variants'][v.var]['name'].split('::')[-1]
        if n == 'Err':
            out.append(r)
            continue
        st2 = r.st
        st2.objs[('inst',)] = v.f[0]
        out += I.run(EXEC, [Ptr(('inst',)), I.cpu()], st2)
    return out


def run_entry32(rep, prog, xlen, ent, sem=None, priv=None):
    name, fmt, mask, match, lo, hi = ent
    I = Machine(prog, xlen, bounds())
    w = isa.word32(mask, match)
    f = isa.fields32(w)
    imm = isa.imm32(fmt, w)
    has = isa.HAS[fmt]
    sem = sem or SEM[name]
    C = Comparer(rep, I, '%s/%d' % (name, xlen))
    C.fname = EXEC
    if priv:
        C.priv0 = I.enum('cpu::PrivilegedLevel', priv)
        C.priv_level = dict(PRIVS)[priv]
    rs = step_paths(I, w, I.new_state(priv))
    for r in rs:
        C.path(r, lambda s: sem(s, f['rd'] if 'rd' in has else None, f['rs1'] if 'rs1' in has else None, f['rs2'] if 'rs2' in has else None, imm, 4))
    rep.functions |= I.functions
    return rs


PRIVS = (('User', 0), ('Supervisor', 1), ('Machine', 3))


def expand16(ent, xlen):
    """(word, assumptions [(bit, truth)], expansion operands)"""
    name, pat, lo, hi, nz, zz, ne, exp = ent
    w = isa.word16(pat)
    f = isa.cf(w)
    if xlen == 32 and False:
        pass
    asm = []
    for x in nz:
        asm.append((bv.eq(f[x], const(0, len(f[x]))), 0))
    for x, v in ne:
        asm.append((bv.eq(f[x], const(v, len(f[x]))), 0))
    ops = [exp[0]]
    for o in exp[1:]:
        ops.append(f[o] if isinstance(o, str) else o)
    return w, asm, ops


def run_entry16(rep, prog, xlen, ent, priv=None, sem=None):
    name = ent[0]
    I = Machine(prog, xlen, bounds())
    w, asm, ops = expand16(ent, xlen)
    st = I.new_state(priv)
    for b, t in asm:
        if not st.assume(b, t):
            raise Stop('contradictory encoding %s' % name)
    C = Comparer(rep, I, '%s/%d' % (name, xlen))
    C.fname = EXEC
    if priv:
        C.priv0 = I.enum('cpu::PrivilegedLevel', priv)
        C.priv_level = dict(PRIVS)[priv]
    base, rd, rs1, rs2, imm = ops
    fn = sem or SEM[base]
    rs = step_paths(I, w, st)
    for r in rs:
        C.path(r, lambda s: fn(s, rd, rs1, rs2, imm, 2))
    rep.functions |= I.functions
    return rs
