"""Trap returns and SFENCE.VMA."""
import bv
import dump
import group
import isa
import steps
from bv import BV, const
from csrmodel import CsrFile, SKIP
from func import Func
from interp import Agg
from machine import Machine
from spec import vname

TVM, TSR, MPRV = 20, 22, 17
# instruction -> (levels, forbidding bit in S-mode, epc CSR, IE bit, PIE bit, PP low, PP width)
RET = {'MRET': (('Machine',), None, 0x341, 3, 7, 11, 2), 'SRET': (('Machine', 'Supervisor'), TSR, 0x141, 1, 5, 8, 1)}
NAME = {0: 'User', 1: 'Supervisor', 3: 'Machine'}


def refused(c, pv):
    v = c.ret
    if not isinstance(v, Agg) or vname(c.I, v) != 'Err':
        c.bad('not refused, the manual makes it an illegal instruction here')
    e = v.f[0]
    cause = c.variant(e.f[1])
    if cause != 'IllegalInst':
        c.bad('refused with %s' % cause)
    c.cpu_unchanged(priv=pv)


def ok(c):
    v = c.ret
    if not isinstance(v, Agg) or vname(c.I, v) != 'Ok':
        c.bad('refused, the manual permits it here')


def ret_spec(name, pv):
    levels, bit, epc, ie, pie, pp, ppw = RET[name]

    def spec(c):
        m = CsrFile(c)
        if pv not in levels or (bit is not None and pv == 'Supervisor' and c.iff(m.raw(0x300)[bit])):
            return refused(c, pv)
        ok(c)
        target = m.read(epc)
        s = list(c.sub(m.raw(0x300)))
        new = BV(s[pp:pp + ppw])
        lv = None
        for k in (0, 1, 3):
            if k < 1 << ppw and c.is_(new, k):
                lv = NAME[k]
                break
        s = list(c.sub(m.raw(0x300)))
        s[ie] = s[pie]
        s[pie] = 1
        for i in range(ppw):
            s[pp + i] = 0
        if lv != 'Machine':
            # the manual of 2019 leaves MPRV alone, later ones clear it: both accepted
            s[MPRV] = c.elem(c.get('csrs', 'csrs'), const(0x300, 64))[MPRV]
        m.put(0x300, BV(s))
        m.compare()
        got = c.variant(c.get('priv_lv'))
        if got != lv:
            c.bad('privilege level after %s is %s, xPP says %s' % (name, got, lv))
        c.need('pc after ' + name, BV(c.I.pc(c.st)[:c.xlen]), BV(c.sub(target)[:c.xlen]))
        c.cpu_unchanged(skip=SKIP + ('priv_lv', 'pc'))
    return spec


def sfence(pv):
    def spec(c):
        m = CsrFile(c)
        if pv == 'User' or (pv == 'Supervisor' and c.iff(m.raw(0x300)[TVM])):
            return refused(c, pv)
        ok(c)
        c.need('pc', BV(c.I.pc(c.st)[:c.xlen]), bv.add(BV(c.I.init_pc()[:c.xlen]), const(4, c.xlen)))
        c.cpu_unchanged(skip=('pc',), priv=pv)
    return spec


def check(rep):
    rep.rule = ('MRET, SRET and SFENCE.VMA are summarised through decode and execute from each privilege level with every CSR and pc unknown; each path is compared with the return rule '
                '(xIE, xPIE, xPP, level, pc), or must be an illegal-instruction exception without effect exactly where level, TSR or TVM forbids the instruction.')
    rep.assumptions = group.TRUST
    prog = dump.program()
    n = 0
    for x in (32, 64):
        for e in isa.ENC32:
            if e[0] not in ('MRET', 'SRET', 'SFENCE_VMA'):
                continue
            for pv, _ in steps.PRIVS:
                key = '%s from %s/%d' % (e[0], pv, x)
                n += 1

                def go():
                    I = Machine(prog, x, steps.bounds())
                    spec = sfence(pv) if e[0] == 'SFENCE_VMA' else ret_spec(e[0], pv)
                    Func(rep, I, key, steps.EXEC).check(steps.step_paths(I, isa.word32(e[2], e[3]), I.sane_state(pv)), spec)
                group.guard(rep, key, go)
    rep.floor('instruction/level pairs', n, 18)
    rep.floor('paths', rep.paths, 18)
