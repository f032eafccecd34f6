"""The privilege level."""
import bv
import re
import c22
import c38
import c40
import dump
import group
import isa
import scan
import steps
import trapspec
from bv import BV, const
from func import Func
from interp import Agg, Ptr
from machine import Machine
from spec import TRANS, vname

RANK = {'User': 0, 'Supervisor': 1, 'Machine': 3}
XRET = {'MRET': None, 'SRET': None}
EMU = 'carron::Emulator::emulation'
SYSCALL = re.compile(r'::handle_syscall$|::check_tohost$|carron::fesvr::.*FrontendServer')
FN = {
    'check_interrupt': 'carron::cpu::trap::<impl carron::cpu::Cpu>::check_interrupt',
    'timer_increment': 'carron::cpu::Cpu::timer_increment',
    'fetch': c40.FETCH,
}


def keeps(pv):
    def f(c):
        got = c.variant(c.get('priv_lv'))
        if got != pv:
            c.bad('the privilege level changes from %s to %s' % (pv, got))
    return f


def xret(pv, name):
    def f(c):
        got = c.variant(c.get('priv_lv'))
        if vname(c.I, c.ret) == 'Err':
            if got != pv:
                c.bad('a refused %s changes the privilege level to %s' % (name, got))
        elif got not in RANK:
            c.bad('%s enters the reserved privilege level' % name)
        elif RANK[got] > RANK[pv]:
            c.bad('%s raises the privilege level from %s to %s' % (name, pv, got))
    return f


def trap(pv):
    def f(c):
        got = c.variant(c.get('priv_lv'))
        if got not in RANK or RANK[got] < max(1, RANK[pv]):
            c.bad('a trap from %s enters %s' % (pv, got))
    return f


def check(rep):
    rep.rule = ('from each privilege level, every path of decode and execute of every instruction, of fetch, of address translation, of the interrupt check and of the timer is followed: the level at its end must be the level at its start, except that '
                'a completing MRET or SRET must not raise it and a trap must not lower it; the reserved level is never entered. Every function in the call graph below the emulation loop that writes the level must have been followed on one of these paths, and none may lie below the host-service code.')
    rep.assumptions = group.TRUST + ['CSR instructions are followed for %d representative CSR numbers' % len(c40.CSRNUMS)]
    prog = dump.program()
    visited = set()

    def run(key, x, pv, spec, go, hooks=None):
        def f():
            I = Machine(prog, x, steps.bounds() if hooks is None else hooks)
            st = I.sane_state(pv)
            Func(rep, I, key, key, panic_ok=lambda r: True).check(go(I, st), spec)
            visited.update(I.functions)
        group.guard(rep, key, f)

    for x in (32, 64):
        for pv, _ in steps.PRIVS:
            for e in isa.ENC32:
                if not e[4] <= x <= e[5]:
                    continue
                w = isa.word32(e[2], e[3])
                sp = xret(pv, e[0]) if e[0] in XRET else keeps(pv)
                if e[0].startswith('CSR'):
                    for c in c40.CSRNUMS:
                        run('%s %03x from %s/%d' % (e[0], c, pv, x), x, pv, sp, lambda I, st: steps.step_paths(I, BV(tuple(w[:20]) + tuple(const(c, 12))), st))
                else:
                    run('%s from %s/%d' % (e[0], pv, x), x, pv, sp, lambda I, st: steps.step_paths(I, w, st))
            for e in isa.ENC16:
                if not e[2] <= x <= e[3]:
                    continue

                def go(I, st):
                    w, asm, ops = steps.expand16(e, x)
                    for b, t in asm:
                        st.assume(b, t)
                    return steps.step_paths(I, w, st)
                run('%s from %s/%d' % (e[0], pv, x), x, pv, keeps(pv), go)
            for k, fn in FN.items():
                run('%s from %s/%d' % (k, pv, x), x, pv, keeps(pv), lambda I, st: I.run(fn, [I.cpu()] + ([bv.sym('inc', 64)] if k == 'timer_increment' else []), st))
            for pur in c22.MIS:
                run('trans_addr %s from %s/%d' % (pur, pv, x), x, pv, keeps(pv),
                    lambda I, st: I.run(TRANS, [I.cpu(), I.enum('cpu::TransFor', pur), I.enum('cpu::TransAlign', 'Size16'), bv.sym('va', 64)], st), [(c22.BP, c22.m_bp), (c22.MMU, c22.m_mmu)])
            def bp(I, st):
                for i in range(1, c38.N):      # one trigger that may match
                    t = bv.rd(c38.TD1, const(i, 64), 64)
                    st.assume(bv.eq(BV(t[x - 4:x]), const(2, 4)), 0)
                return I.run(TRANS, [I.cpu(), I.enum('cpu::TransFor', 'Load'), I.enum('cpu::TransAlign', 'Size8'), bv.sym('va', 64)], st)
            run('breakpoints from %s/%d' % (pv, x), x, pv, keeps(pv), bp, [(c22.MMU, c38.m_mmu)])
            I0 = Machine(prog, x, [])
            ct = I0.p.ty_named('cpu::TrapCause')
            for cause in list(trapspec.EXC) + list(trapspec.INT):
                run('trap %s from %s/%d' % (cause, pv, x), x, pv, trap(pv),
                    lambda I, st: I.run(steps.TRAPFN, [I.cpu(), bv.sym('tval', 64), Agg(ct, I.p.variant_index(ct, cause), ())], st), [])

    w = scan.writers(prog, 'Cpu', 'priv_lv')
    g = scan.graph(prog)
    roots = lambda *n: [i for i, f in prog.fns.items() if f['name'] in n]
    loop = scan.reach(g, roots(EMU))
    host = scan.reach(g, roots(*[f['name'] for f in prog.fns.values() if SYSCALL.search(f['name'])]))
    names = lambda s: {prog.fns[i]['name'] for i in s if i in prog.fns}
    for fn in sorted(w):
        where = '%s' % fn
        if fn in names(host):
            rep.oblige('host services write the level: ' + fn, False, 'a function below the host-service code writes the privilege level', where)
        elif fn in names(loop) and fn not in visited:
            rep.undecided('not followed: ' + fn, 'writes the privilege level below the emulation loop')
        else:
            rep.oblige('writer ' + fn, True)
    rep.sites = sum(len(v) for v in w.values())
    rep.floor('writers of the level', len(w), 1)
    rep.floor('paths', rep.paths, 3000)
