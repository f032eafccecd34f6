"""Translation before every memory access."""
import bv
import dump
import group
import isa
import scan
import steps
import teval
from bv import BV, const
from interp import Ptr
from machine import Machine
from spec import show

FETCH = 'carron::cpu::fetch::fetch'
CSRNUMS = (0x300, 0x180, 0x105, 0x342, 0x7a1, 0xc01, 0x5c0)


def straddles(st, pc):
    """can an instruction at pc lie on two pages on this path?"""
    b = st.sub(BV((bv.eq(BV(pc[1:12]), const(0x7ff, 11)),)))[0]
    if b <= 1:
        return b == 1
    for v in teval.valuations(st, 4000):
        if v.bit(b):
            return True
    return False


def judge(st, events, amo, split=None):
    """(accesses, problem or None, open question or None) of one path"""
    seen = []
    n = 0
    for i, e in enumerate(events, 1):
        if e[0] == 'trans':
            seen.append((e[1], e[2], bv.sym('pa%d' % i, 64)))
        elif e[0] in ('load', 'store'):
            n += 1
            pur_ok = ('StoreAMO',) if e[0] == 'store' else ('Load', 'StoreAMO') if amo else ('Load',)
            a = st.sub(e[2])
            cand = []
            for pur, size, pa in seen:
                if pur == 'Fetch' and e[0] == 'load':
                    cand.append(pa)
                    if not split or not straddles(st, split):
                        cand.append(bv.add(pa, const(2, 64)))
                elif pur in pur_ok and size >= e[1]:
                    cand.append(pa)
            cand = [st.sub(c) for c in cand]
            if any(a == c for c in cand):
                continue
            what = 'a %d-byte %s at %s, which no earlier translation for a %s of that width returned' % (
                e[1], 'read' if e[0] == 'load' else 'write', show(a)[:160], 'load' if e[0] == 'load' else 'store')
            if all(teval.separate(st, a, c)[0] == 'differ' for c in cand):
                return n, what, None
            return n, None, what
    return n, None, None


def check(rep):
    rep.rule = ('every path of decode and execute of every instruction of the tables, and of fetch, is followed with translation and the bus as boundaries; the address of each bus access on the path must be the '
                'value an earlier translation on that path returned for that purpose and width. Every function in the call graph below execution that calls the bus must have been followed.')
    rep.assumptions = group.TRUST + ['the page walk inside address translation is C19 and C20', 'CSR instructions are followed for %d representative CSR numbers' % len(CSRNUMS)]
    prog = dump.program()
    tot = {'paths': 0, 'accesses': 0}
    visited = set()

    def run(key, x, amo, fn, go):
        def f():
            I = Machine(prog, x, steps.bounds())
            rs = go(I)
            visited.update(I.functions)
            rep.functions |= I.functions
            for r in rs:
                if r.kind == 'infeasible':
                    continue
                tot['paths'] += 1
                rep.paths += 1
                n, bad, op = judge(r.st, r.st.events, amo, I.init_pc() if fn == FETCH else None)
                tot['accesses'] += n
                if op:
                    rep.undecided(key, op)
                else:
                    rep.oblige(key, not bad, bad or '', fn)
        group.guard(rep, key, f)

    for x in (32, 64):
        for e in isa.ENC32:
            if not e[4] <= x <= e[5]:
                continue
            w = isa.word32(e[2], e[3])
            if e[0].startswith('CSR'):
                for c in CSRNUMS:
                    run('%s %03x/%d' % (e[0], c, x), x, 0, steps.EXEC, lambda I: steps.step_paths(I, BV(tuple(w[:20]) + tuple(const(c, 12))), I.new_state()))
            else:
                run('%s/%d' % (e[0], x), x, e[0] in group.AMO, steps.EXEC, lambda I: steps.step_paths(I, w, I.new_state()))
        for e in isa.ENC16:
            if not e[2] <= x <= e[3]:
                continue

            def go(I):
                w, asm, ops = steps.expand16(e, x)
                st = I.new_state()
                for b, t in asm:
                    st.assume(b, t)
                return steps.step_paths(I, w, st)
            run('%s/%d' % (e[0], x), x, 0, steps.EXEC, go)
        run('fetch/%d' % x, x, 0, FETCH, lambda I: I.run(FETCH, [I.cpu()], I.new_state()))
    g = below(prog, [steps.EXEC, FETCH])
    for fn, n in g:
        if fn not in visited:
            rep.undecided('not followed: ' + fn, '%d bus calls in a function the paths above do not reach' % n)
    rep.extra['functions_calling_the_bus_below_execution'] = len(g)
    rep.sites = tot['accesses']
    rep.extra['bus_accesses_on_paths'] = tot['accesses']
    rep.floor('bus accesses on paths', tot['accesses'], 60)


def below(prog, roots):
    """[(function, bus calls)] in the call graph below roots, not descending into translation or the bus"""
    from spec import BUS_RE, TRANS
    seen, out = set(), []
    work = [i for i, f in prog.fns.items() if f['name'] in roots]
    while work:
        i = work.pop()
        if i in seen or i not in prog.fns:
            continue
        seen.add(i)
        f = prog.fns[i]
        if f['name'] == TRANS or BUS_RE.match(f['name']) or not f.get('body') or not scan.is_local(f):
            continue
        n = 0
        for bb, inst, ft, c, sp in scan.calls(prog, i):
            if inst is None:
                continue
            g = prog.fns.get(inst)
            if g is not None and BUS_RE.match(g['name']):
                n += 1
            work.append(inst)
        work += list(scan.refs(prog, i))
        if n:
            out.append((f['name'], n))
    return out
