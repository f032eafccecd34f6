"""The log level does not influence the guest."""
import dump
import flow
import group
import scan
from interp import Stop
from machine import Machine


def never_err(rep, prog):
    memo = {}

    def f(fn):
        if fn not in memo:
            memo[fn] = False
            nm = prog.fns[fn]['name']
            try:
                ok = True
                for x in (32, 64):
                    I = Machine(prog, x)
                    body = prog.fns[fn]['body']
                    args = [I.lazy('arg%d' % i, t) for i, t in enumerate(body['lt'][1:1 + body['arg_count']])]
                    for r in I.run(nm, args, I.new_state()):
                        if r.kind == 'stop':
                            raise Stop('%s: %s' % (nm, r.why))
                        rep.paths += 1
                        if r.kind == 'return':
                            v = I.expand(r.ret) if not hasattr(r.ret, 'var') else r.ret
                            ok = ok and I.p.types[v.ty]['variants'][v.var]['name'].split('::')[-1] == 'Ok'
                memo[fn] = ok
                rep.oblige('never-err|' + nm, True)
            except Exception as e:
                rep.undecided('never-err|' + nm, e)
        return memo[fn]
    return f


def check(rep, only=None):
    rep.rule = ('Every value of the log-level type is a source. Explicit flows (assignments, calls, results) and implicit flows (control dependence up to the immediate postdominator) are followed through every function of the crate. '
                'Where a branch depends on the level, the blocks it decides about may only compute values used for printing: no store through a reference, no call that writes anything but its own locals or output, no early return, no stop. '
                'Nothing derived from the level may be stored outside the log level itself.')
    rep.assumptions = group.TRUST[:1] + ['printing has no effect on the guest other than output, and the formatting of a logged value does not panic', 'main sets the log level before the emulator runs']
    prog = dump.program()
    fl = flow.Flow(prog, r'\blog::LogLv\b', never_err(rep, prog))
    fns = [i for i in scan.local_fns(prog)]
    for i in fns:
        group.guard(rep, prog.fns[i]['name'], lambda: fl.analyse(i))
        rep.fns.add(prog.fns[i]['name']) if hasattr(rep, 'fns') else None
    for fn, bi in sorted(fl.branches):
        rep.oblige('branch|%s|%d' % (prog.fns[fn]['name'], bi), True)
    for (nm, what), (where, text) in sorted(fl.viol.items()):
        rep.oblige('flow|%s|%s' % (nm, what), False, '%s: %s' % (nm, text), where)
    rep.floor('functions', len(fns), 200)
    if not fl.branches:
        rep.undecided('branches', 'no branch depends on the log level type')
