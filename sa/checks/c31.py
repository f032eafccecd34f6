"""Guest descriptors over sequences of calls."""
import re
import bv
import c30
import dump
import group
from bv import BV, const, cval
from c30 import ARGS, DST, NAME
from func import Func
from hostsys import Host
from interp import Agg, ArrC, Result, Stop

NEW = 'carron::fesvr::FrontendServer::new'
SEQS = {
    'open use': ('open a', 'use'),
    'open open close use': ('open a', 'open b', 'close x', 'use'),
    'open close open use': ('open a', 'close x', 'open b', 'use'),
    'close open use': ('close x', 'open a', 'use'),
    'close close open open use': ('close x', 'close y', 'open a', 'open b', 'use'),
    'failing open use': ('open -', 'use'),
    'failing close use': ('open a', 'close! x', 'use'),
    'close twice': ('open a', 'close x', 'close x'),
}
USES = {'read': (63, 3), 'write': (64, 3), 'pread': (67, 4), 'pwrite': (68, 4), 'lseek': (62, 3), 'fstat': (80, 2), 'close': (57, 1), 'openat': (56, 5), 'fstatat': (79, 5)}


def host_no(x):
    return bv.zext(bv.sym('host descriptor ' + x, 31), 64)


def plan(seq, use):
    """(label, number, arguments, host result)"""
    out = []
    for k, s in enumerate(seq):
        w = s.split()
        if w[0] == 'open':
            out.append(('%d open' % k, 56, (const(-100, 64), NAME, const(2, 64), ARGS[4], ARGS[5]), 'fail' if w[1] == '-' else host_no(w[1])))
        elif w[0] in ('close', 'close!'):
            out.append(('%d close' % k, 57, (bv.sym('descriptor ' + w[1], 64),), 'fail' if w[0] == 'close!' else const(0, 32)))
        else:
            a = {'openat': (ARGS[1], NAME, const(2, 64), ARGS[4], ARGS[5]), 'fstatat': (ARGS[1], NAME, const(2, 64), DST, ARGS[5]), 'lseek': ARGS[1:4], 'fstat': (ARGS[1], DST), 'close': ARGS[1:2],
                 'read': (ARGS[1], DST, const(2, 64)), 'write': (ARGS[1], DST, const(2, 64)), 'pread': (ARGS[1], DST, const(2, 64), ARGS[4]), 'pwrite': (ARGS[1], DST, const(2, 64), ARGS[4])}[use]
            out.append(('%d use' % k, USES[use][0], a, const(0, 32)))
    return out


def spec(H, steps, use):
    def f(c):
        files = {i: const(i, 64) for i in range(3)}
        events = list(c.events)
        for label, nr, args, res in steps:
            calls = []
            while events and events[0][0] != 'back':
                calls.append(events.pop(0))
            if not events or events[0][1] != label:
                raise Stop('order of calls')
            ret = c.sub(events.pop(0)[2])
            for e in calls:
                if e[0] == 'overrun':
                    c.bad('the host is given more bytes than the buffer has')
            names = [e[1] for e in calls if e[0] == 'host']
            opening = nr == 56
            cwd = nr in (56, 79) and c.iff(bv.eq(BV(args[0][:32]), const(-100, 32)))
            g = None if cwd else next((i for i in sorted(files) if c.iff(bv.eq(args[0], const(i, 64)))), None)
            if not cwd and g is None:
                if names:
                    c.need('host descriptor used for an unknown guest descriptor', BV(calls[0][2][0][:32]), const(-1, 32))
                    if len(names) > 1:
                        c.bad('several host calls for an unknown guest descriptor')
                if nr not in (56, 79) and not c.iff(ret[63]):
                    c.bad('a call on an unknown guest descriptor succeeds')
                if not names and not c.iff(ret[63]):
                    c.bad('a call on an unknown guest descriptor succeeds')
            else:
                want = const(-100, 32) if cwd else BV(files[g][:32])
                if len(names) != 1:
                    c.bad('%d host calls for one guest call' % len(names))
                c.need('host descriptor used', BV(calls[0][2][0][:32]), want)
            if nr == 57 and g is not None and not isinstance(res, str):
                del files[g]
            if opening and names:
                if isinstance(res, str):
                    if not c.iff(ret[63]):
                        c.bad('a failing open yields a descriptor')
                else:
                    k = cval(ret)
                    if k is None:
                        c.bad('the new guest descriptor is not a number', ret)
                    if k in files:
                        c.bad('the new guest descriptor %d denotes another open file' % k)
                    if k >> 31:
                        c.bad('a successful open yields no descriptor')
                    files[k] = bv.zext(res, 64)
        if events:
            c.bad('further effects')
    return f


def initial(rep, prog):
    H = Host(rep, prog, 'initial')
    I = H.I

    def f(c):
        v = c.ret
        t = dict(zip([n for n, _ in I.p.fields(v.ty)], v.f))
        tab = t['fd_table']
        n = cval(c.sub(tab.f[[k for k, _ in I.p.fields(tab.ty)].index('len')]))
        p = I.unwrap_ptr(tab)
        got = [c.opt(e) for e in I.obj(c.st, p.obj).e[:n]]
        for i, (k, x) in enumerate(got):
            if k == 'None':
                continue
            if i > 2:
                c.bad('guest descriptor %d is open at the start' % i)
            c.need('host descriptor of guest descriptor %d' % i, BV(x[:32]), const(i, 32))
        if [k for k, _ in got[:3]] != ['Some'] * 3:
            c.bad('standard input, output and error are not open at the start')
    Func(rep, I, 'initial', NEW).check(I.run(NEW, [], I.new_state()), f)


def check(rep, only=None):
    rep.rule = ('The descriptor table as constructed, and sequences of system calls from it with unknown descriptor arguments and host descriptors: at every call the descriptor given to the host is the one the guest opened under that number and has not closed since '
                '(standard streams at the start), an unknown number reaches no host descriptor and fails, and a new file gets a number no open file has.')
    rep.assumptions = group.TRUST + ['sequences of up to five calls (opens, closes, one use of each kind)', 'c30: every other path through the handler']
    prog = dump.program()
    group.guard(rep, 'initial', lambda: initial(rep, prog))
    n = 0
    for sk, seq in SEQS.items():
        for use in (USES if seq[-1] == 'use' and len(seq) < 4 else ('read', 'close') if seq[-1] == 'use' else ('-',)):
            key = '%s/%s' % (sk, use)
            if only and only not in key:
                continue
            n += 1

            def go():
                steps = plan(seq, use)
                H = Host(rep, prog, key)
                st = H.boot(c30.tohost())
                states, ended = [st], []
                for label, nr, args, res in steps:
                    H.res = res
                    rs = H.again(states, c30.req(nr, args), c30.tohost(), label)
                    ended += [r for r in rs if r.kind != 'return']
                    states = [r.st for r in rs if r.kind == 'return']
                Func(rep, H.I, key, 'handle_syscall').check(ended + [Result('return', st, None) for st in states], spec(H, steps, use))
            group.guard(rep, key, go)
    rep.floor('sequences', n, 20)
    rep.floor('paths', rep.paths, 200)
