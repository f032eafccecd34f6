"""The cycle and the emulation loop."""
import re
import bv
import dump
import group
import steps
from bv import BV, const, cval
from func import Func
from interp import Agg, Lazy, Ptr, Stop
from machine import Machine
from spec import vname

CYC = 'carron::cpu::Cpu::exec_one_cycle'
EMU = 'carron::Emulator::emulation'
INTR = re.compile(r'::check_interrupt$')
FETCH = re.compile(r'^carron::cpu::fetch::fetch$')


def result(I, st, n, what, dty, okv):
    if st.decide(bv.sym('%s_ok%d' % (what, n), 1)[0]):
        return I.ok(dty, okv(I.p.fields(dty, 0)[0][1]))
    return I.err(dty, Lazy('%s_err%d' % (what, n), I.p.fields(dty, 1)[0][1]))


def unit(t):
    return Agg(t, 0, ())


def m_intr(I, st, f, a, at, dty):
    st.events += (('interrupt',),)
    return result(I, st, len(st.events), 'interrupt', dty, unit)


def fetcher(width):
    def m(I, st, f, a, at, dty):
        st.events += (('fetch',),)
        n = len(st.events)
        key = ('fetched', n)
        st.objs[key] = bv.sym('word%d' % n, width)
        t = I.p.ty_named('u%d' % width)
        return result(I, st, n, 'fetch', dty, lambda b: I.rewrap_box(st, None, Ptr(key, (), ('ty', t)), b))
    return m


def m_dec(I, st, f, a, at, dty):
    w = I.read(st, a[0])
    st.events += (('decode', 32 if f['name'] == steps.DEC32 else 16, st.sub(w), a[1]),)
    n = len(st.events)
    return result(I, st, n, 'decode', dty, lambda t: Lazy('inst%d' % n, t))


def m_exec(I, st, f, a, at, dty):
    st.events += (('execute', I.read(st, a[0])),)
    return result(I, st, len(st.events), 'execute', dty, unit)


def cycle(width):
    def f(c):
        c.cpu_unchanged()
        order = ['interrupt', 'fetch', 'decode', 'execute']
        kinds = [e[0] for e in c.events]
        v = c.ret
        failed = None
        for i, k in enumerate(kinds):
            if failed is not None:
                c.bad('%s after a failed %s' % (k, kinds[failed]))
            if k != order[i] if i < 4 else True:
                c.bad('a cycle does %s' % ', '.join(kinds))
            e = c.events[i]
            if k == 'decode':
                if e[1] != width:
                    c.bad('a %d-bit word decoded as %d bits' % (width, e[1]))
                c.need('word decoded', e[2], bv.sym('word%d' % i, width))
                if vname(c.I, e[3]) != 'Rv%d' % c.xlen:
                    c.bad('decoded for ' + vname(c.I, e[3]))
            if k == 'execute' and (not isinstance(e[1], Lazy) or e[1].name != 'inst%d' % i):
                c.bad('the instruction executed is not the one decoded', repr(e[1])[:100])
            if not c.iff(bv.sym('%s_ok%d' % (k, i + 1), 1)):
                failed = i
        if vname(c.I, v) == 'Ok':
            if failed is not None:
                c.bad('a failed %s is not reported' % kinds[failed])
            if len(kinds) < 4:
                c.bad('a cycle ends after ' + ', '.join(kinds))
            return
        if failed is None:
            c.bad('a cycle fails although every phase succeeded')
        want = '%s_err%d' % (kinds[failed], failed + 1)
        e = v.f[0]
        if isinstance(e, Lazy):
            if e.name != want:
                c.bad('another exception is reported')
            return
        # rebuilt piecewise
        for j in (0, 1):
            if not isinstance(e.f[j], Lazy) or e.f[j].name != '%s.%d' % (want, j):
                c.bad('the exception of %s is altered' % kinds[failed], repr(e.f[j])[:100])
    return f


def loop_bounds(limit, free):
    """limit: cycles after which the analysis stops; free: cycles whose outcome is unknown"""
    def m_cyc(I, st, f, a, at, dty):
        k = sum(1 for e in st.events if e[0] == 'cycle')
        if k >= limit:
            raise Stop('done')
        st.events += (('cycle', I.pc(st)),)
        n = len(st.events)
        if k < free:
            return result(I, st, n, 'cycle', dty, unit)
        return I.ok(dty, unit(I.p.fields(dty, 0)[0][1]))

    def note(kind):
        def m(I, st, f, a, at, dty):
            st.events += ((kind,) + tuple(st.sub(x) if isinstance(x, BV) else x for x in a[1:]),)
            return unit(dty)
        return m

    def m_tohost(I, st, f, a, at, dty):
        st.events += (('tohost?',),)
        n = len(st.events)
        if sum(1 for e in st.events if e[0] == 'cycle') > free:
            return const(0, 1)
        return const(st.decide(bv.sym('tohost%d' % n, 1)[0]), 1)

    def m_skip(I, st, f, a, at, dty):
        return unit(dty)
    return [(CYC, m_cyc), (steps.TRAPFN, note('trap')), (re.compile(r'::handle_syscall$'), note('syscall')), (re.compile(r'::check_tohost$'), m_tohost),
            (re.compile(r'^carron::cpu::Cpu::timer_increment$'), note('time')), (re.compile(r'::tick$'), note('tick')), (re.compile(r'^carron::cpu::reg::Register::show$'), m_skip)]


def emu_state(I, tohost):
    st = I.sane_state()
    t = I.p.ty_named('Emulator')
    st.objs[('emu',)] = I.expand(Lazy('emu', t))
    for n in ('tohost_addr', 'fromhost_addr'):
        i = I.field_index(t, n)
        ft = I.p.fields(t)[i][1]
        v = I.some(ft, bv.sym(n, 64)) if tohost else I.none(ft)
        o = st.objs[('emu',)]
        st.objs[('emu',)] = Agg(o.ty, o.var, o.f[:i] + (v,) + o.f[i + 1:])
    return st


def loop_path(F, I, r, tohost, free, pc0):
    """one unrolled path of the emulation loop"""
    if r.kind != 'stop' or r.why != 'done':
        return None

    def spec(c):
        ev = list(c.events)
        cyc = [i for i, e in enumerate(ev) if e[0] == 'cycle']
        for k, i in enumerate(cyc[:-1]):
            body = ev[i + 1:cyc[k + 1]]
            traps = [b for b in body if b[0] == 'trap']
            failed = k < free and not c.iff(bv.sym('cycle_ok%d' % (i + 1), 1))
            if not failed:
                if traps:
                    c.bad('a trap is taken after a cycle without exception')
            else:
                if len(traps) != 1:
                    c.bad('%d traps are taken for one exception' % len(traps))
                cause, tval = traps[0][2], traps[0][1]
                if not isinstance(cause, Lazy) or cause.name != 'cycle_err%d.1' % (i + 1):
                    c.bad('the trap has another cause than the exception', repr(cause)[:80])
                n, v = c.opt(Lazy('cycle_err%d.0' % (i + 1), I.p.ty_named('std::option::Option<u64>')))
                want = v if n == 'Some' else c.I.init_pc()
                c.need('trap value', BV(c.sub(tval)[:c.xlen]), BV(c.sub(want)[:c.xlen]))
            asked = [j for j, b in enumerate(body) if b[0] == 'tohost?']
            calls = [b for b in body if b[0] == 'syscall']
            if tohost:
                if not asked:
                    c.bad('a cycle passes without looking for a host request')
                if k < free:
                    yes = c.iff(bv.sym('tohost%d' % (i + 2 + asked[0]), 1))
                    if len(calls) != yes:
                        c.bad('%d host calls are served for %s request' % (len(calls), 'one' if yes else 'no'))
                elif calls:
                    c.bad('a host call is served that was not requested')
            elif calls:
                c.bad('a host call is served by a program that has no host interface')
    F.path(type(r)('return', r.st, ret=None), spec)
    return True


def clock(events):
    """the time steps and device ticks of a run, each with the number of cycles before it"""
    k, out = 0, []
    for e in events:
        if e[0] == 'cycle':
            k += 1
        elif e[0] in ('time', 'tick'):
            out.append((k, cval(e[1]) if e[0] == 'time' and isinstance(e[1], BV) else e[0]))
    return tuple(out)


def rounds(rep, I, r, key):
    """cycles between timer steps, in an undisturbed run"""
    ev = r.st.events
    k = 0
    steps_, per = [], []
    for e in ev:
        if e[0] == 'cycle':
            k += 1
        if e[0] == 'time':
            per.append(k)
            steps_.append(cval(e[1]))
            k = 0
    if len(per) < 2:
        rep.oblige(key + ':time', False, 'guest time does not advance within %d cycles' % LIMIT, EMU)
        return
    rep.oblige(key + ':same', len(set(per)) == 1 and len(set(steps_)) == 1 and None not in steps_ and steps_[0] > 0, 'time steps %s after %s cycles' % (steps_, per), EMU)
    ticks = sum(1 for e in ev if e[0] == 'tick')
    rep.oblige(key + ':devices', ticks == len(per), '%d device ticks in %d rounds' % (ticks, len(per)), EMU)
    rep.extra['cycles_per_round'], rep.extra['time_step'] = per[0], steps_[0]


LIMIT = 12000


def check(rep):
    rep.rule = ('exec_one_cycle is summarised with the outcome of each phase unknown: interrupts are sampled, then one fetch, decode and execution of that word, stopping at the first failure, which is returned. '
                'The emulation loop is unrolled over a whole timer round and over the outcomes of two cycles: one trap per failed cycle, none otherwise, and one timer step per round.')
    rep.assumptions = group.TRUST
    prog = dump.program()
    for x in (32, 64):
        for w in (16, 32):
            key = 'cycle of a %d-bit word/%d' % (w, x)

            def go():
                I = Machine(prog, x, [(INTR, m_intr), (FETCH, fetcher(w)), (steps.DEC32, m_dec), (steps.DEC16, m_dec), (steps.EXEC, m_exec)])
                Func(rep, I, key, CYC).check(I.run(CYC, [I.cpu()], I.sane_state()), cycle(w))
            group.guard(rep, key, go)
    n = 0
    for x in (32, 64):
        for tohost in (True, False):
            key = 'loop %s host interface/%d' % ('with' if tohost else 'without', x)
            n += 1

            def go():
                I = Machine(prog, x, loop_bounds(3, 2))
                F = Func(rep, I, key, EMU)
                got = 0
                clocks = {}
                for r in I.run(EMU, [Ptr(('emu',))], emu_state(I, tohost)):
                    if loop_path(F, I, r, tohost, 2, None):
                        got += 1
                        clocks.setdefault(clock(r.st.events), r)
                    elif r.kind in ('return', 'panic'):
                        rep.oblige(key + ':end', False, 'the emulation loop ends (%s)' % (r.why or r.kind), EMU)
                    else:
                        rep.undecided(key, '%s at %s' % (r.why, r.where))
                rep.oblige(key + ':clock', len(clocks) <= 1, 'guest time depends on what the instructions do: (cycle, step) %s' % ' or '.join(map(str, sorted(clocks, key=repr))), EMU)
            group.guard(rep, key, go)

    def whole():
        I = Machine(prog, 64, loop_bounds(LIMIT, 0), max_visits=10 ** 9, max_steps=10 ** 9)
        for r in I.run(EMU, [Ptr(('emu',))], emu_state(I, False)):
            if r.why == 'done':
                rounds(rep, I, r, 'round')
            else:
                rep.undecided('round', '%s at %s' % (r.why, r.where))
    group.guard(rep, 'round', whole)
    rep.floor('paths', rep.paths, 12)
