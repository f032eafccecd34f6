"""PLIC: claim, complete, enable, priority and the interrupt lines."""
import os
import bv
import dump
import group
import scen
from bv import BV, const, cval

LEVEL = 'carron::bus::plic::Plic::set_interrupt_level'
MIP = (11, 9)


class Model:
    """the specification's PLIC, over 1-bit and 4-bit unknowns, for the sources in ids"""

    def __init__(self, c, ids):
        self.c, self.ids = c, ids
        self.prio = {i: const(0, 4) for i in ids}
        self.thr = [const(0, 4)] * 2
        self.en = [{i: 0 for i in ids} for _ in (0, 1)]
        self.level = {i: 0 for i in ids}
        self.pend = [{i: 0 for i in ids} for _ in (0, 1)]
        self.busy = [{i: 0 for i in ids} for _ in (0, 1)]

    def best(self, x, above=None):
        """id of the source to offer in context x, deciding; None if there is none"""
        c = self.c
        b, bp = None, None
        for i in sorted(self.ids):
            if not c.iff(bv.band(self.pend[x][i], bv.bnot(self.busy[x][i]))):
                continue
            if b is None:
                if c.iff(bv.ult(const(0, 4), self.prio[i])):
                    b, bp = i, self.prio[i]
            elif c.iff(bv.ult(bp, self.prio[i])):
                b, bp = i, self.prio[i]
        return b

    def line(self, x):
        b = self.best(x)
        if b is None:
            return 0
        return self.c.iff(bv.ult(self.thr[x], self.prio[b]))

    def set_level(self, i, l):
        self.level[i] = l
        for x in (0, 1):
            self.pend[x][i] = bv.bor(bv.band(self.en[x][i], l), bv.band(bv.bnot(self.en[x][i]), self.pend[x][i]))

    def enable(self, x, word):
        for i in self.ids:
            new = self.c.sub(word)[i]
            old = self.en[x][i]
            rise = bv.band(bv.bnot(old), new)
            self.pend[x][i] = bv.bor(bv.band(rise, bv.bor(self.level[i], self.pend[x][i])), bv.band(bv.band(old, new), self.pend[x][i]))
            self.busy[x][i] = bv.band(new, self.busy[x][i])
            self.en[x][i] = new

    def claim(self, x):
        b = self.best(x)
        if b is not None:
            self.busy[x][b] = 1
        return b or 0

    def complete(self, x, i):
        for j in self.ids:
            if j == i and self.c.iff(self.en[x][j]):
                self.busy[x][j] = 0


class Seq:
    """a sequence of operations, run on the code and on the model"""

    def __init__(self, rep, prog, key, ids, init='random'):
        self.W = scen.World(rep, prog, 64, key).boot(('plic', 'uart', 'clint'))
        self.base = self.W.base('plic')
        self.ids, self.ops, self.n = ids, [], 0

    def lab(self, s):
        self.n += 1
        return '%s #%d' % (s, self.n)

    def prio(self, i, v):
        l = self.lab('priority of %d' % i)
        self.W.store(l, self.base + 4 * i, v)

        def f(m, o):
            scen.ok(m.c, l, o[l])
            m.prio[i] = BV(v[:4])
        self.ops.append(f)
        return self

    def read_prio(self, i):
        l = self.lab('read priority of %d' % i)
        self.W.load(l, self.base + 4 * i)
        self.ops.append(lambda m, o: m.c.need('priority read back', scen.ok(m.c, l, o[l], 32), bv.zext(m.prio[i], 32)))
        return self

    def thr(self, x, v):
        l = self.lab('threshold')
        self.W.store(l, self.base + 0x200000 + 0x1000 * x, v)

        def f(m, o):
            scen.ok(m.c, l, o[l])
            m.thr[x] = BV(v[:4])
        self.ops.append(f)
        return self

    def read_thr(self, x):
        l = self.lab('read threshold')
        self.W.load(l, self.base + 0x200000 + 0x1000 * x)
        self.ops.append(lambda m, o: m.c.need('threshold read back', scen.ok(m.c, l, o[l], 32), bv.zext(m.thr[x], 32)))
        return self

    def enable(self, x, word):
        l = self.lab('enable')
        self.W.store(l, self.base + 0x2000 + 0x80 * x, bv.zext(word, 64))

        def f(m, o):
            scen.ok(m.c, l, o[l])
            m.enable(x, word)
        self.ops.append(f)
        return self

    def read_enable(self, x, word):
        l = self.lab('read enable')
        self.W.load(l, self.base + 0x2000 + 0x80 * x)
        want = BV((0,) + tuple(word[1:]))
        self.ops.append(lambda m, o: m.c.need('enable read back', scen.ok(m.c, l, o[l], 32), want))
        return self

    def level(self, i, v):
        l = self.lab('level of %d' % i)
        self.W.step(l, LEVEL, [self.W.ptr('plic'), const(i, 32), const(v, 32)])
        self.ops.append(lambda m, o: m.set_level(i, v))
        return self

    def line(self):
        l = self.lab('interrupt line')
        self.W.look(l + ' value', 'plic', 'mip_value').look(l + ' mask', 'plic', 'mip_mask')

        def f(m, o):
            v, k = o[l + ' value'], o[l + ' mask']
            for x in (0, 1):
                want = m.line(x)
                m.c.need('interrupt line of context %d' % x, BV((bv.and_(v, k)[MIP[x]],)), const(want, 1))
        self.ops.append(f)
        return self

    def claim(self, x, keep=None):
        l = self.lab('claim')
        self.W.load(l, self.base + 0x200004 + 0x1000 * x)

        def f(m, o):
            m.last = m.claim(x)
            m.c.need('claimed source', scen.ok(m.c, l, o[l], 32), const(m.last, 32))
        self.ops.append(f)
        return self

    def complete(self, x, i):
        l = self.lab('complete')
        self.W.store(l, self.base + 0x200004 + 0x1000 * x, const(i, 64))

        def f(m, o):
            scen.ok(m.c, l, o[l])
            m.complete(x, i)
        self.ops.append(f)
        return self

    def check(self):
        def spec(c):
            m = Model(c, self.ids)
            o = scen.obs(c)
            for f in self.ops:
                f(m, o)
        self.W.check(spec, 'carron::bus::plic')


def word(tag, ids):
    s = bv.sym(tag, 32)
    return BV(tuple(s[i] if i in ids or i == 0 else 0 for i in range(32)))


def val(tag):
    return bv.sym(tag, 64)


def scenarios(rep, prog, a, b, x, full):
    ids = (a, b)
    y = 1 - x

    def run(name, f):
        key = '%s of sources %d, %d in context %d' % (name, a, b, x)
        group.guard(rep, key, lambda: f(Seq(rep, prog, key, ids)).check())
    # arbitrary priorities, threshold and enables; then both lines rise
    run('claim', lambda q: q.prio(a, val('pa')).prio(b, val('pb')).thr(x, val('t')).enable(x, word('e', ids)).line().level(a, 1).line().level(b, 1).line()
        .claim(x).line().claim(x).line().claim(x).read_prio(a).read_prio(b).read_thr(x).read_enable(x, word('e', ids)))
    both = const(1 << a | 1 << b, 32)
    run('late priority', lambda q: q.level(a, 1).level(b, 1).enable(x, word('e', ids)).line().prio(a, val('pa')).line().prio(b, val('pb')).line().claim(x).line())
    run('disable', lambda q: q.prio(a, val('pa')).prio(b, val('pb')).enable(x, both).level(a, 1).level(b, 1).line().claim(x).enable(x, const(0, 32)).line().claim(x).line().enable(x, both).line().claim(x).line())
    run('lowered while claimed', lambda q: q.prio(a, const(6, 64)).prio(b, val('pb')).enable(x, both).level(a, 1).claim(x).level(b, 1).line().level(a, 0).line().level(a, 1).line().claim(x).line().level(a, 0).complete(x, a).line().complete(x, b).claim(x).line())
    run('completion of others', lambda q: q.prio(a, const(6, 64)).enable(x, both).level(a, 1).claim(x).complete(x, 0).line().complete(x, 32 + a).line().complete(x, 1024 + a).line().complete(x, b).line().complete(y, a).line().claim(x).complete(x, a).line())
    run('complete', lambda q: q.prio(a, val('pa')).prio(b, val('pb')).enable(x, const(1 << a | 1 << b, 32)).level(b, 1).level(a, 1).claim(x).complete(x, a).line().claim(x).line().complete(x, b).claim(x).line())
    run('lowered line', lambda q: q.prio(a, val('pa')).prio(b, val('pb')).thr(x, val('t')).enable(x, const(1 << a | 1 << b, 32)).level(b, 1).level(a, 1).level(b, 0).line().claim(x).line().level(a, 0).line().claim(x).level(b, 1).line())
    run('late enable', lambda q: q.level(a, 1).level(b, 1).prio(a, val('pa')).prio(b, const(3, 64)).line().enable(x, word('e', ids)).line().thr(x, val('t')).line().enable(x, const(1 << b, 32)).line().claim(x).line())
    run('two contexts', lambda q: q.prio(a, val('pa')).prio(b, val('pb')).enable(x, const(1 << a, 32)).enable(y, const(1 << b, 32)).thr(y, val('t')).level(a, 1).level(b, 1).line().claim(y).line().claim(x).line().complete(y, a).complete(x, a).line())
    run('shared sources', lambda q: q.prio(a, val('pa')).prio(b, const(6, 64)).enable(0, both).enable(1, both).level(a, 1).level(b, 1).line().claim(x).line().level(a, 0).line().claim(y).line()
        .level(b, 0).line().complete(x, a).complete(x, b).complete(y, a).complete(y, b).line().level(a, 1).line())
    run('priority change', lambda q: q.enable(x, const(1 << a | 1 << b, 32)).level(a, 1).level(b, 1).line().prio(b, val('pb')).line().prio(a, val('pa')).line().thr(x, const(5, 64)).line().prio(b, val('pc')).line().claim(x).line())


def transitions(rep, prog, a, b, x):
    """from every state of two pending sources, with and without a claim, each operation"""
    ids = (a, b)
    both = const(1 << a | 1 << b, 32)
    ops = {'threshold': lambda q: q.thr(x, val('t2')),
           'priority': lambda q: q.prio(a, val('p2')),
           'enable': lambda q: q.enable(x, word('e', ids)),
           'lowering': lambda q: q.level(a, 0),
           'raising again': lambda q: q.level(a, 0).level(a, 1),
           'completion of the first': lambda q: q.complete(x, a),
           'completion of the second': lambda q: q.complete(x, b),
           'other context': lambda q: q.thr(1 - x, val('t2')).enable(1 - x, both).claim(1 - x)}
    for n, op in ops.items():
        for claimed in (False, True):
            key = '%s with %s, sources %d, %d in context %d' % (n, 'a claim open' if claimed else 'nothing claimed', a, b, x)

            def go():
                q = Seq(rep, prog, key, ids).prio(a, val('pa')).prio(b, val('pb')).thr(x, val('t')).enable(x, both).level(a, 1).level(b, 1)
                if claimed:
                    q.claim(x)
                op(q)
                q.line().claim(x).line().check()
            group.guard(rep, key, go)


def other_offsets(rep, prog):
    """every other 32-bit register reads as zero or is refused, and unknown words are ignored"""
    def go():
        W = scen.World(rep, prog, 64, 'unassigned offsets').boot(('plic', 'uart', 'clint'))
        base = W.base('plic')
        offs = (0, 0x80, 0x800, 0x1ffc, 0x2004, 0x207c, 0x200008, 0x200ffc)
        for o in offs:
            W.store('store %x' % o, base + o, val('d%x' % o)).load('load %x' % o, base + o)

        def spec(c):
            ob = scen.obs(c)
            for o in offs:
                n, v = c.opt(ob['load %x' % o])
                if n == 'Ok':
                    c.need('unassigned register %#x' % o, BV(v[:32]), const(0, 32))
        W.check(spec)
    group.guard(rep, 'unassigned offsets', go)


def wide(rep, prog):
    """64-bit accesses are two 32-bit accesses"""
    def go():
        W = scen.World(rep, prog, 64, 'wide access').boot(('plic', 'uart', 'clint'))
        base = W.base('plic')
        W.store('s', base + 8, val('d'), 64).load('lo', base + 8).load('hi', base + 12).load('all', base + 8, 64)

        def spec(c):
            o = scen.obs(c)
            d = val('d')
            c.need('low register', scen.ok(c, 'load', o['lo'], 32), bv.zext(BV(d[:4]), 32))
            c.need('high register', scen.ok(c, 'load', o['hi'], 32), bv.zext(BV(d[32:36]), 32))
            c.need('both registers', scen.ok(c, 'load', o['all'], 64), bv.cat(bv.zext(BV(d[:4]), 32), bv.zext(BV(d[32:36]), 32)))
        W.check(spec)
    group.guard(rep, 'wide access', go)


def check(rep):
    rep.rule = ('Sequences of register accesses and line changes, starting from Plic::new(), with unknown priorities, thresholds and enable bits, are followed through the code on every path; '
                'each claim result, read-back and interrupt line must equal the one of a reference PLIC (highest priority first, lowest number among equals, priority 0 and threshold never offered, claimed sources withheld until completion).')
    rep.assumptions = group.TRUST
    prog = dump.program()
    thorough = os.environ.get("VERIF_TIER") == "thorough"
    pairs = [(1, 2, 1), (3, 31, 0), (30, 31, 1), (1, 16, 0), (15, 16, 1), (7, 8, 0)]
    if thorough:
        pairs += [(a, b, (a + b) & 1) for a in range(1, 31) for b in (a + 1, 31) if b > a]
    for a, b, x in pairs:
        scenarios(rep, prog, a, b, x, thorough)
    for a, b, x in ((1, 2, 1), (15, 16, 0)):
        transitions(rep, prog, a, b, x)
    other_offsets(rep, prog)
    wide(rep, prog)
    rep.floor('paths', rep.paths, 60)
