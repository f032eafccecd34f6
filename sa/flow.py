"""Information-flow analysis over the crate's MIR: which branches, stores and calls depend on values of a given type.
Explicit flows by operands, implicit flows by control dependence (immediate postdominators)."""
import re
import scan
from scan import kind, operands, succs

PANICS = re.compile(r'^(std::rt::|core::panicking::|std::panicking::|core::option::(unwrap|expect)_failed|core::result::unwrap_failed)')
PRINT = re.compile(r'^std::io::_e?print$|^std::fmt::|^core::fmt::|^<.* as std::fmt::(Display|Debug|LowerHex|UpperHex|Pointer|Binary|Octal)>::fmt$|^alloc::fmt::format$|^std::fmt::format$')
INTERIOR = re.compile(r'::borrow_mut$|::try_borrow_mut$|^std::cell::(Cell|RefCell)::<.*>::(set|replace|take|swap|update|replace_with)$|^std::sync::atomic::Atomic.*::(store|swap|fetch_|compare)|^std::sync::mpsc::.*::(recv|try_recv|recv_timeout|send|iter|try_iter)$|'
                      r'::(get_or_init|get_or_try_init)(::<.*>)?$|Once(Cell|Lock)::<.*>::(set|take)$|^std::process::|^std::fs::|^std::thread::|^std::io::(?!_e?print$)|^<.*> as std::io::(Read|Write)>|^libc::|^std::ptr::(write|replace|swap)')


def name(p, inst, ft):
    if inst is not None:
        return p.fns[inst]['name']
    return (ft or {}).get('name') or (ft or {}).get('s') or '?'


class Flow:
    def __init__(self, p, ty_re, never_err=None):
        self.p, self.ty_re, self.never_err = p, re.compile(ty_re), never_err
        self.local = set(scan.local_fns(p))
        self.memo, self.eff_memo, self.branches, self.viol, self.und = {}, {}, set(), {}, {}
        self.src_ty = {}

    def is_src(self, t):
        r = self.src_ty.get(t)
        if r is None:
            r = self.src_ty[t] = bool(self.ty_re.search(self.p.types[t]['s']))
        return r

    # ---- pointers
    def pointees(self, fn):
        """local -> set of locals a reference in it may point into, or None when it may point elsewhere"""
        body = self.p.fns[fn]['body']
        n = len(body['lt'])
        pt = {}
        unknown = set(range(1, body['arg_count'] + 1))
        for _ in range(4):
            for b in body['blocks']:
                for s in b['statements']:
                    k = s['kind']
                    if not (isinstance(k, dict) and 'Assign' in k):
                        continue
                    pl, rv = k['Assign']
                    if pl['projection']:
                        continue
                    d = pl['local']
                    if kind(rv) in ('Ref', 'AddressOf'):
                        src = rv['Ref'][2] if 'Ref' in rv else rv['AddressOf'][1]
                        if 'Deref' in src['projection']:
                            r = src['local']
                            if r in unknown:
                                unknown.add(d)
                            pt.setdefault(d, set()).update(pt.get(r, ()))
                        else:
                            pt.setdefault(d, set()).add(src['local'])
                    elif kind(rv) in ('Use', 'Cast', 'CopyForDeref'):
                        for o in operands(rv):
                            if 'Deref' in o['projection'] or o['local'] in unknown:
                                unknown.add(d)
                            pt.setdefault(d, set()).update(pt.get(o['local'], ()))
                t = b['terminator']['kind']
                if kind(t) == 'Call':
                    d = t['Call']['destination']
                    if not d['projection'] and self.p.types[body['lt'][d['local']]]['k'] in ('ref', 'ptr'):
                        unknown.add(d['local'])
        return pt, unknown

    # ---- effects of a function on anything but its own locals
    def effects(self, fn, stack=()):
        """(set of parameters written through, description of another effect or None)"""
        if fn in self.eff_memo:
            return self.eff_memo[fn]
        if fn in stack:
            return set(), None
        body = self.p.fns[fn]['body']
        params, other = set(), None
        pt, unknown = self.pointees(fn)
        for bi in range(len(body['blocks'])):
            for w in self.block_effects(fn, bi, pt, unknown, stack + (fn,)):
                if w[0] == 'through':
                    if 1 <= w[1] <= body['arg_count']:
                        params.add(w[1])
                    else:
                        other = other or w[2]
                elif w[0] == 'effect':
                    other = other or w[2]
        self.eff_memo[fn] = params, other
        return params, other

    def origin(self, fn, l):
        """the parameter a reborrowed pointer comes from, else the local itself"""
        body = self.p.fns[fn]['body']
        for _ in range(6):
            if 1 <= l <= body['arg_count']:
                return l
            src = None
            for b in body['blocks']:
                for s in b['statements']:
                    k = s['kind']
                    if isinstance(k, dict) and 'Assign' in k and k['Assign'][0]['local'] == l and not k['Assign'][0]['projection']:
                        rv = k['Assign'][1]
                        if kind(rv) == 'Ref':
                            src = rv['Ref'][2]['local']
                        elif kind(rv) in ('Use', 'CopyForDeref', 'Cast'):
                            src = next((o['local'] for o in operands(rv)), None)
            if src is None:
                return l
            l = src
        return l

    def block_effects(self, fn, bi, pt, unknown, stack=()):
        """('local', l) | ('through', pointer local, text) | ('effect', callee, text) | ('stop', text)"""
        p, body = self.p, self.p.fns[fn]['body']
        b = body['blocks'][bi]

        def through(l, text):
            if l in unknown or l not in pt:
                return ('through', self.origin(fn, l), text)
            return ('locals', pt[l])
        for s in b['statements']:
            k = s['kind']
            if isinstance(k, dict) and 'Assign' in k:
                pl = k['Assign'][0]
                if 'Deref' in pl['projection']:
                    yield through(pl['local'], 'a store through %s' % p.types[body['lt'][pl['local']]]['s'])
                else:
                    yield ('locals', {pl['local']})
        t = b['terminator']['kind']
        if kind(t) != 'Call':
            return
        c = t['Call']
        f = c['func']
        ft = p.types[f['Constant']['const_']['ty']] if 'Constant' in f else None
        inst = ft.get('inst') if ft else None
        nm = name(p, inst, ft)
        if c['destination']['projection'] and 'Deref' in c['destination']['projection']:
            yield through(c['destination']['local'], 'a store through a reference')
        else:
            yield ('locals', {c['destination']['local']})
        if c['target'] is None:
            yield ('stop', nm)
            return
        if PRINT.search(nm):
            return
        args = []
        for o in c['args']:
            pl = o.get('Copy') or o.get('Move')
            args.append(pl)
        if inst is not None and inst in self.local:
            ps, other = self.effects(inst, stack)
            if other:
                yield ('effect', nm, '%s (%s)' % (nm, other))
            for i in ps:
                a = args[i - 1] if i <= len(args) else None
                if a is not None:
                    ty = p.types[body['lt'][a['local']]]
                    if 'Formatter' in ty['s']:
                        continue
                    yield through(a['local'], nm) if not a['projection'] else ('through', a['local'], nm)
            return
        if INTERIOR.search(nm) or ft is None or ft.get('virtual') or p.fns.get(inst, {}).get('foreign'):
            yield ('effect', nm, nm)
            return
        for a in args:
            if a is None or a['projection']:
                continue
            ty = p.types[body['lt'][a['local']]]
            if ty['k'] in ('ref', 'ptr') and ty.get('mut') and 'Formatter' not in ty['s']:
                yield through(a['local'], nm)

    # ---- control dependence
    def cfg(self, fn, dead=frozenset()):
        bl = self.p.fns[fn]['body']['blocks']
        seen, st = {0}, [0]
        sc = {}
        while st:
            x = st.pop()
            sc[x] = [s for s in succs(bl[x]) if s not in dead]
            for s in sc[x]:
                if s not in seen:
                    seen.add(s)
                    st.append(s)
        ex = 'exit'
        rets = {b for b in seen if kind(bl[b]['terminator']['kind']) == 'Return'}
        pred = {}
        for b in seen:
            for s in sc[b]:
                pred.setdefault(s, set()).add(b)

        def back(roots):
            r, w = set(roots), list(roots)
            while w:
                for q in pred.get(w.pop(), ()):
                    if q not in r:
                        r.add(q)
                        w.append(q)
            return r
        live = back(rets)
        # endless loops: their headers lead to the exit
        heads, onst, done = set(), set(), set()

        def dfs(root):
            stack = [(root, iter(sc[root]))]
            onst.add(root)
            while stack:
                x, it = stack[-1]
                for s in it:
                    if s in onst:
                        heads.add(s)
                    elif s not in done:
                        onst.add(s)
                        stack.append((s, iter(sc[s])))
                        break
                else:
                    stack.pop()
                    onst.discard(x)
                    done.add(x)
        dfs(0)
        heads = {h for h in heads if h not in live}
        live |= back(heads)
        g = {b: [s for s in sc[b] if s in live] + ([ex] if b in rets or b in heads else []) for b in live}
        full = set(live) | {ex}
        pd = {b: set(full) for b in live}
        pd[ex] = {ex}
        ch = True
        order = sorted(live, reverse=True)
        while ch:
            ch = False
            for b in order:
                d = set.intersection(*[pd[s] for s in g[b]]) | {b} if g[b] else {b}
                if d != pd[b]:
                    pd[b] = d
                    ch = True
        return sc, g, pd

    def region(self, cf, b):
        """blocks executed depending on the branch in b; includes blocks that only stop the program"""
        sc, g, pd = cf
        if b not in pd:
            return set(), None
        own = pd[b] - {b}
        # immediate postdominator: the one postdominated by all others
        ip = next((x for x in own if all(y in pd[x] for y in own)), 'exit') if own else 'exit'
        r, w = set(), [s for s in sc[b]]
        while w:
            x = w.pop()
            if x == ip or x in r:
                continue
            r.add(x)
            w.extend(sc.get(x, ()))
        return r, ip

    # ---- taint
    def analyse(self, fn, tp=frozenset(), stack=()):
        """True when the result depends on the source"""
        key = (fn, tp)
        if key in self.memo:
            return self.memo[key]
        if key in stack or len(stack) > 40:
            return False
        p, body = self.p, self.p.fns[fn]['body']
        nm = p.fns[fn]['name']
        bl = body['blocks']
        pt, unknown = self.pointees(fn)
        T = {i for i, t in enumerate(body['lt']) if i and self.is_src(t)} | set(tp)
        src0 = self.is_src(body['lt'][0])
        dead = set()
        cf = self.cfg(fn)
        regions = {}
        for _ in range(60):
            before = (set(T), len(regions), len(dead))
            for bi in cf[0]:
                b = bl[bi]
                for s in b['statements']:
                    k = s['kind']
                    if not (isinstance(k, dict) and 'Assign' in k):
                        continue
                    pl, rv = k['Assign']
                    t = any(self.op_tainted(T, o) for o in operands(rv)) or kind(rv) in ('Ref', 'AddressOf', 'Discriminant', 'CopyForDeref', 'Len') and self.rv_place(rv) in T
                    if not t:
                        continue
                    if 'Deref' in pl['projection']:
                        self.store(fn, bi, pl['local'], pt, unknown, T, s)
                    else:
                        T.add(pl['local'])
                t = b['terminator']['kind']
                if kind(t) == 'Call':
                    self.call(fn, bi, t['Call'], T, pt, unknown, stack + (key,))
                elif kind(t) == 'SwitchInt':
                    o = t['SwitchInt']['discr']
                    pl = o.get('Copy') or o.get('Move')
                    if pl is not None and self.op_tainted(T, pl):
                        regions[bi] = self.region(cf, bi)
            for bi in list(regions):
                r, ip = regions[bi] = self.region(cf, bi)
                nd = self.impossible(fn, r) - dead
                if nd:
                    dead |= nd
                    cf = self.cfg(fn, frozenset(dead))
                    r, ip = regions[bi] = self.region(cf, bi)
                for x in r:
                    for e in self.block_effects(fn, x, pt, unknown):
                        if e[0] == 'locals':
                            T |= self.outside(fn, r, e[1])
            if before == (set(T), len(regions), len(dead)):
                break
        for bi in regions:
            r, ip = regions[bi]
            self.branches.add((fn, bi))
            for x in sorted(r):
                for e in self.block_effects(fn, x, pt, unknown):
                    if e[0] == 'through' or e[0] == 'effect':
                        self.viol.setdefault((nm, e[2]), (self.where(fn, x), 'happens or not depending on the log level: %s' % e[2]))
                    elif e[0] == 'stop':
                        self.viol.setdefault((nm, e[1]), (self.where(fn, x), 'the program stops or not depending on the log level: %s' % e[1]))
        self.memo[key] = 0 in T and not src0
        return self.memo[key]

    def where(self, fn, bi):
        b = self.p.fns[fn]['body']['blocks'][bi]
        for s in [b['terminator']] + b['statements'][::-1]:
            sp = self.p.span(s['source_info']['span'])
            if sp and sp.startswith('src/'):
                return sp
        return self.p.fns[fn]['name']

    def op_tainted(self, T, pl):
        return pl['local'] in T or any(isinstance(e, dict) and 'Index' in e and e['Index'] in T for e in pl['projection'])

    def rv_place(self, rv):
        x = rv[kind(rv)]
        if isinstance(x, list):
            x = next((y for y in x if isinstance(y, dict) and 'local' in y), None)
        return x['local'] if isinstance(x, dict) and 'local' in x else None

    def outside(self, fn, r, ls):
        """the locals of `ls` that are used outside the region"""
        key = ('uses', fn)
        u = self.eff_memo.get(key)
        if u is None:
            u = {}
            body = self.p.fns[fn]['body']
            for bi, b in enumerate(body['blocks']):
                def note(l):
                    u.setdefault(l, set()).add(bi)
                for s in b['statements']:
                    k = s['kind']
                    if isinstance(k, dict) and 'Assign' in k:
                        pl, rv = k['Assign']
                        for o in operands(rv):
                            note(o['local'])
                        x = self.rv_place(rv)
                        if x is not None:
                            note(x)
                        if pl['projection']:
                            note(pl['local'])
                for o in operands(b['terminator']['kind']):
                    note(o['local'])
                if kind(b['terminator']['kind']) == 'Return':
                    note(0)
            self.eff_memo[key] = u
        return {l for l in ls if u.get(l, set()) - r}

    def store(self, fn, bi, l, pt, unknown, T, s=None, what='a value derived from the log level is stored'):
        if l in unknown or l not in pt:
            nm = self.p.fns[fn]['name']
            self.viol.setdefault((nm, what), (self.where(fn, bi), what))
        else:
            T |= pt[l]

    def call(self, fn, bi, c, T, pt, unknown, stack):
        p, body = self.p, self.p.fns[fn]['body']
        f = c['func']
        ft = p.types[f['Constant']['const_']['ty']] if 'Constant' in f else None
        inst = ft.get('inst') if ft else None
        nm = name(p, inst, ft)
        pls = [o.get('Copy') or o.get('Move') for o in c['args']]
        ta = [pl is not None and self.op_tainted(T, pl) for pl in pls]
        d = c['destination']
        if inst is not None and inst in self.local:
            n = p.fns[inst]['body']['arg_count']
            tp = frozenset(i + 1 for i, x in enumerate(ta) if x and i < n)
            r = self.analyse(inst, tp, stack)
        else:
            r = any(ta) and not PRINT.search(nm)
            if r:
                for pl, x in zip(pls, ta):
                    if pl is None or x or pl['projection']:
                        continue
                    ty = p.types[body['lt'][pl['local']]]
                    if ty['k'] in ('ref', 'ptr') and ty.get('mut'):
                        self.store(fn, bi, pl['local'], pt, unknown, T, what='a value derived from the log level is handed to %s' % nm)
            elif any(ta):
                r = 'fmt' in nm and not nm.endswith('_print')       # texts made from the level
        if r:
            if 'Deref' in d['projection']:
                self.store(fn, bi, d['local'], pt, unknown, T)
            else:
                T.add(d['local'])

    def impossible(self, fn, r):
        """blocks of the region that return an error no callee can produce"""
        if not self.never_err:
            return set()
        p, bl = self.p, self.p.fns[fn]['body']['blocks']
        res, callees = set(), set()
        for x in r:
            t = bl[x]['terminator']['kind']
            if kind(t) != 'Call':
                continue
            f = t['Call']['func']
            ft = p.types[f['Constant']['const_']['ty']] if 'Constant' in f else None
            inst = ft.get('inst') if ft else None
            nm = name(p, inst, ft)
            if '::from_residual' in nm:
                res.add(x)
            elif inst in self.local and 'Result<' in p.types[self.p.fns[inst]['body']['lt'][0]]['s']:
                callees.add(inst)
        if res and callees and all(self.never_err(c) for c in callees):
            return res
        return set()
