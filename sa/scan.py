"""Structural queries over the dumped MIR: field effects, call graph, dominators."""
import re


def kind(x):
    return x if isinstance(x, str) else next(iter(x))


class Site:
    __slots__ = ('fn', 'mode', 'fields', 'span', 'bb', 'place', 'idx')

    def __init__(self, fn, mode, fields, span, bb, place, idx=None):
        self.fn, self.mode, self.fields, self.span, self.bb, self.place, self.idx = fn, mode, fields, span, bb, place, idx


def local_fns(p):
    return [i for i, f in p.fns.items() if f.get('body') and is_local(f)]


def is_local(f):
    return 'carron::' in f['name'].split('<')[0] or f['name'].startswith(('<carron::', 'carron::')) or f.get('crate') in ('carron',)


def pfields(p, fn, place):
    """[(adt, field)] along a place's projection, outermost first"""
    body = p.fns[fn]['body']
    ty = body['lt'][place['local']]
    out = []
    var = 0
    for pr in place['projection']:
        t = p.types[ty]
        if pr == 'Deref':
            ty = elem_of(p, ty)
            if ty is None:
                return out
        elif isinstance(pr, dict) and 'Field' in pr:
            i, fty = pr['Field']
            if t['k'] == 'adt':
                vs = t['variants']
                try:
                    out.append((t['name'].split('<')[0], vs[var]['fields'][i][0]))
                except Exception:
                    out.append((t['name'], str(i)))
            var = 0
            ty = fty
        elif isinstance(pr, dict) and 'Downcast' in pr:
            d = pr['Downcast']
            var = d if isinstance(d, int) else d[0]
        elif isinstance(pr, dict) and ('Index' in pr or 'ConstantIndex' in pr):
            e = t.get('elem')
            if e is None:
                return out
            ty = e
        elif isinstance(pr, dict) and 'Subslice' in pr:
            pass
        else:
            return out
    return out


def elem_of(p, ty):
    t = p.types[ty]
    for k in ('elem', 'pointee', 'to', 'target'):
        if k in t:
            return t[k]
    if t['k'] == 'adt' and t['name'].endswith('boxed::Box') and t.get('args'):
        return t['args'][0].get('ty')
    return None


def sites(p, fn):
    """every place written, read or borrowed in a function"""
    body = p.fns[fn]['body']
    for bi, b in enumerate(body['blocks']):
        for si, s in enumerate(b['statements']):
            k = s['kind']
            sp = s['source_info']['span']
            if isinstance(k, dict) and 'Assign' in k:
                pl, rv = k['Assign']
                yield Site(fn, 'write', pfields(p, fn, pl), sp, bi, pl, si)
                rk = kind(rv)
                if rk == 'Ref':
                    bk = kind(rv['Ref'][1])
                    yield Site(fn, 'borrow_mut' if bk == 'Mut' else 'borrow', pfields(p, fn, rv['Ref'][2]), sp, bi, rv['Ref'][2], si)
                elif rk == 'AddressOf':
                    yield Site(fn, 'borrow_mut' if kind(rv['AddressOf'][0]) in ('Mut',) else 'borrow', pfields(p, fn, rv['AddressOf'][1]), sp, bi, rv['AddressOf'][1], si)
                for o in operands(rv):
                    yield Site(fn, 'read', pfields(p, fn, o), sp, bi, o, si)
        t = b['terminator']
        tk = t['kind']
        if kind(tk) == 'Call':
            c = tk['Call']
            yield Site(fn, 'write', pfields(p, fn, c['destination']), t['source_info']['span'], bi, c['destination'], None)


def operands(rv):
    """places read by an rvalue"""
    st = [rv]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            for k, v in x.items():
                if k in ('Copy', 'Move') and isinstance(v, dict) and 'local' in v:
                    yield v
                elif k == 'Constant':
                    pass
                else:
                    st.append(v)
        elif isinstance(x, list):
            st.extend(x)


def calls(p, fn):
    """(block, callee instance or None, callee fndef type, Call dict, span)"""
    body = p.fns[fn]['body']
    for bi, b in enumerate(body['blocks']):
        t = b['terminator']
        if kind(t['kind']) != 'Call':
            continue
        c = t['kind']['Call']
        f = c['func']
        inst = None
        ft = None
        if 'Constant' in f:
            ty = f['Constant']['const_']['ty']
            ft = p.types[ty]
            inst = ft.get('inst')
        yield bi, inst, ft, c, t['source_info']['span']


def refs(p, fn):
    """function instances mentioned as values (passed as callbacks) plus closures built"""
    body = p.fns[fn]['body']
    for l in body['lt']:
        t = p.types[l]
        if t['k'] in ('closure', 'fndef') and t.get('inst'):
            yield t['inst']
    for b in body['blocks']:
        for s in b['statements']:
            yield from consts(p, s['kind'])
        yield from consts(p, b['terminator']['kind'])


def consts(p, x):
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, dict):
            if 'const_' in y:
                t = p.types.get(y['const_']['ty'])
                if t and t['k'] in ('fndef', 'closure') and t.get('inst') is not None:
                    yield t['inst']
            else:
                st.extend(y.values())
        elif isinstance(y, list):
            st.extend(y)


def graph(p):
    """instance -> set of instances it may enter (calls, callbacks, closures, virtual callees by vtable)"""
    g = {}
    vts = set(p.vt.values())
    clos = {}
    for i, f in p.fns.items():
        if not f.get('body'):
            continue
        o = set()
        for _, inst, ft, c, _ in calls(p, i):
            if inst is not None:
                o.add(inst)
            if ft is not None and ft.get('virtual'):
                o |= vts
        o |= set(refs(p, i))
        g[i] = o
    return g


def reach(g, roots):
    seen = set(roots)
    w = list(roots)
    while w:
        x = w.pop()
        for y in g.get(x, ()):
            if y not in seen:
                seen.add(y)
                w.append(y)
    return seen


def writers(p, adt, field):
    """functions that write, or mutably borrow, adt.field"""
    out = {}
    for i in p.fns:
        f = p.fns[i]
        if not f.get('body'):
            continue
        for s in sites(p, i):
            if s.mode in ('write', 'borrow_mut') and any(a.split('::')[-1] == adt and n == field for a, n in s.fields):
                out.setdefault(f['name'], []).append(s)
    return out


def succs(b):
    t = b['terminator']['kind']
    k = kind(t)
    if k == 'Goto':
        return [t['Goto']['target']]
    if k == 'SwitchInt':
        x = t['SwitchInt']['targets']
        return [y for _, y in x['branches']] + [x['otherwise']]
    if k == 'Call':
        return [t['Call']['target']] if t['Call']['target'] is not None else []
    if k in ('Drop', 'Assert'):
        return [t[k]['target']]
    return []


def dominators(p, fn):
    """block -> set of dominating blocks"""
    bl = p.fns[fn]['body']['blocks']
    n = len(bl)
    pred = {i: [] for i in range(n)}
    for i, b in enumerate(bl):
        for s in succs(b):
            pred[s].append(i)
    order = []
    seen = {0}
    st = [0]
    while st:
        x = st.pop()
        order.append(x)
        for s in succs(bl[x]):
            if s not in seen:
                seen.add(s)
                st.append(s)
    dom = {i: set(seen) for i in seen}
    dom[0] = {0}
    ch = True
    while ch:
        ch = False
        for i in order:
            if i == 0:
                continue
            ps = [dom[q] for q in pred[i] if q in seen]
            d = set.intersection(*ps) | {i} if ps else {i}
            if d != dom[i]:
                dom[i] = d
                ch = True
    return dom
