"""Loads the MIR dump and pre-digests it."""
import json
from bv import const


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.d = d
        self.types = {int(k): v for k, v in d['types'].items()}
        self.fns = {int(k): v for k, v in d['fns'].items()}
        self.allocs = {int(k): v for k, v in d['allocs'].items()}
        self.spans = {int(k): v for k, v in d['spans'].items()}
        self.roots = {n: i for i, n in d['roots']}
        self.vt = {}
        for fd, ty, inst in d['vtables']:
            self.vt[(fd, ty)] = inst
        self.by_name = {}
        for i, f in self.fns.items():
            self.by_name.setdefault(f['name'], []).append(i)
        self.statics = {}
        for a in list(d['statics']) + [a for a in self.allocs.values() if 'static' in a]:
            self.statics[a['static']] = a
        self._by_str = {}
        for i, t in self.types.items():
            self._by_str.setdefault(t['s'], i)
        for f in self.fns.values():
            b = f.get('body')
            if b:
                b['lt'] = [l['ty'] for l in b['locals']]

    def ty_named(self, s):
        """type id by printed form"""
        return self._by_str.get(s)

    def tname(self, t):
        return self.types[t]['s']

    def find(self, pred):
        return [i for i, f in self.fns.items() if pred(f)]

    def fn(self, name):
        """unique crate function by exact instance name"""
        c = self.by_name.get(name, [])
        return c[0] if len(c) >= 1 else None

    def span(self, sid):
        s = self.spans.get(sid)
        return '%s:%s' % (s[0].replace('/repo/', ''), s[1]) if s else '?'

    def width(self, t):
        """bit width of a scalar type, or None"""
        ty = self.types[t]
        k = ty['k']
        if k == 'bool':
            return 1
        if k == 'char':
            return 32
        if k in ('int', 'uint'):
            return ty['bits']
        return None

    def signed(self, t):
        return self.types[t]['k'] == 'int'

    def fields(self, t, variant=0):
        """[(name, ty)]"""
        ty = self.types[t]
        k = ty['k']
        if k == 'adt':
            v = ty['variants']
            return v[variant or 0]['fields'] if v else []
        if k == 'tuple':
            return [(str(i), f) for i, f in enumerate(ty['fields'])]
        if k == 'closure':
            return self.fields(ty['upvars'])
        return []

    def discr(self, t, variant):
        return int(self.types[t]['variants'][variant]['discr'])

    def is_enum(self, t):
        ty = self.types[t]
        return ty['k'] == 'adt' and ty['adt'] == 'enum'

    def variant_index(self, t, name):
        for i, v in enumerate(self.types[t]['variants']):
            if v['name'].split('::')[-1] == name:
                return i
        raise KeyError(name)
