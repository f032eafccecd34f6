"""Trace-partitioned abstract interpreter for monomorphic MIR over the bit-provenance domain."""
import copy
import re
import os
import time
import bv
from bv import BV, const, cval


# a check that has run this long stops deciding further obligations (they become undecided) rather than exceed its time
DEADLINE = time.time() + float(os.environ.get("SA_BUDGET", 700))


class Agg:
    __slots__ = ('ty', 'var', 'f')

    def __init__(self, ty, var, f):
        self.ty, self.var, self.f = ty, var, tuple(f)

    def __repr__(self):
        return 'Agg<%s>#%s%r' % (self.ty, self.var, self.f)

    def __eq__(self, o):
        return isinstance(o, Agg) and self.ty == o.ty and self.var == o.var and self.f == o.f

    def __hash__(self):
        return hash((self.ty, self.var, self.f))


class ArrC:
    """array with individually known elements"""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = tuple(e)

    def __repr__(self):
        return 'Arr%r' % (self.e,)

    def __eq__(self, o):
        return isinstance(o, ArrC) and self.e == o.e

    def __hash__(self):
        return hash(self.e)


class SymArr:
    """array with an unknown initial content, plus an ordered list of writes"""
    __slots__ = ('name', 'ety', 'len', 'w')

    def __init__(self, name, ety, ln, w=()):
        self.name, self.ety, self.len, self.w = name, ety, ln, tuple(w)

    def __repr__(self):
        return 'SymArr(%s%s)' % (self.name, ''.join(', [%r]=%r' % x for x in self.w))

    def __eq__(self, o):
        return isinstance(o, SymArr) and (self.name, self.ety, self.w) == (o.name, o.ety, o.w)

    def __hash__(self):
        return hash((self.name, self.w))


class Lazy:
    """unexpanded unknown value of a type, identified by its name"""
    __slots__ = ('name', 'ty')

    def __init__(self, name, ty):
        self.name, self.ty = name, ty

    def __repr__(self):
        return '?%s' % self.name

    def __eq__(self, o):
        return isinstance(o, Lazy) and self.name == o.name and self.ty == o.ty

    def __hash__(self):
        return hash(self.name)


class Ptr:
    __slots__ = ('obj', 'path', 'meta')

    def __init__(self, obj, path=(), meta=None):
        self.obj, self.path, self.meta = obj, tuple(path), meta

    def __repr__(self):
        return '&%s%s%s' % (self.obj, ''.join('.%s%r' % p for p in self.path), '' if self.meta is None else ' meta %r' % (self.meta,))

    def __eq__(self, o):
        return isinstance(o, Ptr) and (self.obj, self.path, self.meta) == (o.obj, o.path, o.meta)

    def __hash__(self):
        return hash((self.obj, self.path))


class FnV:
    __slots__ = ('inst',)

    def __init__(self, inst):
        self.inst = inst

    def __repr__(self):
        return 'fn#%s' % self.inst

    def __eq__(self, o):
        return isinstance(o, FnV) and o.inst == self.inst

    def __hash__(self):
        return hash(self.inst)


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()
UNINIT_BOX = Undef()     # contents of a fresh Box<MaybeUninit<T>>: the wrapper types are transparent


class Split(Exception):
    """the next step depends on an undetermined bit"""

    def __init__(self, bit):
        self.bit = bit


class Panic(Exception):
    def __init__(self, what):
        self.what = what


class Stop(Exception):
    """analysis cannot continue precisely"""

    def __init__(self, why):
        self.why = why


class Prune(Exception):
    """path infeasible"""


class Frame:
    __slots__ = ('fid', 'fn', 'bb', 'si', 'dest', 'target', 'visits', 'call', 'hook')

    def __init__(self, fid, fn, dest, target, call):
        self.fid, self.fn, self.bb, self.si, self.dest, self.target = fid, fn, 0, 0, dest, target
        self.visits = {}
        self.call = call
        self.hook = None

    def copy(self):
        f = Frame(self.fid, self.fn, self.dest, self.target, self.call)
        f.bb, f.si = self.bb, self.si
        f.visits = dict(self.visits)
        f.hook = self.hook
        return f


class State:
    def __init__(self):
        self.objs = {}
        self.known = {}
        self.clauses = []
        self.trace = ()         # assumed bits, in order
        self.frames = []
        self.events = ()
        self.nfid = 0
        self.nobj = 0
        self.nfresh = 0
        self.memo = {}
        self.opaque = ()
        self.hint = {}
        self.user = {}

    def copy(self):
        s = State()
        s.objs = dict(self.objs)
        s.known = dict(self.known)
        s.clauses = list(self.clauses)
        s.trace = self.trace
        s.frames = [f.copy() for f in self.frames]
        s.events = self.events
        s.nfid, s.nobj, s.nfresh = self.nfid, self.nobj, self.nfresh
        s.opaque = self.opaque
        s.user = dict(self.user)
        return s

    # ------------------------------------------------ facts
    def root(self, b):
        k = self.known
        n = b & 1
        b &= ~1
        while b > 1:
            r = k.get(b)
            if r is None:
                break
            n ^= r & 1
            b = r & ~1
        return b ^ n if b > 1 else (b | 0) ^ n

    def sub(self, t):
        """rewrite a vector under everything known on this path"""
        if not self.known:
            return bv.canon(t if isinstance(t, BV) else BV(t))
        r = self.memo.get(t)
        if r is not None:
            return r
        out = list(t)
        cache = {}
        for i, b in enumerate(out):
            if b <= 1:
                continue
            b = self.root(b)
            if b > 1:
                a = b >> 9
                e = cache.get(a)
                if e is None:
                    e = cache[a] = self._sub_atom(a)
                if e is not True:
                    x = e[(b >> 1) & 255] ^ (b & 1)
                    b = self.root(x)
            out[i] = b
        r = bv.canon(BV(out))
        self.memo[t] = r
        return r

    def _sub_atom(self, a):
        k = ('atom', a)
        r = self.memo.get(k)
        if r is not None:
            return r
        self.memo[k] = True    # cut cycles
        n = bv.ATOMS[a]
        if n[0] == 'sym':
            r = True
        else:
            e = bv.rebuild(a, self.sub)
            w = e is not None and len(e)
            if e is None or e == bv.whole(a, w):
                r = True
            else:
                r = e
        self.memo[k] = r
        return r

    def bit(self, b):
        if b <= 1:
            return b
        return self.sub(BV((b,)))[0]

    def _range(self, t):
        """[lo, hi] of an unsigned vector from its constant bits and recorded bounds"""
        lo, hi = bv.vmin(t), bv.vmax(t)
        for b in self.bounds.get(t, ()) if hasattr(self, 'bounds') else ():
            pass
        return lo, hi

    def decide(self, b):
        """0/1 if determined, else raises Split"""
        b = self.bit(b)
        if b <= 1:
            return b
        r = self.entailed(b)
        if r is not None:
            return r
        raise Split(b)

    def entailed(self, b):
        n = bv.ATOMS[b >> 9]
        neg = b & 1
        if n[0] == 'ult':
            x, y = n[1], n[2]
            cy = cval(y)
            if cy is not None:
                lo, hi = self.range(x)
                if hi < cy:
                    return 1 ^ neg
                if lo >= cy:
                    return 0 ^ neg
            else:
                lx, hx = self.range(x)
                ly, hy = self.range(y)
                if hx < ly:
                    return 1 ^ neg
                if lx >= hy:
                    return 0 ^ neg
                # y < x known  =>  x < y false ; transitive facts are not chased
                o = bv.ult(y, x)
                ro = self.root(o) if o > 1 else o
                if ro == 1:
                    return 0 ^ neg
        if n[0] == 'conj':
            lits = [self.bit(l) for l in n[1]]
            for l in lits:
                if l > 1:
                    e = self.entailed(l)
                    if e == 0:
                        return 0 ^ neg
            # a recorded disequality implies the conjunction is false
            s = set(lits)
            for c in self.clauses:
                if all((l ^ 1) in s for l in c):
                    return 0 ^ neg
            # conj spelling x == c where c outside the known range of x
            v = self._as_eqconst(s)
            if v is not None:
                x, c = v
                lo, hi = self.range(x)
                if c < lo or c > hi:
                    return 0 ^ neg
        if n[0] == 'eq':
            lx, hx = self.range(n[1])
            ly, hy = self.range(n[2])
            if hx < ly or hy < lx:
                return 0 ^ neg
        return None

    def _as_eqconst(self, lits):
        """if lits are all bits of one atom (from 0 up to its highest used): (vector, const)"""
        a = None
        v = 0
        idx = set()
        for l in lits:
            if l <= 1:
                return None
            if a is None:
                a = l >> 9
            elif a != l >> 9:
                return None
            i = (l >> 1) & 255
            idx.add(i)
            if not l & 1:
                v |= 1 << i
        n = max(idx) + 1
        if len(idx) != n:
            return None
        return bv.whole(a, n), v

    def range(self, x):
        lo, hi = bv.vmin(x), bv.vmax(x)
        # recorded comparisons x < c / x >= c
        for b, v in self.cmp.items() if hasattr(self, 'cmp') else ():
            pass
        for (y, c), truth in self.ultfacts().items():
            if y == x or (len(y) < len(x) and BV(x[:len(y)]) == y and bv.highbit(x) <= len(y)):
                if truth:
                    hi = min(hi, c - 1)
                else:
                    lo = max(lo, c)
        # sum of a narrow term and constants without wrap
        n = bv._as_prefix(x, 'add') if x and x[0] > 1 else None
        if n is not None and n[1] == len(x):
            l2, h2 = n[2], n[2]
            ok = True
            for t, c in n[3]:
                if c > 1 << 62:
                    # negative coefficient
                    ok = False
                    break
                a, b = self.range(t)
                l2 += a * c
                h2 += b * c
            if ok and h2 < 1 << n[1]:
                lo, hi = max(lo, l2), min(hi, h2)
            elif not ok and len(n[3]) == 1 or (len(n[3]) == 1 and n[2] >> (n[1] - 1)):
                # x = t - k with t >= k
                t, c = n[3][0]
                if c == 1:
                    a, b = self.range(t)
                    k = (1 << n[1]) - n[2]
                    if a >= k:
                        lo, hi = max(lo, a - k), min(hi, b - k)
            if len(n[3]) == 1 and n[3][0][1] == 1 and n[2] >> (n[1] - 1):
                a, b = self.range(n[3][0][0])
                k = (1 << n[1]) - n[2]
                if a >= k:
                    lo, hi = max(lo, a - k), min(hi, b - k)
        return lo, hi

    def ultfacts(self):
        r = self.memo.get('ultfacts')
        if r is None:
            r = {}
            for b, v in self.known.items():
                n = bv.ATOMS[b >> 9]
                if n[0] == 'ult' and v <= 1:
                    c = cval(n[2])
                    if c is not None:
                        r[(n[1], c)] = v
            # no rewriting here: the terms are recorded as they were canonical at assume time
            r2 = {}
            self.memo['ultfacts'] = r
            for (t, c), v in r.items():
                r2[(t, c)] = v
                t2 = bv.canon(BV([self.root(x) if x > 1 else x for x in t]))
                r2[(t2, c)] = v
            r = r2
            self.memo['ultfacts'] = r
        return r

    def assume(self, b, truth=1):
        """returns False if contradictory"""
        b = self.bit(b)
        if not truth:
            b ^= 1
        if b == 0:
            return False
        if b == 1:
            return True
        e = self.entailed(b)
        if e is not None:
            if e == 0:
                return False
        self.trace += (b,)
        return self._assert([b])

    def _assert(self, lits):
        work = list(lits)
        while work:
            b = self.root(work.pop()) if work[-1] > 1 else work.pop()
            if b == 1:
                continue
            if b == 0:
                return False
            n = bv.ATOMS[b >> 9]
            self.known[b & ~1] = 0 if b & 1 else 1
            self.memo = {}
            if n[0] == 'conj':
                if not b & 1:
                    work.extend(n[1])
                else:
                    self.clauses.append(frozenset(l ^ 1 for l in n[1]))
            elif n[0] == 'xor' and len(n[1]) == 2:
                x, y = n[1]
                # x ^ y == v  ->  y = x ^ v
                self._union(x, y ^ (b & 1) ^ 1, work) if True else None
            elif n[0] == 'ult' and not b & 1 and (cval(n[2]) or 99) <= 8:
                # x < c for a small c: the high bits are zero, the remaining values are enumerated
                c = cval(n[2])
                k = (c - 1).bit_length()
                for x in n[1][k:]:
                    if x == 1:
                        return False
                    if x > 1:
                        work.append(x ^ 1)
                for v in range(c, 1 << k):
                    self.clauses.append(frozenset(l ^ (v >> i & 1) for i, l in enumerate(n[1][:k])))
            elif n[0] == 'eq' and not b & 1:
                for x, y in zip(n[1], n[2]):
                    if not self._union(x, y, work):
                        return False
            if not self._propagate(work):
                return False
        # facts that became inconsistent with ranges
        return self._consistent()

    def _union(self, x, y, work):
        x = self.root(x) if x > 1 else x
        y = self.root(y) if y > 1 else y
        if x == y:
            return True
        if x == (y ^ 1):
            return False
        if x <= 1:
            x, y = y, x
        if y <= 1:
            work.append(x if y == 1 else x ^ 1)
            return True
        if (x >> 1) < (y >> 1):
            x, y = y, x
        if x & 1:
            x, y = x ^ 1, y ^ 1
        self.known[x] = y
        self.memo = {}
        return True

    def _propagate(self, work):
        out = []
        ok = True
        for c in self.clauses:
            und = []
            sat = False
            for l in c:
                r = self.bit(l)
                if r == 1:
                    sat = True
                    break
                if r != 0:
                    und.append(r)
            if sat:
                continue
            if not und:
                ok = False
                break
            if len(und) == 1:
                work.append(und[0])
                continue
            out.append(frozenset(und))
        if ok:
            self.clauses = out
            small = [c for c in out if len(c) <= 3]
            if len(small) > 1:
                ok = self._small(small, work)
        return ok

    def _small(self, small, work):
        """case analysis over the variables of each short clause: contradiction or forced bits"""
        done = set()
        for c in small:
            vs = tuple(sorted(l & ~1 for l in c))
            if vs in done:
                continue
            done.add(vs)
            vset = set(vs)
            cl = [d for d in small if all((l & ~1) in vset for l in d)]
            if len(cl) < 2:
                continue
            both = None
            for m in range(1 << len(vs)):
                a = {v: m >> i & 1 for i, v in enumerate(vs)}
                if all(any(a[l & ~1] ^ (l & 1) for l in d) for d in cl):
                    both = dict(a) if both is None else {k: x for k, x in both.items() if a[k] == x}
            if both is None:
                return False
            for v, x in both.items():
                work.append(v if x else v ^ 1)
        return True

    def _consistent(self):
        # comparison atoms whose operands have become decided
        for b, v in list(self.known.items()):
            n = bv.ATOMS[b >> 9]
            if v <= 1 and n[0] in ('ult', 'eq'):
                e = bv.rebuild(b >> 9, self._sub_noself(b))[0]
                if e <= 1:
                    if e != v:
                        return False
                else:
                    r = self.root(e)
                    if r <= 1 and r != v:
                        return False
                    if r > 1 and r != b:
                        # record the rewritten form of the fact
                        self.known[r & ~1] = v ^ (r & 1)
                        self.memo = {}
        # contradictory bounds
        f = self.ultfacts()
        seen = {}
        for (t, c), v in f.items():
            lo, hi = seen.get(t, (0, None))
            if v:
                hi = c - 1 if hi is None else min(hi, c - 1)
            else:
                lo = max(lo, c)
            seen[t] = (lo, hi)
        for t, (lo, hi) in seen.items():
            if hi is not None and lo > hi:
                return False
            if lo > bv.vmax(t) or (hi is not None and hi < bv.vmin(t)):
                return False
        return True

    def _sub_noself(self, b):
        def f(t):
            return self.sub(BV(t))
        return f

    # ------------------------------------------------ misc
    def fresh(self, tag):
        self.nfresh += 1
        return '%s#%d' % (tag, self.nfresh)

    def newobj(self, val, tag='heap'):
        self.nobj += 1
        k = (tag, self.nobj)
        self.objs[k] = val
        return k


class Result:
    def __init__(self, kind, st, ret=None, why=None, where=None):
        self.kind, self.st, self.ret, self.why, self.where = kind, st, ret, why, where

    def __repr__(self):
        return '<%s %s %s>' % (self.kind, self.why or '', self.where or '')


UNIT_NAMES = ()


class Interp:
    def __init__(self, prog, models=None, boundaries=None, max_paths=20000, max_steps=4000000, max_visits=400):
        self.p = prog
        self.models = models or []
        self.bound = boundaries or []
        self.max_paths, self.max_steps, self.max_visits = max_paths, max_steps, max_visits
        self.steps = 0
        self.functions = set()
        self.callsites = set()
        self._mcache = {}
        self._bchecked = False
        self.notes = {}

    # ------------------------------------------------ types / lazies
    def lazy(self, name, ty, st=None):
        t = self.p.types[ty]
        k = t['k']
        w = self.p.width(ty)
        if w is not None:
            return bv.sym(name, w)
        if k == 'tuple' and not t['fields']:
            return Agg(ty, 0, ())
        if k in ('ref', 'ptr'):
            return self.lazy_ptr(name, t['elem'])
        if k == 'array':
            return SymArr(name, t['elem'], const(t['len'], 64))
        if k == 'fndef':
            return Agg(ty, 0, ())
        return Lazy(name, ty)

    def lazy_ptr(self, name, elem):
        et = self.p.types[elem]
        if et['k'] in ('slice', 'str'):
            return Ptr(('lz', name + '*', elem), (('i', const(0, 64)),), bv.sym(name + '.len', 64))
        if et['k'] == 'dyn':
            return Ptr(('lz', name + '*', elem), (), ('dyn', name))
        return Ptr(('lz', name + '*', elem), ())

    def init_obj(self, key, st):
        """initial value of an object first touched now"""
        if key[0] == 'lz':
            _, name, ty = key
            et = self.p.types[ty]
            if et['k'] == 'slice':
                return SymArr(name, et['elem'], bv.sym(name[:-1] + '.len', 64))
            if et['k'] == 'str':
                return SymArr(name, self.p.ty_named('u8'), bv.sym(name[:-1] + '.len', 64))
            return self.lazy(name, ty)
        if key[0] == 'alloc':
            return self.decode_alloc_obj(key)
        if key[0] == 'static':
            s = self.p.statics[key[1]]
            return Lazy('static:' + key[1], s['ty'])
        raise Stop('unknown object %r' % (key,))

    def expand(self, v):
        """one level of a Lazy struct / tuple"""
        t = self.p.types[v.ty]
        if t['k'] == 'adt' and t['adt'] == 'struct':
            if t['name'] in ('std::vec::Vec', 'alloc::vec::Vec'):
                return self.lazy_vec(v)
            return Agg(v.ty, 0, [self.lazy(v.name + '.' + n, ft) for n, ft in self.p.fields(v.ty)])
        if t['k'] in ('tuple', 'closure'):
            return Agg(v.ty, 0, [self.lazy(v.name + '.' + n, ft) for n, ft in self.p.fields(v.ty)])
        raise Stop('cannot expand %s' % t['s'])

    def vec_elem(self, ty):
        for a in self.p.types[ty]['args']:
            if 'ty' in a:
                return a['ty']

    def lazy_vec(self, v):
        ety = self.vec_elem(v.ty)
        arr = ('lzv', v.name, ety)
        ln = bv.sym(v.name + '.len', 64)
        return self.make_vec(v.ty, Ptr(arr, (('i', const(0, 64)),)), ln)

    def make_vec(self, ty, ptr, ln):
        def build(t, depth=0):
            ti = self.p.types[t]
            if ti['k'] in ('ptr', 'ref'):
                return ptr
            w = self.p.width(t)
            if w is not None:
                return const((1 << 62), w)
            if ti['k'] == 'adt' and ti['adt'] == 'struct':
                if 'NonNull' in ti['name'] and 'attern' not in ti['name']:
                    return Agg(t, 0, [ptr])
                return Agg(t, 0, [build(ft, depth + 1) for n, ft in self.p.fields(t)])
            if ti['k'] == 'tuple':
                return Agg(t, 0, [build(ft) for n, ft in self.p.fields(t)])
            if ti['k'] == 'adt':
                return Agg(t, 0, [build(ft) for n, ft in self.p.fields(t)])
            return UNDEF
        fs = []
        for n, ft in self.p.fields(ty):
            fs.append(ln if n == 'len' else build(ft))
        return Agg(ty, 0, fs)

    # ------------------------------------------------ constants
    def decode_const(self, al, ty, st):
        return self.decode_bytes(al['bytes'], {o: p for o, p in al['provenance']['ptrs']}, 0, ty)

    def off(self, o):
        return o['num_bits'] // 8

    def sizeof(self, ty):
        l = self.p.types[ty].get('layout')
        if not l:
            return 0
        return l['size']['num_bits'] // 8

    def decode_bytes(self, by, prov, base, ty):
        t = self.p.types[ty]
        k = t['k']
        w = self.p.width(ty)

        def num(o, n):
            v = 0
            for i in range(n):
                x = by[o + i]
                if x is None:
                    return None
                v |= x << (8 * i)
            return v
        if w is not None:
            v = num(base, max(1, w // 8))
            return UNDEF if v is None else const(v, w)
        if k in ('ref', 'ptr'):
            if base in prov:
                aid = prov[base]
                offv = num(base, 8)
                et = self.p.types[t['elem']]
                al = self.p.allocs.get(aid, {})
                if 'static' in al:
                    return Ptr(('static', al['static']), ())
                if 'fn' in al:
                    return FnV(al['fn'])
                if et['k'] in ('slice', 'str'):
                    n = num(base + 8, 8)
                    key = ('alloc', aid, offv, t['elem'], n)
                    return Ptr(key, (('i', const(0, 64)),), const(n, 64))
                if et['k'] == 'dyn':
                    return Ptr(('alloc', aid, offv, t['elem'], 0), (), ('dynvt', prov.get(base + 8)))
                return Ptr(('alloc', aid, offv, t['elem'], None), ())
            n = num(base, 8)
            et = self.p.types[t['elem']]
            if et['k'] in ('slice', 'str'):
                return Ptr(('dangling', t['elem']), (('i', const(0, 64)),), const(num(base + 8, 8) or 0, 64))
            return Ptr(('addr', n), ())
        if k == 'fnptr':
            if base in prov:
                return FnV(self.p.allocs[prov[base]].get('fn'))
            return UNDEF
        if k == 'array':
            es = self.sizeof(t['elem'])
            return ArrC([self.decode_bytes(by, prov, base + i * es, t['elem']) for i in range(t['len'])])
        lay = t.get('layout')
        if lay is None:
            return Lazy('const', ty)
        if k in ('tuple', 'closure') or (k == 'adt' and t['adt'] == 'struct'):
            offs = lay['fields'].get('Arbitrary', {}).get('offsets') if isinstance(lay['fields'], dict) else None
            fl = self.p.fields(ty)
            if not fl:
                return Agg(ty, 0, ())
            if k == 'adt' and t['name'] in ('std::vec::Vec', 'alloc::vec::Vec'):
                return self.make_vec(ty, Ptr(('emptyvec', ty), (('i', const(0, 64)),)), const(0, 64))
            return Agg(ty, 0, [self.decode_bytes(by, prov, base + self.off(o), ft) for o, (n, ft) in zip(offs, fl)])
        if k == 'adt' and t['adt'] == 'enum':
            vs = lay['variants']
            if vs == 'Empty':
                return UNDEF
            if 'Single' in vs:
                vi = vs['Single']['index']
                offs = lay['fields'].get('Arbitrary', {}).get('offsets', []) if isinstance(lay['fields'], dict) else []
            else:
                m = vs['Multiple']
                tagoff = self.off(lay['fields']['Arbitrary']['offsets'][m['tag_field']])
                sc = m['tag']
                prim = (sc.get('Initialized') or sc.get('Union'))['value']
                if 'Int' in prim:
                    tw = {'I8': 1, 'I16': 2, 'I32': 4, 'I64': 8, 'I128': 16}[prim['Int']['length']]
                else:
                    tw = 8
                if tagoff in prov:
                    tag = None
                else:
                    tag = num(base + tagoff, tw) if (base + tagoff) not in prov else None
                enc = m['tag_encoding']
                if enc == 'Direct':
                    if tag is None:
                        return UNDEF
                    vi = None
                    for i, v in enumerate(t['variants']):
                        if int(v['discr']) & ((1 << (8 * tw)) - 1) == tag:
                            vi = i
                    if vi is None:
                        return UNDEF
                else:
                    nn = enc['Niche']
                    nv = nn['niche_variants']
                    lo, hi = nv['start'], nv['end']
                    vi = nn['untagged_variant']
                    if tag is not None:
                        rel = (tag - int(nn["niche_start"])) & ((1 << (8 * tw)) - 1)
                        if rel <= hi - lo:
                            vi = lo + rel
                offs = m['variants'][vi]['offsets']
            fl = self.p.fields(ty, vi)
            return Agg(ty, vi, [self.decode_bytes(by, prov, base + self.off(o), ft) for o, (n, ft) in zip(offs, fl)])
        return Lazy('const', ty)

    def decode_alloc_obj(self, key):
        _, aid, offv, ty, n = key
        al = self.p.allocs[aid]
        if 'mem' not in al:
            return Lazy('alloc%d' % aid, ty)
        m = al['mem']
        by = m['bytes']
        prov = {o: p for o, p in m['provenance']['ptrs']}
        t = self.p.types[ty]
        if t['k'] in ('slice', 'str'):
            ety = t['elem'] if t['k'] == 'slice' else self.p.ty_named('u8')
            es = self.sizeof(ety)
            return ArrC([self.decode_bytes(by, prov, offv + i * es, ety) for i in range(n)])
        return self.decode_bytes(by, prov, offv, ty)

    def str_const(self, ptr, st):
        """python string of a constant &str"""
        try:
            o = st.objs.get(ptr.obj)
            if o is None:
                o = self.init_obj(ptr.obj, st)
            start = cval(ptr.path[-1][1])
            n = cval(ptr.meta)
            return bytes(cval(e) for e in o.e[start:start + n]).decode()
        except Exception:
            return None

    # ------------------------------------------------ memory
    def obj(self, st, key):
        v = st.objs.get(key)
        if v is None:
            if key[0] == 'lzv':
                v = SymArr(key[1], key[2], bv.sym(key[1] + '.len', 64))
            else:
                v = self.init_obj(key, st)
            st.objs[key] = v
        return v

    def split_index(self, st, idx, n):
        """partition by the index value, bit by bit, where that needs no more parts than element by element"""
        free = {b & ~1 for b in st.sub(idx) if b > 1}
        if 1 << len(free) <= 2 * n:
            for b in sorted(free):
                st.decide(b)

    def elem(self, arr, idx, st, cont=None):
        if isinstance(arr, ArrC):
            c = cval(st.sub(idx))
            if c is None:
                self.split_index(st, idx, len(arr.e))
                for i in range(len(arr.e)):
                    b = st.bit(bv.eq(idx, const(i, len(idx))))
                    if b == 0:
                        continue
                    if st.decide(b):
                        return arr.e[i]
                raise Panic('index out of bounds (unchecked)')
            if c >= len(arr.e):
                raise Stop('index %d outside array of %d' % (c, len(arr.e)))
            return arr.e[c]
        if isinstance(arr, SymArr):
            idx = st.sub(idx)
            for wi, wv in reversed(arr.w):
                d = st.decide(bv.eq(idx, wi))
                if d:
                    return wv
            return self.base_elem(arr, idx)
        if isinstance(arr, Lazy):
            raise Stop('index into %s' % self.p.tname(arr.ty))
        raise Stop('index into %r' % (type(arr),))

    def base_elem(self, arr, idx):
        w = self.p.width(arr.ety)
        if w is not None and arr.name.startswith('zeroed:'):
            return const(0, w)
        if w is not None:
            return self.sym_elem(arr.name, idx, w)
        return self.lazy('%s[%s]' % (arr.name, bv.show(idx)), arr.ety)

    def sym_elem(self, name, idx, w):
        """initial array content; checks may override (invariants on initial content)"""
        return bv.rd(name, idx, w)

    def proj(self, v, e, st):
        k = e[0]
        if k == 'f':
            if isinstance(v, Lazy):
                v = self.expand(v)
            if isinstance(v, Agg):
                if e[1] < len(v.f):
                    return v.f[e[1]]
                raise Stop('field %d of %s' % (e[1], self.p.tname(v.ty)))
            if v is UNDEF:
                return UNDEF
            # transparent wrapper around a scalar/pointer
            if e[1] == 0:
                return v
            raise Stop('field of %r' % (v,))
        if k == 'd':
            if isinstance(v, Agg):
                if v.var != e[1]:
                    raise Prune()
                return v
            if isinstance(v, Lazy):
                t = self.p.types[v.ty]
                vn = t['variants'][e[1]]['name'].split('::')[-1]
                return Agg(v.ty, e[1], [self.lazy('%s.%s.%s' % (v.name, vn, n), ft) for n, ft in self.p.fields(v.ty, e[1])])
            raise Stop('downcast of %r' % (v,))
        if k == 'i':
            return self.elem(v, e[1], st)
        raise Stop('projection %r' % (e,))

    def read(self, st, ptr):
        v = self.obj(st, ptr.obj)
        path = ptr.path
        i = 0
        n = len(path)
        while i < n:
            e = path[i]
            if e[0] == 'i' and i + 1 < n and path[i + 1][0] == 'w':
                # window of N elements starting at e[1]
                N = path[i + 1][1]
                base = e[1]
                v = ArrC([self.elem(v, bv.add(base, const(j, 64)), st) for j in range(N)])
                i += 2
                continue
            v = self.proj(v, e, st)
            i += 1
        return v

    def write(self, st, ptr, val):
        if not ptr.path:
            st.objs[ptr.obj] = val
            return
        v = self.obj(st, ptr.obj)
        st.objs[ptr.obj] = self._upd(v, ptr.path, 0, val, st)

    def _upd(self, v, path, i, val, st):
        if i == len(path):
            return val
        e = path[i]
        k = e[0]
        if k == 'f':
            if isinstance(v, Lazy):
                v = self.expand(v)
            if isinstance(v, Agg):
                f = list(v.f)
                f[e[1]] = self._upd(f[e[1]], path, i + 1, val, st)
                return Agg(v.ty, v.var, f)
            if e[1] == 0 and isinstance(v, (BV, Ptr)):
                return self._upd(v, path, i + 1, val, st)
            if v is UNINIT_BOX and all(x[0] == 'f' for x in path[i:]):
                return val
            raise Stop('field write into %r' % (v,))
        if k == 'd':
            v2 = self.proj(v, e, st)
            return self._upd(v2, path, i + 1, val, st)
        if k == 'i':
            if i + 1 < len(path) and path[i + 1][0] == 'w':
                N = path[i + 1][1]
                if i + 2 == len(path):
                    if isinstance(val, ArrC):
                        for j, x in enumerate(val.e):
                            v = self._upd(v, (('i', bv.add(e[1], const(j, 64))),), 0, x, st)
                        return v
                    raise Stop('window write')
                raise Stop('window sub-write')
            idx = st.sub(e[1])
            if isinstance(v, ArrC):
                c = cval(idx)
                if c is None:
                    self.split_index(st, idx, len(v.e))
                    for j in range(len(v.e)):
                        b = st.bit(bv.eq(idx, const(j, len(idx))))
                        if b == 0:
                            continue
                        if st.decide(b):
                            c = j
                            break
                    else:
                        raise Panic('index out of bounds (unchecked)')
                if c == len(v.e) and self.strings and i + 1 == len(path):
                    return ArrC(tuple(v.e) + (val,))
                if c >= len(v.e):
                    raise Stop('write index %d outside array' % c)
                l = list(v.e)
                l[c] = self._upd(l[c], path, i + 1, val, st)
                return ArrC(l)
            if isinstance(v, SymArr):
                if i + 1 == len(path):
                    nv = val
                else:
                    nv = self._upd(self.elem(v, idx, st), path, i + 1, val, st)
                w = [x for x in v.w if x[0] != idx]
                return SymArr(v.name, v.ety, v.len, tuple(w) + ((idx, nv),))
            raise Stop('index write into %r' % (type(v),))
        raise Stop('write projection %r' % (e,))

    # ------------------------------------------------ places
    def place(self, st, fr, pl):
        """Ptr for a MIR place, and its type"""
        cur = Ptr((fr.fid, pl['local']), ())
        body = self.p.fns[fr.fn]['body']
        ty = body['lt'][pl['local']]
        types = self.p.types
        for pr in pl['projection']:
            if pr == 'Deref':
                v = self.read(st, cur)
                t = types[ty]
                if t['k'] == 'adt' and t.get('box'):
                    v = self.unwrap_ptr(v)
                    ty = [a['ty'] for a in t['args'] if 'ty' in a][0]
                elif isinstance(v, Lazy):
                    v = self.lazy_ptr(v.name, t['elem'])
                    ty = t['elem']
                else:
                    ty = t['elem']
                if isinstance(v, Agg):
                    v = self.unwrap_ptr(v)
                if not isinstance(v, Ptr):
                    raise Stop('deref of %r' % (v,))
                cur = v
                et = types[ty]
                if et['k'] == 'array' and cur.path and cur.path[-1][0] == 'i':
                    # pointer to array over an element pointer: either a real nested array or a window
                    cont = self.container_elem_ty(st, cur)
                    if cont is not None and types[cont]['k'] != 'array':
                        cur = Ptr(cur.obj, cur.path + (('w', et['len']),), cur.meta)
            elif isinstance(pr, dict) and 'Field' in pr:
                i, ty = pr['Field']
                cur = Ptr(cur.obj, cur.path + (('f', i),), cur.meta)
            elif isinstance(pr, dict) and 'Downcast' in pr:
                v = pr['Downcast']
                if isinstance(v, dict):
                    v = v.get('idx', v)
                cur = Ptr(cur.obj, cur.path + (('d', v),), cur.meta)
            elif isinstance(pr, dict) and ('Index' in pr or 'ConstantIndex' in pr):
                if 'Index' in pr:
                    iv = self.read(st, Ptr((fr.fid, pr['Index']), ()))
                else:
                    ci = pr['ConstantIndex']
                    if ci['from_end']:
                        ln = cur.meta if types[ty]['k'] == 'slice' else const(types[ty]['len'], 64)
                        iv = bv.sub(ln, const(ci['offset'], 64))
                    else:
                        iv = const(ci['offset'], 64)
                if types[ty]['k'] == 'slice':
                    start = cur.path[-1][1]
                    cur = Ptr(cur.obj, cur.path[:-1] + (('i', bv.add(start, iv)),))
                elif cur.path and cur.path[-1][0] == 'w':
                    start = cur.path[-2][1]
                    cur = Ptr(cur.obj, cur.path[:-2] + (('i', bv.add(start, iv)),))
                else:
                    cur = Ptr(cur.obj, cur.path + (('i', iv),))
                ty = types[ty]['elem']
            elif isinstance(pr, dict) and 'Subslice' in pr:
                s = pr['Subslice']
                start = cur.path[-1][1]
                ln = cur.meta
                end = bv.sub(ln, const(s['to'], 64)) if s['from_end'] else const(s['to'], 64)
                cur = Ptr(cur.obj, cur.path[:-1] + (('i', bv.add(start, const(s['from'], 64))),), bv.sub(end, const(s['from'], 64)))
            else:
                raise Stop('place projection %r' % (pr,))
        return cur, ty

    def container_elem_ty(self, st, ptr):
        v = self.read_container(st, ptr)
        if isinstance(v, SymArr):
            return v.ety
        if isinstance(v, ArrC) and v.e:
            x = v.e[0]
            if isinstance(x, BV):
                return self.p.ty_named({1: 'bool', 8: 'u8', 16: 'u16', 32: 'u32', 64: 'u64', 128: 'u128'}[len(x)])
            if isinstance(x, (Agg, Lazy)):
                return x.ty
        return None

    def read_container(self, st, ptr):
        v = self.obj(st, ptr.obj)
        for e in ptr.path[:-1]:
            if e[0] == 'w':
                return None
            v = self.proj(v, e, st)
        return v

    def unwrap_ptr(self, v):
        while isinstance(v, Agg):
            for x in v.f:
                if isinstance(x, (Ptr, Agg)):
                    if isinstance(x, Agg) and not x.f:
                        continue
                    v = x
                    break
            else:
                raise Stop('no pointer inside %r' % (v,))
        if isinstance(v, Lazy):
            v = self.expand_ptr_lazy(v)
        return v

    def expand_ptr_lazy(self, v):
        t = self.p.types[v.ty]
        if t['k'] == 'adt' and t['name'].split('::')[-1] in ('NonNull', 'Unique', 'BoxRaw'):
            return self.lazy_ptr(v.name, self.vec_elem(v.ty))
        if t['k'] == 'adt':
            for n, ft in self.p.fields(v.ty):
                x = self.lazy(v.name, ft)
                if isinstance(x, Ptr):
                    return x
                if isinstance(x, Lazy):
                    try:
                        return self.expand_ptr_lazy(x)
                    except Stop:
                        continue
        raise Stop('not a pointer: %s' % t['s'])

    def unwrap_cell(self, v, ty):
        """scalar read through a transparent wrapper (UnsafeCell, MaybeUninit)"""
        n = 0
        while isinstance(v, Lazy) and self.p.types[v.ty]['k'] == 'adt' and self.p.types[v.ty]['adt'] == 'struct' and n < 6:
            fs = [x for x in self.expand(v).f if not (isinstance(x, Agg) and not x.f)]
            if len(fs) != 1:
                break
            v, n = fs[0], n + 1
        return v

    def operand(self, st, fr, op):
        if 'Copy' in op or 'Move' in op:
            pl = op.get('Copy') or op.get('Move')
            ptr, ty = self.place(st, fr, pl)
            v = self.read(st, ptr)
            if isinstance(v, Lazy) and v.ty != ty and self.p.width(ty) is not None:
                v = self.unwrap_cell(v, ty)
            elif isinstance(v, Agg) and v.ty != ty and self.p.width(ty) is not None and isinstance(self.strip(v), BV):
                v = self.strip(v)
            return v, ty
        if 'Constant' in op:
            c = op['Constant']['const_']
            ty = c['ty']
            k = c['kind']
            if k == 'ZeroSized':
                t = self.p.types[ty]
                return Agg(ty, 0, [Agg(ft, 0, ()) for n, ft in self.p.fields(ty)] if t['k'] != 'fndef' else ()), ty
            if isinstance(k, dict) and 'Allocated' in k:
                key = ('c', c['id'])
                v = self._mcache.get(key)
                if v is None:
                    v = self.decode_const(k['Allocated'], ty, st)
                    self._mcache[key] = v
                return v, ty
            if isinstance(k, dict) and 'Ty' in k:
                kk = k['Ty']['kind']
                if 'Value' in kk:
                    return self.decode_const(kk['Value'][1], ty, st), ty
            raise Stop('constant %r' % (list(k) if isinstance(k, dict) else k))
        if 'RuntimeChecks' in op:
            return const(0, 1), self.p.ty_named('bool')
        raise Stop('operand %r' % (op,))

    # ------------------------------------------------ rvalues
    def binop(self, st, op, a, b, ty):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.ptr_binop(st, op, a, b)
        if not isinstance(a, BV) or not isinstance(b, BV):
            raise Stop('binop %s on %s %s' % (op, type(a).__name__, type(b).__name__))
        s = self.p.signed(ty)
        a = st.sub(a)
        b = st.sub(b)
        w = len(a)
        if op in ('Add', 'AddUnchecked'):
            return bv.add(a, b)
        if op in ('Sub', 'SubUnchecked'):
            return bv.sub(a, b)
        if op in ('Mul', 'MulUnchecked'):
            return bv.mul(a, b)
        if op == 'BitAnd':
            return bv.and_(a, b)
        if op == 'BitOr':
            return bv.or_(a, b)
        if op == 'BitXor':
            return bv.xor_(a, b)
        if op in ('Shl', 'Shr', 'ShlUnchecked', 'ShrUnchecked'):
            lg = w.bit_length() - 1
            amt = BV(b[:lg])
            if op.startswith('Shl'):
                return bv.shl(a, amt)
            return bv.ashr(a, amt) if s else bv.lshr(a, amt)
        if op == 'Eq':
            return BV((bv.eq(a, b),))
        if op == 'Ne':
            return BV((bv.eq(a, b) ^ 1,))
        lt = bv.slt if s else bv.ult
        if op == 'Lt':
            return BV((lt(a, b),))
        if op == 'Gt':
            return BV((lt(b, a),))
        if op == 'Le':
            return BV((lt(b, a) ^ 1,))
        if op == 'Ge':
            return BV((lt(a, b) ^ 1,))
        if op == 'Div':
            return bv.sdiv(a, b) if s else bv.udiv(a, b)
        if op == 'Rem':
            return bv.srem(a, b) if s else bv.urem(a, b)
        if op == 'Cmp':
            # Ordering as i8
            t = self.p.ty_named('std::cmp::Ordering') or self.p.ty_named('core::cmp::Ordering')
            if st.decide(bv.eq(a, b)):
                return Agg(t, 1, ())
            if st.decide(lt(a, b)):
                return Agg(t, 0, ())
            return Agg(t, 2, ())
        raise Stop('binop ' + op)

    def ptr_binop(self, st, op, a, b):
        if op == 'Offset':
            if not (a.path and a.path[-1][0] == 'i'):
                if cval(b) == 0:
                    return a
                raise Stop('pointer offset on %r' % (a,))
            b = bv.sext(b, 64)
            return Ptr(a.obj, a.path[:-1] + (('i', st.sub(bv.add(a.path[-1][1], b))),), a.meta)
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge') and isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj == b.obj and a.path[:-1] == b.path[:-1] and a.path and b.path and a.path[-1][0] == 'i' and b.path[-1][0] == 'i':
                x, y = a.path[-1][1], b.path[-1][1]
                r = {'Eq': lambda: bv.eq(x, y), 'Ne': lambda: bv.eq(x, y) ^ 1, 'Lt': lambda: bv.ult(x, y),
                     'Le': lambda: bv.ult(y, x) ^ 1, 'Gt': lambda: bv.ult(y, x), 'Ge': lambda: bv.ult(x, y) ^ 1}[op]()
                return BV((r,))
            if op in ('Eq', 'Ne'):
                if a.obj == b.obj and a.path == b.path:
                    return const(1 if op == 'Eq' else 0, 1)
                if a.obj != b.obj:
                    return const(0 if op == 'Eq' else 1, 1)
        if op == 'BitAnd' and isinstance(b, BV) and cval(b) is not None and cval(b) < 64:
            return const(0, len(b))       # alignment test of an object address
        if op in ('Eq', 'Ne'):
            return const(0 if op == 'Eq' else 1, 1)
        raise Stop('pointer op %s %r %r' % (op, a, b))

    def discr(self, st, v, ty):
        t = self.p.types[ty]
        dt = t.get('discr_ty')
        w = self.p.width(dt) if dt is not None else 64
        if isinstance(v, Agg):
            return const(self.p.discr(v.ty, v.var) if self.p.is_enum(v.ty) else 0, w), dt
        if isinstance(v, Lazy):
            return self.lazy_discr(st, v, w), dt
        if v is UNDEF:
            vs = t.get('layout', {}).get('variants')
            if isinstance(vs, dict) and 'Single' in vs:
                return const(self.p.discr(ty, vs['Single']['index']), w), dt
            raise Stop('discriminant of undef')
        raise Stop('discriminant of %r' % (v,))

    def lazy_discr(self, st, v, w):
        ds = [self.p.discr(v.ty, i) for i in range(len(self.p.types[v.ty]['variants']))]
        mx = max(ds)
        if min(ds) < 0 or mx > 255:
            return bv.sym(v.name + '#', w)
        n = max(mx.bit_length(), 1)
        s = bv.sym(v.name + '#', n)
        miss = [x for x in range(1 << n) if x not in ds]
        key = ('dom', v.name)
        if miss and key not in st.user and len(miss) < 130:
            st.user[key] = True
            for x in miss:
                if not st._assert([bv.eq(s, const(x, n)) ^ 1]):
                    raise Prune()
        return bv.zext(s, w)

    def variant_of(self, st, v):
        """variant index of an enum value (splits when undetermined)"""
        if isinstance(v, Agg):
            return v.var
        d, _ = self.discr(st, v, v.ty)
        for i in range(len(self.p.types[v.ty]['variants'])):
            b = st.bit(bv.eq(d, const(self.p.discr(v.ty, i), len(d))))
            if b == 0:
                continue
            if st.decide(b):
                return i
        raise Prune()

    def force(self, st, v):
        """Lazy enum -> Agg of the decided variant"""
        if isinstance(v, Lazy) and self.p.is_enum(v.ty):
            i = self.variant_of(st, v)
            return self.proj(v, ('d', i), st)
        if isinstance(v, Lazy):
            return self.expand(v)
        return v

    def to_bytes(self, v):
        if isinstance(v, BV):
            if len(v) == 1:
                return [bv.zext(v, 8)]
            return [BV(v[i:i + 8]) for i in range(0, len(v), 8)]
        if isinstance(v, ArrC):
            r = []
            for e in v.e:
                r += self.to_bytes(e)
            return r
        raise Stop('bytes of %r' % (v,))

    def transmute(self, st, v, fty, tty):
        if fty == tty:
            return v
        tw = self.p.width(tty)
        tt = self.p.types[tty]
        ft = self.p.types[fty]
        if tw is not None and ft['k'] == 'adt' and ft['name'].endswith('UsizeNoHighBit') and (self.strip(v) is UNDEF or isinstance(self.strip(v), Lazy)):
            return const(1 << 62, tw)       # a capacity: nothing depends on it
        if tw is not None and ft['s'] == 'std::mem::Alignment' and isinstance(v, Agg):
            n = v
            while isinstance(n, Agg) and not self.p.is_enum(n.ty) and len(n.f) == 1:
                n = n.f[0]
            if isinstance(n, Agg) and self.p.is_enum(n.ty):
                return const(1 << n.var, tw)
        if tw is not None:
            if isinstance(v, BV):
                return bv.zext(v, tw)
            if isinstance(v, ArrC):
                bs = self.to_bytes(v)
                return bv.zext(bv.cat(*bs), tw)
            if isinstance(v, (Agg, Lazy)):
                if self.p.is_enum(v.ty):
                    if 'num::NonZero<' in ft['s'] and isinstance(v, Agg):
                        x = self.strip(v.f[0]) if v.f else const(0, tw)
                        if isinstance(x, BV):
                            return bv.zext(x, tw)
                    d, _ = self.discr(st, v, v.ty)
                    return bv.zext(d, tw)
                if isinstance(v, Agg):
                    x = self.strip(v)
                    if isinstance(x, BV):
                        return bv.zext(x, tw)
                    if isinstance(x, Ptr):
                        return x
            if isinstance(v, Ptr):
                return v
        if tt['k'] in ('ptr', 'ref', 'fnptr'):
            x = self.strip(v)
            if isinstance(x, BV):
                return Ptr(('addr', cval(x)), ())
            if isinstance(x, Lazy):
                x = self.expand_ptr_lazy(x)
            return self.recast(st, x, tty)
        if tt['k'] == 'array' and isinstance(v, (BV, ArrC)):
            bs = self.to_bytes(v)
            ew = self.p.width(tt['elem'])
            if ew:
                n = ew // 8
                return ArrC([bv.cat(*bs[i:i + n]) for i in range(0, len(bs), n)])
        if tt['k'] == 'array' and ft['k'] == 'array' and self.p.types[tt['elem']]['s'] in ('std::mem::MaybeUninit<%s>' % self.p.types[ft['elem']]['s'], ft['s']) or tt['k'] == 'array' and ft['s'] in ('[std::mem::MaybeUninit<%s>; %s]' % (self.p.types[tt['elem']]['s'], tt['s'].rsplit('; ', 1)[-1][:-1]),):
            return v        # a transparent wrapper
        if ft['s'] == 'std::mem::Alignment' and isinstance(v, Agg) and tt['k'] == 'adt' and tt['adt'] == 'struct':
            return self.wrap(st, Ptr(('emptyvec', tty), (('i', const(0, 64)),)), tty)      # a dangling pointer
        if tt['k'] == 'adt' and tt['adt'] == 'struct' or tt['k'] == 'tuple':
            return self.wrap(st, self.strip(v), tty)
        if tt['k'] == 'adt' and tt['adt'] == 'enum':
            if isinstance(v, (Agg, Lazy)):
                if self.p.types[v.ty]['s'].startswith('std::option::Option<') and tt['s'].startswith('std::option::Option<'):
                    return v
            x = self.strip(v)
            if isinstance(x, Ptr):
                # Option<NonNull<..>>-like
                for i, vv in enumerate(tt['variants']):
                    if len(vv['fields']) == 1:
                        return Agg(tty, i, [self.wrap(st, x, vv['fields'][0][1])])
            if isinstance(x, BV) and tt['s'].startswith('std::option::Option<std::num::NonZero<'):
                z = st.decide(bv.eq(x, const(0, len(x))))
                for i, vv in enumerate(tt['variants']):
                    if (not vv['fields']) == bool(z):
                        return Agg(tty, i, [self.wrap(st, x, vv['fields'][0][1])] if vv['fields'] else ())
            if isinstance(x, BV):
                for i in range(len(tt['variants'])):
                    b = st.bit(bv.eq(x, const(self.p.discr(tty, i), len(x))))
                    if b == 0:
                        continue
                    if st.decide(b):
                        return Agg(tty, i, ())
        if isinstance(v, Lazy):
            return Lazy(v.name, tty)
        if tt['k'] == 'other' or tt['k'] == 'nonrigid':
            return self.strip(v)
        raise Stop('transmute %s -> %s of %s' % (ft['s'], tt['s'], repr(v)[:60]))

    def strip(self, v):
        while isinstance(v, Agg):
            fs = [x for x in v.f if not (isinstance(x, Agg) and not x.f)]
            if len(fs) != 1:
                return v
            v = fs[0]
        return v

    def wrap(self, st, x, ty):
        t = self.p.types[ty]
        if self.p.width(ty) is not None or t['k'] in ('ptr', 'ref', 'fnptr', 'other', 'nonrigid', 'array', 'slice', 'dyn'):
            return x
        if isinstance(x, Agg) and x.ty == ty:
            return x
        if t['k'] in ('tuple', 'closure') or (t['k'] == 'adt' and t['adt'] != 'enum'):
            fl = self.p.fields(ty)
            out = []
            for n, ft in fl:
                if self.sizeof(ft) == 0 and self.p.types[ft]['k'] in ('tuple', 'adt'):
                    out.append(Agg(ft, 0, ()))
                else:
                    out.append(self.wrap(st, x, ft))
            return Agg(ty, 0, out)
        return x

    def recast(self, st, x, tty):
        """pointer cast to pointer type tty"""
        if not isinstance(x, Ptr):
            return x
        tt = self.p.types[tty]
        if tt['k'] not in ('ptr', 'ref'):
            return x
        et = self.p.types[tt['elem']]
        if et['k'] in ('slice', 'str', 'dyn'):
            return x
        if x.meta is not None:
            x = Ptr(x.obj, x.path, None)
        return x

    def pointee_val(self, st, p):
        try:
            return self.read(st, p)
        except (Stop, Panic):
            return None

    def cast(self, st, kind, v, fty, tty):
        if kind == 'IntToInt':
            if isinstance(v, (Agg, Lazy)):
                v, dt = self.discr(st, v, v.ty)
                fty = dt
            if isinstance(v, Ptr):
                return v
            w = self.p.width(tty)
            return bv.sext(v, w) if self.p.signed(fty) else bv.zext(v, w)
        if kind in ('PtrToPtr', 'FnPtrToPtr'):
            ft, tt = self.p.types[fty], self.p.types[tty]
            if isinstance(v, Ptr) and ft['k'] in ('ptr', 'ref') and tt['k'] == 'ptr':
                fe, te = self.p.types[ft['elem']], self.p.types[tt['elem']]
                if fe['k'] == 'array' and te['k'] != 'array' and not (te['k'] in ('slice',)):
                    if v.path and v.path[-1][0] == 'w':
                        return Ptr(v.obj, v.path[:-1], None)
                    if tt['elem'] == fe['elem']:
                        return Ptr(v.obj, v.path + (('i', const(0, 64)),), None)
                if fe['k'] == 'array' and te['k'] == 'slice':
                    return Ptr(v.obj, v.path + (('i', const(0, 64)),), const(fe['len'], 64))
            return self.recast(st, v, tty)
        if kind == 'Transmute' or kind == 'BoxDerefTransmute':
            return self.transmute(st, v, fty, tty)
        if isinstance(kind, dict) and 'PointerCoercion' in kind:
            pc = kind['PointerCoercion']
            if pc == 'Unsize':
                return self.unsize(st, v, fty, tty)
            if isinstance(pc, dict) and ('ReifyFnPointer' in pc):
                return FnV(self.p.types[fty].get('inst'))
            if isinstance(pc, dict) and 'ClosureFnPointer' in pc:
                return FnV(('closure', fty))
            return v
        if kind in ('PointerExposeAddress', 'PointerExposeProvenance', 'PointerWithExposedProvenance'):
            if isinstance(v, Ptr):
                return bv.sym('addr:%r' % (v,), 64)
            return Ptr(('addr', cval(v)), ())
        raise Stop('cast %r' % (kind,))

    def ptr_elem(self, ty):
        t = self.p.types[ty]
        if t['k'] in ('ptr', 'ref'):
            return t['elem']
        if t['k'] == 'adt':
            for a in t['args']:
                if 'ty' in a:
                    return a['ty']
        return None

    def unsize(self, st, v, fty, tty):
        fe, te = self.ptr_elem(fty), self.ptr_elem(tty)
        fet, tet = self.p.types[fe], self.p.types[te]
        if tet['k'] == 'slice' and fet['k'] == 'array':
            def f(p):
                if p.path and p.path[-1][0] == 'w':
                    return Ptr(p.obj, p.path[:-1], const(fet['len'], 64))
                return Ptr(p.obj, p.path + (('i', const(0, 64)),), const(fet['len'], 64))
        elif tet['k'] == 'dyn':
            def f(p):
                return Ptr(p.obj, p.path, ('ty', fe))
        else:
            raise Stop('unsize %s -> %s' % (fet['s'], tet['s']))
        if isinstance(v, Ptr):
            return f(v)
        if isinstance(v, (Agg, Lazy)):
            p = self.unwrap_ptr(v)
            return self.rewrap_box(st, v, f(p), tty)
        raise Stop('unsize of %r' % (v,))

    def rewrap_box(self, st, v, p, tty):
        """Box<T> -> Box<dyn>: same nesting, new pointer and types"""
        t = self.p.types[tty]
        if t['k'] in ('ptr', 'ref'):
            return p
        out = []
        for n, ft in self.p.fields(tty):
            k = self.p.types[ft]['k']
            if k in ('ptr', 'ref') or (k == 'adt' and self.p.types[ft]['name'].split('::')[-1] in ('NonNull', 'Unique', 'BoxRaw', 'Box')):
                out.append(self.rewrap_box(st, v, p, ft))
            elif k in ('other', 'nonrigid'):
                out.append(p)
            else:
                out.append(Agg(ft, 0, ()))
        return Agg(tty, 0, out)

    def rvalue(self, st, fr, rv, dty):
        if isinstance(rv, str):
            raise Stop('rvalue ' + rv)
        k, a = next(iter(rv.items()))
        if k == 'Use':
            return self.operand(st, fr, a[0])[0]
        if k == 'CopyForDeref':
            return self.read(st, self.place(st, fr, a)[0])
        if k == 'BinaryOp':
            x, tx = self.operand(st, fr, a[1])
            y, _ = self.operand(st, fr, a[2])
            return self.binop(st, a[0], x, y, tx)
        if k == 'CheckedBinaryOp':
            x, tx = self.operand(st, fr, a[1])
            y, _ = self.operand(st, fr, a[2])
            return self.checked(st, a[0], x, y, tx, dty)
        if k == 'UnaryOp':
            x, tx = self.operand(st, fr, a[1])
            if a[0] == 'Not':
                return bv.not_(x)
            if a[0] == 'Neg':
                return bv.neg(x)
            if a[0] == 'PtrMetadata':
                if isinstance(x, Agg):
                    x = self.unwrap_ptr(x)
                if isinstance(x, Ptr):
                    if isinstance(x.meta, BV):
                        return x.meta
                    return Agg(dty, 0, ())
            raise Stop('unop ' + a[0])
        if k == 'Cast':
            x, tx = self.operand(st, fr, a[1])
            return self.cast(st, a[0], x, tx, a[2])
        if k in ('Ref', 'AddressOf', 'Reborrow'):
            pl = a[2] if k in ('Ref', 'Reborrow') else a[1]
            p, ty = self.place(st, fr, pl)
            if p.path and p.path[-1][0] == 'w':
                p = Ptr(p.obj, p.path[:-1], p.meta)
            if self.p.types[ty]['k'] not in ('slice', 'str', 'dyn') and p.meta is not None:
                p = Ptr(p.obj, p.path, None)
            return p
        if k == 'Discriminant':
            p, ty = self.place(st, fr, a)
            v = self.read(st, p)
            d, dt = self.discr(st, v, ty)
            return d
        if k == 'Len':
            p, ty = self.place(st, fr, a)
            t = self.p.types[ty]
            return const(t['len'], 64) if t['k'] == 'array' else p.meta
        if k == 'Aggregate':
            ops = [self.operand(st, fr, o) for o in a[1]]
            vals = [o[0] for o in ops]
            ak = a[0]
            if ak == 'Tuple':
                return Agg(dty, 0, vals)
            kk, aa = next(iter(ak.items()))
            if kk == 'Adt':
                vi = aa[1]
                if isinstance(vi, dict):
                    vi = vi.get('idx', 0)
                return Agg(dty, vi, vals)
            if kk == 'Array':
                return ArrC(vals)
            if kk == 'Closure':
                return Agg(dty, 0, vals)
            if kk == 'RawPtr':
                p, m = vals
                if isinstance(p, Agg):
                    p = self.unwrap_ptr(p)
                return Ptr(p.obj, p.path, m if isinstance(m, BV) else None)
            raise Stop('aggregate ' + kk)
        if k == 'Repeat':
            x, tx = self.operand(st, fr, a[0])
            n = self.p.types[dty]['len']
            if n > 4096:
                return SymArr(st.fresh('rep'), tx, const(n, 64))
            return ArrC([x] * n)
        raise Stop('rvalue ' + k)

    def checked(self, st, op, x, y, tx, dty):
        w = len(x)
        s = self.p.signed(tx)
        if op in ('Add', 'Sub', 'Mul'):
            ext = bv.sext if s else bv.zext
            W = min(2 * w, 254) if op == 'Mul' else w + 1
            f = {'Add': bv.add, 'Sub': bv.sub, 'Mul': bv.mul}[op]
            x, y = st.sub(x), st.sub(y)
            wide = f(ext(x, W), ext(y, W))
            r = f(x, y)
            if op == 'Sub' and not s:
                ov = bv.ult(x, y)
            elif op == 'Add' and not s and cval(y) is not None:
                c = cval(y)
                ov = bv.ult(x, const((1 << w) - c, w)) ^ 1 if c else 0
            else:
                ov = bv.eq(ext(r, W), wide) ^ 1
            return Agg(dty, 0, (r, BV((ov,))))
        if op in ('Shl', 'Shr'):
            raise Stop('checked shift')
        raise Stop('checked ' + op)

    # ------------------------------------------------ execution
    def local_ty(self, fr, l):
        return self.p.fns[fr.fn]['body']['lt'][l]

    def set_place(self, st, fr, pl, val):
        if not pl['projection']:
            st.objs[(fr.fid, pl['local'])] = val
            return
        p, _ = self.place(st, fr, pl)
        self.write(st, p, val)

    def place_ty(self, fr, pl):
        ty = self.local_ty(fr, pl['local'])
        for pr in pl['projection']:
            t = self.p.types[ty]
            if pr == 'Deref':
                ty = self.ptr_elem(ty)
            elif 'Field' in pr:
                ty = pr['Field'][1]
            elif 'Downcast' in pr:
                pass
            elif 'Subslice' in pr:
                pass
            else:
                ty = t['elem']
        return ty

    def enter(self, st, fn, args, dest, target, call=None):
        body = self.p.fns[fn].get('body')
        if body is None:
            raise Stop('no body: ' + self.p.fns[fn]['name'])
        fid = st.nfid
        st.nfid += 1
        fr = Frame(fid, fn, dest, target, call)
        ac = body['arg_count']
        sa = body.get('spread_arg')
        if len(args) != ac:
            # rust-call ABI: last argument is a tuple to be spread, or must be packed
            if len(args) == 2 and isinstance(args[1], Agg):
                args = [args[0]] + list(args[1].f)
        elif ac == 2 and sa is None and isinstance(args[1], Agg) and args[1].ty != body['lt'][2]:
            t1 = self.p.types[args[1].ty]
            if t1['k'] == 'tuple' and len(t1['fields']) == 1 and t1['fields'][0] == body['lt'][2]:
                args = [args[0], args[1].f[0]]
        if sa is not None and len(args) != ac:
            raise Stop('spread arg')
        if len(args) != ac:
            raise Stop('arity %s: %d vs %d' % (self.p.fns[fn]['name'], len(args), ac))
        for i, a in enumerate(args):
            st.objs[(fid, i + 1)] = a
        for i, l in enumerate(body['lt']):
            t = self.p.types[l]
            if i > ac or i == 0:
                if t['k'] == 'tuple' and not t['fields']:
                    st.objs[(fid, i)] = Agg(l, 0, ())
                elif t['k'] in ('closure', 'fndef') or (t['k'] == 'adt' and t['adt'] == 'struct' and self.sizeof(l) == 0 and 'layout' in t):
                    st.objs[(fid, i)] = self.zst(l)
                else:
                    st.objs[(fid, i)] = UNDEF
        st.frames.append(fr)
        self.functions.add(self.p.fns[fn]['name'])
        if len(st.frames) > 120:
            raise Stop('recursion too deep')
        return fr

    def zst(self, ty):
        t = self.p.types[ty]
        if t['k'] == 'fndef':
            return Agg(ty, 0, ())
        try:
            return Agg(ty, 0, [self.zst(ft) for n, ft in self.p.fields(ty)])
        except Exception:
            return Agg(ty, 0, ())

    def ret(self, st, val):
        fr = st.frames[-1]
        if fr.hook:
            val = fr.hook(self, st, val)
        st.frames.pop()
        for i in range(len(self.p.fns[fr.fn]['body']['lt'])):
            st.objs.pop((fr.fid, i), None)
        if isinstance(val, Enter):
            self.enter(st, val.inst, val.args, fr.dest, fr.target)
            st.frames[-1].hook = val.hook
            return None
        if not st.frames:
            return Result('return', st, val)
        cf = st.frames[-1]
        self.finish_call(st, cf, fr.dest, fr.target, val)
        return None

    def finish_call(self, st, cf, dest, target, val):
        if val is not None:
            self.set_place(st, cf, dest, val)
        if target is None:
            raise Prune()
        self.jump(cf, target)

    def jump(self, fr, bb):
        fr.bb = bb
        fr.si = 0
        n = fr.visits.get(bb, 0) + 1
        fr.visits[bb] = n
        if n > self.max_visits:
            raise Stop('loop not bounded within %d iterations in %s' % (self.max_visits, self.p.fns[fr.fn]['name']))

    def where(self, st):
        """innermost crate frame: function and source line"""
        for fr in reversed(st.frames):
            f = self.p.fns[fr.fn]
            if f['crate'] == 'carron':
                body = f['body']
                bl = body['blocks'][fr.bb]
                ss = bl['statements'][:fr.si + 1][::-1] if fr.si < len(bl['statements']) else [bl['terminator']] + bl['statements'][::-1]
                for s in ss + [bl['terminator']]:
                    sp = self.p.span(s['source_info']['span'])
                    if sp.startswith('src/'):
                        return '%s (%s)' % (f['name'], sp)
                for b2 in body['blocks']:
                    for s in b2['statements'] + [b2['terminator']]:
                        sp = self.p.span(s['source_info']['span'])
                        if sp.startswith('src/'):
                            return '%s (near %s)' % (f['name'], sp)
                return f['name']
        return '?'

    def step(self, st):
        """one statement or terminator; returns None, a Result, or a list of successor states"""
        fr = st.frames[-1]
        body = self.p.fns[fr.fn]['body']
        bl = body['blocks'][fr.bb]
        self.steps += 1
        if fr.si < len(bl['statements']):
            s = bl['statements'][fr.si]['kind']
            if isinstance(s, dict):
                if 'Assign' in s:
                    pl, rv = s['Assign']
                    dty = self.place_ty(fr, pl)
                    v = self.rvalue(st, fr, rv, dty)
                    self.set_place(st, fr, pl, v)
                elif 'SetDiscriminant' in s:
                    d = s['SetDiscriminant']
                    raise Stop('SetDiscriminant')
                elif 'Intrinsic' in s:
                    i = s['Intrinsic']
                    if 'Assume' in i:
                        v, _ = self.operand(st, fr, i['Assume'])
                        if isinstance(v, BV) and not st.assume(v[0], 1):
                            raise Prune()
                    else:
                        raise Stop('intrinsic statement %r' % list(i))
            fr.si += 1
            return None
        t = bl['terminator']['kind']
        if t == 'Return':
            v = st.objs.get((fr.fid, 0), UNDEF)
            return self.ret(st, v)
        if t in ('Unreachable',):
            raise Prune()
        if t in ('Resume', 'Abort'):
            raise Prune()
        k, a = next(iter(t.items()))
        if k == 'Goto':
            self.jump(fr, a['target'])
            return None
        if k == 'Drop':
            self.drop_place(st, fr, a['place'])
            self.jump(fr, a['target'])
            return None
        if k == 'SwitchInt':
            v, ty = self.operand(st, fr, a['discr'])
            if isinstance(v, (Agg, Lazy)):
                v, _ = self.discr(st, v, v.ty)
            if isinstance(v, Ptr):
                raise Stop('switch on pointer')
            v = st.sub(v)
            w = len(v)
            br = [(int(x), y) for x, y in a['targets']['branches']]
            c = cval(v)
            if c is not None:
                for val, tgt in br:
                    if val & ((1 << w) - 1) == c:
                        self.jump(fr, tgt)
                        return None
                self.jump(fr, a['targets']['otherwise'])
                return None
            live = []
            conds = []
            for val, tgt in br:
                b = st.bit(bv.eq(v, const(val, w)))
                if b == 0:
                    continue
                e = st.entailed(b) if b > 1 else b
                if e == 0:
                    continue
                live.append((b, tgt))
                if e == 1:
                    break
            out = []
            ow = a['targets']['otherwise']
            bl_o = body['blocks'][ow]
            dead_o = bl_o['terminator']['kind'] == 'Unreachable' and not bl_o['statements']
            for b, tgt in live:
                s2 = st.copy()
                if s2.assume(b, 1):
                    try:
                        self.jump(s2.frames[-1], tgt)
                    except Stop as e:
                        s2.user['stop'] = e.why
                    out.append(s2)
            if not dead_o:
                s2 = st
                ok = True
                for b, tgt in live:
                    if not s2.assume(b, 0):
                        ok = False
                        break
                if ok:
                    try:
                        self.jump(s2.frames[-1], ow)
                    except Stop as e:
                        s2.user['stop'] = e.why
                    out.append(s2)
            return out
        if k == 'Assert':
            v, _ = self.operand(st, fr, a['cond'])
            b = v[0] if a['expected'] else v[0] ^ 1
            if st.decide(b):
                self.jump(fr, a['target'])
                return None
            m = a['msg']
            raise Panic('assert ' + (m if isinstance(m, str) else next(iter(m))))
        if k == 'Call':
            return self.call(st, fr, a)
        raise Stop('terminator ' + k)

    # ---- drop glue: only borrow guards matter (freeing memory has no observable effect)
    def has_guard(self, ty, seen=()):
        r = self._mcache.get(('guard', ty))
        if r is None:
            t = self.p.types[ty]
            r = False
            if ty not in seen:
                if t['k'] == 'adt' and (t['name'] in ('std::cell::Ref', 'std::cell::RefMut', 'core::cell::Ref', 'core::cell::RefMut') or t['name'].endswith('::SetLenOnDrop')):
                    r = True
                elif t['k'] == 'adt':
                    r = any(self.has_guard(ft, seen + (ty,)) for v in t['variants'] for n, ft in v['fields'])
                elif t['k'] in ('tuple', 'closure'):
                    r = any(self.has_guard(ft, seen + (ty,)) for n, ft in self.p.fields(ty))
            if not seen:
                self._mcache[('guard', ty)] = r
        return r

    def drop_place(self, st, fr, pl):
        ty = self.place_ty(fr, pl)
        if not self.has_guard(ty):
            return
        p, _ = self.place(st, fr, pl)
        self.drop_val(st, self.read(st, p), ty)

    def drop_val(self, st, v, ty):
        t = self.p.types[ty]
        if not self.has_guard(ty) or not isinstance(v, Agg):
            return
        if t['k'] == 'adt' and t['name'].endswith(('cell::Ref', 'cell::RefMut')):
            b = v.f[1]
            q = self.unwrap_ptr(b)
            flag = self.strip(self.read(st, q))
            nv = bv.add(flag, const(1 if t['name'].endswith('RefMut') else -1, len(flag)))
            self.write(st, q, self.rewrap(self.read(st, q), nv))
            return
        if t['k'] == 'adt' and t['name'].endswith('::SetLenOnDrop'):
            d = {n: x for x, (n, ft) in zip(v.f, self.p.fields(ty))}
            self.write(st, d['len'], st.sub(d['local_len']))
            return
        for x, (n, ft) in zip(v.f, self.p.fields(ty, v.var)):
            self.drop_val(st, x, ft)

    def rewrap(self, old, new):
        if isinstance(old, Agg) and old.f:
            return Agg(old.ty, old.var, (self.rewrap(old.f[0], new),) + old.f[1:])
        return new

    def call(self, st, fr, a):
        fv, fty = self.operand(st, fr, a['func'])
        args = []
        atys = []
        for o in a['args']:
            v, t = self.operand(st, fr, o)
            args.append(v)
            atys.append(t)
        ft = self.p.types[fty]
        dest, target = a['destination'], a['target']
        inst = None
        if ft['k'] == 'fndef':
            if ft.get('virtual'):
                p = args[0]
                if isinstance(p, Agg):
                    p = self.unwrap_ptr(p)
                if isinstance(p, Ptr) and isinstance(p.meta, tuple) and not isinstance(p.meta, BV) and p.meta[0] == 'ty':
                    inst = self.p.vt.get((fty, p.meta[1]))
                    if inst is None:
                        raise Stop('no vtable entry for %s' % ft['s'])
                    a0 = Ptr(p.obj, p.path, None)
                    args = [a0] + args[1:]
                else:
                    inst = None
                    r = self.virtual_unknown(st, fr, ft, args, dest, target)
                    if r is not None:
                        return r
                    raise Stop('virtual call on unknown object: %s' % ft['s'])
            else:
                inst = ft.get('inst')
        elif isinstance(fv, FnV):
            inst = fv.inst
        if inst is None or isinstance(inst, tuple):
            raise Stop('indirect call %s' % ft['s'])
        return self.call_inst(st, fr, inst, args, atys, dest, target)

    def virtual_unknown(self, st, fr, ft, args, dest, target):
        return None

    def find_model(self, inst):
        m = self._mcache.get(('m', inst))
        if m is None:
            f = self.p.fns[inst]
            m = False
            for pat, fnm in self.bound + self.models:
                if isinstance(pat, str):
                    if pat == f['name']:
                        m = fnm
                        break
                elif pat.search(f['name']):
                    m = fnm
                    break
            self._mcache[('m', inst)] = m
        return m

    def call_inst(self, st, fr, inst, args, atys, dest, target):
        f = self.p.fns[inst]
        m = self.find_model(inst)
        dty = self.place_ty(fr, dest)
        if m:
            r = m(self, st, f, args, atys, dty)
            if r is NotImplemented:
                pass
            elif isinstance(r, Enter):
                self.enter(st, r.inst, r.args, dest, target)
                st.frames[-1].hook = r.hook
                return None
            else:
                self.finish_call(st, fr, dest, target, r)
                return None
        if f.get('empty_shim') or f.get('drop_shim'):
            self.finish_call(st, fr, dest, target, Agg(dty, 0, ()))
            return None
        if 'body' not in f:
            r = self.opaque(st, f, args, atys, dty)
            self.finish_call(st, fr, dest, target, r)
            return None
        self.enter(st, inst, args, dest, target)
        return None

    def opaque(self, st, f, args, atys, dty):
        # a result nothing is known about would make every comparison with it meaningless
        raise Stop('no transfer function for ' + f['name'])

    def havoc(self, st, p, ty):
        if self.p.types[ty]['k'] in ('slice', 'str', 'dyn'):
            return
        self.write(st, p, self.lazy(st.fresh('havoc'), ty))

    def run_state(self, st, on_path=None):
        """explore all paths from a prepared state"""
        self.check_bounds()
        # no summary may use up the time of the others
        now = time.time()
        until = min(DEADLINE, now + max(20, (DEADLINE - now) / 4))
        work = [st]
        results = []
        while work:
            st = work.pop()
            if len(results) > self.max_paths:
                raise Stop('too many paths')
            while True:
                if self.steps > self.max_steps:
                    raise Stop('step budget')
                if not self.steps & 1023 and time.time() > until:
                    raise Stop('time budget')
                if 'stop' in st.user:
                    results.append(Result('stop', st, why=st.user['stop'], where=self.where(st)))
                    break
                objs0 = None
                try:
                    fr = st.frames[-1]
                    # snapshot cheaply: only what a step can change
                    snap = (dict(st.objs) if self._risky(fr) else None, fr.bb, fr.si, len(st.frames), st.events, st.opaque)
                    r = self.step(st)
                except Split as sp:
                    if snap[0] is not None:
                        st.objs = snap[0]
                    st.events, st.opaque = snap[4], snap[5]
                    del st.frames[snap[3]:]
                    fr.bb, fr.si = snap[1], snap[2]
                    spot = (sp.bit, len(st.frames), fr.fid, fr.bb, fr.si, fr.visits.get(fr.bb))
                    if st.user.get('split') == spot:
                        results.append(Result('stop', st, why='a fact does not settle its own condition', where=self.where(st)))
                        break
                    st.user['split'] = spot
                    s2 = st.copy()
                    if s2.assume(sp.bit, 0):
                        work.append(s2)
                    if not st.assume(sp.bit, 1):
                        break
                    continue
                except Panic as e:
                    results.append(Result('panic', st, why=e.what, where=self.where(st)))
                    break
                except Stop as e:
                    results.append(Result('stop', st, why=e.why, where=self.where(st)))
                    break
                except Prune:
                    break
                if r is None:
                    continue
                if isinstance(r, Result):
                    results.append(r)
                    break
                if not r:
                    break
                for s2 in r[1:]:
                    work.append(s2)
                st = r[0]
        return results

    def _risky(self, fr):
        """steps that may write before they split"""
        bl = self.p.fns[fr.fn]['body']['blocks'][fr.bb]
        if fr.si < len(bl['statements']):
            return False
        t = bl['terminator']['kind']
        return isinstance(t, dict) and 'Call' in t

    def start(self, fn, args, st=None):
        st = st or State()
        self.enter(st, fn, args, None, None)
        return st

    def check_bounds(self):
        """a function of the program that is to be cut off must exist, or summaries would mean something else"""
        if self._bchecked:
            return
        self._bchecked = True
        for pat, _ in self.bound:
            s = pat if isinstance(pat, str) else pat.pattern
            if 'carron' in s and not any(f['name'] == pat if isinstance(pat, str) else pat.search(f['name']) for f in self.p.fns.values()):
                raise Stop('no function matches %s' % s)

    def run(self, fn, args, st=None):
        if isinstance(fn, str):
            i = self.p.fn(fn)
            if i is None:
                raise KeyError(fn)
            fn = i
        return self.run_state(self.start(fn, args, st))


class Enter:
    """model result: interpret another function instead"""

    def __init__(self, inst, args, hook=None):
        self.inst, self.args, self.hook = inst, args, hook
