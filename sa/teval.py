"""Pointwise evaluation of normal forms: separates two unequal terms, or finds none to separate them.

Used only after two terms have different normal forms: a difference is reported when a valuation of the
unknowns that satisfies every fact of the path makes the two terms differ.  Nothing of /repo is executed.
"""
import random
import bv
from bv import BV, cval

CORNER = [0, 1, 2, 3, 4, 7, 8, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000,
          0x7fffffffffffffff, 0x8000000000000000, 0xffffffffffffffff, 0xffffffff80000000, 0xfffffffffffffffe, 0xaaaaaaaaaaaaaaaa]
KNOWN_FN = {}


def _ctz(x, w):
    return (x & -x).bit_length() - 1 if x else w


KNOWN_FN['cttz'] = lambda ws, a: _ctz(a[0], ws[0])
KNOWN_FN['ctlz'] = lambda ws, a: ws[0] - a[0].bit_length()
KNOWN_FN['ctpo'] = lambda ws, a: bin(a[0]).count('1')


def _sgn(x, w):
    return x - (1 << w) if x >> (w - 1) else x


class Val:
    """one valuation of the unknowns on a path (st gives forced leaf bits)"""

    def __init__(self, st, rng, mode):
        self.st, self.rng, self.mode = st, rng, mode
        self.leaf = {}
        self.rds = {}
        self.memo = {}

    def rnd(self, w):
        r = self.rng.random()
        m = (1 << w) - 1
        if r < 0.45:
            v = self.rng.choice(CORNER)
            if self.rng.random() < 0.3:
                v = (v + self.rng.choice((-1, 1, 4, -4)))
            return v & m
        if r < 0.6:
            return self.rng.getrandbits(min(w, 5)) & m
        if r < 0.7 and self.leaf:
            return self.rng.choice(list(self.leaf.values())) & m
        v = self.rng.getrandbits(w)
        if r < 0.85 and w > 8:
            # fields of zeros or ones inside an otherwise arbitrary word
            for _ in range(self.rng.randint(1, 3)):
                f = ((1 << self.rng.randint(1, 12)) - 1) << self.rng.randrange(w)
                v = v & ~f if self.rng.random() < 0.6 else v | f
        return v & m

    def leafval(self, key, w):
        v = self.leaf.get(key)
        if v is None:
            v = self.leaf[key] = self.rnd(w)
        return v

    def bits(self, t):
        v = 0
        for i, b in enumerate(t):
            v |= self.bit(b) << i
        return v

    def bit(self, b):
        if b <= 1:
            return b
        a = b >> 9
        n = bv.ATOMS[a]
        if n[0] in ('sym', 'rd'):
            r = self.st.root(b)
            if r <= 1:
                return r
            if r >> 9 != a or r & ~1 != b & ~1:
                return self.bit(r)
        return ((self.atom(a) >> ((b >> 1) & 255)) & 1) ^ (b & 1)

    def atom(self, a):
        v = self.memo.get(a)
        if v is None:
            v = self.memo[a] = self._atom(a)
        return v

    def _atom(self, a):
        n = bv.ATOMS[a]
        op = n[0]
        if op == 'sym':
            return self.leafval(('s', n[1]), n[2])
        if op == 'rd':
            i = self.bits(n[3])
            rule = bv.RD_RULES.get(n[1])
            k = ('r', n[1], i)
            if k in self.rds:
                return self.rds[k]
            if rule:
                e = rule(bv.const(i, max(1, len(n[3]))), n[2])
                if e is not None:
                    # an invariant on the content: constant, or a narrower element
                    c = cval(e)
                    if c is not None:
                        v = c
                    else:
                        v = self.leafval(k, max(1, bv.highbit(e))) & ((1 << bv.highbit(e)) - 1)
                    self.rds[k] = v
                    return v
            v = self.leafval(k, n[2]) & ((1 << n[2]) - 1)
            self.rds[k] = v
            return v
        if op == 'conj':
            return int(all(self.bit(l) for l in n[1]))
        if op == 'xor':
            r = 0
            for l in n[1]:
                r ^= self.bit(l)
            return r
        if op == 'ite':
            return self.bit(n[2]) if self.bit(n[1]) else self.bit(n[3])
        if op == 'eq':
            return int(self.bits(n[1]) == self.bits(n[2]))
        if op == 'ult':
            return int(self.bits(n[1]) < self.bits(n[2]))
        w = n[1]
        m = (1 << w) - 1 if isinstance(w, int) else 0
        if op == 'add':
            return (n[2] + sum(self.bits(t) * c for t, c in n[3])) & m
        if op == 'mul':
            return (self.bits(n[2]) * self.bits(n[3])) & m
        if op == 'shl':
            return (self.bits(n[2]) << min(self.bits(n[3]), 256)) & m
        if op == 'lshr':
            return (self.bits(n[2]) >> min(self.bits(n[3]), 256)) & m
        if op == 'ashr':
            return (_sgn(self.bits(n[2]), w) >> min(self.bits(n[3]), 256)) & m
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            x, y = self.bits(n[2]), self.bits(n[3])
            if y == 0:
                return 0
            if op == 'udiv':
                return x // y
            if op == 'urem':
                return x % y
            x, y = _sgn(x, w), _sgn(y, w)
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0):
                q = -q
            return (q if op == 'sdiv' else x - q * y) & m
        if op == 'fn':
            args = [self.bits(x) for x in n[3:]]
            f = KNOWN_FN.get(n[1])
            if f:
                return f([len(x) for x in n[3:]], args) & ((1 << n[2]) - 1)
            k = ('f', n[1], tuple(args))
            return self.leafval(k, n[2]) & ((1 << n[2]) - 1)
        raise AssertionError(op)


def valuations(st, n=400, seed=1):
    """valuations satisfying the facts of a path"""
    rng = random.Random(seed)
    tr = st.trace
    for i in range(n):
        v = Val(st, rng, i)
        if all(v.bit(b) for b in tr):
            yield v


def separate(st, a, b, n=2000):
    """('differ', valuation) | ('same', k) | ('infeasible', 0)"""
    k = 0
    for v in valuations(st, n):
        k += 1
        if v.bits(a) != v.bits(b):
            return 'differ', v
        if k > 400:
            break
    return ('same', k) if k else ('infeasible', 0)


def feasible(st, n=400):
    for v in valuations(st, n):
        return v
    return None


def describe(v, limit=6):
    out = []
    for k, x in list(v.leaf.items()):
        nm = k[1] if k[0] == 's' else '%s[%s]' % (k[1], k[2])
        out.append('%s=%#x' % (nm, x))
        if len(out) >= limit:
            break
    return ', '.join(out)
