"""Bit-provenance abstract domain.

An abstract scalar is a tuple of bits, least significant first.  A bit is an int code:
    (atom << 9) | (index << 1) | negated
atom 0 is the constant atom (code 0 = bit 0, code 1 = bit 1); every other atom is a hash-consed node:
a named input, or an operator over abstract scalars kept in a canonical form (sums are linear
combinations, comparisons are reduced to unsigned `ult`, booleans to n-ary conjunction / xor).
Two scalars are equal in the domain iff their canonical tuples are identical.
"""
import sys
sys.setrecursionlimit(20000)


class BV(tuple):
    __slots__ = ()

    def __repr__(self):
        return show(self)


ATOMS = [('const',)]
_IDS = {('const',): 0}


def mk(node):
    i = _IDS.get(node)
    if i is None:
        i = len(ATOMS)
        ATOMS.append(node)
        _IDS[node] = i
    return i


_CC = {}


def const(v, w):
    k = (v, w)
    r = _CC.get(k)
    if r is None:
        vv = v & ((1 << w) - 1)
        r = BV([(vv >> i) & 1 for i in range(w)])
        _CC[k] = r
    return r


_CV = {}


def cval(t):
    """integer value if t is constant, else None"""
    try:
        return _CV[t]
    except KeyError:
        pass
    v = 0
    for i, b in enumerate(t):
        if b > 1:
            v = None
            break
        v |= b << i
    _CV[t] = v
    return v


def scval(t):
    v = cval(t)
    if v is None:
        return None
    w = len(t)
    return v - (1 << w) if w and v >> (w - 1) else v


def whole(atom, w):
    return BV([(atom << 9) | (i << 1) for i in range(w)])


def sym(name, w):
    return whole(mk(('sym', name, w)), w)


def node(bit):
    return ATOMS[bit >> 9]


def atom_bit(node_):
    return mk(node_) << 9


# ---------------------------------------------------------------- bits
def bnot(a):
    return a ^ 1


def band(a, b):
    if a == b:
        return a
    if a == 0 or b == 0 or a == (b ^ 1):
        return 0
    if a == 1:
        return b
    if b == 1:
        return a
    return conj((a, b))


def conj(lits):
    """n-ary and of literals"""
    s = set()
    for l in lits:
        if l == 1:
            continue
        if l == 0:
            return 0
        if not (l & 1) and ATOMS[l >> 9][0] == 'conj':
            s.update(ATOMS[l >> 9][1])
        else:
            s.add(l)
    for l in s:
        if (l ^ 1) in s:
            return 0
    # absorb: negated conj inside a conj  (x & !(x & y) = x & !y)
    ch = True
    while ch:
        ch = False
        for l in list(s):
            if (l & 1) and ATOMS[l >> 9][0] == 'conj':
                inner = ATOMS[l >> 9][1]
                if any((x ^ 1) in s for x in inner):
                    s.discard(l)
                    ch = True
                    break
                rest = inner - s
                if len(rest) < len(inner):
                    s.discard(l)
                    ch = True
                    nl = bnot(conj(rest))
                    if nl == 0:
                        return 0
                    if nl == 1:
                        break
                    if not (nl & 1) and ATOMS[nl >> 9][0] == 'conj':
                        s.update(ATOMS[nl >> 9][1])
                    else:
                        s.add(nl)
                    for x in s:
                        if (x ^ 1) in s:
                            return 0
                    break
    if not s:
        return 1
    if len(s) == 1:
        return next(iter(s))
    return atom_bit(('conj', frozenset(s)))


def bor(a, b):
    return band(a ^ 1, b ^ 1) ^ 1


def bxor(a, b):
    if a <= 1:
        return b ^ a
    if b <= 1:
        return a ^ b
    neg = (a & 1) ^ (b & 1)
    a &= ~1
    b &= ~1
    if a == b:
        return neg
    s = set()
    for x in (a, b):
        n = ATOMS[x >> 9]
        if n[0] == 'xor':
            s ^= n[1]
        else:
            s ^= {x}
    if not s:
        return neg
    if len(s) == 1:
        return next(iter(s)) ^ neg
    return atom_bit(('xor', frozenset(s))) ^ neg


def bite(c, a, b):
    if c == 1 or a == b:
        return a
    if c == 0:
        return b
    if c & 1:
        c, a, b = c ^ 1, b, a
    if a == 1:
        return bor(c, b)
    if a == 0:
        return band(c ^ 1, b)
    if b == 0:
        return band(c, a)
    if b == 1:
        return bor(c ^ 1, a)
    if a == (b ^ 1):
        return bxor(c, b)
    if a & 1:
        return atom_bit(('ite', c, a ^ 1, b ^ 1)) ^ 1
    return atom_bit(('ite', c, a, b))


# ---------------------------------------------------------------- vectors
def not_(a):
    return BV([x ^ 1 for x in a])


def and_(a, b):
    return BV(map(band, a, b))


def or_(a, b):
    return BV(map(bor, a, b))


def xor_(a, b):
    return BV(map(bxor, a, b))


def ite(c, a, b):
    if c == 1:
        return a
    if c == 0:
        return b
    return BV([bite(c, x, y) for x, y in zip(a, b)])


def zext(a, w):
    return BV(a[:w]) if len(a) >= w else BV(a + (0,) * (w - len(a)))


def sext(a, w):
    return BV(a[:w]) if len(a) >= w else BV(a + (a[-1],) * (w - len(a)))


def slice_(a, lo, n):
    return BV(a[lo:lo + n])


def cat(*parts):
    """concatenate, least significant part first"""
    r = ()
    for p in parts:
        r += tuple(p)
    return BV(r)


def shl_c(a, k):
    w = len(a)
    k = min(k, w)
    return BV((0,) * k + a[:w - k])


def lshr_c(a, k):
    w = len(a)
    k = min(k, w)
    return BV(a[k:] + (0,) * k)


def ashr_c(a, k):
    w = len(a)
    k = min(k, w)
    return BV(a[k:] + (a[-1],) * k)


def _as_prefix(t, op):
    """if t is exactly bits 0..len-1 of one atom with operator op: its node"""
    b0 = t[0]
    if b0 <= 1 or (b0 & 0x1ff):
        return None
    n = ATOMS[b0 >> 9]
    if n[0] != op:
        return None
    base = b0
    for i, b in enumerate(t):
        if b != base + (i << 1):
            return None
    return n


def _lin(t, acc, coeff, w):
    """accumulate coeff * t into acc (dict term -> coeff), return constant part"""
    m = (1 << w) - 1
    c = cval(t)
    if c is not None:
        return (c * coeff) & m
    # strip low zeros
    k = 0
    while t[k] == 0:
        k += 1
    if k:
        t = BV(t[k:])           # narrower term; meaning: zext
        # t has width w-k, coefficient 2^k: value mod 2^w is exact
        coeff = (coeff << k) & m
    n = _as_prefix(t, 'add')
    ww = len(t)
    if n is not None:
        # low ww bits of a wider sum; exact only modulo 2^ww, i.e. modulo 2^w after the shift
        if n[1] == ww or True:
            if ww + k >= w or _exact_mod(coeff, ww, w):
                tot = (n[2] * coeff) & m
                for term, cf in n[3]:
                    tot = (tot + _lin(zext_trunc(term, ww), acc, (cf * coeff) & m, w)) & m
                return tot
    # one bit replicated over the full modulus: the negated bit
    if ww > 1 and t[0] > 1 and all(b == t[0] for b in t) and _exact_mod(coeff, ww, w):
        return _lin(BV((t[0],)), acc, (-coeff) & m, w)
    # all-negated literal vector:  ~x = -x-1  (only when it covers the full modulus)
    if _exact_mod(coeff, ww, w) and all(b > 1 and (b & 1) for b in t):
        x = BV([b ^ 1 for b in t])
        cst = _lin(x, acc, (-coeff) & m, w)
        return (cst - coeff) & m
    # constant ones belong to the constant
    ones = 0
    key = t
    if 1 in t:
        ones = vmin(t) * coeff
        key = BV([0 if b == 1 else b for b in t])
        k = 0
        while key[k] == 0:
            k += 1
        if k:
            key = BV(key[k:])
            coeff = (coeff << k) & m
    # trim high zeros for canonicity
    e = len(key)
    while e and key[e - 1] == 0:
        e -= 1
    key = BV(key[:e])
    # sign-extended narrow vectors stay as they are
    nc = (acc.get(key, 0) + coeff) & m
    if nc:
        acc[key] = nc
    else:
        acc.pop(key, None)
    return ones & m


def _exact_mod(coeff, ww, w):
    # coeff * 2^ww == 0 mod 2^w
    return ((coeff << ww) & ((1 << w) - 1)) == 0


def zext_trunc(t, w):
    return zext(t, w)


def add(a, b):
    return linsum([(a, 1), (b, 1)], 0, len(a))


def sub(a, b):
    return linsum([(a, 1), (b, -1)], 0, len(a))


def neg(a):
    return linsum([(a, -1)], 0, len(a))


_LS = {}


def linsum(terms, c, w):
    key = (tuple(terms), c, w)
    r = _LS.get(key)
    if r is None:
        r = _linsum(terms, c, w)
        _LS[key] = r
    return r


def _linsum(terms, c, w):
    m = (1 << w) - 1
    acc = {}
    tot = c & m
    for t, cf in terms:
        tot = (tot + _lin(t, acc, cf & m, w)) & m
    if not acc:
        return const(tot, w)
    if tot == 0 and len(acc) == 1 and w > 1:
        (t, cf), = acc.items()
        if cf == m and len(t) == 1:
            return BV((t[0],) * w)
    # merge power-of-two terms with disjoint support (and the constant)
    vecs = []
    rest = []
    for t, cf in acc.items():
        if cf & (cf - 1) == 0:
            k = cf.bit_length() - 1
            v = zext(BV((0,) * k + tuple(t)), w)
            vecs.append(v)
        else:
            rest.append((t, cf))
    vecs.sort()
    merged = []
    cb = const(tot, w)
    for v in vecs:
        done = False
        for j, u in enumerate(merged):
            if all(x == 0 or y == 0 for x, y in zip(u, v)):
                merged[j] = BV([x or y for x, y in zip(u, v)])
                done = True
                break
        if not done:
            merged.append(v)
    if tot:
        for j, u in enumerate(merged):
            if all(x == 0 or y == 0 for x, y in zip(u, cb)):
                merged[j] = BV([x or y for x, y in zip(u, cb)])
                tot = 0
                break
    if len(merged) == 1 and not rest and tot == 0:
        return merged[0]
    # common low zeros
    items = []
    for u in merged:
        k = 0
        while k < w and u[k] == 0:
            k += 1
        t = BV(u[k:])
        e = len(t)
        while e and t[e - 1] == 0:
            e -= 1
        items.append((BV(t[:e]), (1 << k) & m))
    items += rest
    lowz = w
    for t, cf in items:
        lowz = min(lowz, (cf & -cf).bit_length() - 1)
    if tot:
        lowz = min(lowz, (tot & -tot).bit_length() - 1)
    if lowz:
        inner = linsum([(t, cf >> lowz) for t, cf in items], tot >> lowz, w - lowz)
        return BV((0,) * lowz + tuple(inner))
    # reduce widths of terms to what matters
    out = []
    for t, cf in items:
        k = (cf & -cf).bit_length() - 1
        out.append((canon(BV(t[:w - k])), cf))
    # canon may have changed terms so that they combine further
    if [o[0] for o in out] != [i[0] for i in items]:
        acc2 = {}
        tot2 = tot
        for t, cf in out:
            tot2 = (tot2 + _lin(t, acc2, cf, w)) & m
        if sorted(acc2.items()) != sorted(items):
            if len(acc2) == 0:
                return const(tot2, w)
            out = sorted(acc2.items())
            tot = tot2
            if len(out) == 1 and tot == 0 and out[0][1] == 1:
                return zext(out[0][0], w)
    out.sort()
    return whole(mk(('add', w, tot, tuple(out))), w)


_CAN = {}


def canon(t):
    """narrow sums / products of which only low bits are used; bottom-up"""
    r = _CAN.get(t)
    if r is not None:
        return r
    mx = {}
    for b in t:
        if b > 1:
            a = b >> 9
            n = ATOMS[a]
            if n[0] in ('add', 'mul', 'shl'):
                i = (b >> 1) & 255
                if i > mx.get(a, -1):
                    mx[a] = i
    rep = {}
    for a, i in mx.items():
        n = ATOMS[a]
        if i + 1 < n[1]:
            if n[0] == 'add':
                rep[a] = linsum([(zext(x, i + 1), cf) for x, cf in n[3]], n[2], i + 1)
            elif n[0] == 'mul':
                rep[a] = mul(zext(n[2], i + 1), zext(n[3], i + 1))
            elif n[0] == 'shl':
                rep[a] = shl(zext(n[2], i + 1), n[3])
    if rep:
        r = BV([(rep[b >> 9][(b >> 1) & 255] ^ (b & 1)) if b > 1 and (b >> 9) in rep else b for b in t])
        if r != t:
            r = canon(r)
    else:
        r = t
    _CAN[t] = r
    return r


def mul(a, b):
    w = len(a)
    ca, cb = cval(a), cval(b)
    if ca is not None:
        a, b, ca, cb = b, a, cb, ca
    if cb is not None:
        return linsum([(a, cb)], 0, w)
    a, b = canon(a), canon(b)
    if b < a:
        a, b = b, a
    return whole(mk(('mul', w, a, b)), w)


def highbit(t):
    e = len(t)
    while e and t[e - 1] == 0:
        e -= 1
    return e


def signw(t):
    """smallest k such that t == sext(t[:k])"""
    e = len(t)
    while e > 1 and t[e - 2] == t[e - 1]:
        e -= 1
    return e


def shl(a, s):
    """a << s, s an unsigned vector; amounts >= width give 0"""
    w = len(a)
    c = cval(s)
    if c is not None:
        return shl_c(a, c)
    if cval(a) == 0:
        return a
    e = highbit(s)
    s = BV(s[:e])
    if e == 1:
        return ite(s[0], shl_c(a, 1), a)
    return whole(mk(('shl', w, canon(a), canon(s))), w)


def lshr(a, s):
    w = len(a)
    c = cval(s)
    if c is not None:
        return lshr_c(a, c)
    e = highbit(a)
    if e == 0:
        return a
    s = BV(s[:highbit(s)])
    if len(s) == 1:
        return ite(s[0], lshr_c(a, 1), a)
    return zext(whole(mk(('lshr', e, canon(BV(a[:e])), canon(s))), e), w)


def ashr(a, s):
    w = len(a)
    c = cval(s)
    if c is not None:
        return ashr_c(a, c)
    if a[-1] == 0:
        return lshr(a, s)
    k = signw(a)
    if k == 1:
        return a
    s = BV(s[:highbit(s)])
    if len(s) == 1:
        return ite(s[0], ashr_c(a, 1), a)
    return sext(whole(mk(('ashr', k, canon(BV(a[:k])), canon(s))), k), w)


def eq(a, b):
    """1-bit code"""
    if a == b:
        return 1
    a, b = canon(a), canon(b)
    lits = []
    ra, rb = [], []
    for x, y in zip(a, b):
        if x == y:
            continue
        if x == (y ^ 1):
            return 0
        if y <= 1:
            lits.append(x ^ y ^ 1)
        elif x <= 1:
            lits.append(y ^ x ^ 1)
        else:
            ra.append(x)
            rb.append(y)
    if ra:
        # a sum compared with something: compare through the difference
        if len(ra) == 1:
            lits.append(bxor(ra[0], rb[0]) ^ 1)
        elif len(ra) <= 8:
            for x, y in zip(ra, rb):
                lits.append(bxor(x, y) ^ 1)
        else:
            A, B = BV(ra), BV(rb)
            if B < A:
                A, B = B, A
            lits.append(atom_bit(('eq', A, B)))
    # a sum compared with a constant:  x + k == c  ->  x == c - k
    if not ra and lits:
        cb = cval(b)
        t = a
        if cb is None:
            cb = cval(a)
            t = b
        if cb is not None:
            n = _as_prefix(t, 'add')
            if n is not None and len(t) == n[1] and len(n[3]) == 1 and n[3][0][1] == 1:
                return eq(zext(n[3][0][0], n[1]), const(cb - n[2], n[1]))
            if n is not None and len(t) == n[1] and cb == 0 and n[2] == 0 and len(n[3]) == 2:
                (t1, c1), (t2, c2) = n[3]
                m = (1 << n[1]) - 1
                if c1 == 1 and c2 == m:
                    return eq(zext(t1, n[1]), zext(t2, n[1]))
                if c2 == 1 and c1 == m:
                    return eq(zext(t1, n[1]), zext(t2, n[1]))
    return conj(lits)


def ult(a, b):
    if a == b:
        return 0
    a, b = canon(a), canon(b)
    # drop equal leading bits
    w = len(a)
    while w and a[w - 1] == b[w - 1]:
        w -= 1
    if w == 0:
        return 0
    a, b = BV(a[:w]), BV(b[:w])
    if w == 1:
        return band(a[0] ^ 1, b[0])
    ca, cb = cval(a), cval(b)
    if cb is not None:
        if ca is not None:
            return int(ca < cb)
        return _ultc(a, cb, w)
    if ca is not None:
        if ca == (1 << w) - 1:
            return 0
        return _ultc(b, ca + 1, w) ^ 1
    # interval test
    if vmax(a) < vmin(b):
        return 1
    if vmin(a) >= vmax(b):
        return 0
    # a < b with b = a's own negation etc. are left symbolic
    return atom_bit(('ult', a, b))


def vmax(t):
    v = 0
    for i, b in enumerate(t):
        if b:
            v |= 1 << i
    return v


def vmin(t):
    v = 0
    for i, b in enumerate(t):
        if b == 1:
            v |= 1 << i
    return v


def _ultc(x, c, w):
    if c <= 0:
        return 0
    if c >= 1 << w:
        return 1
    if vmax(x) < c:
        return 1
    if vmin(x) >= c:
        return 0
    k = (c & -c).bit_length() - 1
    if k:                                  # low zero bits of the bound are irrelevant
        return _ultc(BV(x[k:]), c >> k, w - k)
    # drop leading constant bits
    while w and x[w - 1] <= 1:
        top = (c >> (w - 1)) & 1
        if x[w - 1] < top:
            return 1
        if x[w - 1] > top:
            return 0
        c &= (1 << (w - 1)) - 1
        w -= 1
        x = BV(x[:w])
        if c == 0:
            return 0
    if c & (c + 1) == 0 and c == (1 << w) - 1:     # x < 2^w - 1  <=>  x != all ones
        return conj(list(x)) ^ 1
    if c == 1:
        return conj([b ^ 1 for b in x])
    return atom_bit(('ult', x, const(c, w)))


def slt(a, b):
    k = max(signw(a), signw(b))
    if k < len(a):
        a, b = BV(a[:k]), BV(b[:k])
    a = BV(a[:-1] + (a[-1] ^ 1,))
    b = BV(b[:-1] + (b[-1] ^ 1,))
    return ult(a, b)


def udiv(a, b):
    w = len(a)
    ca, cb = cval(a), cval(b)
    if cb is not None and cb and cb & (cb - 1) == 0:
        return lshr_c(a, cb.bit_length() - 1)
    if ca is not None and cb:
        return const(ca // cb, w)
    k = max(highbit(a), highbit(b), 1)
    return zext(whole(mk(('udiv', k, canon(zext(a, k)), canon(zext(b, k)))), k), w)


def urem(a, b):
    w = len(a)
    ca, cb = cval(a), cval(b)
    if cb is not None and cb and cb & (cb - 1) == 0:
        return zext(BV(a[:cb.bit_length() - 1]), w)
    if ca is not None and cb:
        return const(ca % cb, w)
    k = max(highbit(a), highbit(b), 1)
    return zext(whole(mk(('urem', k, canon(zext(a, k)), canon(zext(b, k)))), k), w)


def sdiv(a, b):
    w = len(a)
    ca, cb = scval(a), scval(b)
    if ca is not None and cb:
        q = abs(ca) // abs(cb)
        return const(q if (ca < 0) == (cb < 0) else -q, w)
    if cb == 1:
        return a
    if cb == -1:
        return neg(a)
    # one bit more than the operands need: the quotient cannot overflow there
    k = max(signw(a), signw(b))
    q = whole(mk(('sdiv', k + 1, canon(sext(BV(a[:k]), k + 1)), canon(sext(BV(b[:k]), k + 1)))), k + 1)
    return sext(q, w)


def srem(a, b):
    w = len(a)
    ca, cb = scval(a), scval(b)
    if ca is not None and cb:
        r = abs(ca) % abs(cb)
        return const(-r if ca < 0 else r, w)
    if cb in (1, -1):
        return const(0, w)
    # the remainder of two sign-extended values never overflows the narrow width
    k = max(signw(a), signw(b))
    return sext(whole(mk(('srem', k, canon(BV(a[:k])), canon(BV(b[:k])))), k), w)


def fn(name, w, *args):
    """uninterpreted function of vectors"""
    return whole(mk(('fn', name, w) + tuple(canon(a) for a in args)), w)


# array name -> rule(idx, w): value of the initial content known from an invariant, or None
RD_RULES = {}


def rd(arr, idx, w):
    """element of a named array; idx a vector"""
    e = highbit(idx)
    rule = RD_RULES.get(arr)
    if rule:
        r = rule(BV(idx[:e]), w)
        if r is not None:
            return r
    return whole(mk(('rd', arr, w, canon(BV(idx[:e])))), w)


# ---------------------------------------------------------------- substitution
def rebuild(atom, f):
    """apply vector substitution f to the operands of an atom, return its bits"""
    n = ATOMS[atom]
    op = n[0]
    if op == 'sym' or op == 'const':
        return None
    if op == 'conj':
        return BV((conj([f((l,))[0] for l in n[1]]),))
    if op == 'xor':
        r = 0
        for l in n[1]:
            r = bxor(r, f((l,))[0])
        return BV((r,))
    if op == 'ite':
        return BV((bite(f((n[1],))[0], f((n[2],))[0], f((n[3],))[0]),))
    if op == 'eq':
        return BV((eq(f(n[1]), f(n[2])),))
    if op == 'ult':
        return BV((ult(f(n[1]), f(n[2])),))
    if op == 'add':
        return linsum([(f(t), c) for t, c in n[3]], n[2], n[1])
    if op == 'mul':
        return mul(f(n[2]), f(n[3]))
    if op in ('shl', 'lshr', 'ashr'):
        return {'shl': shl, 'lshr': lshr, 'ashr': ashr}[op](f(n[2]), f(n[3]))
    if op == 'sdiv':
        return sdiv(f(n[2]), f(n[3]))
    if op in ('udiv', 'urem', 'srem'):
        return zext({'udiv': udiv, 'urem': urem, 'sdiv': sdiv, 'srem': srem}[op](f(n[2]), f(n[3])), n[1])
    if op == 'fn':
        return fn(n[1], n[2], *[f(a) for a in n[3:]])
    if op == 'rd':
        return rd(n[1], f(n[3]), n[2])
    raise AssertionError(op)


# ---------------------------------------------------------------- printing
def show_bit(b):
    if b <= 1:
        return str(b)
    n = ATOMS[b >> 9]
    i = (b >> 1) & 255
    s = '~' if b & 1 else ''
    if n[0] == 'conj':
        return s + 'all(' + _show_lits(n[1]) + ')'
    if n[0] == 'xor':
        return s + 'xor(' + ','.join(show_bit(x) for x in sorted(n[1])) + ')'
    if n[0] in ('eq', 'ult'):
        return '%s%s(%s, %s)' % (s, n[0], show(n[1]), show(n[2]))
    if n[0] == 'ite':
        return '%site(%s,%s,%s)' % (s, show_bit(n[1]), show_bit(n[2]), show_bit(n[3]))
    return s + show_atom(n) + ('[%d]' % i)


def _show_lits(ls):
    ls = sorted(ls)
    return ' & '.join(show_bit(x) for x in ls[:24]) + (' ...' if len(ls) > 24 else '')


def show_atom(n):
    if n[0] == 'sym':
        return n[1]
    if n[0] == 'rd':
        return '%s[%s]' % (n[1], show(n[3]))
    if n[0] == 'add':
        s = ' + '.join((('%s' % show(t)) if c == 1 else ('-%s' % show(t)) if c == (1 << n[1]) - 1 else '%#x*%s' % (c, show(t))) for t, c in n[3])
        return '(%s%s)' % (s, ' + %#x' % n[2] if n[2] else '')
    if n[0] == 'fn':
        return '%s(%s)' % (n[1], ', '.join(show(a) for a in n[3:]))
    return '%s%d(%s)' % (n[0], n[1], ', '.join(show(a) for a in n[2:]))


def show(t):
    c = cval(t)
    if c is not None:
        return '%#x' % c
    if len(t) == 1:
        return show_bit(t[0])
    out = []
    i = 0
    while i < len(t):
        b = t[i]
        j = i + 1
        if b <= 1:
            while j < len(t) and t[j] <= 1:
                j += 1
            out.append("%d'%#x" % (j - i, cval(BV(t[i:j]))))
        elif j < len(t) and t[j] == b:
            while j < len(t) and t[j] == b:
                j += 1
            out.append('%dx{%s}' % (j - i, show_bit(b)))
        else:
            while j < len(t) and t[j] == t[j - 1] + 2:
                j += 1
            n = ATOMS[b >> 9]
            if j - i == 1:
                out.append(show_bit(b))
            else:
                lo = (b >> 1) & 255
                out.append('%s%s[%d:%d]' % ('~' if b & 1 else '', show_atom(n), lo + j - i - 1, lo))
        i = j
    if len(out) == 1:
        r = out[0]
        n = ATOMS[t[0] >> 9] if t[0] > 1 else None
        return r
    return '{' + ','.join(reversed(out)) + '}'
