"""Transfer functions of the text, iterator and hash-map library functions for analyses in exact-string mode. Iteration order of a map is a parameter of the analysis (REVERSE), since the library leaves it open."""
import bv
import models
from bv import BV, const, cval
from interp import Agg, ArrC, Enter, Lazy, Ptr, Stop
from models import R, Opq, new_string, strip_generics, text_of

REVERSE = False


def raw(I, st, v):
    """concrete bytes of a text"""
    out = []
    for b in text_of(I, st, v):
        c = cval(st.sub(b))
        if c is None:
            raise Stop('unknown character in a text')
        out.append(c)
    return bytes(out)


def as_slice(I, st, v):
    """the &str behind a &str, &&str or &String"""
    for _ in range(4):
        if isinstance(v, Ptr) and isinstance(v.meta, BV):
            return v
        if isinstance(v, Ptr):
            v = I.read(st, v)
            continue
        break
    if isinstance(v, Lazy) and not isinstance(v, Opq):
        v = I.expand(v)
    if isinstance(v, Agg):
        w = v
        if I.p.types[w.ty].get('name', '').endswith('string::String'):
            w = w.f[0]
        p = I.unwrap_ptr(w)
        n = w.f[[x for x, _ in I.p.fields(w.ty)].index('len')]
        return Ptr(p.obj, p.path, st.sub(n))
    raise Stop('text %r' % (v,))


def part(p, a, b):
    """bytes a..b-1 of a &str"""
    if a == b and (not p.path or p.path[-1][0] != 'i'):
        return Ptr(p.obj, p.path, const(0, 64))
    return Ptr(p.obj, p.path[:-1] + (('i', bv.add(p.path[-1][1], const(a, 64))),), const(b - a, 64))


def seq(st, dty, items):
    return Opq(st.fresh('seq'), dty, ('seq', tuple(items)))


def pattern(I, st, v):
    """a char or text pattern as bytes"""
    if isinstance(v, BV):
        c = cval(st.sub(v))
        if c is None:
            raise Stop('unknown pattern')
        return chr(c).encode()
    return raw(I, st, v)


def m_lines(I, st, f, a, at, dty):
    p = as_slice(I, st, a[0])
    b = raw(I, st, p)
    out, i = [], 0
    while i < len(b):
        j = b.find(b'\n', i)
        e = len(b) if j < 0 else j
        k = e - 1 if j >= 0 and e > i and b[e - 1] == 13 else e
        out.append(part(p, i, k))
        i = e + 1
    return seq(st, dty, out)


def m_chars(I, st, f, a, at, dty):
    return seq(st, dty, [const(ord(c), 32) for c in raw(I, st, a[0]).decode()])


def m_split(I, st, f, a, at, dty):
    p = as_slice(I, st, a[0])
    b, d = raw(I, st, p), pattern(I, st, a[1])
    out, i = [], 0
    while True:
        j = b.find(d, i)
        if j < 0:
            return seq(st, dty, out + [part(p, i, len(b))])
        out.append(part(p, i, j))
        i = j + len(d)


def m_seq_next(I, st, f, a, at, dty):
    o = I.read(st, a[0])
    if not isinstance(o, Opq) or o.data[0] != 'seq':
        return NotImplemented
    items = o.data[1]
    if not items:
        return I.none(dty)
    back = '>::next_back' in f['name']
    I.write(st, a[0], Opq(st.fresh('seq'), o.ty, ('seq', items[:-1] if back else items[1:])))
    return I.some(dty, items[-1 if back else 0])


def m_seq_hint(I, st, f, a, at, dty):
    o = I.read(st, a[0])
    if not isinstance(o, Opq) or o.data[0] != 'seq':
        return NotImplemented
    fs = I.p.fields(dty)
    return Agg(dty, 0, (const(0, 64), I.none(fs[1][1])))


def m_seq_collect(I, st, f, a, at, dty):
    o = a[0]
    if not isinstance(o, Opq) or o.data[0] != 'seq':
        return NotImplemented
    k = st.newobj(ArrC(list(o.data[1])))
    return I.make_vec(dty, Ptr(k, (('i', const(0, 64)),)), const(len(o.data[1]), 64))


def m_replace(I, st, f, a, at, dty):
    s = raw(I, st, a[0]).replace(pattern(I, st, a[1]), raw(I, st, a[2]))
    return new_string(I, st, dty, [const(x, 8) for x in s])


def bit(x):
    return BV((int(x),))


def m_with(I, st, f, a, at, dty):
    b, d = raw(I, st, a[0]), pattern(I, st, a[1])
    n = strip_generics(f['name'])
    r = b.endswith(d) if n.endswith('ends_with') else b.startswith(d) if n.endswith('starts_with') else d in b
    return bv.zext(bit(r), I.p.width(dty) or 1)


WHITE = '\t\n\x0b\x0c\r \x85\xa0\u1680' + ''.join(map(chr, range(0x2000, 0x200b))) + '\u2028\u2029\u202f\u205f\u3000'


def m_trim(I, st, f, a, at, dty):
    p = as_slice(I, st, a[0])
    b = raw(I, st, p)
    n = strip_generics(f['name']).split('::')[-1]
    i, j = 0, len(b)
    if not n.endswith('_matches'):
        t = b.decode()
        if n not in ('trim_end', 'trim_right'):
            u = t.lstrip(WHITE)
            i = len(t.encode()) - len(u.encode())
            t = u
        if n not in ('trim_start', 'trim_left'):
            j = i + len(t.rstrip(WHITE).encode())
    else:
        d = pattern(I, st, a[1])
        while n != 'trim_end_matches' and d and b[i:j].startswith(d):
            i += len(d)
        while n != 'trim_start_matches' and d and b[i:j].endswith(d):
            j -= len(d)
    return part(p, i, j)


def m_trim_by(I, st, f, a, at, dty):
    """trimming by a predicate on characters"""
    p = as_slice(I, st, a[0])
    t = raw(I, st, p).decode()
    n = strip_generics(f['name']).split('::')[-1]
    c, ty = a[1], at[1]
    if I.p.types[ty]['k'] == 'ref':
        ty = I.p.types[ty]['elem']
    inst = closure_fn(I, ty)
    if inst is None:
        raise Stop('trimming')
    bt = I.p.types[I.p.fns[inst]['body']['lt'][1]]
    env = c if bt['k'] != 'ref' or isinstance(c, Ptr) else Ptr(st.newobj(c), ())

    def step(st, i, j, front):
        if i < j:
            def got(I, st, val):
                if st.decide(st.sub(val)[0]):
                    return step(st, i + 1, j, front) if front else step(st, i, j - 1, front)
                if front and n == 'trim_matches':
                    return step(st, i, j, False)
                return end(i, j)
            return Enter(inst, [env, const(ord(t[i if front else j - 1]), 32)], got)
        return end(i, j)

    def end(i, j):
        return part(p, len(t[:i].encode()), len(t[:j].encode()))
    return step(st, 0, len(t), n != 'trim_end_matches')


def m_strip(I, st, f, a, at, dty):
    p = as_slice(I, st, a[0])
    b, d = raw(I, st, p), pattern(I, st, a[1])
    if strip_generics(f['name']).endswith('strip_prefix'):
        return I.some(dty, part(p, len(d), len(b))) if b.startswith(d) else I.none(dty)
    return I.some(dty, part(p, 0, len(b) - len(d))) if b.endswith(d) else I.none(dty)


def number(b, radix, w, signed):
    s = b.decode()
    if s[:1] == '+':
        s = s[1:]
    if not s or not all(c in '0123456789abcdefghijklmnopqrstuvwxyz'[:radix] for c in s.lower()):
        return None
    v = int(s, radix)
    return v if v < 1 << w - signed else None


def m_parse(I, st, f, a, at, dty):
    ok = I.p.fields(dty, 0)[0][1]
    w = I.p.width(ok)
    if w is None:
        raise Stop('parsing')
    radix = cval(st.sub(a[1])) if len(a) > 1 else 10
    v = number(raw(I, st, a[0]), radix, w, I.p.types[ok]['s'].startswith('i') if 's' in I.p.types[ok] else False)
    return I.ok(dty, const(v, w)) if v is not None else I.err(dty, I.lazy(st.fresh('parse error'), I.p.fields(dty, 1)[0][1]))


def m_join(I, st, f, a, at, dty):
    parts = [raw(I, st, x) for x in models.slice_elems(I, st, a[0])]
    return new_string(I, st, dty, [const(x, 8) for x in raw(I, st, a[1]).join(parts)])


# -- hash maps
def m_map_new(I, st, f, a, at, dty):
    return Opq(st.fresh('map'), dty, ('map', ()))


def entries(I, st, p):
    m = I.read(st, p)
    if not isinstance(m, Opq) or m.data[0] != 'map':
        raise Stop('map of unknown contents')
    return m, m.data[1]


def key_bytes(I, st, k):
    """keys are texts or numbers"""
    v = k
    for _ in range(4):
        if isinstance(v, Ptr) and not isinstance(v.meta, BV):
            v = I.read(st, v)
    if isinstance(v, BV):
        c = cval(st.sub(v))
        if c is None:
            raise Stop('unknown key')
        return c
    return raw(I, st, k)


def put(I, st, p, m, es):
    I.write(st, p, Opq(st.fresh('map'), m.ty, ('map', tuple(es))))


def m_map_insert(I, st, f, a, at, dty):
    m, es = entries(I, st, a[0])
    kb = key_bytes(I, st, a[1])
    for e in es:
        if e[0] == kb:
            old = st.objs[e[2]]
            st.objs[e[2]] = a[2]
            return I.some(dty, old)
    put(I, st, a[0], m, es + ((kb, st.newobj(a[1]), st.newobj(a[2])),))
    return I.none(dty)


def m_map_get(I, st, f, a, at, dty):
    m, es = entries(I, st, a[0])
    kb = key_bytes(I, st, a[1])
    n = strip_generics(f['name']).split('::')[-1]
    e = next((e for e in es if e[0] == kb), None)
    if n == 'contains_key':
        return bv.zext(bit(e is not None), I.p.width(dty) or 1)
    if n == 'remove':
        if e is None:
            return I.none(dty)
        put(I, st, a[0], m, [x for x in es if x != e])
        return I.some(dty, st.objs[e[2]])
    return I.none(dty) if e is None else I.some(dty, Ptr(e[2], ()))


def m_map_len(I, st, f, a, at, dty):
    m, es = entries(I, st, a[0])
    return const(len(es), 64) if strip_generics(f['name']).endswith('len') else bv.zext(bit(not es), I.p.width(dty) or 1)


def m_map_iter(I, st, f, a, at, dty):
    m, es = entries(I, st, a[0])
    n = strip_generics(f['name']).split('::')[-1]
    es = es[::-1] if REVERSE else es
    nxt = R(r'^std::collections::HashMap::<(.*)>::(iter|keys|values)').match(f['name'])
    if n == 'keys':
        return seq(st, dty, [Ptr(e[1], ()) for e in es])
    if n == 'values':
        return seq(st, dty, [Ptr(e[2], ()) for e in es])
    # (&K, &V) pairs, typed as the iterator's items
    kv = nxt.group(1)
    tys = [i for i, t in (I.p.types.items() if isinstance(I.p.types, dict) else enumerate(I.p.types)) if t['k'] == 'tuple' and len(t['fields']) == 2 and pair(I, t, kv)]
    if not tys:
        raise Stop('type of map items')
    return seq(st, dty, [Agg(tys[0], 0, (Ptr(e[1], ()), Ptr(e[2], ()))) for e in es])


def pair(I, t, kv):
    a, b = (I.p.types[x if isinstance(x, int) else x[1]] for x in t['fields'])
    if a['k'] != 'ref' or b['k'] != 'ref':
        return False
    n = lambda r: I.p.tname(r['elem'])
    return '%s, %s' % (n(a), n(b)) == kv


def m_map_entry(I, st, f, a, at, dty):
    m, es = entries(I, st, a[0])
    return Opq(st.fresh('entry'), dty, ('entry', a[0], key_bytes(I, st, a[1]), a[1]))


def m_or_insert(I, st, f, a, at, dty):
    o = a[0]
    if not isinstance(o, Opq) or o.data[0] != 'entry':
        raise Stop('map entry')
    _, p, kb, k = o.data
    m, es = entries(I, st, p)
    for e in es:
        if e[0] == kb:
            return Ptr(e[2], ())

    def done(I, st, val):
        m, es = entries(I, st, p)
        vo = st.newobj(val)
        put(I, st, p, m, es + ((kb, st.newobj(k), vo),))
        return Ptr(vo, ())
    n = strip_generics(f['name']).split('::')[-1]
    if n == 'or_insert':
        return done(I, st, a[1])
    c = a[1]
    ty = c.ty if isinstance(c, (Agg, Lazy)) else None
    inst = closure_body(I, ty)
    if inst is None:
        raise Stop('closure of ' + n)
    return Enter(inst, [c], done)


def closure_body(I, ty):
    """the FnOnce shim or body of a closure type"""
    if ty is None:
        return None
    s = I.p.types[ty].get('s') or I.p.tname(ty)
    for pre in ('<%s as std::ops::FnOnce<()>>::call_once' % s,):
        i = I.p.fn(pre)
        if i is not None and I.p.fns[i].get('body'):
            return i
    for i, f in I.p.fns.items():
        b = f.get('body')
        if b and '{closure#' in f['name'].split('::')[-1] and b['arg_count'] and b['lt'][1] == ty:
            return i
    return None


def m_sort_by(I, st, f, a, at, dty):
    """stable insertion sort, the comparison interpreted"""
    m = R(r'^std::slice::<impl \[.*\]>::sort_by::<(?P<c>.*)>$').match(f['name'])
    inst = I.p.fn(f['name'] + '::{closure#0}')
    if not m or inst is None:
        return NotImplemented
    body = I.p.fns[inst]['body']
    env_ref = I.p.types[body['lt'][1]]
    env_ty = env_ref['elem']
    els = list(models.slice_elems(I, st, a[0]))
    if len(els) < 2:
        return Agg(dty, 0, ())
    cmp_obj = st.newobj(a[1])
    env = st.newobj(Agg(env_ty, 0, (Ptr(cmp_obj, ()),)))
    ref = lambda x: Ptr(st.newobj(x), ())

    def step(out, rest, j):
        """insert rest[0] into the sorted list `out`, comparing with out[j]"""
        while rest:
            if j < 0:
                out, rest = out[:0] + [rest[0]] + out, rest[1:]
                j = len(out) - 1
                continue
            x, y = rest[0], out[j]

            def got(I, st, val, out=out, rest=rest, j=j):
                if st.decide(st.sub(val)[0]):       # x < out[j]
                    return step2(st, out, rest, j - 1)
                return step2(st, out[:j + 1] + [rest[0]] + out[j + 1:], rest[1:], None)
            return Enter(inst, [Ptr(env, ()), ref(x), ref(y)], got)
        p = a[0]
        base = cval(p.path[-1][1])
        for i, e in enumerate(out):
            I.write(st, Ptr(p.obj, p.path[:-1] + (('i', const(base + i, 64)),)), e)
        return Agg(dty, 0, ())

    def step2(st2, out, rest, j):
        nonlocal st
        st = st2
        return step(out, rest, len(out) - 1 if j is None else j)
    return step([els[0]], els[1:], 0)


def m_array_iter(I, st, f, a, at, dty):
    v = a[0]
    if not isinstance(v, ArrC):
        return NotImplemented
    return seq(st, dty, v.e)


def m_seq_fold(I, st, f, a, at, dty):
    o = a[0]
    if not isinstance(o, Opq) or o.data[0] != 'seq':
        return NotImplemented
    c = a[2]
    t = at[2]
    if I.p.types[t]['k'] == 'ref':
        t = I.p.types[t]['elem']
    inst = closure_fn(I, t)
    if inst is None:
        raise Stop('closure of fold')
    if t == at[2]:
        raise Stop('fold consuming its closure')
    env = c

    def step(items, acc):
        if not items:
            return acc

        def got(I, st, val):
            return step(items[1:], val)
        return Enter(inst, [env, acc, items[0]], got)
    return step(o.data[1], a[1])


def closure_fn(I, ty):
    for i, f in I.p.fns.items():
        b = f.get('body')
        if b and '{closure#' in f['name'].split('::')[-1] and b['arg_count']:
            t = b['lt'][1]
            if t == ty or I.p.types[t].get('elem') == ty and I.p.types[t]['k'] == 'ref':
                return i
    return None


def m_clone_refs(I, st, f, a, at, dty):
    return I.read(st, a[0])


def m_seq_exact(I, st, f, a, at, dty):
    o = I.read(st, a[0])
    if not isinstance(o, Opq) or o.data[0] != 'seq':
        return NotImplemented
    fs = I.p.fields(dty)
    n = const(len(o.data[1]), 64)
    return Agg(dty, 0, (n, I.some(fs[1] if isinstance(fs[1], int) else fs[1][1], n)))


def m_seq_extend(I, st, f, a, at, dty):
    o = a[1]
    if not isinstance(o, Opq) or o.data[0] != 'seq':
        return NotImplemented
    v, ptr, ln, li = models.vec_parts(I, st, a[0])
    ln = st.sub(ln)
    if ptr.obj[0] == 'emptyvec':
        ptr = Ptr(st.newobj(ArrC([])), (('i', const(0, 64)),))
        v = I.make_vec(v.ty, ptr, const(0, 64))
    for e in o.data[1]:
        models.grow(I, st, ptr, ln, e, None)
        ln = bv.add(ln, const(1, 64))
    models.set_vec_len(I, st, a[0], v, li, ln)
    return Agg(dty, 0, ())


def m_raw_alloc(I, st, f, a, at, dty):
    """room for elements to come: cells are appended as they are initialised"""
    return I.make_vec(dty, Ptr(st.newobj(ArrC([])), (('i', const(0, 64)),)), const(0, 64))


def m_char_count(I, st, f, a, at, dty):
    n = 0
    for b in text_of(I, st, a[0]):
        b = st.sub(b)
        n += not st.decide(bv.band(b[7], bv.bnot(b[6])))
    return const(n, 64)


S = r'^(std|core|alloc)::str::<impl str>::'
def m_vec_clone(I, st, f, a, at, dty):
    v, ptr, ln, li = models.vec_parts(I, st, a[0])
    n = cval(st.sub(ln))
    if n is None:
        return NotImplemented
    es = models.slice_elems(I, st, Ptr(ptr.obj, ptr.path, const(n, 64))) if n else []
    k = st.newobj(ArrC(es))
    return I.make_vec(dty, Ptr(k, (('i', const(0, 64)),)), const(n, 64))


def m_retain(I, st, f, a, at, dty):
    v, ptr, ln, li = models.vec_parts(I, st, a[0])
    n = cval(st.sub(ln))
    if n is None:
        raise Stop('retain')
    es = models.slice_elems(I, st, Ptr(ptr.obj, ptr.path, const(n, 64))) if n else []
    inst = closure_fn(I, at[1])
    if inst is None:
        raise Stop('retain')
    env = Ptr(st.newobj(a[1]), ())

    def step(st, rest, kept):
        if not rest:
            k = st.newobj(ArrC(kept))
            I.write(st, a[0], I.make_vec(v.ty, Ptr(k, (('i', const(0, 64)),)), const(len(kept), 64)))
            return Agg(dty, 0, ())

        def got(I, st, val):
            return step(st, rest[1:], kept + [rest[0]] if st.decide(st.sub(val)[0]) else kept)
        return Enter(inst, [env, Ptr(st.newobj(rest[0]), ())], got)
    return step(st, es, [])


def m_lossy(I, st, f, a, at, dty):
    p = a[0]
    b = bytes(cval(st.sub(x)) for x in models.slice_elems(I, st, p)) if cval(st.sub(p.meta)) else b''
    i = I.p.variant_index(dty, 'Owned')
    return Agg(dty, i, (new_string(I, st, I.p.fields(dty, i)[0][1], [const(x, 8) for x in b.decode(errors='replace').encode()]),))


TEXT_MODELS = [
    (R(r'^<std::vec::Vec<u8> as std::clone::Clone>::clone$'), m_vec_clone),
    (R(r'^std::vec::Vec::<u8>::retain::<'), m_retain),
    (R(r'^std::string::String::from_utf8_lossy$'), m_lossy),
    (R(r'^alloc::raw_vec::RawVecInner(::<.*>)?::with_capacity_in$'), m_raw_alloc),
    (R(r'^(<\[.*; \d+\] as std::iter::IntoIterator>|std::array::(iter::)?<impl std::iter::IntoIterator for \[.*; \d+\]>)::into_iter$'), m_array_iter),
    (R(r'^<std::array::IntoIter<.*> as std::iter::Iterator>::fold::<.*>$'), m_seq_fold),
    (R(r'^<std::array::IntoIter<.*> as std::iter::(Iterator|DoubleEndedIterator)>::next(_back)?$'), m_seq_next),
    (R(r'^<\((&[^&]*, )*&[^&]*\) as std::clone::Clone>::clone$'), m_clone_refs),
    (R(r'^<std::array::IntoIter<.*> as std::iter::Iterator>::size_hint$'), m_seq_exact),
    (R(r'^std::vec::Vec::<.*>::(extend_trusted|extend_desugared)::<std::(array::IntoIter|str::(Lines|Chars|Split))<.*>>$'), m_seq_extend),
    (R(r'^core::str::count::(count_chars|do_count_chars|char_count_general_case)$'), m_char_count),
    (R(S + r'lines$'), m_lines),
    (R(S + r'chars$'), m_chars),
    (R(S + r'split::<(char|&str)>$'), m_split),
    (R(S + r'replace::<(char|&str)>$'), m_replace),
    (R(S + r'(starts_with|ends_with|contains)::<(char|&+str|&std::string::String)>$'), m_with),
    (R(S + r'trim_(|start_|end_)matches::<&?\{closure@.*>$'), m_trim_by),
    (R(S + r'(trim|trim_start|trim_end|trim_left|trim_right|trim_(start|end)_matches::<(char|&str)>)$'), m_trim),
    (R(S + r'strip_(prefix|suffix)::<(char|&str)>$'), m_strip),
    (R(S + r'parse::<[iu](\d+|size)>$|^core::num::<impl std::str::FromStr for [iu].*>::from_str$|^core::num::<impl [iu](\d+|size)>::from_str_radix$'), m_parse),
    (R(r'^(std|alloc)::slice::<impl \[&str\]>::join::<&str>$|^<\[&str\] as std::slice::Join<&str>>::join$'), m_join),
    (R(r'^<std::(str::(Lines|Chars|Split)|collections::hash_map::(Iter|Keys|Values))<.*> as std::iter::(Iterator|DoubleEndedIterator)>::next(_back)?$'), m_seq_next),
    (R(r'^<std::(str::(Lines|Chars|Split)|collections::hash_map::(Iter|Keys|Values))<.*> as std::iter::Iterator>::size_hint$'), m_seq_hint),
    (R(r'^<std::vec::Vec<.*> as std::iter::FromIterator<.*?>>::from_iter::<std::(str::(Lines|Chars|Split)|collections::hash_map::(Iter|Keys|Values))<[^<>]*(<[^<>]*>)?[^<>]*>>$'), m_seq_collect),
    (R(r'^std::collections::HashMap::<.*>::(new|with_capacity)$'), m_map_new),
    (R(r'^std::collections::HashMap::<.*>::insert$'), m_map_insert),
    (R(r'^std::collections::HashMap::<.*>::(get|contains_key|remove)::<.*>$'), m_map_get),
    (R(r'^std::collections::HashMap::<.*>::(len|is_empty)$'), m_map_len),
    (R(r'^std::collections::HashMap::<.*>::(iter|keys|values)$'), m_map_iter),
    (R(r'^std::collections::HashMap::<.*>::entry$'), m_map_entry),
    (R(r'^std::collections::hash_map::Entry::<.*>::or_insert(_with)?(::<.*>)?$'), m_or_insert),
    (R(r'^std::slice::<impl \[.*\]>::sort_by::<.*>$'), m_sort_by),
]
