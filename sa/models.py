"""Models of the standard-library leaves (formatting, allocation, intrinsics, locks)."""
import re
import bv
from bv import BV, const, cval
from interp import (Agg, ArrC, SymArr, Lazy, Ptr, FnV, UNDEF, UNINIT_BOX, Split, Panic, Stop, Prune, Enter)

R = re.compile


def strip_generics(n):
    """remove turbofish generic arguments:  a::<b>::c -> a::c"""
    out = []
    i = 0
    while i < len(n):
        if n.startswith('::<', i):
            d = 0
            j = i + 2
            while j < len(n):
                if n[j] == '<':
                    d += 1
                elif n[j] == '>' and n[j - 1] != '-':
                    d -= 1
                    if d == 0:
                        break
                j += 1
            i = j + 1
        else:
            out.append(n[i])
            i += 1
    return ''.join(out)


def m_panic(I, st, f, args, at, dty):
    msg = ''
    for a in args:
        if isinstance(a, Ptr) and isinstance(a.meta, BV):
            s = I.str_const(a, st)
            if s:
                msg = s
    n = strip_generics(f['name']).split('::')[-1]
    raise Panic(n + (': ' + msg if msg else ''))


def m_opaque_pure(I, st, f, args, at, dty):
    return I.lazy(st.fresh('fmt'), dty)


def m_string(I, st, f, args, at, dty):
    """strings are texts nothing depends on, unless an analysis asks for their bytes"""
    if not getattr(I, 'strings', False):
        return m_opaque_pure(I, st, f, args, at, dty)
    n = strip_generics(f['name']).replace('<std::string::String', 'String')
    if n.endswith(('String::new', 'String::with_capacity')):
        k = st.newobj(ArrC([]))
        return Agg(dty, 0, (I.make_vec(I.p.fields(dty)[0][1], Ptr(k, (('i', const(0, 64)),)), const(0, 64)),))
    if n.endswith((' as std::clone::Clone>::clone', 'String::from', 'ToString>::to_string', 'ToOwned>::to_owned', 'str::to_owned', 'From<&str>>::from', 'From<&std::string::String>>::from', 'From<&mut str>>::from', 'Into<std::string::String>>::into')) and args:
        return new_string(I, st, dty, text_of(I, st, args[0]))
    if n.endswith('String::push'):
        p = args[0]
        q = Ptr(p.obj, p.path + (('f', 0),), p.meta)
        c = st.sub(args[1])
        u8 = lambda v: BV(v[:8])
        if st.decide(bv.eq(BV(c[7:]), const(0, len(c) - 7))):
            es = [BV(c[:8])]
        elif st.decide(bv.eq(BV(c[11:]), const(0, len(c) - 11))):
            es = [BV(tuple(c[6:11]) + (0, 1, 1)), BV(tuple(c[:6]) + (0, 1))]
        else:
            raise Stop('a character above U+07FF')
        for e in es:
            vec_push(I, st, q, e)
        return Agg(dty, 0, ())
    return NotImplemented


def vec_push(I, st, vp, e):
    v, ptr, ln, li = vec_parts(I, st, vp)
    ln = st.sub(ln)
    if ptr.obj[0] == 'emptyvec':
        k = st.newobj(ArrC([]))
        ptr = Ptr(k, (('i', const(0, 64)),))
        v = I.make_vec(v.ty, ptr, const(0, 64))
    grow(I, st, ptr, ln, e, None)
    set_vec_len(I, st, vp, v, li, bv.add(ln, const(1, 64)))


def text_of(I, st, v):
    """the bytes of a &str, &String or &&str argument"""
    for _ in range(4):
        if isinstance(v, Ptr) and isinstance(v.meta, BV):
            return slice_elems(I, st, v)
        if isinstance(v, Ptr):
            v = I.read(st, v)
            continue
        if isinstance(v, Agg):
            w = I.p.types[v.ty]['name'] if 'name' in I.p.types[v.ty] else ''
            if w.endswith('string::String'):
                v = v.f[0]
            if w.startswith('std::vec::Vec') or isinstance(v, Agg):
                p = I.unwrap_ptr(v)
                n = v.f[[x for x, _ in I.p.fields(v.ty)].index('len')]
                return slice_elems(I, st, Ptr(p.obj, p.path, n)) if p.obj[0] != 'emptyvec' else []
        break
    raise Stop('text %r' % (v,))


def m_text_eq(I, st, f, args, at, dty):
    if not getattr(I, 'strings', False):
        return NotImplemented
    a, b = text_of(I, st, args[0]), text_of(I, st, args[1])
    r = bv.eq(bv.cat(*a), bv.cat(*b)) if len(a) == len(b) and a else int(len(a) == len(b))
    if f['name'].endswith('::ne'):
        r = bv.bnot(r)
    return BV((r,) + (0,) * ((I.p.width(dty) or 1) - 1))


class Opq(Lazy):
    """a library value the models hand to each other"""
    __slots__ = ('data',)

    def __init__(self, name, ty, data):
        Lazy.__init__(self, name, ty)
        self.data = data


def new_string(I, st, dty, elems):
    k = st.newobj(ArrC(list(elems)))
    return Agg(dty, 0, (I.make_vec(I.p.fields(dty)[0][1], Ptr(k, (('i', const(0, 64)),)), const(len(elems), 64)),))


NUMERIC = R(r'new_(?P<how>display|debug|lower_hex|upper_hex|octal|binary)::<(?P<t>.*)>$')


def m_fmt_arg(I, st, f, args, at, dty):
    if not getattr(I, 'strings', False):
        return m_opaque_pure(I, st, f, args, at, dty)
    m = NUMERIC.search(f['name'])
    if not m:
        return m_opaque_pure(I, st, f, args, at, dty)
    t = m.group('t').lstrip('&')
    v = args[0]
    if t in ('str', 'std::string::String'):
        return Opq(st.fresh('fmtarg'), dty, ('text', m.group('how'), tuple(text_of(I, st, v))))
    for _ in range(4):
        if isinstance(v, Ptr):
            v = I.read(st, v)
    return Opq(st.fresh('fmtarg'), dty, (t, m.group('how'), st.sub(v) if isinstance(v, BV) else v))


def m_fmt_args(I, st, f, args, at, dty):
    if not getattr(I, 'strings', False):
        return m_opaque_pure(I, st, f, args, at, dty)
    n = strip_generics(f['name'])
    if n.endswith('from_str') or n.endswith('from_str_nonconst'):
        return Opq(st.fresh('fmtargs'), dty, (tuple(text_of(I, st, args[0])), ()))
    if not n.endswith('new'):
        return m_opaque_pure(I, st, f, args, at, dty)
    b = [cval(x) for x in I.read(st, args[0]).e]
    a = I.read(st, args[1]).e
    return Opq(st.fresh('fmtargs'), dty, ((b, tuple(a)), None))


FMT_SIGN_PLUS, FMT_ALT, FMT_ZERO = 1 << 21, 1 << 23, 1 << 24


def fmt_render(I, st, arg, flags=0, width=0):
    if not isinstance(arg, Opq):
        raise Stop('formatting %r' % (arg,))
    t, how, v = arg.data
    if t == 'text':
        if how != 'display' or width:
            raise Stop('formatted text')
        return list(v)
    if t == 'char' and how == 'display' and isinstance(v, BV) and not width:
        c = cval(v)
        if c is None:
            raise Stop('unknown character')
        return [const(x, 8) for x in chr(c).encode()]
    if not R(r'^[iu](\d+|size)$').match(t) or not isinstance(v, BV):
        raise Stop('formatting a value of type ' + t)
    base = {'display': 'd', 'debug': 'd', 'lower_hex': 'x', 'upper_hex': 'X', 'octal': 'o', 'binary': 'b'}[how]
    c = cval(v)
    if c is None:
        return [BV(bv.sym('text of %s as %s%s' % (bv.show(v), '#' if flags & FMT_ALT else '', base), 8))]
    neg = base == 'd' and t[0] == 'i' and c >> len(v) - 1 & 1
    digits = format(c - (1 << len(v)) if neg else c, base).lstrip('-')
    sign = '-' if neg else '+' if flags & FMT_SIGN_PLUS else ''
    pre = {'x': '0x', 'X': '0x', 'o': '0o', 'b': '0b', 'd': ''}[base] if flags & FMT_ALT else ''
    if width and flags & FMT_ZERO:
        digits = digits.rjust(width - len(sign + pre), '0')
    s = sign + pre + digits
    if width:
        s = s.rjust(width)
    return [const(x, 8) for x in s.encode()]


def m_format(I, st, f, args, at, dty):
    a = args[0]
    if not getattr(I, 'strings', False) or not isinstance(a, Opq):
        return m_opaque_pure(I, st, f, args, at, dty)
    t, rest = a.data
    if rest == ():
        return new_string(I, st, dty, t)
    b, vals = t
    out, i, k = [], 0, 0
    while b[i]:
        n = b[i]
        i += 1
        if n < 0x80:
            out += [const(x, 8) for x in b[i:i + n]]
            i += n
        elif n == 0x80:
            ln = b[i] | b[i + 1] << 8
            out += [const(x, 8) for x in b[i + 2:i + 2 + ln]]
            i += 2 + ln
        else:
            flags = width = 0
            if n & 0x30:
                raise Stop('dynamic width')
            if n & 1:
                flags = int.from_bytes(bytes(b[i:i + 4]), 'little')
                i += 4
            if n & 2:
                width = b[i] | b[i + 1] << 8
                i += 2
            if n & 4:
                i += 2
            if n & 8:
                k = b[i] | b[i + 1] << 8
                i += 2
            out += fmt_render(I, st, vals[k], flags, width)
            k += 1
    return new_string(I, st, dty, out)


def m_unit(I, st, f, args, at, dty):
    return Agg(dty, 0, ())


def m_print(I, st, f, args, at, dty):
    st.opaque += ('print',)
    return Agg(dty, 0, ())


def m_from_elem(I, st, f, args, at, dty):
    n = args[1]
    c = cval(n)
    x = args[0]
    if c is not None and c <= 8192:
        arr = ArrC([x] * c)
    else:
        arr = SymArr('zeroed:' + bv.show(n) if isinstance(x, BV) and cval(x) == 0 else st.fresh('fromelem'), I.vec_elem(dty), n)
    k = st.newobj(arr)
    return I.make_vec(dty, Ptr(k, (('i', const(0, 64)),)), n)


def m_vec_new(I, st, f, args, at, dty):
    k = st.newobj(ArrC([]))
    return I.make_vec(dty, Ptr(k, (('i', const(0, 64)),)), const(0, 64))


def vec_parts(I, st, vp):
    """(vec value, data ptr, len) of the Vec behind a reference"""
    v = I.read(st, vp)
    if isinstance(v, Lazy):
        v = I.expand(v)
    names = [n for n, _ in I.p.fields(v.ty)]
    li = names.index('len')
    ln = v.f[li]
    ptr = I.unwrap_ptr(Agg(v.ty, 0, [x for i, x in enumerate(v.f) if i != li]))
    return v, ptr, ln, li


def set_vec_len(I, st, vp, v, li, ln):
    f = list(v.f)
    f[li] = ln
    I.write(st, vp, Agg(v.ty, v.var, f))


def grow(I, st, ptr, ln, x, ety):
    o = I.obj(st, ptr.obj) if ptr.obj[0] != 'emptyvec' else ArrC([])
    if isinstance(o, ArrC) and cval(ln) is not None:
        c = cval(ln)
        o = ArrC(o.e[:c] + (x,) + o.e[c + 1:])
        st.objs[ptr.obj] = o
    elif isinstance(o, SymArr):
        st.objs[ptr.obj] = SymArr(o.name, o.ety, o.len, tuple(w for w in o.w if w[0] != ln) + ((ln, x),))
    else:
        raise Stop('vec growth')


def m_vec_push(I, st, f, args, at, dty):
    v, ptr, ln, li = vec_parts(I, st, args[0])
    ln = st.sub(ln)
    if ptr.obj[0] == 'emptyvec':
        k = st.newobj(ArrC([]))
        ptr = Ptr(k, (('i', const(0, 64)),))
        v = I.make_vec(v.ty, ptr, const(0, 64))
    grow(I, st, ptr, ln, args[1], None)
    set_vec_len(I, st, args[0], v, li, bv.add(ln, const(1, 64)))
    return Agg(dty, 0, ()) if I.p.types[dty]['k'] == 'tuple' else I.lazy(st.fresh('push'), dty)


def slice_elems(I, st, p):
    n = cval(st.sub(p.meta))
    if n is None or n > 65536:
        raise Stop('slice of unknown length')
    o = I.read_container(st, p)
    s = p.path[-1][1]
    return [I.elem(o, st.sub(bv.add(s, const(j, 64))), st) for j in range(n)]


def m_vec_extend_slice(I, st, f, args, at, dty):
    v, ptr, ln, li = vec_parts(I, st, args[0])
    src = args[1]
    es = slice_elems(I, st, src)
    ln = st.sub(ln)
    if ptr.obj[0] == 'emptyvec':
        k = st.newobj(ArrC([]))
        ptr = Ptr(k, (('i', const(0, 64)),))
        v = I.make_vec(v.ty, ptr, const(0, 64))
    for e in es:
        grow(I, st, ptr, ln, e, None)
        ln = bv.add(ln, const(1, 64))
    set_vec_len(I, st, args[0], v, li, ln)
    return Agg(dty, 0, ())


def m_range_collect(I, st, f, args, at, dty):
    """(a..b).collect() / (a..=b).collect() with known bounds"""
    v = args[0]
    if not isinstance(v, Agg):
        return NotImplemented
    d = {n: x for (n, _), x in zip(I.p.fields(v.ty), v.f)}
    if 'start' not in d or 'end' not in d or not isinstance(d['start'], BV):
        return NotImplemented
    a, b = cval(st.sub(d['start'])), cval(st.sub(d['end']))
    if a is None or b is None:
        raise Stop('collect over unknown bounds')
    w = len(d['start'])
    if 'exhausted' in d:
        b += 1
    k = st.newobj(ArrC([const(i, w) for i in range(a, b)]))
    return I.make_vec(dty, Ptr(k, (('i', const(0, 64)),)), const(max(0, b - a), 64))


def m_to_vec(I, st, f, args, at, dty):
    p = args[0]
    n = cval(st.sub(p.meta))
    if n is None:
        o = I.read_container(st, p)
        if cval(st.sub(p.path[-1][1])) == 0 and isinstance(o, (ArrC, SymArr)):
            k = st.newobj(o)
            return I.make_vec(dty, Ptr(k, (('i', const(0, 64)),)), st.sub(p.meta))
        raise Stop('to_vec of unknown slice')
    k = st.newobj(ArrC(slice_elems(I, st, p)))
    return I.make_vec(dty, Ptr(k, (('i', const(0, 64)),)), const(n, 64))


def m_box_new(I, st, f, args, at, dty):
    k = st.newobj(args[0], 'box')
    return I.make_vec(dty, Ptr(k, ()), None)


def m_fn_shim(I, st, f, args, at, dty):
    """<fn item as FnOnce/FnMut/Fn>::call*"""
    a = f['args'][0]
    t = I.p.types[a['ty']]
    if t['k'] != 'fndef' or t.get('inst') is None:
        if t['k'] == 'fnptr' and isinstance(args[0], FnV):
            return Enter(args[0].inst, list(args[1].f))
        raise Stop('call through ' + t['s'])
    inst = t['inst']
    tup = args[1]
    return call_or_model(I, st, inst, list(tup.f), dty)


def m_closure_once(I, st, f, args, at, dty):
    """<Fn or FnMut closure as FnOnce>::call_once"""
    if 'body' in f or f.get('closure') is None:
        return NotImplemented
    k = st.newobj(args[0], 'closure')
    return Enter(f['closure'], [Ptr(k, ())] + list(args[1:]))


def call_or_model(I, st, inst, a, dty):
    m = I.find_model(inst)
    f = I.p.fns[inst]
    if m:
        at = [x['ty'] if 'ty' in x else None for x in f['args']]
        r = m(I, st, f, a, at, dty)
        if r is not NotImplemented:
            return r
    if 'body' not in f:
        return I.opaque(st, f, [], [], dty)
    return Enter(inst, a)


def m_eq_enum(I, st, f, args, at, dty):
    return NotImplemented


def m_intrinsic(I, st, f, args, at, dty):
    n = f['intrinsic']
    p = I.p
    w = p.width(dty)
    if n in ('cold_path', 'assert_inhabited', 'assert_zero_valid', 'assert_mem_uninitialized_valid', 'assume', 'black_box'):
        return Agg(dty, 0, ()) if n != 'black_box' else args[0]
    if n in ('likely', 'unlikely'):
        return args[0]
    if n == 'is_val_statically_known':
        return const(0, 1)
    if n in ('ub_checks', 'contract_checks', 'overflow_checks'):
        return const(0, 1)
    if n == 'discriminant_value':
        v = I.read(st, args[0])
        t = [a['ty'] for a in f['args'] if 'ty' in a][0]
        d, _ = I.discr(st, v, t)
        return bv.zext(d, w)
    if n == 'ptr_offset_from_unsigned' or n == 'ptr_offset_from':
        a, b = args
        if a.obj == b.obj and a.path[:-1] == b.path[:-1] and a.path and a.path[-1][0] == 'i':
            return st.sub(bv.sub(a.path[-1][1], b.path[-1][1]))
        raise Stop('ptr_offset_from')
    if n in ('arith_offset', 'offset'):
        return I.ptr_binop(st, 'Offset', args[0], args[1])
    if n in ('integer_max', 'integer_min'):
        x, y = st.sub(args[0]), st.sub(args[1])
        less = bv.slt if p.signed(dty) else bv.ult
        if n == 'integer_min':
            return x if st.decide(less(x, y)) else y
        return y if st.decide(less(x, y)) else x
    if n == 'bswap':
        x = args[0]
        return bv.cat(*reversed([BV(x[i:i + 8]) for i in range(0, len(x), 8)]))
    if n == 'bitreverse':
        return BV(reversed(args[0]))
    if n in ('cttz', 'cttz_nonzero', 'ctlz', 'ctlz_nonzero', 'ctpop'):
        x = st.sub(args[0])
        c = cval(x)
        ww = len(x)
        if c is not None:
            r = {'ctt': (c & -c).bit_length() - 1 if c else ww, 'ctl': ww - c.bit_length(), 'ctp': bin(c).count('1')}[n[:3]]
            return const(r, w)
        return bv.zext(bv.fn(n[:4], 16, x), w)
    if n in ('rotate_left', 'rotate_right'):
        x = args[0]
        c = cval(st.sub(args[1]))
        if c is None:
            return bv.fn(n, w, *args)
        c %= len(x)
        if n == 'rotate_right':
            c = len(x) - c
        return BV(x[len(x) - c:] + x[:len(x) - c]) if c else x
    if n in ('saturating_sub', 'saturating_add'):
        t = f['args'][0]['ty']
        if not p.signed(t):
            x, y = st.sub(args[0]), st.sub(args[1])
            if n == 'saturating_sub':
                return const(0, w) if st.decide(bv.ult(x, y)) else bv.sub(x, y)
            s = bv.add(bv.zext(x, w + 1), bv.zext(y, w + 1))
            return const(-1, w) if st.decide(s[w]) else BV(s[:w])
        return bv.fn(n, w, *args)
    if n == 'raw_eq':
        t = p.types[f['args'][0]['ty']]
        xs = []
        for a in args[:2]:
            if t['k'] == 'array' and isinstance(a, Ptr) and a.path and a.path[-1][0] == 'i' and not isinstance(I.read(st, a), (ArrC, SymArr)):
                es = slice_elems(I, st, Ptr(a.obj, a.path, const(t['len'], 64)))
                xs.append([y for e in es for y in I.to_bytes(e)])
            else:
                xs.append(I.to_bytes(I.read(st, a)))
        xa, xb = xs
        if len(xa) != len(xb):
            raise Stop('raw_eq of different sizes')
        return BV((bv.eq(bv.cat(*xa), bv.cat(*xb)),))
    if n == 'compare_bytes':
        c = cval(st.sub(args[2]))
        if c is None:
            raise Stop('compare_bytes of unknown length')
        pa, pb = args[0], args[1]
        xa = slice_elems(I, st, Ptr(pa.obj, pa.path, const(c, 64)))
        xb = slice_elems(I, st, Ptr(pb.obj, pb.path, const(c, 64)))
        if all(cval(x) is not None for x in xa + xb):
            va, vb = [cval(x) for x in xa], [cval(x) for x in xb]
            return const(0 if va == vb else (1 if va > vb else -1), w)
        e = st.decide(bv.eq(bv.cat(*xa), bv.cat(*xb)))
        return const(0 if e else 1, w)
    if n == 'write_bytes':
        dst, val, cnt = args
        c = cval(st.sub(cnt))
        el = f['args'][0]['ty']
        ww = p.width(el)
        if ww == 8 and c is not None and c <= 65536:
            for j in range(c):
                I.write(st, Ptr(dst.obj, dst.path[:-1] + (('i', bv.add(dst.path[-1][1], const(j, 64))),)), val)
            return Agg(dty, 0, ())
        if cval(val) == 0 and c == 1:
            I.write(st, dst, zero_value(I, el))
            return Agg(dty, 0, ())
        raise Stop('write_bytes')
    if n in ('copy', 'copy_nonoverlapping', 'volatile_copy_nonoverlapping_memory'):
        src, dst, cnt = args
        return copy_elems(I, st, src, dst, cnt, dty)
    if n == 'typed_swap_nonoverlapping':
        a, b = I.read(st, args[0]), I.read(st, args[1])
        I.write(st, args[0], b)
        I.write(st, args[1], a)
        return Agg(dty, 0, ())
    if n == 'select_unpredictable':
        return args[1] if st.decide(args[0][0]) else args[2]
    if n in ('size_of_val',):
        raise Stop('size_of_val')
    if n.startswith('atomic_load'):
        return I.read(st, args[0])
    if n.startswith('atomic_store'):
        I.write(st, args[0], args[1])
        return Agg(dty, 0, ())
    if n.startswith('atomic_xadd'):
        o = I.read(st, args[0])
        I.write(st, args[0], bv.add(o, args[1]))
        return o
    if n == 'transmute' or n == 'transmute_unchecked':
        return I.transmute(st, args[0], at[0], dty)
    if n in ('read_via_copy', 'volatile_load', 'unaligned_volatile_load'):
        return I.read(st, args[0])
    if n in ('write_via_move', 'volatile_store'):
        I.write(st, args[0], args[1])
        return Agg(dty, 0, ())
    if n == 'caller_location':
        return I.lazy('caller', dty)
    if n in ('abort', 'abort_immediate', 'breakpoint'):
        raise Panic('abort')
    raise Stop('intrinsic ' + n)


def zero_value(I, ty):
    w = I.p.width(ty)
    t = I.p.types[ty]
    if w is not None:
        return const(0, w)
    if t['k'] == 'array':
        return ArrC([zero_value(I, t['elem'])] * t['len'])
    if t['k'] == 'adt' and t['adt'] == 'struct' or t['k'] == 'tuple':
        return Agg(ty, 0, [zero_value(I, ft) for n, ft in I.p.fields(ty)])
    if t['k'] == 'adt' and t['adt'] == 'enum':
        for i, v in enumerate(t['variants']):
            if v['discr'] == '0':
                return Agg(ty, i, [zero_value(I, ft) for n, ft in v['fields']])
    return UNDEF


def copy_elems(I, st, src, dst, cnt, dty):
    c = cval(st.sub(cnt))
    if c is None:
        st.events += (('copy', src, dst, cnt),)
        raise Stop('copy of unknown length')
    if c > 65536:
        raise Stop('copy too long')
    if src.path and src.path[-1][0] == 'i':
        o = I.read_container(st, src)
        s = src.path[-1][1]
        vals = [I.elem(o, st.sub(bv.add(s, const(j, 64))), st) for j in range(c)]
    elif c == 1:
        vals = [I.read(st, src)]
    elif c == 0:
        vals = []
    else:
        raise Stop('copy source')
    if dst.path and dst.path[-1][0] == 'i':
        for j, x in enumerate(vals):
            I.write(st, Ptr(dst.obj, dst.path[:-1] + (('i', st.sub(bv.add(dst.path[-1][1], const(j, 64)))),)), x)
    elif c == 1:
        I.write(st, dst, vals[0])
    elif c:
        raise Stop('copy destination')
    return Agg(dty, 0, ())


def m_slice_copy_from(I, st, f, args, at, dty):
    dst, src = args[0], args[1]
    ld, ls = st.sub(dst.meta), st.sub(src.meta)
    if not st.decide(bv.eq(ld, ls)):
        raise Panic('copy_from_slice: length mismatch')
    copy_elems(I, st, src, dst, ls if cval(ls) is not None else ld, dty)
    return Agg(dty, 0, ())


LOG_NAME = 'loglv'


def m_loglevel(I, st, f, args, at, dty):
    """the global log level: initialised (main sets it before anything runs)"""
    # Option<&LogLv>
    for i, v in enumerate(I.p.types[dty]['variants']):
        if v['fields']:
            ft = v['fields'][0][1]
            lt = I.p.types[ft]['elem']
            key = ('loglv', lt)
            if key not in st.objs:
                lv = getattr(I, 'log_level', None)
                if lv is None:
                    lv = 'LvOff'
                if lv == 'symbolic':
                    st.objs[key] = I.lazy(LOG_NAME, lt)
                else:
                    names = [x['name'].split('::')[-1] for x in I.p.types[lt]['variants']]
                    vi = names.index(lv) if lv in names else 0
                    st.objs[key] = Agg(lt, vi, ())
            return Agg(dty, i, [Ptr(key, ())])
    raise Stop('log level')


def m_lazy_deref(I, st, f, args, at, dty):
    return I.lazy('lazy:' + repr(args[0]), dty)


def m_mutex_lock(I, st, f, args, at, dty):
    # an uncontended, unpoisoned lock
    g = I.p.fields(dty, 0)[0][1]
    fs = I.p.fields(g)
    return I.ok(dty, Agg(g, 0, tuple(args[0] if n == 'lock' else I.lazy('guard.' + n, t) for n, t in fs)))


def m_slice_index_fail(I, st, f, args, at, dty):
    raise Panic('slice index out of range')


def m_alloc(I, st, f, args, at, dty):
    raise Stop('raw allocation')


def m_pow(I, st, f, args, at, dty):
    b, e = st.sub(args[0]), cval(st.sub(args[1]))
    if e is None:
        return NotImplemented
    r = const(1, len(b))
    for _ in range(e):
        r = bv.mul(r, b)
    return r


def m_box_slice_into_vec(I, st, f, args, at, dty):
    p = args[0]
    if not isinstance(p, Ptr):
        p = I.unwrap_ptr(p)
    o = I.read(st, Ptr(p.obj, p.path[:-1] if p.path and p.path[-1][0] == 'i' else p.path, None))
    n = p.meta
    k = st.newobj(o)
    return I.make_vec(dty, Ptr(k, (('i', const(0, 64)),)), n)


def m_box_uninit(I, st, f, args, at, dty):
    k = st.newobj(UNINIT_BOX, 'box')
    return I.make_vec(dty, Ptr(k, ()), None)


def m_write_box_via_move(I, st, f, args, at, dty):
    p = I.unwrap_ptr(args[0])
    st.objs[p.obj] = args[1]
    return I.make_vec(dty, Ptr(p.obj, ()), None)


def m_box_array_into_vec(I, st, f, args, at, dty):
    p = I.unwrap_ptr(args[0])
    o = I.read(st, p)
    n = const(len(o.e), 64)
    k = st.newobj(o)
    return I.make_vec(dty, Ptr(k, (('i', const(0, 64)),)), n)


FROM_ITER = R(r'^<std::vec::Vec<.*> as std::iter::FromIterator<.*?>>::from_iter::<(?P<it>.*)>$')


def collect_mapped_range(I, st, it, v, dty):
    """collecting (a..b).map(closure), item by item"""
    if not R(r'^std::iter::Map<std::ops::Range<[iu](\d+|size)>, \{closure@[^}]*\}>$').match(it) or not isinstance(v, Agg):
        return NotImplemented
    part = dict(zip((n for n, _ in I.p.fields(v.ty)), v.f))
    types = dict(I.p.fields(v.ty))
    rng, fun = part.get('iter'), part.get('f')
    inst = None
    for i, g in I.p.fns.items():
        b = g.get('body')
        if b and '{closure#' in g['name'].split('::')[-1] and b['arg_count'] == 2:
            t = I.p.types[b['lt'][1]]
            if t['k'] == 'ref' and t['elem'] == types['f']:
                inst = i
    if inst is None or not isinstance(rng, Agg):
        return NotImplemented
    ends = dict(zip((n for n, _ in I.p.fields(rng.ty)), rng.f))
    a, b = cval(st.sub(ends['start'])), cval(st.sub(ends['end']))
    if a is None or b is None:
        raise Stop('unknown end of a collected iterator')
    if b - a > 65536:
        raise Stop('collection not bounded')
    w = len(ends['start'])
    env = Ptr(st.newobj(fun), ())
    out = st.newobj(ArrC([]))

    def step(st, i):
        if i >= b:
            return I.make_vec(dty, Ptr(out, (('i', const(0, 64)),)), const(max(b - a, 0), 64))

        def got(I, st, val):
            st.objs[out] = ArrC(list(st.objs[out].e) + [val])
            return step(st, i + 1)
        return Enter(inst, [env, const(i, w)], got)
    return step(st, a)


def m_collect(I, st, f, args, at, dty):
    """collecting an iterator: its items, one by one"""
    it = FROM_ITER.match(f['name']).group('it')
    nxt = I.p.fn('<%s as std::iter::Iterator>::next' % it)
    if nxt is None or not I.p.fns[nxt].get('body'):
        return collect_mapped_range(I, st, it, args[0], dty)
    src = st.newobj(args[0])
    out = st.newobj(ArrC([]))

    def got(I, st, val):
        if isinstance(val, Lazy):
            val = I.expand(val)
        if not isinstance(val, Agg):
            raise Stop('unknown end of a collected iterator')
        name = I.p.types[val.ty]['variants'][val.var]['name'].split('::')[-1]
        xs = st.objs[out].e
        if name == 'None':
            return I.make_vec(dty, Ptr(out, (('i', const(0, 64)),)), const(len(xs), 64))
        if len(xs) > 65536:
            raise Stop('collection not bounded')
        st.objs[out] = ArrC(list(xs) + [val.f[0]])
        return Enter(nxt, [Ptr(src, ())], got)
    return Enter(nxt, [Ptr(src, ())], got)


def m_vec_resize(I, st, f, args, at, dty):
    v, ptr, ln, li = vec_parts(I, st, args[0])
    new, old = cval(st.sub(args[1])), cval(st.sub(ln))
    if new is None or old is None or new - old > 65536:
        return NotImplemented
    if new <= old:
        set_vec_len(I, st, args[0], v, li, const(new, 64))
        return Agg(dty, 0, ())
    if ptr.obj[0] == 'emptyvec':
        ptr = Ptr(st.newobj(ArrC([])), (('i', const(0, 64)),))
        v = I.make_vec(v.ty, ptr, const(0, 64))
    for i in range(old, new):
        grow(I, st, ptr, const(i, 64), args[2], None)
    set_vec_len(I, st, args[0], v, li, const(new, 64))
    return Agg(dty, 0, ())


SPLICE = R(r'^std::vec::Vec::<.*>::splice::<std::ops::Range<usize>, (?P<it>.*)>$')


def iter_elems(I, st, v, it):
    """items of a slice or vector iterator, or None when it is another kind"""
    if not R(r'^std::iter::(Cloned|Copied)<std::slice::Iter<|^std::vec::IntoIter<').match(it):
        return None
    names = lambda x: [n for n, _ in I.p.fields(x.ty)]
    while isinstance(v, Agg) and 'ptr' not in names(v):
        v = v.f[0]
    n = names(v)
    ptr = I.unwrap_ptr(v.f[n.index('ptr')])
    end = v.f[n.index('end_or_len' if 'end_or_len' in n else 'end')]
    end = I.unwrap_ptr(end)
    if end.obj != ptr.obj or end.path[:-1] != ptr.path[:-1]:
        raise Stop('iterator %r .. %r' % (ptr, end))
    return slice_elems(I, st, Ptr(ptr.obj, ptr.path, st.sub(bv.sub(end.path[-1][1], ptr.path[-1][1]))))


def m_splice(I, st, f, args, at, dty):
    """replace a range by the items of an iterator (the real one does so when the result is dropped, which is at once)"""
    xs = iter_elems(I, st, args[2], SPLICE.match(f['name']).group('it'))
    if xs is None:
        raise Stop('splice of another iterator')
    vp, r = args[0], args[1]
    lo, hi = st.sub(r.f[0]), st.sub(r.f[1])
    v, ptr, ln, li = vec_parts(I, st, vp)
    ln = st.sub(ln)
    if st.decide(bv.ult(hi, lo)) or st.decide(bv.ult(ln, hi)):
        raise Panic('splice: range out of bounds')
    if st.decide(bv.eq(bv.sub(hi, lo), const(len(xs), 64))):
        for j, x in enumerate(xs):
            I.write(st, Ptr(ptr.obj, ptr.path[:-1] + (('i', st.sub(bv.add(lo, const(j, 64)))),)), x)
    else:
        # what follows moves
        o = st.newobj(SymArr(st.fresh('moved'), I.vec_elem(v.ty), None))
        new = bv.add(bv.sub(ln, bv.sub(hi, lo)), const(len(xs), 64))
        I.write(st, vp, I.make_vec(v.ty, Ptr(o, (('i', const(0, 64)),)), st.sub(new)))
    return Lazy('spliced out', dty)


def m_splice_drop(I, st, f, args, at, dty):
    return Agg(dty, 0, ())


def m_rc_clone(I, st, f, args, at, dty):
    """another handle on the same shared value; the count of handles is not tracked"""
    return I.read(st, args[0])


PANICS = (r'^core::panicking::', r'^std::rt::panic', r'^std::rt::begin_panic', r'option::unwrap_failed', r'option::expect_failed', r'result::unwrap_failed',
          r'panic_already_', r'core::num::imp::overflow_panic', r'panic_const', r'slice_error_fail', r'assert_failed',
          r'panic_access_error', r'panic_explicit', r'panic_display', r'unreachable_display', r'handle_alloc_error', r'len_mismatch_fail')

STD_MODELS = [
    (R(r'^<\{closure@.* as std::ops::FnOnce<.*>>::call_once$'), m_closure_once),
    (R(r'^<(for<.*> )?(unsafe )?(extern ".*" )?fn\(.* as std::ops::Fn(Once|Mut)?<.*>::call'), m_fn_shim),
    (R('|'.join(PANICS)), m_panic),
    (R(r'slice_index_fail|slice_start_index|slice_end_index|RangeError::report'), m_slice_index_fail),
    (R(r'^once_cell::sync::OnceCell::<carron::log::LogLv>::get$'), m_loglevel),
    (R(r'^<once_cell::sync::Lazy<.*Deref>::deref$'), m_lazy_deref),
    (R(r'^std::sync::Mutex::<.*>::lock$'), m_mutex_lock),
    (R(r'^core::fmt::rt::Argument::<.*>::new_'), m_fmt_arg),
    (R(r'^std::fmt::Arguments::<.*>::(new|from_str)'), m_fmt_args),
    (R(r'^(std|alloc)::fmt::format$'), m_format),
    (R(r'^std::fmt::format|^core::fmt::|^std::fmt::|^alloc::fmt|as std::fmt::(Debug|Display|LowerHex|UpperHex|Binary|Octal|Write)>::|core::fmt::num'), m_opaque_pure),
    (R(r'^std::io::_e?print$'), m_print),
    (R(r'^<(&(mut )?)*(str|std::string::String) as std::cmp::PartialEq(<.*>)?>::(eq|ne)$|^core::str::traits::<impl std::cmp::PartialEq for str>::(eq|ne)$|^alloc::string::<impl .*PartialEq.*>::(eq|ne)$'), m_text_eq),
    (R(r'^std::string::String::|as std::string::|^<std::string::String as |^<str as std::borrow::ToOwned|alloc::str::|^std::str::<impl std::borrow::ToOwned for str>|^<&str as std::convert::Into<std::string::String>>'), m_string),
    (R(r'^<std::string::String as std::clone'), m_string),
    (R(r'^std::vec::from_elem::'), m_from_elem),
    (R(r'^std::vec::Vec::<.*>::(with_capacity|new)$'), m_vec_new),
    (R(r'^<std::vec::Vec<(?P<t>[iu]\d+|[iu]size)> as std::iter::FromIterator<(?P=t)>>::from_iter::<std::ops::Range(Inclusive)?<(?P=t)>>$'), m_range_collect),
    (FROM_ITER, m_collect),
    (R(r'^<std::rc::Rc<.*> as std::clone::Clone>::clone$'), m_rc_clone),
    (SPLICE, m_splice),
    (R(r'drop_in_place::<std::vec::Splice<|^<std::vec::Splice<.* as std::ops::Drop>::drop$'), m_splice_drop),
    (R(r'^std::vec::Vec::<[iu](\d+|size)>::resize$'), m_vec_resize),
    (R(r'^std::vec::Vec::<.*>::push(_mut)?$'), m_vec_push),
    (R(r'^std::vec::Vec::<.*>::(extend_from_slice|append_elements)$'), m_vec_extend_slice),
    (R(r'^std::slice::<impl \[.*\]>::(to_vec|to_vec_in)(::<.*>)?$|^<\[.*\] as std::(slice::hack|borrow::ToOwned)'), m_to_vec),
    (R(r'^std::boxed::Box::<.*>::new$'), m_box_new),
    (R(r'^std::boxed::Box::<.*>::new_uninit$|box_new_uninit'), m_box_uninit),
    (R(r'box_assume_init_into_vec'), m_box_array_into_vec),
    (R(r'^std::slice::<impl \[.*\]>::into_vec(::<.*>)?$'), m_box_slice_into_vec),
    (R(r'^core::slice::<impl \[.*\]>::(copy_from_slice|clone_from_slice)$'), m_slice_copy_from),
    (R(r'^core::num::<impl [iu]\d+>::pow$'), m_pow),
    (R(r'^alloc::alloc::__rust|^std::alloc::(alloc|dealloc|realloc)'), m_alloc),
]


def m_any_intrinsic(I, st, f, args, at, dty):
    if 'intrinsic' in f and 'body' not in f:
        return m_intrinsic(I, st, f, args, at, dty)
    return NotImplemented


STD_MODELS.append((R(r'^std::intrinsics::|^core::intrinsics::'), m_any_intrinsic))
