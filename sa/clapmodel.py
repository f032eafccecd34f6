"""Argument declarations of the clap library as data: the builder calls are recorded, and what a command line matches follows from the declarations."""
import re
import models
import textmodels
from bv import BV, const, cval
from interp import Agg, ArrC, Enter, Lazy, Ptr, Stop
from models import Opq, new_string, strip_generics

R = re.compile
FLAGS = ('takes_value', 'multiple_values', 'multiple_occurrences', 'required', 'last', 'raw', 'allow_hyphen_values')


class Usage(Exception):
    """the library ends the program with a usage message"""


def plain(I, st, v):
    """a builder argument as plain data"""
    if isinstance(v, BV):
        c = cval(st.sub(v))
        if c is None:
            raise Stop('argument of a declaration')
        return c
    if isinstance(v, Opq):
        return v.data
    if isinstance(v, Ptr):
        w = v
        while isinstance(w, Ptr) and not isinstance(w.meta, BV):
            w = I.read(st, w)
        if isinstance(w, Ptr):
            es = models.slice_elems(I, st, w)
            if not es or isinstance(es[0], BV):
                return textmodels.raw(I, st, w)
            return tuple(plain(I, st, x) for x in es)
        if isinstance(w, ArrC):
            return tuple(plain(I, st, x) for x in w.e)
        if isinstance(w, (Opq, BV)):
            return plain(I, st, w)
        return textmodels.raw(I, st, v)
    if isinstance(v, Agg):
        return ('enum', v.var)
    return None


def deref(I, st, v):
    while isinstance(v, Ptr) and not isinstance(v.meta, BV):
        v = I.read(st, v)
    return v


def text(I, st, b):
    k = st.newobj(ArrC([const(x, 8) for x in b]))
    return Ptr(k, (('i', const(0, 64)),), const(len(b), 64))


def m_arg(I, st, f, a, at, dty):
    n = strip_generics(f['name']).split('::')[-1]
    if n in ('default', 'new'):
        d = {'id': b''}
        if n == 'new':
            d['id'] = plain(I, st, a[0])
        return Opq(st.fresh('arg'), dty, ('arg', tuple(sorted(d.items()))))
    o = deref(I, st, a[0])
    if not isinstance(o, Opq) or o.data[0] != 'arg':
        raise Stop('argument declaration')
    d = dict(o.data[1])
    opt = lambda v: I.none(dty) if v is None else I.some(dty, text(I, st, v))
    if n in ('get_long', 'get_help', 'get_value_name'):
        return opt(d.get(n[4:]))
    if n == 'get_id' or n == 'get_name':
        return text(I, st, d['id'])
    if n == 'is_multiple_occurrences_set':
        return const(d.get('multiple_occurrences', 0), I.p.width(dty) or 1)
    if n == 'get_value_names':
        if 'value_name' not in d:
            return I.none(dty)
        fs = I.p.fields(dty, I.p.variant_index(dty, 'Some'))
        k = st.newobj(ArrC([text(I, st, d['value_name'])]))
        return I.some(dty, Ptr(k, (('i', const(0, 64)),), const(1, 64)))
    if n.startswith(('get_', 'is_')):
        raise Stop('clap Arg::' + n)
    v = plain(I, st, a[1]) if len(a) > 1 else 1
    if n in ('use_delimiter', 'use_value_delimiter', 'require_delimiter', 'require_value_delimiter', 'value_delimiter'):
        d['delimiter'] = (chr(v).encode() if n == 'value_delimiter' else b',') if v else None
        if v:
            d['takes_value'] = 1
    elif n in ('id', 'name'):
        d['id'] = v
    elif n == 'value_name':
        d['value_name'] = v
        d['takes_value'] = 1
    elif n == 'multiple_values':
        d[n] = v
        if v:
            d['takes_value'] = 1
    elif n == 'default_value':
        d[n] = v
        d['takes_value'] = 1
    elif n in ('long', 'short', 'group', 'index', 'help', 'alias', 'short_alias', 'visible_alias', 'long_help', 'hide', 'display_order', 'help_heading') + FLAGS:
        d[n] = v
    elif n == 'multiple':
        d['multiple_occurrences'] = d['multiple_values'] = v
    else:
        raise Stop('clap Arg::' + n)
    return Opq(st.fresh('arg'), dty, ('arg', tuple(sorted(d.items()))))


def m_group(I, st, f, a, at, dty):
    n = strip_generics(f['name']).split('::')[-1]
    if n == 'new':
        return Opq(st.fresh('group'), dty, ('group', plain(I, st, a[0]), ()))
    o = deref(I, st, a[0])
    if not isinstance(o, Opq) or o.data[0] != 'group':
        raise Stop('group declaration')
    v = plain(I, st, a[1]) if len(a) > 1 else 1
    return Opq(st.fresh('group'), dty, ('group', o.data[1], o.data[2] + ((n, v),)))


def m_app(I, st, f, a, at, dty):
    n = strip_generics(f['name']).split('::')[-1]
    if n == 'new':
        return Opq(st.fresh('app'), dty, ('app', (), ()))
    o = deref(I, st, a[0])
    if not isinstance(o, Opq) or o.data[0] != 'app':
        raise Stop('application declaration')
    _, args, groups = o.data
    if n == 'arg':
        v = deref(I, st, a[1])
        if not isinstance(v, Opq) or v.data[0] != 'arg':
            raise Stop('argument declaration')
        args += (v.data[1],)
    elif n == 'group':
        v = deref(I, st, a[1])
        groups += (v.data[1:],)
    elif n == 'get_matches':
        return Opq(st.fresh('matches'), dty, ('matches', match([dict(x) for x in args], groups, I.cmdline)))
    elif n in ('version', 'author', 'about', 'long_about', 'long_version', 'name', 'bin_name'):
        pass
    elif n == 'setting':
        if I.p.types[at[1]]['k'] == 'adt' and isinstance(a[1], Agg):
            s = I.p.types[a[1].ty]['variants'][a[1].var]['name'].split('::')[-1]
            if s not in ('DeriveDisplayOrder', 'ColoredHelp', 'ColorAuto', 'ColorNever', 'ColorAlways'):
                raise Stop('clap setting ' + s)
        else:
            raise Stop('clap setting')
    else:
        raise Stop('clap App::' + n)
    return Opq(st.fresh('app'), dty, ('app', args, groups))


def match(args, groups, line):
    """{id: (occurrences, values)} of a command line (a tuple of byte strings after the program name)"""
    pos = [d for d in args if 'long' not in d and 'short' not in d]
    pos.sort(key=lambda d: d.get('index', 0))
    out = {}
    ids = {d['id'] for d in args}
    if len(ids) != len(args):
        raise Usage('two arguments are called the same')
    i = k = 0

    def see(d, vals):
        n, vs = out.get(d['id'], (0, ()))
        if n and not d.get('multiple_occurrences') and not (d in pos and d.get('multiple_values')):
            raise Usage('%r was provided more than once' % d['id'])
        if d.get('delimiter'):
            vals = tuple(y for x in vals for y in x.split(d['delimiter']))
        out[d['id']] = (n + 1, vs + vals)
    only = False
    line = list(line)
    while i < len(line):
        t = line[i]
        i += 1
        if not only and t == b'--':
            only = True
        elif not only and t.startswith(b'--'):
            nm, eq, v = t[2:].partition(b'=')
            d = next((d for d in args if nm in (d.get('long'), d.get('alias'), d.get('visible_alias'))), None)
            if d is None:
                raise Usage('no option --%s' % nm.decode())
            if d.get('takes_value'):
                if not eq:
                    if i >= len(line):
                        raise Usage('no value for --%s' % nm.decode())
                    v = line[i]
                    i += 1
                vs = (v,)
                while d.get('multiple_values') and i < len(line) and not line[i].startswith(b'-'):
                    vs += (line[i],)
                    i += 1
                see(d, vs)
            else:
                if eq:
                    raise Usage('--%s takes no value' % nm.decode())
                see(d, ())
        elif not only and t.startswith(b'-') and t != b'-':
            j = 1
            while j < len(t):
                d = next((d for d in args if t[j] == d.get('short')), None)
                if d is None:
                    raise Usage('no option -%c' % t[j])
                j += 1
                if d.get('takes_value'):
                    v = t[j:].lstrip(b'=')
                    if not v:
                        if i >= len(line):
                            raise Usage('no value')
                        v = line[i]
                        i += 1
                    see(d, (v,))
                    break
                see(d, ())
        else:
            if k >= len(pos):
                raise Usage('unexpected argument %r' % t)
            see(pos[k], (t,))
            if not pos[k].get('multiple_values') and not pos[k].get('multiple_occurrences'):
                k += 1
    for d in args:
        if d['id'] not in out and 'default_value' in d:
            out[d['id']] = (0, (d['default_value'],))
        elif d.get('required') and d['id'] not in out:
            raise Usage('%r is required' % d['id'])
    for name, calls in groups:
        ms, multi, req = (), 1, 0
        multi = 0
        for n, v in calls:
            if n == 'args':
                ms += tuple(v)
            elif n == 'arg':
                ms += (v,)
            elif n == 'multiple':
                multi = v
            elif n == 'required':
                req = v
            else:
                raise Stop('clap ArgGroup::' + n)
        for m in ms:
            if m not in ids:
                raise Usage('group of an unknown argument %r' % (m,))
        seen = [m for m in ms if m in out and out[m][0]]
        if len(seen) > 1 and not multi:
            raise Usage('%r and %r exclude each other' % (seen[0], seen[1]))
        if req and not seen:
            raise Usage('one of %r is required' % (ms,))
    return tuple(sorted(out.items())), tuple(sorted(ids))


def m_matches(I, st, f, a, at, dty):
    n = strip_generics(f['name']).split('::')[-1]
    o = deref(I, st, a[0])
    if not isinstance(o, Opq) or o.data[0] != 'matches':
        raise Stop('matches')
    out, ids = o.data[1]
    key = plain(I, st, a[1])
    if key not in ids:
        raise Stop('no argument is called %r' % (key,))
    occ, vals = dict(out).get(key, (0, ()))
    if n == 'value_of':
        return I.some(dty, text(I, st, vals[0])) if vals else I.none(dty)
    if n == 'is_present':
        return const(int(key in dict(out)), I.p.width(dty) or 1)
    if n == 'occurrences_of':
        return const(occ, I.p.width(dty))
    if n == 'values_of':
        if not vals:
            return I.none(dty)
        it = I.p.fields(dty, I.p.variant_index(dty, 'Some'))[0][1]
        return I.some(dty, textmodels.seq(st, it, [text(I, st, v) for v in vals]))
    raise Stop('clap ArgMatches::' + n)


def m_opt_text_eq(I, st, f, a, at, dty):
    vs = [deref(I, st, x) for x in a]
    def val(v):
        if isinstance(v, Lazy) and not isinstance(v, Opq):
            raise Stop('comparison')
        return v.f[0] if v.f else None
    x, y = val(vs[0]), val(vs[1])
    r = x is None and y is None or x is not None and y is not None and plain(I, st, x) == plain(I, st, y)
    if f['name'].endswith('::ne'):
        r = not r
    return const(int(r), I.p.width(dty) or 1)


def m_lazy_deref(I, st, f, a, at, dty):
    """version, author and similar texts about the program"""
    t = I.p.types[I.p.types[dty]['elem']]
    if t.get('name', '').endswith('string::String'):
        return Ptr(st.newobj(new_string(I, st, I.p.types[dty]['elem'], [])), ())
    return NotImplemented


def m_once(I, st, f, a, at, dty):
    """the log level is set: the first value stays"""
    n = strip_generics(f['name']).split('::')[-1]

    def done(I, st, val):
        v = I.variant_of(st, val) if hasattr(I, 'variant_of') else val
        if not any(e[0] == 'loglv' for e in st.events):
            st.events += (('loglv', v),)
        if n == 'set':
            return I.lazy(st.fresh('set'), dty)
        return Ptr(st.newobj(val), ())
    if n == 'set':
        return done(I, st, a[1])
    if not f.get('closures'):
        raise Stop('closure of ' + n)
    return Enter(f['closures'][0], [a[1]], done)


def m_no_values(I, st, f, a, at, dty):
    return textmodels.seq(st, dty, [])


MODELS = [
    (R(r"^once_cell::sync::OnceCell::<carron::log::LogLv>::(get_or_init|set)(::<.*>)?$"), m_once),
    (R(r"^clap::Arg::<'_>::|^<clap::Arg<'_> as std::default::Default>::default$"), m_arg),
    (R(r"^clap::ArgGroup::<'_>::"), m_group),
    (R(r"^clap::App::<'_>::"), m_app),
    (R(r"^clap::ArgMatches::"), m_matches),
    (R(r"^<clap::Values<'_> as std::default::Default>::default$"), m_no_values),
    (R(r"^<clap::Values<'_> as std::iter::(Iterator>::next|DoubleEndedIterator>::next_back)$"), textmodels.m_seq_next),
    (R(r"^<clap::Values<'_> as std::iter::Iterator>::size_hint$"), textmodels.m_seq_hint),
    (R(r"^<std::option::Option<&(str|\[&str\])> as std::cmp::PartialEq>::(eq|ne)$"), m_opt_text_eq),
    (R(r"^<once_cell::sync::Lazy<std::string::String> as std::ops::Deref>::deref$"), m_lazy_deref),
]
