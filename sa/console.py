"""The thread that reads the console: every chunk of input is handed on, whole, once and in order."""
import re
import group
import models
import scan
import textmodels
from bv import BV, const, cval
from interp import Agg, ArrC, Lazy, Ptr, State, Stop, Prune
from machine import Machine
from models import Opq

CHUNKS = ((b'hello\n', b'\n', b' pad \t\r\n', b'a\x00b\x1b[A\n', b'x' * 200 + b'\n', 'grüße\n'.encode(), b'no newline'),
          (b'first\n', b'\xff\xfe caf\xe9\n', b'then\n', b'\xc3\n', b'last\n'),
          tuple(bytes([i, 10]) for i in range(256)), ())


class Empty(Exception):
    pass


def threads(prog):
    """bodies of the threads the UART starts"""
    out = []
    for i, f in prog.fns.items():
        if not f.get('body') or not f['name'].startswith('carron::bus::uart'):
            continue
        for bb, inst, ft, c, sp in scan.calls(prog, i):
            if inst is not None and prog.fns[inst]['name'].startswith('std::thread::spawn::<'):
                g = prog.fns[inst]
                out += g.get('closures') or [t['inst'] for t in (prog.types.get(a.get('ty')) for a in g['args']) if t and t['k'] == 'fndef' and t.get('inst') is not None]
    return out


def reads(st):
    return sum(1 for e in st.events if e[0] == 'read')


def chunk(I, st):
    k = reads(st)
    if k > len(I.chunks) + 2:
        raise Prune()
    c = I.chunks[k] if k < len(I.chunks) else b''
    st.events += (('read', c),)
    return c


def count(I, dty, n):
    return I.ok(dty, const(n, 64))


def m_line(I, st, f, a, at, dty):
    c = chunk(I, st)
    try:
        c.decode()
    except UnicodeDecodeError:
        return I.err(dty, I.lazy(st.fresh('io error'), I.p.fields(dty, 1)[0][1]))
    p = a[-1]
    for x in c:
        models.vec_push(I, st, Ptr(p.obj, p.path + (('f', 0),), p.meta), const(x, 8))
    return count(I, dty, len(c))


def m_until(I, st, f, a, at, dty):
    if cval(st.sub(a[1])) != 10:
        raise Stop('input delimiter')
    c = chunk(I, st)
    for x in c:
        models.vec_push(I, st, a[2], const(x, 8))
    return count(I, dty, len(c))


def m_read(I, st, f, a, at, dty):
    """some bytes, at most as many as there is room for"""
    n = cval(st.sub(a[1].meta))
    if n is None:
        raise Stop('size of the read buffer')
    p = a[1]
    i0 = cval(st.sub(p.path[-1][1]))
    rest = st.user.get('rest', b'')
    if not rest:
        rest = chunk(I, st)
    c, st.user['rest'] = rest[:n], rest[n:]
    for i, x in enumerate(c):
        I.write(st, Ptr(p.obj, p.path[:-1] + (('i', const(i0 + i, 64)),)), const(x, 8))
    return count(I, dty, len(c))


def m_send(I, st, f, a, at, dty):
    v = a[1]
    try:
        b = textmodels.raw(I, st, textmodels.as_slice(I, st, v))
    except Stop:
        b = bytes([cval(st.sub(v))]) if isinstance(v, BV) and len(v) == 8 and cval(st.sub(v)) is not None else None
    if b is None:
        raise Stop('what is sent to the device')
    if not b:
        raise Empty()
    st.events += (('send', b),)
    return I.ok(dty, Agg(I.p.fields(dty, 0)[0][1], 0, ()))


def m_opq(I, st, f, a, at, dty):
    return I.lazy(st.fresh('io'), dty)


R = re.compile
BOUND = [(R(r'^std::io::(stdin|Stdin::lock)$'), m_opq),
         (R(r'^std::io::Stdin::read_line$|^<std::io::StdinLock<.*> as std::io::BufRead>::read_line$'), m_line),
         (R(r'^<std::io::StdinLock<.*> as std::io::BufRead>::read_until$|^std::io::BufRead::read_until'), m_until),
         (R(r'^<std::io::Stdin(Lock<.*>)? as std::io::Read>::read$'), m_read),
         (R(r'^std::sync::mpsc::(Sync)?Sender::<.*>::send$'), m_send)]


def check(rep, prog):
    ts = threads(prog)
    if not ts:
        rep.undecided('console thread', 'no thread reading the console was recognised')
    for j in ts:
        for n, cs in enumerate(CHUNKS):
            group.guard(rep, 'console thread/%d' % n, lambda: one(rep, prog, j, cs))


def one(rep, prog, j, cs):
    f = prog.fns[j]
    I = Machine(prog, 64, BOUND + textmodels.TEXT_MODELS)
    I.strings, I.chunks = True, cs
    args = [I.lazy('captured%d' % i, t) for i, t in enumerate(f['body']['lt'][1:1 + f['body']['arg_count']])]
    want = b''.join(cs)
    key = 'console thread with input %r' % (want[:40],)
    done = 0
    try:
        rs = I.run(f['name'], args, State())
    except Empty:
        rep.oblige(key + '|nothing', False, 'the device is handed empty input, which raises data ready with nothing to read', f['name'])
        return 0
    for r in rs:
        rep.paths += 1
        got = [e[1] for e in r.st.events if e[0] == 'send']
        if r.kind in ('stop', 'infeasible'):
            if r.kind == 'stop':
                rep.undecided(key, '%s at %s' % (r.why, r.where))
            continue
        done += 1
        got_all = b''.join(got)
        what = 'reading %r from the console' % (r.st.events and [e[1] for e in r.st.events if e[0] == 'read'][-1])
        if r.kind == 'panic':
            rep.oblige(key, False, '%s ends the input thread (%s): %d of %d bytes reach the device' % (what, r.why, len(got_all), len(want)), r.where)
            continue
        k = next((i for i in range(max(len(got_all), len(want))) if got_all[i:i + 1] != want[i:i + 1]), None)
        rep.oblige(key, k is None, 'console input %r reaches the device as %r' % (want[k and max(k - 8, 0):][:24], got_all[k and max(k - 8, 0):][:24]), f['name'])
    rep.functions |= I.functions
    return done
