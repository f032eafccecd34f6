"""Bus dispatch: every address and width reaches its owner, or an access fault."""
import re
import bv
import c28
import dump
import group
import scen
import teval
from bv import BV, const
from interp import Agg, Lazy
from func import Func, Ctx
from spec import enum_name, vname

MAP = {'mrom': (0x1000, 0x1000), 'clint': (0x2000000, 0x10000), 'plic': (0xc000000, 0x1000000), 'uart': (0x10000000, 0x100), 'dram': (scen.DRAM_BASE, scen.DRAM_SIZE)}
DEV = re.compile(r'^(<)?carron::bus::(clint|plic|uart|dram|mrom)::\w+( as carron::bus::Device>)?::(load_?u?\d+|store\d+)\w*$')
WIDTHS = {'clint': (32, 64), 'plic': (32, 64), 'uart': (8,), 'mrom': (8, 16, 32, 64), 'dram': (8, 16, 32, 64)}
OPS = [('load', '', 8), ('load', '', 16), ('load', '', 32), ('load', '', 64), ('load', '_u', 8), ('load', '_u', 16), ('load', '_u', 32), ('store', '', 8), ('store', '', 16), ('store', '', 32), ('store', '', 64)]


def blocks(lo, hi):
    """[lo, hi) as naturally aligned power-of-two blocks: (base, bits)"""
    out = []
    while lo < hi:
        k = (lo & -lo).bit_length() - 1 if lo else 64
        while lo + (1 << k) > hi:
            k -= 1
        out.append((lo, k))
        lo += 1 << k
    return out


def outside():
    pos, out = 0, []
    for b, s in sorted(MAP.values()):
        out += blocks(pos, b)
        pos = b + s
    return out + blocks(pos, 1 << 64)


def dyadic(lo, hi, unit):
    """[lo, hi) in blocks doubling from lo"""
    out, step = [], unit
    pos = lo
    while pos < hi:
        end = min(hi, lo + step)
        out += blocks(pos, end)
        pos, step = end, step * 2
    return out


def plic_blocks(base, size):
    """finer near the register arrays, so that offsets stay simple; together the whole range"""
    def grain(lo, hi, g):
        return [x for p in range(lo, hi, g) for x in blocks(base + p, base + p + g)]
    return (dyadic(base, base + 0x2000, 0x1000) + dyadic(base + 0x2000, base + 0x4000, 0x80) + grain(0x4000, 0x200000, 0x2000)
            + dyadic(base + 0x200000, base + 0x400000, 0x1000) + grain(0x400000, size, 0x200000))


def address(base, k, w):
    """every naturally aligned address of the block"""
    z = (w // 8).bit_length() - 1
    if k <= z:
        return const(base, 64)
    a = bv.sym('off', 64)
    return BV(tuple((base >> i & 1) if (i >= k or i < z) else a[i] for i in range(64)))


def m_dev(I, st, f, a, at, dty):
    m = DEV.match(f['name'])
    dev, op = m.group(2), m.group(4)
    st.events += (('dev', dev, op, st.sub(a[1]), st.sub(a[2]) if op.startswith('store') else None),)
    if st.decide(bv.sym('dev_ok', 1)[0]):
        t = I.p.fields(dty, 0)[0][1]
        return I.ok(dty, bv.sym('dev_data', 64) if op.startswith('load') else Agg(t, 0, ()))
    return I.err(dty, Lazy('dev_err', I.p.fields(dty, 1)[0][1]))


def value(owner):
    """the PLIC looks at every bit of a word of enables: there, the bits that distinguish its sources and ids are unknown"""
    d = bv.sym('data', 64)
    return d if owner != 'plic' else BV(tuple(b if i in (0, 1, 4, 5, 31, 33, 63) else 0 for i, b in enumerate(d)))


def full(op, u, w, addr, owner):
    """the access itself: refused with the right fault, or done, and no other device changes"""
    fault = 'LoadAccessFault' if op == 'load' else 'StoreAMOAccessFault'

    def f(c):
        o = scen.obs(c)
        n, e = c.opt(o['access'])
        if n == 'Ok':
            if w not in WIDTHS[owner]:
                c.bad('an access of unsupported width succeeds')
            if owner == 'mrom' and op == 'store':
                c.bad('a store to the boot ROM succeeds')
        elif isinstance(e, Lazy) or c.variant(e.f[1]) != fault:
            c.bad('refused as ' + (c.variant(e.f[1]) if not isinstance(e, Lazy) else '?'))
        else:
            m, v = c.opt(e.f[0])
            if m != 'Some':
                c.bad('fault without the address')
            c.need('trap value', c.sub(v), c.sub(addr))
            if w in WIDTHS[owner] and owner == 'dram':
                c.bad('an access to memory is refused')
        for d in MAP:
            if d != owner and not (owner == 'uart' and d == 'plic'):
                if c.get('bus', d) != c.F.before[d]:
                    c.bad('the access changes the %s' % d)
    return f


def check(rep):
    rep.rule = ('Each of the 11 bus accesses is summarised for every naturally aligned address of every device range of the memory map and of its complement (as unknown offset bits in aligned blocks), with the devices as constructed. '
                'Each path must reach the owner once with the same address and value and hand its outcome back, or be refused as the access fault of its direction with the address; then the accesses are analysed through '
                'the devices: none may panic, change another device, or raise anything but that fault.')
    rep.assumptions = group.TRUST + ['memory base 0x80000000, size 2 GiB, boot ROM padded to 4 KiB (C29, C33)', 'naturally aligned addresses (C22)', 'device state as constructed for the pass through the devices, with values for the PLIC restricted to the bits 0, 1, 4, 5, 31, 33 and 63']
    prog = dump.program()
    n = 0
    parts = [(d, b) for d, (lo, sz) in MAP.items() for b in blocks(lo, lo + sz)] + [(None, b) for b in outside()]
    fine = [(d, b) for d, (lo, sz) in MAP.items() for b in (plic_blocks if d == 'plic' else lambda x, y: blocks(x, x + y))(lo, sz)]
    for op, u, w in OPS:
        fn = '%s%s%d' % (op, u, w)

        def go():
            nonlocal n
            W = scen.World(rep, prog, 64, fn, [(DEV, m_dev)])
            I = W.I
            W.boot()
            st0 = W.states[0]
            for owner, (base, k) in parts:
                n += 1
                key = '%s %s' % (fn, owner or 'elsewhere %#x+2^%d' % (base, k))
                addr = address(base, k, w)
                data = bv.sym('data', 64)
                a = [W.ptr(), addr] + ([data] if op == 'store' else [])
                F = Func(rep, I, key, scen.BUS + fn)
                before = st0.copy()
                F.check(I.run(scen.BUS + fn, a, st0.copy()), lambda c: dispatch(c, op, u, w, addr, owner, data, before))
        group.guard(rep, fn, go)

        def go2():
            nonlocal n
            for owner, (base, k) in (fine if w in WIDTHS['plic'] else parts):
                if owner is None:
                    continue
                n += 1
                key = '%s through the %s at %#x' % (fn, owner, base)
                W = scen.World(rep, prog, 64, key, c28.BOUND).boot()
                before = {d: W.I.read(W.states[0], W.ptr(d)) for d in MAP}
                addr = address(base, k, w)
                W.step('access', scen.BUS + fn, [W.ptr(), addr] + ([value(owner)] if op == 'store' else []))

                def spec(c):
                    c.F.before = before
                    full(op, u, w, addr, owner)(c)
                W.check(spec, scen.BUS + fn)
        group.guard(rep, fn + ' through', go2)
    rep.floor('cases', n, 11 * 20)
    rep.floor('paths', rep.paths, 11 * 20)


def dispatch(c, op, u, w, addr, owner, data, before):
    fault = 'LoadAccessFault' if op == 'load' else 'StoreAMOAccessFault'
    for d in MAP:
        p = c.I.field_ptr('bus', d)
        if c.I.read(c.st, p) != c.I.read(before, p):
            c.bad('the %s changes' % d)
    evs = [e for e in c.events if e[0] == 'dev']
    if any(e[1] != owner for e in evs):
        c.bad('the access reaches the %s instead of %s' % (next(e[1] for e in evs if e[1] != owner), 'the ' + owner if owner else 'no device'))
    if not evs:
        if owner and w in WIDTHS[owner] and not (owner == 'mrom' and op == 'store'):
            c.bad('the access does not reach the %s' % owner)
        n, e = c.opt(c.ret)
        if n == 'Ok':
            c.bad('an access outside every device succeeds')
        if isinstance(e, Lazy):
            c.bad('exception without reason')
        if c.variant(e.f[1]) != fault:
            c.bad('refused as ' + c.variant(e.f[1]))
        m, v = c.opt(e.f[0])
        if m != 'Some':
            c.bad('fault without the address')
        c.need('trap value', c.sub(v), c.sub(addr))
        return
    if len(evs) != 1:
        c.bad('%d device accesses' % len(evs))
    _, dev, what, at, val = evs[0]
    if ('store' in what) != (op == 'store'):
        c.bad('a %s becomes a %s' % (op, what))
    c.need('address', at, c.sub(addr))
    if val is not None:
        c.need('value', BV(val[:w]), BV(c.sub(data)[:w]))
    good = c.iff(bv.sym('dev_ok', 1))
    n, v = c.opt(c.ret)
    if (n == 'Ok') != bool(good):
        c.bad("the device's %s becomes %s" % ('success' if good else 'fault', n))
