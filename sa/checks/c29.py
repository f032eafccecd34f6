"""Boot ROM: the reset code, the device tree behind it, read-only."""
import re
import bv
import bytemem
import c24
import dump
import group
import models
import scen
from bv import BV, const, cval
from func import Func
from interp import Agg, ArrC, Lazy, Ptr, Stop
from machine import Machine

NEW = 'carron::bus::mrom::Mrom::new'
LOAD = re.compile(r'^carron::bus::device_tree::<impl carron::bus::mrom::Mrom>::load_dtb$')
DTS = re.compile(r'::make_dts$')
DTB = re.compile(r'::make_dtb$')
BASE = 0x1000


def bits(w, hi, lo):
    return w >> lo & ((1 << hi - lo + 1) - 1)


def sx(v, n):
    return v - (1 << n) if v >> n - 1 & 1 else v


def reset(c, code, base, x):
    """the reset code, followed instruction by instruction: (registers, where it jumps)"""
    r = {0: const(0, x)}
    pc = base
    R = lambda i: r[0] if i == 0 else r.get(i, bv.sym('x%d at reset' % i, x))
    word = lambda at, n: bv.cat(*[c.sub(code[at - base + i]) for i in range(n)])
    for _ in range(16):
        if not base <= pc or pc - base + 4 > len(code):
            c.bad('the reset code runs to %#x' % pc)
        w = cval(word(pc, 4))
        if w is None:
            c.bad('the reset code at %#x is not constant' % pc)
        op, rd, f3, a = w & 0x7f, bits(w, 11, 7), bits(w, 14, 12), bits(w, 19, 15)
        i12 = sx(bits(w, 31, 20), 12)
        v = None
        if op == 0x17:
            v = const(pc + sx(w & 0xfffff000, 32), x)
        elif op == 0x37:
            v = const(sx(w & 0xfffff000, 32), x)
        elif op == 0x13 and f3 == 0:
            v = bv.add(R(a), const(i12, x))
        elif op == 0x33 and f3 == 0 and bits(w, 31, 25) == 0:
            v = bv.add(R(a), R(bits(w, 24, 20)))
        elif op == 0x73 and f3 == 2 and a == 0:
            v = const(0, x) if bits(w, 31, 20) == 0xf14 else bv.sym('csr %#x' % bits(w, 31, 20), x)
        elif op == 0x03 and f3 in (2, 3, 6):
            at = cval(c.sub(bv.add(R(a), const(i12, x))))
            n = 8 if f3 == 3 else 4
            if f3 != 2 and x == 32:
                c.bad('the reset code uses a 64-bit load on RV32')
            if at is None or at < base or at - base + n > len(code) or at % n:
                c.bad('the reset code loads from outside the boot ROM')
            v = word(at, n)
            v = (bv.zext if f3 == 6 else bv.sext)(v, x) if n * 8 < x else BV(v[:x])
        elif op == 0x67 and f3 == 0:
            t = c.sub(bv.add(R(a), const(i12, x)))
            if rd:
                r[rd] = const(pc + 4, x)
            t = BV((0,) + tuple(t[1:]))
            k = cval(t)
            if k is None or not base <= k < base + len(code):
                return R, t
            pc = k
            continue
        else:
            raise Stop('instruction %08x in the reset code is not one this check knows' % w)
        if rd:
            r[rd] = c.sub(v)
        pc += 4
    c.bad('the reset code does not leave the boot ROM')


def vec(I, st, v):
    """elements of a Vec value"""
    n = st.sub(v.f[[x for x, _ in I.p.fields(v.ty)].index('len')])
    p = I.unwrap_ptr(v)
    return models.slice_elems(I, st, Ptr(p.obj, p.path, n))


def field(I, v, name):
    return v.f[I.field_index(v.ty, name)]


def rom(c, x):
    m = c.ret
    c.need('boot ROM base', c.sub(field(c.I, m, 'base_addr')), const(BASE, 64))
    code = vec(c.I, c.st, field(c.I, m, 'mrom'))
    R, t = reset(c, code, BASE, x)
    e = BV(bv.sym('entry', 64)[:x])
    c.need('address jumped to', t, BV((0,) + tuple(e[1:])))
    c.need('a0', R(10), const(0, x))
    c.need('a1 (the device tree follows the code)', R(11), const(BASE + len(code), x))


def tree(n, codelen):
    def f(c):
        I, st = c.I, c.st
        m = I.read(st, Ptr(('rom',), ()))
        es = vec(I, st, field(I, m, 'mrom'))
        if len(es) < codelen + n:
            c.bad('the device tree is cut off at %d bytes' % (len(es) - codelen))
        c.need('device tree bytes behind the reset code', bv.cat(*[st.sub(e) for e in es[:codelen + n]]), bv.cat(*[bv.sym('code%d' % i, 8) for i in range(codelen)] + [bv.sym('dtb%d' % i, 8) for i in range(n)]))
        c.need('size of the boot ROM', c.sub(field(I, m, 'size')), const(len(es), 64))
        c.need('boot ROM base', c.sub(field(I, m, 'base_addr')), const(BASE, 64))
        if len(es) % 8:
            c.bad('the boot ROM ends in the middle of a doubleword')
        d = [e for e in c.events if e[0] == 'dts']
        if len(d) != 1:
            c.bad('%d device trees are made' % len(d))
        if any(x != y for x, y in zip(d[0][1], st.user['dtsargs'])):
            c.bad('the device tree is made for other memory than this machine has')
    return f


def m_dts(I, st, f, a, at, dty):
    st.events += (('dts', tuple(a)),)
    return NotImplemented if False else I.lazy('the device tree source', dty)


def m_str(I, st, f, a, at, dty):
    return I.lazy('the device tree source', dty)


def m_dram(I, st, f, a, at, dty):
    return Lazy('memory', dty)


def m_mrom(I, st, f, a, at, dty):
    st.events += (('rom', a[0], a[1]),)
    return Lazy('rom', dty)


def m_load(I, st, f, a, at, dty):
    st.events += (('tree', I.read(st, a[0]), tuple(a[1:])),)
    return Agg(dty, 0, ())


def bus(c):
    I = c.I
    mem = field(I, c.ret, 'dram')
    if not (isinstance(mem, Lazy) and mem.name == 'memory') and not isinstance(mem, Agg):
        c.bad('the memory on the bus is not the one that was loaded')
    want = {n: I.proj(Lazy('memory', mem.ty), ('f', I.field_index(mem.ty, n)), c.st) for n in ('base_addr', 'initrd_start', 'initrd_end')}
    roms = [e for e in c.events if e[0] == 'rom']
    trees = [e for e in c.events if e[0] == 'tree']
    if len(roms) != 1 or len(trees) != 1:
        c.bad('%d boot ROMs, %d device trees' % (len(roms), len(trees)))
    c.need('entry address given to the boot ROM', c.sub(roms[0][1]), c.sub(want['base_addr']))
    c.need('memory base given to the device tree', c.sub(trees[0][2][0]), c.sub(want['base_addr']))
    if trees[0][2][1] != want['initrd_start'] or trees[0][2][2] != want['initrd_end']:
        c.bad('initrd position given to the device tree', repr(trees[0][2][1:3]), repr((want['initrd_start'], want['initrd_end'])))
    if trees[0][1] != Lazy('rom', trees[0][1].ty) or field(I, c.ret, 'mrom') != trees[0][1]:
        c.bad('the device tree is put into another boot ROM')
    for v in (roms[0][2], trees[0][2][3]):
        if v != I.isa_val() and v != Lazy('isa', v.ty):
            c.bad('made for the other ISA')


def check(rep):
    rep.rule = ('Mrom::new is summarised with the entry address unknown, and the bytes it builds are followed as RISC-V instructions: they must jump to exactly that address with a0 the hart id and a1 the address just behind the code. '
                'load_dtb is summarised with a device tree of several lengths and unknown bytes: it must put it, whole and unchanged, there. Bus::new must hand both the memory base of this machine. Every boot ROM load returns its bytes, every store is refused.')
    rep.assumptions = group.TRUST + ['how the device tree source is translated into a blob is outside this property (C34)', 'hart id 0']
    prog = dump.program()
    n = 0
    codelen = [32]
    for x in (32, 64):
        def go():
            I = Machine(prog, x)
            st = I.sane_state('Machine')
            e = bv.sym('entry', 64)
            if x == 32:
                e = bv.zext(BV(e[:32]), 64)
            Func(rep, I, 'reset code/%d' % x, NEW).check(I.run(NEW, [e, I.isa_val()], st), lambda c: rom(c, x))
        n += 1
        group.guard(rep, 'reset code/%d' % x, go)
        load = next(f['name'] for f in prog.fns.values() if LOAD.search(f['name']))
        for ln in (8, 1000, 4064, 4065):
            def go2():
                def m_dtb(I, st, f, a, at, dty):
                    k = st.newobj(ArrC([bv.sym('dtb%d' % i, 8) for i in range(ln)]))
                    return I.make_vec(dty, Ptr(k, (('i', const(0, 64)),)), const(ln, 64))
                I = Machine(prog, x, [(DTS, m_dts), (DTB, m_dtb), (re.compile(r'str::<impl str>::replace'), m_str)])
                st = I.sane_state('Machine')
                t = I.p.ty_named('bus::mrom::Mrom')
                k = st.newobj(ArrC([bv.sym('code%d' % i, 8) for i in range(codelen[0])]))
                fs = []
                for name, ft in I.p.fields(t):
                    fs.append({'base_addr': const(BASE, 64), 'size': const(codelen[0], 64)}.get(name) or I.make_vec(ft, Ptr(k, (('i', const(0, 64)),)), const(codelen[0], 64)))
                st.objs[('rom',)] = Agg(t, 0, fs)
                f = prog.fns[prog.fn(load)]
                at = f['body']['lt'][1:1 + f['body']['arg_count']]
                args = [Ptr(('rom',), ()), bv.sym('base', 64), I.lazy('initrd_start', at[2]), I.lazy('initrd_end', at[3]), I.isa_val()]
                st.user['dtsargs'] = tuple(args[1:])
                Func(rep, I, 'device tree of %d bytes/%d' % (ln, x), load).check(I.run(load, args, st), tree(ln, codelen[0]))
            n += 1
            group.guard(rep, 'device tree of %d bytes/%d' % (ln, x), go2)
        def go3():
            I = Machine(prog, x, [(scen.OPAQUE, scen.m_opaque), (re.compile(r'^carron::bus::dram::Dram::new$'), m_dram), (re.compile('^%s$' % NEW), m_mrom), (LOAD, m_load)])
            st = I.sane_state('Machine')
            f = prog.fns[prog.fn('carron::bus::Bus::new')]
            at = f['body']['lt'][1:1 + f['body']['arg_count']]
            Func(rep, I, 'bus/%d' % x, 'carron::bus::Bus::new').check(I.run('carron::bus::Bus::new', [I.lazy('loader', at[0]), I.lazy('args', at[1]), I.isa_val()], st), bus)
        n += 1
        group.guard(rep, 'bus/%d' % x, go3)
    for fn, w, sg in bytemem.LOADS + [(f, w, None) for f, w in bytemem.STORES]:
        n += 1
        group.guard(rep, 'boot ROM ' + fn, lambda: bytemem.run(rep, prog, 'boot ROM', 'mrom', 'mrom', BASE, 0x1000, fn, w, sg, c24.blocks(BASE, BASE + 0x1000), () if fn.startswith('store') else (8, 16, 32, 64)))
    rep.floor('cases', n, 23)
    rep.floor('paths', rep.paths, 23)
