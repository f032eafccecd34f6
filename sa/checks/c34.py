"""The device tree handed to the guest."""
import re
import bv
import dump
import fdt
import group
import models
import textmodels
from bv import BV, const, cval
from interp import Agg, ArrC, Lazy, Ptr, Stop
from machine import Machine
from scen import OPAQUE, m_opaque

BUS = 'carron::bus::Bus::new'
DTS = 'carron::bus::device_tree::dts::make_dts'
SIZE = 0x80000000
# (memory base, initrd range)
CONFIGS = {32: ((0x80000000, None), (0x80000000, (0xff123000, 0xfffff000)), (0x1000, None), (0xc0ffee00, (0xfffffff0 - 0xfff, 0xfffff000))),
           64: ((0x80000000, None), (0x80000000, (0xff123000, 0xfffff000)), (0x1000, None), (0xc0ffee00, None), (0x123456000, None))}


def machine(prog, x, base, initrd):
    def m_dram(I, st, f, a, at, dty):
        d = {'base_addr': const(base, 64), 'size': const(SIZE, 64)}
        fs = []
        for n, ft in I.p.fields(dty):
            if n in ('initrd_start', 'initrd_end'):
                fs.append(I.some(ft, const(initrd[n == 'initrd_end'], 64)) if initrd else I.none(ft))
            else:
                fs.append(d.get(n) or I.lazy('dram.' + n, ft))
        return Agg(dty, 0, fs)
    I = Machine(prog, x, [(OPAQUE, m_opaque), (re.compile(r'^carron::bus::dram::Dram::new$'), m_dram)] + textmodels.TEXT_MODELS)
    I.strings = True
    return I


def number(st, v, what):
    c = cval(st.sub(v)) if isinstance(v, BV) else None
    if c is None:
        raise Stop('%s is not a known number: %r' % (what, v))
    return c


def vec_bytes(I, st, v):
    if isinstance(v, Lazy):
        v = I.expand(v)
    p = I.unwrap_ptr(v)
    n = number(st, v.f[[k for k, _ in I.p.fields(v.ty)].index('len')], 'length')
    o = I.obj(st, p.obj)
    if not isinstance(o, ArrC) or cval(p.path[-1][1]) != 0:
        raise Stop('contents of the mask ROM')
    out = []
    for x in o.e[:n]:
        out.append(number(st, x, 'a byte of the mask ROM'))
    return bytes(out)


class Expect:
    def __init__(self, rep, key, root, where):
        self.rep, self.key, self.root, self.where = rep, key, root, where

    def need(self, what, got, want):
        show = lambda v: ('%#x' % v if isinstance(v, int) and not isinstance(v, bool) else [hex(x) for x in v] if isinstance(v, list) and v and isinstance(v[0], int) else repr(v))
        self.rep.oblige('%s|%s' % (self.key, what), got == want, '%s: %s is %s, the machine has %s' % (self.key, what, show(got), show(want)), self.where)

    def prop(self, n, name, conv=None):
        if n is None or name not in n.props:
            return None
        v = n.props[name]
        try:
            return conv(v) if conv else v
        except (fdt.Bad, UnicodeDecodeError) as e:
            return str(e)

    def u32(self, n, name):
        v = self.prop(n, name, fdt.cells)
        return v[0] if isinstance(v, list) and len(v) == 1 else v

    def text(self, n, name):
        v = self.prop(n, name, fdt.strings)
        return v

    def compatible(self, c):
        return [n for n in self.root.all() if c in (self.text(n, 'compatible') or [])]

    def one(self, what, ns):
        self.need('number of nodes for ' + what, len(ns), 1)
        return ns[0] if ns else None

    def reg(self, n, asked=None):
        """[(address, size)] in the parent's bus, mapped one to one up to the root"""
        p = n.parent
        q = p
        while q is not None and q.parent is not None:
            if q.props.get('ranges') != b'':
                return 'not mapped to the root bus'
            q = q.parent
        ac, sc = self.u32(p, '#address-cells'), self.u32(p, '#size-cells')
        ac, sc = 2 if ac is None else ac, 1 if sc is None else sc
        c = self.prop(n, 'reg', fdt.cells)
        if not isinstance(c, list) or not isinstance(ac, int) or not isinstance(sc, int) or len(c) % (ac + sc):
            return c
        num = lambda l: int.from_bytes(b''.join(x.to_bytes(4, 'big') for x in l), 'big')
        return [(num(c[i:i + ac]), num(c[i + ac:i + ac + sc])) for i in range(0, len(c), ac + sc)]


def tree(rep, key, where, x, blob, bus, base, initrd):
    """`bus`: ranges the bus dispatches to each device"""
    try:
        h, root = fdt.read(blob)
    except (fdt.Bad, UnicodeDecodeError) as e:
        rep.oblige('%s|format' % key, False, '%s: malformed device tree: %s' % (key, e), where)
        return
    rep.oblige('%s|format' % key, True)
    e = Expect(rep, key, root, where)
    # references
    handles = {}
    for n in root.all():
        v = e.prop(n, 'phandle', fdt.cells)
        if v is not None:
            e.need('phandle of ' + n.path() + ' is one unique number', isinstance(v, list) and len(v) == 1 and v[0] not in handles and 0 < v[0] < 0xffffffff, True)
            if isinstance(v, list) and v:
                handles[v[0]] = n
    cpus = [n for n in root.all() if e.text(n, 'device_type') == ['cpu']]
    cpu = e.one('the processor', cpus)
    intc = None
    if cpu:
        e.need('parent of the processor', cpu.parent.path(), '/cpus')
        e.need('hart id', e.u32(cpu, 'reg'), 0)
        e.need('address cells of /cpus', (e.u32(cpu.parent, '#address-cells'), e.u32(cpu.parent, '#size-cells')), (1, 0))
        e.need('status', e.text(cpu, 'status') in (None, ['okay'], ['ok']), True)
        e.need('riscv,isa', (e.text(cpu, 'riscv,isa') or [''])[0].split('_')[0], 'rv%dimac' % x)
        e.need('mmu-type', e.text(cpu, 'mmu-type'), ['riscv,sv32' if x == 32 else 'riscv,sv39'])
        e.need('PMP entries', e.u32(cpu, 'riscv,pmpregions'), 16)
        e.need('timebase', e.u32(cpu if 'timebase-frequency' in cpu.props else cpu.parent, 'timebase-frequency'), 10000000)
        intc = e.one('the local interrupt controller', [n for n in cpu.kids if 'riscv,cpu-intc' in (e.text(n, 'compatible') or [])])
        if intc:
            e.need('local controller is an interrupt controller', 'interrupt-controller' in intc.props, True)
            e.need('interrupt cells of the local controller', e.u32(intc, '#interrupt-cells'), 1)

    def ext(n):
        """interrupts-extended as (controller, number) pairs"""
        c = e.prop(n, 'interrupts-extended', fdt.cells)
        if not isinstance(c, list):
            return c
        out, i = [], 0
        while i < len(c):
            t = handles.get(c[i])
            k = e.u32(t, '#interrupt-cells') if t else None
            if not isinstance(k, int) or not k:
                return 'dangling reference %#x' % c[i]
            out.append((t.path(), *c[i + 1:i + 1 + k]))
            i += 1 + k
        return out
    ip = intc.path() if intc else None
    mem = e.one('memory', [n for n in root.all() if e.text(n, 'device_type') == ['memory']])
    if mem:
        e.need('memory range', e.reg(mem), [(base, SIZE)])
    clint = e.one('the CLINT', e.compatible('riscv,clint0'))
    if clint:
        e.need('CLINT range', e.reg(clint), [bus['clint']])
        e.need('CLINT interrupts', ext(clint), [(ip, 3), (ip, 7)])
    plic = e.one('the PLIC', e.compatible('riscv,plic0'))
    if plic:
        e.need('PLIC range', e.reg(plic), [bus['plic']])
        e.need('PLIC contexts', ext(plic), [(ip, 11), (ip, 9)])
        e.need('PLIC sources', e.u32(plic, 'riscv,ndev'), 31)
        e.need('PLIC is an interrupt controller', 'interrupt-controller' in plic.props, True)
        e.need('interrupt cells of the PLIC', e.u32(plic, '#interrupt-cells'), 1)
        if e.u32(plic, 'riscv,max-priority') is not None:
            e.need('highest PLIC priority', e.u32(plic, 'riscv,max-priority'), 15)
    uart = e.one('the UART', e.compatible('ns16550a'))
    if uart:
        e.need('UART range', e.reg(uart), [bus['uart']])
        q, par = uart, None
        while q is not None and par is None:
            par, q = e.u32(q, 'interrupt-parent'), q.parent
        c = e.prop(uart, 'interrupts', fdt.cells)
        got = ext(uart) if 'interrupts-extended' in uart.props else [(handles[par].path() if par in handles else par, *c)] if isinstance(c, list) else c
        e.need('UART interrupt', got, [(plic.path() if plic else None, 1)])
        e.need('UART register spacing', (e.u32(uart, 'reg-shift') or 0, e.u32(uart, 'reg-io-width') or 1), (0, 1))
    chosen = e.one('chosen', [n for n in root.kids if n.name == 'chosen'])
    if chosen:
        so = (e.text(chosen, 'stdout-path') or [None])[0]
        if so is not None:
            n = root.find(so.split(':')[0])
            e.need('stdout-path', n.path() if n else so, uart.path() if uart else None)
        a, b = e.u32(chosen, 'linux,initrd-start'), e.u32(chosen, 'linux,initrd-end')
        if initrd:
            e.need('initrd', (a, b), initrd)
        else:
            e.need('no initrd announced', a == b, True)
    e.one('the host interface', e.compatible('ucb,htif0'))
    # node names carry the address they stand for, and no two devices share a range
    for n in root.all():
        if '@' in n.name and 'reg' in n.props and n.parent is not None and n.parent.path() != '/cpus':
            r = e.reg(n)
            e.need('unit address of ' + n.name.split('@')[0], n.name.split('@')[1], '%x' % r[0][0] if isinstance(r, list) and r else r)


def source(rep, prog, x):
    """the source text with unknown memory base and initrd differs from that of every enumerated configuration only in digits"""
    def text(base, initrd):
        I = Machine(prog, x, textmodels.TEXT_MODELS)
        I.strings = True
        at = prog.fns[prog.fn(DTS)]['body']['lt'][1:5]
        opt = lambda i, t: I.none(t) if not initrd else I.some(t, initrd[i])
        rs = I.run(DTS, [base, opt(0, at[1]), opt(1, at[2]), I.isa_val()], I.new_state())
        if len(rs) != 1 or rs[0].kind != 'return':
            raise Stop('the device tree source depends on the addresses: %s' % [(r.kind, getattr(r, 'why', None)) for r in rs][:4])
        return [cval(rs[0].st.sub(b)) for b in models.text_of(I, rs[0].st, rs[0].ret)]
    for ini in (False, True):
        t = text(bv.sym('memory base', 64), (bv.sym('initrd start', 64), bv.sym('initrd end', 64)) if ini else None)
        rep.paths += 1
        pat = b''.join(b'[0-9a-fx]+' if c is None else re.escape(bytes([c])) for c in t)
        for base, initrd in CONFIGS[x]:
            if bool(initrd) != ini:
                continue
            u = text(const(base, 64), [const(v, 64) for v in initrd] if initrd else None)
            if None in u or not re.fullmatch(pat, bytes(u)):
                raise Stop('the text for memory at %#x is not an instance of the text for unknown addresses' % base)
            rep.oblige('source/%d|%x' % (x, base), True)


def check(rep, only=None):
    rep.rule = ('Bus::new, including the generation of the device tree source and its compilation into a flattened device tree, is interpreted for each configuration. The bytes the reset vector\'s a1 points at are read back as the Devicetree '
                'Specification says (header, reservation block, structure and strings blocks, properties, phandles) and compared with the address ranges of the devices the same function constructs, the interrupt wiring established by C22, C25 and '
                'C26, the ISA, the number of PMP entries and the memory and initrd ranges. The iteration order of hash maps is taken both ways. Separately, the device tree source is summarised with unknown memory base and initrd, which appear '
                'in it only as their own digits.')
    rep.assumptions = group.TRUST + ['Rust library functions on texts, iterators and hash maps behave as documented', 'memory base and initrd range are enumerated for the compiled tree (their digits are the only difference between the source texts)',
                                     'hash-map iteration order: insertion order and its reverse']
    prog = dump.program()
    n = 0
    for x in (32, 64):
        for base, initrd in CONFIGS[x]:
            for rev in (False, True):
                key = 'tree/%d/%x/%s%s' % (x, base, 'initrd' if initrd else 'none', '/reversed' if rev else '')
                if only and only not in key:
                    continue
                n += 1

                def go():
                    textmodels.REVERSE = rev
                    I = machine(prog, x, base, initrd)
                    at = prog.fns[prog.fn(BUS)]['body']['lt'][1:4]
                    st = I.new_state()
                    rs = I.run(BUS, [I.lazy('loader', at[0]), Ptr(('args',), ()), I.isa_val()], st)
                    for r in rs:
                        if r.kind == 'stop':
                            raise Stop('%s at %s' % (r.why, r.where))
                    for r in rs:
                        where = prog.fns[prog.fn(BUS)]['name']
                        rep.paths += 1
                        rep.fn(where) if hasattr(rep, 'fn') else None
                        if r.kind != 'return':
                            rep.oblige('%s|panic' % key, False, '%s: the machine cannot be built: %s' % (key, r.why), r.where or where)
                            continue
                        b = {k: v for (k, _), v in zip(I.p.fields(r.ret.ty), r.ret.f)}
                        dev = {}
                        for d in ('mrom', 'clint', 'plic', 'uart'):
                            v = b[d] if isinstance(b[d], Agg) else I.expand(b[d])
                            dev[d] = {k: y for (k, _), y in zip(I.p.fields(v.ty), v.f)}
                        bus = {d: (number(r.st, dev[d]['base_addr'], 'base of ' + d), number(r.st, dev[d]['size'], 'size of ' + d)) for d in dev}
                        rom = vec_bytes(I, r.st, dev['mrom']['mrom'])
                        lo, sz = bus['mrom']
                        rep.oblige('%s|rom' % key, sz == len(rom) and lo == 0x1000, '%s: the mask ROM answers for %#x bytes at %#x and holds %#x' % (key, sz, lo, len(rom)), where)
                        rs_ = sorted(list(bus.values()))
                        rep.oblige('%s|overlap' % key, all(a + s <= c for (a, s), (c, _) in zip(rs_, rs_[1:])), '%s: device ranges overlap: %r' % (key, bus), where)
                        tree(rep, key, 'Bus::new (%s)' % where, x, rom[32:], bus, base, initrd)
                group.guard(rep, key, go)
    textmodels.REVERSE = False
    for x in (32, 64):
        if not only:
            group.guard(rep, 'source/%d' % x, lambda: source(rep, prog, x))
    rep.floor('device trees', n, 1 if only else 18)
