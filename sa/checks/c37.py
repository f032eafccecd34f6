"""Reset state."""
import re
import bv
import dump
import group
from bv import BV, const, cval
from func import Func
from interp import Agg, ArrC, Lazy, Ptr, State, Stop
from machine import Machine

BUSNEW = re.compile(r'^carron::bus::Bus::new$')
CPUNEW = 'carron::cpu::Cpu::new'
EMUNEW = 'carron::Emulator::new'
EXT = sum(1 << ord(x) - 65 for x in 'ACIMSU')


def m_bus(I, st, f, a, at, dty):
    st.events += (('bus', a[2]),)
    return Lazy('bus', dty)


def sub(I, st, v, *names):
    for n in names:
        v = I.proj(v, ('f', I.field_index(v.ty, n)), st)
    return v


def shared(c, rc):
    """(object, value) behind an Rc"""
    I = c.I
    p = I.unwrap_ptr(rc)
    o = I.read(c.st, p)
    if isinstance(o, Agg) and 'value' in [n for n, _ in I.p.fields(o.ty)]:
        o = sub(I, c.st, o, 'value')
    if isinstance(o, Agg) and 'value' in [n for n, _ in I.p.fields(o.ty)]:
        o = sub(I, c.st, o, 'value')
    return p.obj, I.strip(o) if not I.p.is_enum(getattr(o, 'ty', c.ret.ty)) else o


def spec(x, args):
    def f(c):
        I, st = c.I, c.st
        cpu = c.ret
        g = lambda *n: sub(I, st, cpu, *n)
        if c.variant(g('priv_lv')) != 'Machine':
            c.bad('the hart starts in another mode than machine mode')
        if c.variant(g('mmu', 'trans_mode')) != 'Bare':
            c.bad('address translation is on')
        if c.opt(g('reservation_set'))[0] != 'None':
            c.bad('there is a reservation')
        k, pc = shared(c, g('pc'))
        k2, _ = shared(c, g('csrs', 'pc'))
        if k != k2:
            c.bad('the CSRs do not see the pc')
        n, want = c.opt(I.proj(I.obj(st, ('args',)), ('f', I.field_index(args, 'init_pc')), st))
        bus = g('bus')
        if n != 'Some':
            want = sub(I, st, Lazy('bus', bus.ty), 'mrom', 'base_addr')
        c.need('pc', c.sub(pc), c.sub(want))
        if not isinstance(bus, Lazy) and any(v != I.proj(Lazy('bus', bus.ty), ('f', i), st) for i, v in enumerate(bus.f)):
            c.bad('the bus is not the one that was made')
        for who in (('isa',), ('regs', 'isa'), ('csrs', 'isa'), ('mmu', 'isa')):
            _, v = shared(c, g(*who))
            if c.variant(v) != 'Rv%d' % x:
                c.bad('%s is %s' % ('.'.join(who), c.variant(v)))
        ev = [e for e in c.events if e[0] == 'bus']
        if len(ev) != 1 or c.variant(ev[0][1]) != 'Rv%d' % x:
            c.bad('the bus is made for the other ISA')
        z = lambda i: c.elem(g('csrs', 'csrs'), const(i, 64))
        csr = lambda i: BV(z(i)[:x])
        c.need('x0', c.elem(g('regs', 'regs'), const(0, 64)), const(0, 64))
        m = csr(0x300)
        c.need('mstatus.MIE, MPRV, UXL, SXL', bv.cat(BV(m[3:4]), BV(m[17:18]), *([BV(m[32:36])] if x == 64 else [])), bv.cat(const(0, 1), const(0, 1), *([const(10, 4)] if x == 64 else [])))
        c.need('misa', csr(0x301), const((1 << x - 2 if x == 32 else 2 << x - 2) | EXT, x))
        for i, what in ((0x180, 'satp'), (0x304, 'mie'), (0xf14, 'mhartid'), (0x344, 'mip')):
            c.need(what, csr(i), const(0, x))
        for i in range(0x3a0, 0x3b0):
            c.need('PMP configuration %#x' % i, csr(i), const(0, x))
        for i in range(8):
            t = c.elem(g('csrs', 'triggers', 'tdata1'), const(i, 64))
            c.need('trigger %d' % i, BV(t[:3]), const(0, 3))
        for i in range(4096):
            v = z(i)
            if x == 32 and cval(v) is None or cval(v) >> x:
                c.bad('CSR %#x is wider than XLEN' % i)
        c.need('translation root', c.sub(g('mmu', 'ppn')), const(0, 64))
    return f


def emu(arch, host):
    def f(c):
        I, st = c.I, c.st
        ev = [e for e in c.events if e[0] == 'cpu']
        if len(ev) != 1:
            c.bad('%d harts' % len(ev))
        if ev[0][1] != arch:
            c.bad('the hart is made for another ISA than the program is for')
        for i, n in enumerate(('tohost_addr', 'fromhost_addr')):
            v = sub(I, st, c.ret, n)
            w = I.proj(Lazy('host', host[0]), ('f', i), st)
            if v != w:
                c.bad('%s is not the address of its symbol' % n)
        if [e[1] for e in c.events if e[0] == 'host'] != [arch]:
            c.bad('the symbols are looked up for another ISA')
    return f


def check(rep):
    rep.rule = ('Cpu::new is summarised for both ISAs with unknown command line and bus: the hart it returns must be in machine mode with translation off and no reservation, pc the --pc option or the boot ROM, shared between hart and CSRs, '
                'all parts built for the same ISA, and the CSRs as the privileged manual requires at reset. Emulator::new must build the hart for the ISA of the ELF class and keep its tohost and fromhost addresses.')
    rep.assumptions = group.TRUST + ['what Bus::new builds is C24 and C29']
    prog = dump.program()
    n = 0
    for x in (32, 64):
        def go():
            I = Machine(prog, x, [(BUSNEW, m_bus)])
            st = State()
            f = prog.fns[prog.fn(CPUNEW)]
            at = f['body']['lt'][1:4]
            args = prog.types[at[1]]['elem']
            st.objs[('args',)] = I.lazy('args', args)
            Func(rep, I, 'hart/%d' % x, CPUNEW).check(I.run(CPUNEW, [I.lazy('loader', at[0]), Ptr(('args',), ()), I.isa_val()], st), spec(x, args))
        n += 1
        group.guard(rep, 'hart/%d' % x, go)

    def go2():
        host = []

        def m_arch(I, st, f, a, at, dty):
            return Lazy('arch', dty)

        def m_host(I, st, f, a, at, dty):
            host[:] = [dty]
            st.events += (('host', a[1]),)
            return Lazy('host', dty)

        def m_cpu(I, st, f, a, at, dty):
            st.events += (('cpu', a[2]),)
            return Lazy('cpu', dty)

        def m_front(I, st, f, a, at, dty):
            return Lazy('frontend', dty)
        I = Machine(prog, 64, [(re.compile(r'ElfLoader::target_arch$'), m_arch), (re.compile(r'ElfLoader::get_host_addr$'), m_host), (re.compile('^%s$' % CPUNEW), m_cpu), (re.compile(r'FrontendServer::new$'), m_front)])
        st = State()
        f = prog.fns[prog.fn(EMUNEW)]
        at = f['body']['lt'][1:3]
        rs = I.run(EMUNEW, [I.lazy('loader', at[0]), I.lazy('args', at[1])], st)
        Func(rep, I, 'emulator', EMUNEW).check(rs, emu(Lazy('arch', I.isa_ty), host))
    n += 1
    group.guard(rep, 'emulator', go2)
    rep.floor('cases', n, 3)
    rep.floor('paths', rep.paths, 3)
