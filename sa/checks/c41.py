"""The command line."""
import re
import bv
import clapmodel
import dump
import group
import models
import textmodels
from bv import BV, const, cval
from interp import Agg, Interp, Lazy, Ptr, State, Stop
from machine import Machine
from models import Opq, new_string, strip_generics

ARGS = 'carron::cmdline::Arguments::new'
MODES = {'OPT_DEFAULT': None, 'OPT_ELFHEAD': 'header_show', 'OPT_PROG': 'dump_segment', 'OPT_SECT': 'dump_section', 'OPT_DISASEM': 'dump_section', 'OPT_SHOWALL': 'show_all_header'}
LEVELS = ('nolog', 'diff', 'info', 'debug', 'trace')
FILES = (b'prog', b'./dir/pk', b'a b', 'größe'.encode(), b'0x80000000')


def lines():
    """(command line, expected values by field)"""
    f = b'./prog.elf'
    yield (f,), {}
    for a in ((b'one',), (b'one', b'two', b'three'), (b'0x10', b'pk'), (b'', b'x y', b' pad ', b'a,b', 'ü'.encode()), (b'./prog.elf',), tuple(b'%d' % i for i in range(12))):
        yield (f,) + a, {'args': a}
    for p in (b'/opt/pk', b'pk', f):
        for a in ((), (b'one',), (b'one', b'two')):
            yield (b'--pk', p, f) + a, {'pk': p, 'args': a}
            yield (f,) + a + (b'--pk=' + p,), {'pk': p, 'args': a}
    for a in ((b'-x',), (b'-e',), (b'--pk', b'q'), (b'one', b'--pc', b'1')):
        yield (f, b'--') + a, {'args': a}
        yield (b'--pk', b'k', b'--', f) + a, {'pk': b'k', 'args': a}
    yield (b'--kernel', b'Image', f), {'kernel': b'Image'}
    yield (b'--initrd', b'root.cpio', f), {'initrd': b'root.cpio'}
    yield (b'--kernel', b'Image', b'--initrd', b'root.cpio', f, b'x'), {'kernel': b'Image', 'initrd': b'root.cpio', 'args': (b'x',)}
    yield (b'--initrd', b'same', b'--kernel', b'same', b'--pk', b'same', b'--pc', b'80', f), {'kernel': b'same', 'initrd': b'same', 'pk': b'same', 'pc': 0x80}
    for t, v in ((b'0x80000000', 0x80000000), (b'80200000', 0x80200000), (b'0', 0), (b'10', 16), (b'0x0', 0), (b'DeadBeef', 0xdeadbeef), (b'0xFFFFFFFFFFFFFFFE', 2 ** 64 - 2), (b'0000000000001000', 0x1000)):
        yield (b'--pc', t, f), {'pc': v}
        yield (b'--pc=' + t, b'--pk', b'pk', f, b'arg'), {'pc': v, 'pk': b'pk', 'args': (b'arg',)}
    for t in (b'xyz', b'0x', b'', b'-1', b'10000000000000000', b'0x8000_0000', b'12 '):
        yield (b'--pc=' + t, f), {'refused': '--pc ' + repr(t.decode())}
    for short, long, m in ((b'-e', b'--elfhead', 'ELFHEAD'), (b'-p', b'--program', 'PROG'), (b'-s', b'--section', 'SECT'), (b'-d', b'--disasem', 'DISASEM'), (b'-a', b'--all', 'SHOWALL')):
        for o in (short, long):
            yield (o, f), {'mode': 'OPT_' + m}
            yield (f, o, b'--pk', b'k'), {'mode': 'OPT_' + m, 'pk': b'k'}
    for k, lv in enumerate(LEVELS):
        yield (b'--loglv', lv.encode(), f), {'log': k}
        yield (f, b'arg', b'--loglv=' + lv.encode(), b'-e'), {'log': k, 'args': (b'arg',), 'mode': 'OPT_ELFHEAD'}
    yield (), {'refused': 'no file'}


def field(I, st, v, n):
    return I.proj(v, ('f', I.field_index(v.ty, n)), st)


def opt(I, st, v):
    i = I.variant_of(st, v)
    if I.p.types[v.ty]['variants'][i]['name'].split('::')[-1] == 'None':
        return None
    return I.proj(I.proj(v, ('d', i), st), ('f', 0), st)


def texts(I, st, v):
    if isinstance(v, Lazy):
        v = I.expand(v)
    p = I.unwrap_ptr(v)
    if p.obj[0] == 'emptyvec':
        return ()
    n = v.f[[x for x, _ in I.p.fields(v.ty)].index('len')]
    if cval(st.sub(n)) == 0:
        return ()
    return tuple(textmodels.raw(I, st, x) for x in models.slice_elems(I, st, Ptr(p.obj, p.path, n)))


def found(I, st, v):
    """the fields of an Arguments value as plain data"""
    o = lambda n: (lambda x: None if x is None else textmodels.raw(I, st, x))(opt(I, st, field(I, st, v, n)))
    pc = opt(I, st, field(I, st, v, 'init_pc'))
    if pc is not None:
        pc = cval(st.sub(pc))
        if pc is None:
            raise Stop('unknown pc')
    e = field(I, st, v, 'exe_option')
    return {'file': textmodels.raw(I, st, field(I, st, v, 'filename')), 'pk': o('pk_path'), 'kernel': o('kernel_path'), 'initrd': o('initrd_path'), 'pc': pc,
            'argv': texts(I, st, field(I, st, v, 'main_args')), 'mode': I.p.types[e.ty]['variants'][I.variant_of(st, e)]['name'].split('::')[-1]}


NAMES = {'file': 'program file', 'pk': '--pk', 'kernel': '--kernel', 'initrd': '--initrd', 'pc': 'entry address', 'argv': "guest's argument vector", 'mode': 'what to do', 'log': 'log level'}


def parse(rep, prog, line, want, where):
    key = 'carron ' + ' '.join(x.decode() if x and b' ' not in x else repr(x.decode()) for x in line)
    I = Machine(prog, 64, clapmodel.MODELS + textmodels.TEXT_MODELS)
    I.strings = True
    I.cmdline = line
    try:
        rs = I.run(ARGS, [], State())
    except clapmodel.Usage as e:
        rep.oblige(key, 'refused' in want, '`%s` is refused: %s' % (key, e), where)
        return
    rep.functions |= I.functions
    for r in rs:
        rep.paths += 1
        if r.kind == 'panic':
            rep.oblige(key, 'refused' in want, '`%s` ends the emulator: %s' % (key, r.why), r.where)
            continue
        if r.kind != 'return':
            rep.undecided(key, '%s %s at %s' % (r.kind, r.why, r.where))
            continue
        if 'refused' in want:
            rep.oblige(key, False, '%s is accepted' % want['refused'], where)
            continue
        got = found(I, r.st, r.ret)
        ev = [e for e in r.st.events if e[0] == 'loglv']
        got['log'] = ev[0][1] if ev else None
        pk = want.get('pk')
        full = {'file': b'./prog.elf', 'pk': pk, 'kernel': want.get('kernel'), 'initrd': want.get('initrd'), 'pc': want.get('pc'), 'mode': want.get('mode', 'OPT_DEFAULT'),
                'argv': ((pk,) if pk is not None else ()) + (b'./prog.elf',) + tuple(want.get('args', ())), 'log': want.get('log', 0)}
        for n in full:
            rep.oblige('%s|%s' % (key, n), got[n] == full[n], '`%s`: %s is %r, expected %r' % (key, NAMES[n], got[n], full[n]), where)


def build(I, st, ty, vals):
    """an Arguments value"""
    fs = []
    s = lambda t, b: new_string(I, st, t, [const(x, 8) for x in b])
    for n, t in I.p.fields(ty):
        if n == 'filename':
            fs.append(s(t, vals['file']))
        elif n in ('pk_path', 'kernel_path', 'initrd_path'):
            v = vals[n.split('_')[0]]
            it = I.p.fields(t, I.p.variant_index(t, 'Some'))[0][1]
            fs.append(I.none(t) if v is None else I.some(t, s(it, v)))
        elif n == 'init_pc':
            fs.append(I.none(t))
        elif n == 'exe_option':
            fs.append(Agg(t, I.p.variant_index(t, vals['mode']), ()))
        else:
            fs.append(I.lazy('args.' + n, t))
    return Agg(ty, 0, fs)


class Front(Machine):
    """the binary crate: no hart in sight"""

    def __init__(self, prog, boundaries):
        Interp.__init__(self, prog, models.STD_MODELS, boundaries)
        self.xlen, self.isa_ty, self.cpu_ty, self.shared = 64, None, None, {}


def start(rep, bin_, mode, pk):
    key = 'main %s%s' % (mode, ' with --pk' if pk else '')
    loader = []

    def m_args(I, st, f, a, at, dty):
        st.events += (('args',),)
        return build(I, st, dty, {'file': b'prog.elf', 'pk': pk, 'kernel': None, 'initrd': None, 'mode': mode})

    def m_open(I, st, f, a, at, dty):
        p = textmodels.raw(I, st, a[0])
        ok = st.decide(bv.sym('file can be read', 1)[0])
        st.events += (('open', p, ok),)
        if ok:
            return I.ok(dty, I.lazy('loader', I.p.fields(dty, I.p.variant_index(dty, 'Ok'))[0][1]))
        return I.err(dty, I.lazy('open error', I.p.fields(dty, I.p.variant_index(dty, 'Err'))[0][1]))

    def m_elf(I, st, f, a, at, dty):
        ok = bv.sym('file is ELF', 1)
        return BV(tuple(ok) + (0,) * ((I.p.width(dty) or 1) - 1))

    def m_show(I, st, f, a, at, dty):
        st.events += (('show', strip_generics(f['name']).split('::')[-1]),)
        return Agg(dty, 0, ())

    def m_emu(I, st, f, a, at, dty):
        v = a[1]
        st.events += (('emulator', v.ty, tuple(found_file(I, st, v))),)
        return I.lazy('emulator', dty)

    def m_go(I, st, f, a, at, dty):
        st.events += (('run',),)
        return Agg(dty, 0, ())
    R = re.compile
    I = Front(bin_, [(R(r'cmdline::Arguments::new$|cmdline::Arguments as std::default::Default>::default$'), m_args), (R(r'ElfLoader::try_new$'), m_open), (R(r'ElfLoader::is_elf$'), m_elf),
                                         (R(r'ElfLoader::(show_all_header|dump_segment|dump_section|header_show)$'), m_show), (R(r'Emulator::new$'), m_emu), (R(r'Emulator::emulation$'), m_go)] + textmodels.TEXT_MODELS)
    I.strings = True
    n = 0
    for r in I.run('carron::main', [], State()):
        rep.paths += 1
        ev = r.st.events
        where = 'carron::main'
        opened = [e for e in ev if e[0] == 'open']
        acts = [e for e in ev if e[0] in ('show', 'emulator', 'run')]
        if r.kind not in ('return', 'panic'):
            rep.undecided(key, '%s %s at %s' % (r.kind, r.why, r.where))
            continue
        rep.oblige(key + '|file', len(opened) == 1 and opened[0][1] == (pk or b'prog.elf'), '%s: the file opened is %r' % (key, [e[1] for e in opened]), where)
        elf = r.st.sub(bv.sym('file is ELF', 1))[0]
        good = bool(opened and opened[0][2]) and elf == 1
        if not good:
            rep.oblige(key + '|refused', not acts, '%s: a file that %s is not refused: %s' % (key, 'cannot be read' if opened and not opened[0][2] else 'is not known to be ELF', acts), where)
            continue
        n += 1
        want = MODES[mode]
        if want is None:
            rep.oblige(key + '|runs', [e[0] for e in acts] == ['emulator', 'run'], '%s: the guest is not run exactly once: %s' % (key, [e[:1] if e[0] == 'emulator' else e for e in acts]), where)
            if acts and acts[0][0] == 'emulator':
                rep.oblige(key + '|options', acts[0][2] == (b'prog.elf', pk), '%s: the emulator is given other options' % key, where)
        else:
            rep.oblige(key + '|shows', acts == [('show', want)], '%s: expected only %s, found %s' % (key, want, acts), where)
        rep.oblige(key + '|ends', r.kind == 'return', '%s: ends with a panic: %s' % (key, r.why), r.where)
    rep.functions |= I.functions
    return n


def found_file(I, st, v):
    pk = opt(I, st, field(I, st, v, 'pk_path'))
    return textmodels.raw(I, st, field(I, st, v, 'filename')), None if pk is None else textmodels.raw(I, st, pk)


def check(rep):
    rep.rule = ('Arguments::new is interpreted over its declarations: the builder calls give the declared options, the option grammar of the library applied to those declarations gives what each command line of a table matches, and the returned '
                'Arguments must carry program, --pk, --kernel, --initrd, entry address, mode, argument vector and log level the line says. main is summarised for every mode with and without --pk, with the file readable or not and ELF or not: '
                'it must open the right file, and then do exactly what the mode names.')
    rep.assumptions = group.TRUST + ['clap implements its documented option grammar', 'what the show options print is not judged']
    prog = dump.program()
    where = ARGS
    n = 0
    for line, want in lines():
        n += 1
        group.guard(rep, 'line %d' % n, lambda: parse(rep, prog, line, want, where))
    bin_ = dump.program('bin')
    m = []
    for mode in MODES:
        for pk in (None, b'/opt/pk'):
            group.guard(rep, 'main %s' % mode, lambda: m.append(start(rep, bin_, mode, pk)))
    rep.extra['command_lines'] = n
    rep.sites = n
    rep.floor('command lines', n, 80)
    rep.floor('paths of main that open an ELF file', sum(m), len(MODES) * 2)
