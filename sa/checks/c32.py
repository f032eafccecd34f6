"""ELF header parsing."""
import re
import bv
import dump
import elfimg
import group
from bv import BV, const, cval
from elfimg import EHDR, PHDR, SHDR, SYM
from func import Func
from interp import Agg, ArrC, Lazy, Ptr, Stop
from machine import Machine

LOADER = 'carron::elfload::ElfLoader::'
NEW = LOADER + 'try_new'
TRAIT = 'carron::elfload::%s'


def machine(prog, x, im):
    I = Machine(prog, x, im.hooks())
    I.strings = True
    return I


def field(I, v, name):
    return v.f[I.field_index(v.ty, name)]


def start(I, st, im):
    im.install(st, I.p.ty_named('u8'))
    k = st.newobj(ArrC([const(c, 8) for c in b'prog']))
    return I.run(NEW, [Ptr(k, (('i', const(0, 64)),), const(4, 64))], st)


def loaded(c):
    """the loader object, or None when the file is refused"""
    n, v = c.opt(c.ret)
    return v if n == 'Ok' else None


def boxed(c, v):
    """(type, value) behind a Box<dyn T>"""
    p = c.I.unwrap_ptr(v)
    return p.meta[1], c.I.strip_agg(c.I.read(c.st, Ptr(p.obj, p.path))) if hasattr(c.I, 'strip_agg') else c.I.read(c.st, Ptr(p.obj, p.path))


def boxes(c, v):
    import models
    I = c.I
    n = c.sub(v.f[[x for x, _ in I.p.fields(v.ty)].index('len')])
    p = I.unwrap_ptr(v)
    return [boxed(c, e) for e in models.slice_elems(I, c.st, Ptr(p.obj, p.path, n))]


def header(c, what, val, table, im, at):
    """every field of a parsed header that carries an ELF field name holds that field"""
    I = c.I
    names = [n for n, _ in I.p.fields(val.ty)]
    hit = 0
    for n, o, w in table[im.cls]:
        if n in names and n != 'sh_name':
            got = field(I, val, n)
            if not isinstance(got, BV):
                continue
            hit += 1
            want = im.at(at, o, w)
            x = max(len(got), 8 * w)
            c.need('%s of %s' % (n, what), c.sub(bv.zext(got, x)), c.sub(bv.zext(want, x)))
    if not hit:
        raise Stop('no field of the parsed %s has an ELF name' % what)
    return hit


def layout(im):
    def f(c):
        L = loaded(c)
        if L is None:
            c.bad('an ELF file is refused')
        I = c.I
        ty, h = boxed(c, field(I, L, 'elf_header'))
        header(c, 'the file header', h, EHDR, im, 0)
        ph, sh = boxes(c, field(I, L, 'prog_headers')), boxes(c, field(I, L, 'sect_headers'))
        if len(ph) != im.phnum:
            c.bad('%d program headers are read, the file has %d' % (len(ph), im.phnum))
        if len(sh) != im.shnum:
            c.bad('%d section headers are read, the file has %d' % (len(sh), im.shnum))
        for i, (t, v) in enumerate(ph):
            header(c, 'program header %d' % i, v, PHDR, im, im.ph(i))
        for i, (t, v) in enumerate(sh):
            header(c, 'section header %d' % i, v, SHDR, im, im.sh(i))
    return f


class Fixed(elfimg.Image):
    def at(self, base, o, w):
        return self.val(base + o, w)


class Moved(elfimg.Image):
    """the tables are at unknown places"""

    def at(self, base, o, w):
        if isinstance(base, int):
            return self.val(base + o, w)
        rd = lambda i: BV(bv.rd(elfimg.FILE, bv.add(base, const(o + i, 64)), 8))
        return bv.cat(*[rd(i) for i in range(w)]) if w > 1 else rd(0)


def methods(rep, prog, I, st, L, im, x):
    """what the rest of the emulator asks of the parsed file"""
    key = 'queries'
    pt = lambda ty: prog.types[ty]['name']

    def call(ty, trait, m, box, spec, k):
        fn = [f['name'] for f in prog.fns.values() if f['name'].endswith(' as carron::elfload::%s>::%s' % (trait, m)) and pt(ty).split('<')[0].split('carron::')[-1] + ' as ' in f['name']]
        if len(fn) != 1:
            raise Stop('%s of %s' % (m, pt(ty)))
        p = I.unwrap_ptr(box)
        Func(rep, I, '%s/%d' % (k, x), fn[0]).check(I.run(fn[0], [Ptr(p.obj, p.path)], st.copy()), spec)

    def eqv(what, got, want):
        return lambda c: c.need(what, c.sub(got(c)), c.sub(want))

    lo = Ptr(('loader',), ())
    st.objs[('loader',)] = L

    def arch(c):
        if c.variant(c.ret) != 'Rv%d' % im.cls:
            c.bad('a %d-bit ELF file is taken for %s' % (im.cls, c.variant(c.ret)))
    Func(rep, I, 'target_arch/%d' % x, LOADER + 'target_arch').check(I.run(LOADER + 'target_arch', [lo], st.copy()), arch)
    Func(rep, I, 'is_elf/%d' % x, LOADER + 'is_elf').check(I.run(LOADER + 'is_elf', [lo], st.copy()), eqv('is_elf', lambda c: c.ret, const(1, 1)) if False else (lambda c: c.iff(c.sub(c.ret)[0]) or c.bad('a file with the ELF magic is not an ELF file')))
    import models
    v = field(I, L, 'prog_headers')
    p = I.unwrap_ptr(v)
    for i, b in enumerate(models.slice_elems(I, st, Ptr(p.obj, p.path, const(im.phnum, 64)))):
        ty = I.unwrap_ptr(b).meta[1]
        at = im.ph(i)
        g = lambda n: bv.zext(im.field(PHDR, at, n), 64)

        def load(c):
            want = bv.eq(im.field(PHDR, at, 'p_type'), const(1, 32))
            c.need('is_loadable of segment %d' % i, BV((c.sub(c.ret)[0],)), c.sub(BV((want,))))
        call(ty, 'ProgramHeader', 'is_loadable', b, load, 'segment %d is_loadable' % i)

        def oa(c):
            c.need('file offset of segment %d' % i, c.sub(c.ret.f[0]), g('p_offset'))
            c.need('address of segment %d' % i, c.sub(c.ret.f[1]), g('p_paddr'))
        call(ty, 'ProgramHeader', 'offset_and_addr', b, oa, 'segment %d offset_and_addr' % i)
        call(ty, 'ProgramHeader', 'p_filesz', b, eqv('file size of segment %d' % i, lambda c: c.ret, g('p_filesz')), 'segment %d p_filesz' % i)
    v = field(I, L, 'sect_headers')
    p = I.unwrap_ptr(v)
    for i, b in enumerate(models.slice_elems(I, st, Ptr(p.obj, p.path, const(im.shnum, 64)))):
        ty = I.unwrap_ptr(b).meta[1]
        at = im.sh(i)

        def name(c):
            s = c.ret
            es = models.slice_elems(I, c.st, s)
            got = ''.join(chr(cval(c.sub(e))) if cval(c.sub(e)) is not None else '?' for e in es)
            if got != im.names[i]:
                c.bad('name of section %d' % i, got, im.names[i])
        call(ty, 'SectionHeader', 'sh_name', b, name, 'section %d sh_name' % i)
        call(ty, 'SectionHeader', 'sh_offset', b, eqv('offset of section %d' % i, lambda c: c.ret, bv.zext(im.field(SHDR, at, 'sh_offset'), 64)), 'section %d sh_offset' % i)
        if im.names[i] == '.symtab':
            def rng(c):
                c.need('start of section %d' % i, c.sub(c.ret.f[0]), const(im.symtab, 64))
                c.need('end of section %d' % i, c.sub(c.ret.f[1]), const(im.symtab + im.symsize, 64))
            call(ty, 'SectionHeader', 'section_range', b, rng, 'section %d section_range' % i)


SYMS = [('both', ['', 'tohost', 'x', 'fromhost']), ('reversed', ['', 'fromhost', 'tohost', 'main']), ('look-alikes', ['tohost2', 'atohost', 'fromhos', 'tohos']), ('only one', ['x', 'y', 'z', 'tohost']), ('last', ['main', 'abc', 'fromhost', 'tohost'])]


def image(cls, phnum=3, syms=('', 'tohost', 'x', 'fromhost'), kind=Fixed):
    im = kind(cls)
    s = elfimg.standard(cls, ph=phnum)
    im.__dict__.update({k: v for k, v in s.__dict__.items()})
    tab = b'\0'
    size, vo, vw = SYM[cls]
    for i, n in enumerate(syms):
        o = len(tab)
        tab += n.encode() + b'\0'
        im.num(im.symtab + i * size, 4, o)
    im.put(im.strtab, tab)
    im.symsize = size * len(syms)
    im.syms = syms
    im.ph = lambda i: im.phoff + i * im.phent
    im.sh = lambda i: im.shoff + i * im.shent
    return im


def host(im):
    size, vo, vw = SYM[im.cls]

    def f(c):
        for k, name in enumerate(('tohost', 'fromhost')):
            n, v = c.opt(c.ret.f[k])
            if (n == 'Some') != (name in im.syms):
                c.bad('%s is %sfound' % (name, '' if n == 'Some' else 'not '))
            if n == 'Some':
                i = im.syms.index(name)
                c.need('address of ' + name, c.sub(v), bv.zext(im.val(im.symtab + i * size + vo, vw), 64))
    return f


def check(rep):
    rep.rule = ('ElfLoader::try_new is summarised on files whose structural fields are fixed and whose other bytes are all unknown: every parsed header field must be exactly the file bytes at the offset, width and byte order the System V ABI assigns, '
                'for every header the file announces, also with the header tables at unknown places. The queries the loader answers (class, loadable, offset, address, size, names, symbol addresses) are compared with the same table. '
                'With unknown identification bytes the file is accepted only with the ELF magic, and the class byte selects the layout.')
    rep.assumptions = group.TRUST + ['File::open and Mmap::map give the file\'s bytes', 'up to three program headers and four sections', 'fields that are only displayed are compared where the struct keeps their ELF names']
    prog = dump.program()
    n = 0
    for x in (32, 64):
        for phnum, fill in ((3, 0), (0, None), (1, None), (3, None)):
            key = 'layout with %d segments%s/%d' % (phnum, '' if fill is None else ', else zero', x)

            def go():
                im = image(x, phnum)
                im.fill = fill
                I = machine(prog, x, im)
                Func(rep, I, key, NEW).check(start(I, I.new_state(), im), layout(im))
            n += 1
            group.guard(rep, key, go)

        def go2():
            im = image(x)
            I = machine(prog, x, im)
            rs = start(I, I.new_state(), im)
            if len(rs) != 1 or rs[0].kind != 'return':
                raise Stop('loading')
            methods(rep, prog, I, rs[0].st, rs[0].ret.f[0], im, x)
            rep.functions |= I.functions
        n += 1
        group.guard(rep, 'queries/%d' % x, go2)
        for tag, syms in [('else zero', SYMS[0][1])] + SYMS:
            def go3():
                im = image(x, 1, syms)
                im.fill = 0 if tag == 'else zero' else None
                for i in range(len(syms)) if tag == 'else zero' else ():
                    # the other fields of the third symbol look like names of the first
                    for j in range(4, SYM[x][0], 4):
                        im.num(im.symtab + i * SYM[x][0] + j, 4, 2 if i == 2 else 0x100 * i)
                I = machine(prog, x, im)
                rs = start(I, I.new_state(), im)
                if len(rs) != 1 or rs[0].kind != 'return':
                    raise Stop('loading')
                st = rs[0].st
                st.objs[('loader',)] = rs[0].ret.f[0]
                Func(rep, I, 'symbols, %s/%d' % (tag, x), LOADER + 'get_host_addr').check(I.run(LOADER + 'get_host_addr', [Ptr(('loader',), ()), I.isa_val()], st), host(im))
            n += 1
            group.guard(rep, 'symbols, %s/%d' % (tag, x), go3)

        # tables at unknown places
        def go5():
            im = image(x, 2, kind=Moved)
            for k, o, w in EHDR[x]:      # any multiple of 256 below 4096
                if k == 'e_phoff':
                    im.b[o] = 0
                    im.b.pop(o + 1)
            at = BV((0,) * 8 + tuple(im.byte(next(o for k, o, w in EHDR[x] if k == 'e_phoff') + 1)) + (0,) * 48)
            im.ph = lambda i: bv.add(at, const(i * im.phent, 64))
            I = machine(prog, x, im)
            Func(rep, I, 'program headers anywhere/%d' % x, NEW, panic_ok=lambda r: True).check(start(I, I.new_state(), im), layout(im))
        n += 1
        group.guard(rep, 'program headers anywhere/%d' % x, go5)

    def go6():
        im = Fixed(64)
        im.put(32, bytes(32))
        I = machine(prog, 64, im)

        def f(c):
            L = loaded(c)
            magic = bv.eq(im.val(0, 4), const(0x464c457f, 32))
            if L is None:
                if c.iff(magic):
                    c.bad('a file with the ELF magic is refused')
                return
            if not c.iff(magic):
                c.bad('a file without the ELF magic is loaded')
            ty, h = boxed(c, field(c.I, L, 'elf_header'))
            for v in (1, 2):
                if c.is_(im.byte(4), v):
                    im.cls = 32 * v
                    header(c, 'the file header', h, EHDR, im, 0)
                    break
        Func(rep, I, 'identification', NEW).check(start(I, I.new_state(), im), f)
    n += 1
    group.guard(rep, 'identification', go6)
    for size in (0, 3, 16, 51):
        def go7():
            im = Fixed(64, size)
            I = machine(prog, 64, im)

            def f(c):
                if loaded(c) is not None:
                    c.bad('a file of %d bytes is loaded' % size)
            Func(rep, I, 'file of %d bytes' % size, NEW, panic_ok=lambda r: True).check(start(I, I.new_state(), im), f)
        n += 1
        group.guard(rep, 'file of %d bytes' % size, go7)
    rep.floor('cases', n, 20)
    rep.floor('paths', rep.paths, 40)
