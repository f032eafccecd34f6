"""Loading of program, kernel and initrd."""
import re
import bv
import c32
import dump
import elfimg
import group
from bv import BV, const, cval
from elfimg import PHDR
from func import Func
from interp import Agg, ArrC, Lazy, Ptr, Stop, SymArr

NEW = 'carron::bus::dram::Dram::new'
SIZE = 0x80000000
KERNEL = {32: 0x400000, 64: 0x200000}
FILES = {'kernel_path': 5, 'initrd_path': 7}


class Files(c32.Fixed):
    """the program image plus a kernel and an initrd of a few unknown bytes, told apart by the path they are opened with"""
    names = {}

    def hooks(self):
        return [(re.compile(r'^std::fs::File::open::<'), self.open), (re.compile(r'^memmap::Mmap::map$'), self.map)] + [h for h in elfimg.Image.hooks(self) if h[1] not in ()]

    def open(self, I, st, f, a, at, dty):
        v = a[0]
        for _ in range(3):
            if isinstance(v, Ptr) and v.obj and v.obj[0] == 'path':
                break
            if isinstance(v, Ptr) and not isinstance(v.meta, BV):
                v = I.read(st, v)
                continue
            break
        s = repr(a[0]) + repr(v)
        which = next((k for k in FILES if k in s), 'elf')
        st.events += (('open', which),)
        return I.ok(dty, Lazy('file ' + which, I.p.fields(dty, 0)[0][1]))

    def map(self, I, st, f, a, at, dty):
        v = I.read(st, a[0])
        if not isinstance(v, Lazy):
            raise Stop('mapping %r' % (v,))
        return I.ok(dty, Lazy('map ' + v.name, I.p.fields(dty, 0)[0][1]))

    def deref(self, I, st, f, a, at, dty):
        v = I.read(st, a[0])
        k = v.name.split()[-1] if isinstance(v, Lazy) else 'elf'
        if k in FILES:
            key = ('side', k)
            if key not in st.objs:
                st.objs[key] = ArrC([bv.sym('%s[%d]' % (k, i), 8) for i in range(FILES[k])])
            return Ptr(key, (('i', const(0, 64)),), const(FILES[k], 64))
        return elfimg.Image.deref(self, I, st, f, a, at, dty)


def spec(im, x, kernel, initrd):
    def f(c):
        I, st = c.I, c.st
        d = c.ret
        g = lambda n: c32.field(I, d, n)
        segs = []
        for i in range(im.phnum):
            at = im.ph(i)
            v = lambda n: bv.zext(im.field(PHDR, at, n), 64)
            if c.iff(bv.eq(im.field(PHDR, at, 'p_type'), const(1, 32))):
                segs.append((cval(v('p_offset')), c.sub(v('p_paddr')), cval(v('p_filesz'))))
        if not segs:
            c.bad('a file without loadable segments is loaded')
        base = segs[0][1]
        c.need('memory base', c.sub(g('base_addr')), base)
        c.need('memory size', c.sub(g('size')), const(SIZE, 64))
        v = g('dram')
        n = c.sub(v.f[[k for k, _ in I.p.fields(v.ty)].index('len')])
        c.need('bytes of memory', n, const(SIZE, 64))
        p = I.unwrap_ptr(v)
        got = I.obj(st, p.obj)
        u8 = I.vec_elem(v.ty)
        want = SymArr('zeroed:', u8, None)
        if not isinstance(got, SymArr) or not got.name.startswith('zeroed:'):
            c.bad('memory does not start out zero')
        got = SymArr('zeroed:', got.ety, None, got.w)
        want = SymArr('zeroed:', got.ety, None)
        if cval(p.path[-1][1]) != 0:
            raise Stop('memory starts inside its buffer')
        for off, pa, sz in segs:
            for j in range(sz):
                want = c.upd(want, c.sub(bv.add(bv.sub(pa, base), const(j, 64))), c.sub(im.byte(off + j)))
        if kernel:
            for j in range(FILES['kernel_path']):
                want = c.upd(want, const(KERNEL[x] + j, 64), bv.sym('kernel_path[%d]' % j, 8))
        s, sv = c.opt(g('initrd_start'))
        e, ev = c.opt(g('initrd_end'))
        if (s == 'Some') != initrd or (e == 'Some') != initrd:
            c.bad('the position of the initrd is %s' % ('missing' if initrd else 'made up'))
        if initrd:
            c.need('length of the initrd', c.sub(bv.sub(ev, sv)), const(FILES['initrd_path'], 64))
            for j in range(FILES['initrd_path']):
                want = c.upd(want, c.sub(bv.add(bv.sub(sv, base), const(j, 64))), bv.sym('initrd_path[%d]' % j, 8))
        c.array('memory', got, want)
    return f


def misfit(c):
    c.bad('an image that does not fit is accepted')


def image(x, filesz, fixed_types=None, paddrs=None):
    im = c32.image(x, 3, kind=Files)
    for i, sz in enumerate(filesz):
        at = im.ph(i)
        kw = {'p_offset': (0x900, 0x920, 0xa00)[i], 'p_filesz': sz}
        if fixed_types:
            kw['p_type'] = fixed_types[i]
        if paddrs:
            kw['p_paddr'] = paddrs[i] or 0x80000000
        im.fields(PHDR, at, **kw)
        if paddrs and not paddrs[i]:      # anywhere in a 16 MiB range, at a multiple of 256
            o = next(o for n, o, w in PHDR[x] if n == 'p_paddr')
            im.b.pop(at + o + 1)
            im.b.pop(at + o + 2)
    return im


def check(rep):
    rep.rule = ('ElfLoader::try_new followed by Dram::new is summarised on program images with three segments whose types, physical addresses and contents are unknown, with and without kernel and initrd: memory is 2 GiB from the first loadable segment\'s '
                'address, and holds exactly the file bytes of each loadable segment at its physical address, the kernel and the initrd where they are announced, and zero elsewhere. Images that do not fit stop the emulator instead.')
    rep.assumptions = group.TRUST + ['File::open and Mmap::map give the file\'s bytes', 'segments of up to nine bytes, kernel and initrd of a few bytes', 'the program\'s entry is its first loadable segment']
    prog = dump.program()
    n = 0
    for x in (32, 64):
        for tag, sizes, types, paddrs, kernel, initrd in (
                ('types', (3, 2, 4), None, (0x80000000, 0x80000100, 0x80001000), False, False),
                ('addresses', (4, 9, 0), (1, 1, 1), (0x80000000, None, 0x80000000), False, False),
                ('one', (9, 4, 4), (1, 2, 6), None, False, False),
                ('second', (3, 3, 4), (0x70000003, 1, 1), (0x1000, 0x80000000, None), False, False),
                ('empty first', (0, 4, 2), (1, 1, 0), (0x80000400, 0x80000500, 0x80000000), False, False),
                ('high', (3, 4, 0), (1, 1, 1), (0x90000000, 0x90000200, 0x90000300), True, True),
                ('outside: below', (4, 4, 0), (1, 1, 1), (0x80000000, 0x7ffffff0, 0x80000000), False, False),
                ('outside: far below', (4, 4, 0), (1, 1, 1), (0x80000000, 0x1000, 0x80000000), False, False),
                ('outside: last byte', (4, 4, 0), (1, 1, 1), (0x70000000, 0xeffffffd, 0x70000000), False, False),
                ('outside: above', (4, 4, 0), (1, 1, 1), (0x10000000, 0xf0000000, 0x10000000), False, False),
                ('last bytes', (4, 4, 0), (1, 1, 1), (0x70000000, 0xeffffffc, 0x70000000), False, False),
                ('kernel above an odd base', (4, 4, 0), (1, 1, 1), (0x80021004, 0x80022000, 0x80021004), True, False),
                ('outside: end of the file', (4, 4, 0), (1, 1, 1), (0x80000000, 0x80000100, 0x80000000), False, False),
                ('outside: initrd', (4, 0, 0), (1, 1, 1), (0x10000000, 0x10000000, 0x10000000), False, True),
                ('kernel', (4, 4, 0), (1, 1, 1), (0x80000000, 0x80000200, 0x80000300), True, False),
                ('initrd', (4, 4, 0), (1, 1, 1), (0x80000000, 0x80000200, 0x80000300), False, True),
                ('kernel and initrd', (4, 4, 0), (1, 1, 1), (0x80000000, 0x80000200, 0x80000300), True, True)):
            key = '%s/%d' % (tag, x)
            out = tag.startswith('outside')
            n += 1

            def go():
                im = image(x, sizes, types, paddrs)
                if 'end of the file' in tag:
                    im.fields(PHDR, im.ph(1), p_offset=im.size - 2)
                I = c32.machine(prog, x, im)
                rs = c32.start(I, I.new_state(), im)
                if len(rs) != 1 or rs[0].kind != 'return':
                    raise Stop('loading: %s' % [(r.kind, getattr(r, 'why', None)) for r in rs][:3])
                st = rs[0].st
                L = rs[0].ret.f[0]
                fn = prog.fns[prog.fn(NEW)]
                at = fn['body']['lt'][1:1 + fn['body']['arg_count']]
                ty = prog.types[at[1]]
                aty = next(ty[k] for k in ('elem', 'pointee', 'to') if k in ty)
                fs = []
                for nme, ft in I.p.fields(aty):
                    if nme in FILES:
                        want = kernel if nme.startswith('kernel') else initrd
                        vi = I.p.variant_index(ft, 'Some' if want else 'None')
                        fs.append(Agg(ft, vi, [Lazy('args.' + nme, I.p.fields(ft, vi)[0][1])] if want else ()))
                    else:
                        fs.append(I.lazy('args.' + nme, ft))
                st.objs[('args',)] = Agg(aty, 0, fs)
                Func(rep, I, key, NEW, panic_ok=None if types and paddrs and None not in paddrs and not out else lambda r: True).check(I.run(NEW, [L, Ptr(('args',), ()), I.isa_val()], st), misfit if out else spec(im, x, kernel, initrd))
            group.guard(rep, key, go)
    rep.floor('cases', n, 14)

    rep.floor('paths', rep.paths, 16)
