"""An ELF file as a byte array: laid out by the ELF specification, with the bytes of the fields under study unknown."""
import re
import bv
from bv import BV, const, cval
from interp import Agg, Lazy, Ptr, SymArr
from machine import Machine

FILE = 'elf_file'
# (name, offset, width) per class, System V ABI
EHDR = {
    32: [('e_type', 16, 2), ('e_machine', 18, 2), ('e_version', 20, 4), ('e_entry', 24, 4), ('e_phoff', 28, 4), ('e_shoff', 32, 4), ('e_flags', 36, 4), ('e_ehsize', 40, 2),
         ('e_phentsize', 42, 2), ('e_phnum', 44, 2), ('e_shentsize', 46, 2), ('e_shnum', 48, 2), ('e_shstrndx', 50, 2)],
    64: [('e_type', 16, 2), ('e_machine', 18, 2), ('e_version', 20, 4), ('e_entry', 24, 8), ('e_phoff', 32, 8), ('e_shoff', 40, 8), ('e_flags', 48, 4), ('e_ehsize', 52, 2),
         ('e_phentsize', 54, 2), ('e_phnum', 56, 2), ('e_shentsize', 58, 2), ('e_shnum', 60, 2), ('e_shstrndx', 62, 2)],
}
PHDR = {
    32: [('p_type', 0, 4), ('p_offset', 4, 4), ('p_vaddr', 8, 4), ('p_paddr', 12, 4), ('p_filesz', 16, 4), ('p_memsz', 20, 4), ('p_flags', 24, 4), ('p_align', 28, 4)],
    64: [('p_type', 0, 4), ('p_flags', 4, 4), ('p_offset', 8, 8), ('p_vaddr', 16, 8), ('p_paddr', 24, 8), ('p_filesz', 32, 8), ('p_memsz', 40, 8), ('p_align', 48, 8)],
}
SHDR = {
    32: [('sh_name', 0, 4), ('sh_type', 4, 4), ('sh_flags', 8, 4), ('sh_addr', 12, 4), ('sh_offset', 16, 4), ('sh_size', 20, 4), ('sh_link', 24, 4), ('sh_info', 28, 4), ('sh_addralign', 32, 4), ('sh_entsize', 36, 4)],
    64: [('sh_name', 0, 4), ('sh_type', 4, 4), ('sh_flags', 8, 8), ('sh_addr', 16, 8), ('sh_offset', 24, 8), ('sh_size', 32, 8), ('sh_link', 40, 4), ('sh_info', 44, 4), ('sh_addralign', 48, 8), ('sh_entsize', 56, 8)],
}
SYM = {32: (16, 4, 4), 64: (24, 8, 8)}      # entry size, offset and width of st_value
PHSIZE, SHSIZE = {32: 32, 64: 56}, {32: 40, 64: 64}


class Image:
    """bytes known so far; everything else is unknown"""

    def __init__(self, cls, size=0x1000):
        self.cls, self.size, self.b, self.fill = cls, size, {}, None
        bv.RD_RULES[FILE] = self.rule

    def put(self, at, data):
        for i, x in enumerate(data):
            self.b[at + i] = x

    def num(self, at, w, v):
        self.put(at, int(v).to_bytes(w, 'little'))

    def fields(self, table, base, **kw):
        for n, o, w in table[self.cls]:
            if n in kw:
                self.num(base + o, w, kw.pop(n))
        assert not kw

    def byte(self, i):
        if i in self.b:
            return const(self.b[i], 8)
        if self.fill is not None:
            return const(self.fill, 8)
        return BV(bv.rd(FILE, const(i, 64), 8))

    def val(self, at, w):
        return bv.cat(*[self.byte(at + i) for i in range(w)]) if w > 1 else self.byte(at)

    def field(self, table, base, name):
        for n, o, w in table[self.cls]:
            if n == name:
                return self.val(base + o, w)

    def rule(self, idx, w):
        k = cval(idx)
        if k is None or w != 8:
            return None
        return const(self.b[k], w) if k in self.b else const(self.fill, w) if self.fill is not None else None

    def install(self, st, u8):
        bv.RD_RULES[FILE] = self.rule
        st.objs[('file',)] = SymArr(FILE, u8, const(self.size, 64))

    def deref(self, I, st, f, a, at, dty):
        return Ptr(('file',), (('i', const(0, 64)),), const(self.size, 64))

    def hooks(self):
        return [(re.compile(r'std::io::Error>?::(new|other)(::<.*>)?$'), m_err), (re.compile(r'^std::fs::File::open::<'), m_ok('host_file')), (re.compile(r'^memmap::Mmap::map$'), m_ok('mapping')), (re.compile(r'^<memmap::Mmap as std::ops::Deref>::deref$'), self.deref),
                (re.compile(r'^<std::fs::File as .*Drop|drop_in_place::<std::fs::File>|drop_in_place::<memmap::Mmap>'), m_unit)]


def m_ok(name):
    def m(I, st, f, a, at, dty):
        st.events += ((name, a[0] if a else None),)
        return I.ok(dty, Lazy(name, I.p.fields(dty, 0)[0][1]))
    return m


def m_err(I, st, f, a, at, dty):
    return Lazy('io_error', dty)


def m_unit(I, st, f, a, at, dty):
    return Agg(dty, 0, ())


def standard(cls, ph=3, phent=None, shent=None):
    """three program headers, four sections (.symtab, .strtab, .shstrtab and another), a symbol table of four entries"""
    im = Image(cls)
    im.put(0, b'\x7fELF')
    im.put(4, bytes([1 if cls == 32 else 2]))
    im.phoff, im.phent, im.phnum = 0x140, phent or PHSIZE[cls] + 8, ph
    im.shoff, im.shent, im.shnum, im.shstrndx = 0x400, shent or SHSIZE[cls] + 16, 4, 2
    im.fields(EHDR, 0, e_phoff=im.phoff, e_shoff=im.shoff, e_phentsize=im.phent, e_phnum=ph, e_shentsize=im.shent, e_shnum=4, e_shstrndx=2)
    im.names = ['.text', '.strtab', '.shstrtab', '.symtab']
    tab = b'\0' + b''.join(n.encode() + b'\0' for n in im.names)
    im.put(0x300, tab)
    im.strtab, im.symtab = 0x700, 0x800
    for i, n in enumerate(im.names):
        kw = {'sh_name': tab.index(n.encode() + b'\0')}
        if n == '.shstrtab':
            kw['sh_offset'] = 0x300
        if n == '.strtab':
            kw['sh_offset'] = im.strtab
        if n == '.symtab':
            kw['sh_offset'], kw['sh_size'] = im.symtab, 4 * SYM[cls][0]
        im.fields(SHDR, im.shoff + i * im.shent, **kw)
    return im
