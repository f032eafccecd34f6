"""wrap a flat RISC-V image loaded at 0x80000000 as an ELF file with tohost/fromhost symbols"""
import struct
import sys

x = int(sys.argv[1])
img = open(sys.argv[2], 'rb').read()
BASE, TOHOST, FROMHOST = 0x80000000, 0x80f00000, 0x80f00040
strtab = b'\0tohost\0fromhost\0'
shstr = b'\0.text\0.symtab\0.strtab\0.shstrtab\0'
if x == 64:
    EH, PH, SH, SY = 64, 56, 64, 24
    sym = lambda n, v: struct.pack('<IBBHQQ', n, 16, 0, 1, v, 8)
else:
    EH, PH, SH, SY = 52, 32, 40, 16
    sym = lambda n, v: struct.pack('<IIIBBH', n, v, 8, 16, 0, 1)
symtab = bytes(SY) + sym(1, TOHOST) + sym(8, FROMHOST)
off = 0x1000
o_text = off
o_sym = o_text + (len(img) + 15) // 16 * 16
o_str = o_sym + len(symtab)
o_shs = o_str + len(strtab)
o_sh = (o_shs + len(shstr) + 15) // 16 * 16


def sh(name, typ, addr, o, size, link, ent):
    if x == 64:
        return struct.pack('<IIQQQQIIQQ', name, typ, 0, addr, o, size, link, 0, 1, ent)
    return struct.pack('<IIIIIIIIII', name, typ, 0, addr, o, size, link, 0, 1, ent)


if x == 64:
    eh = struct.pack('<16sHHIQQQIHHHHHH', b'\x7fELF\x02\x01\x01' + bytes(9), 2, 243, 1, BASE, EH, o_sh, 0, EH, PH, 1, SH, 5, 4)
    ph = struct.pack('<IIQQQQQQ', 1, 7, o_text, BASE, BASE, len(img), len(img), 0x1000)
else:
    eh = struct.pack('<16sHHIIIIIHHHHHH', b'\x7fELF\x01\x01\x01' + bytes(9), 2, 243, 1, BASE, EH, o_sh, 0, EH, PH, 1, SH, 5, 4)
    ph = struct.pack('<IIIIIIII', 1, o_text, BASE, BASE, len(img), len(img), 7, 0x1000)
out = bytearray(o_sh)
out[:EH] = eh
out[EH:EH + PH] = ph
out[o_text:o_text + len(img)] = img
out[o_sym:o_sym + len(symtab)] = symtab
out[o_str:o_str + len(strtab)] = strtab
out[o_shs:o_shs + len(shstr)] = shstr
out += sh(0, 0, 0, 0, 0, 0, 0) + sh(1, 1, BASE, o_text, len(img), 0, 0) + sh(7, 2, 0, o_sym, len(symtab), 3, SY) + sh(15, 3, 0, o_str, len(strtab), 0, 0) + sh(23, 3, 0, o_shs, len(shstr), 0, 0)
open(sys.argv[3], 'wb').write(out)
