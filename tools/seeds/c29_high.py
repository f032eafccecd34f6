prop = 'C29'
needs = 'a 64-bit program loaded above 4 GiB'
breaks = 'the boot ROM holds only the lower half of the entry address'
edits = [('src/bus/mrom.rs', '            entry_upper >> 32,', '            entry_upper >> 31 >> 1,')]
prog = '''
# xlen 64
.include "pre.inc"
    PASS
'''
_m = open('/verif/tools/demo/mkelf.py').read().replace('BASE, TOHOST, FROMHOST = 0x80000000, 0x80f00000, 0x80f00040', 'BASE, TOHOST, FROMHOST = 0x180000000, 0x180f00000, 0x180f00040')
_p = open('/verif/tools/demo/pre.inc').read().replace('0x80f00000', '0x180f00000')
files = {'mkelf.py': _m, 'pre.inc': _p}
