prop = 'C32'
needs = 'a program with another symbol whose name starts with tohost, after tohost in the symbol table'
breaks = 'the request address is taken from the last symbol whose name starts with tohost'
edits = [('src/elfload.rs', 'if st_name == "tohost" {', 'if st_name.starts_with("tohost") {')]
prog = '''
# xlen 64
.include "pre.inc"
    PASS
'''
_m = open('/verif/tools/demo/mkelf.py').read()
_m = _m.replace("b'\\0tohost\\0fromhost\\0'", "b'\\0tohost\\0fromhost\\0tohost_shadow\\0'").replace('sym(8, FROMHOST)', 'sym(17, TOHOST + 0x100) + sym(8, FROMHOST)')
assert _m.count('shadow') == 1 and _m.count('0x100)') == 1
files = {'mkelf.py': _m}
