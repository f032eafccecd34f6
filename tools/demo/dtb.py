"""shared by the C34 seeds: a guest program that writes the device tree it was given to its standard output, and a checker of that output"""
PROG = """
# xlen %d
%s.include "pre.inc"
    li s0, 0x80010000
    addi t0, s0, 256
    mv t1, a1
    li t2, 4064
1:  lbu t3, 0(t1)
    sb t3, 0(t0)
    addi t0, t0, 1
    addi t1, t1, 1
    addi t2, t2, -1
    bnez t2, 1b
    sw zero, 4(s0)
    sw zero, 12(s0)
    sw zero, 20(s0)
    sw zero, 28(s0)
    li a7, 64
    sw a7, 0(s0)
    li a0, 1
    sw a0, 8(s0)
    addi a1, s0, 256
    sw a1, 16(s0)
    li a2, 4064
    sw a2, 24(s0)
    li t1, 0x80f00000
    sw s0, 0(t1)
2:  lw t2, 0(t1)
    bnez t2, 2b
    PASS
"""
DEMO = r"""#!/bin/bash
# the guest program in prog.S prints the device tree it is given; check.py reads it and compares properties
here=$(cd "$(dirname "$0")" && pwd)
xlen=64; grep -q '^# *xlen 32' "$here/prog.S" && xlen=32
work=$(mktemp -d) || exit 3
trap 'rm -rf "$work"' EXIT
/usr/bin/clang --target=riscv$xlen-unknown-elf -march=rv${xlen}imac_zicsr_zifencei -mno-relax -I"$here" -c "$here/prog.S" -o "$work/p.o" 2> "$work/err" || exit 3
/usr/bin/llvm-objcopy -O binary -j .text "$work/p.o" "$work/p.bin" || exit 3
python3 "$here/mkelf.py" $xlen "$work/p.bin" "$work/p.elf" || exit 3
head -c 5000 /dev/zero > "$work/initrd"
opts=$(sed -n "s/^# *run *//p" "$here/prog.S" | sed "s#INITRD#$work/initrd#")
timeout 100 ./target/debug/carron $opts "$work/p.elf" < /dev/null > "$work/out" 2> "$work/err"
r=$?
[ $r -eq 1 ] || { echo "exit status $r"; tail -n 2 "$work/err"; exit 1; }
PYTHONDONTWRITEBYTECODE=1 python3 "$here/check.py" "$work/out"
"""


def files(xlen, want, opts=''):
    chk = open('/verif/sa/fdt.py').read() + '''

import sys
out = open(sys.argv[1], 'rb').read()
h, root = read(out[out.index(bytes([0xd0, 0x0d, 0xfe, 0xed])):])
n = 0
for path, prop, value in %r:
    d = root.find(path)
    got = d.props.get(prop).hex() if d and prop in d.props else None
    if got != value:
        print(path, prop, 'is', got, 'and not', value)
        n = 1
sys.exit(n)
''' % (want,)
    return {'prog.S': PROG % (xlen, '# run %s\n' % opts if opts else ''), 'demo.sh': DEMO, 'check.py': chk}
