#!/bin/bash
# assembles prog.S, wraps it as an ELF file and runs it on ./target/debug/carron; the guest program reports its verdict through tohost
here=$(cd "$(dirname "$0")" && pwd)
xlen=64; grep -q '^# *xlen 32' "$here/prog.S" && xlen=32
work=$(mktemp -d) || exit 3
trap 'rm -rf "$work"' EXIT
/usr/bin/clang --target=riscv$xlen-unknown-elf -march=rv${xlen}imac_zicsr_zifencei -mno-relax -I"$here" -c "$here/prog.S" -o "$work/p.o" 2> "$work/err" || exit 3
/usr/bin/llvm-objcopy -O binary -j .text "$work/p.o" "$work/p.bin" || exit 3
python3 "$here/mkelf.py" $xlen "$work/p.bin" "$work/p.elf" || exit 3
# one run per "# run" line, with the options it names
grep '^# *run' "$here/prog.S" > "$work/runs" || echo '# run' > "$work/runs"
while read -r _ _ opts; do
    timeout 100 ./target/debug/carron $opts "$work/p.elf" < /dev/null 2>&1 | tail -n 5 > "$work/out"
    r=${PIPESTATUS[0]}
    [ $r -eq 1 ] && continue
    echo "guest verdict: exit status $r (1 means pass) with options '$opts'"
    tail -n 3 "$work/out" | cut -c1-300
    exit 1
done < "$work/runs"
exit 0
