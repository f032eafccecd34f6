"""DRAM as little-endian byte memory."""
import bytemem
import dump
import group
import scen
from c24 import blocks


def check(rep):
    rep.rule = ('Every load and store of the bus is summarised for every naturally aligned DRAM address (offset bits unknown), with the memory content and the stored value unknown: a load must return exactly the addressed bytes, '
                'least significant first, extended as its name says; the memory after a store must equal the memory before it with exactly the addressed bytes replaced.')
    rep.assumptions = group.TRUST + ['DRAM base 0x80000000 and 0x100000000, size 2 GiB', 'naturally aligned addresses (C22)']
    prog = dump.program()
    n = 0
    for base in (scen.DRAM_BASE, 0x100000000):
        for fn, w, sg in bytemem.LOADS + [(f, w, None) for f, w in bytemem.STORES]:
            key = 'DRAM at %#x' % base
            n += 1
            group.guard(rep, key, lambda: bytemem.run(rep, prog, key, 'dram', 'dram', base, scen.DRAM_SIZE, fn, w, sg, blocks(base, base + scen.DRAM_SIZE), (8, 16, 32, 64)))
    rep.floor('accesses', n, 22)
    rep.floor('paths', rep.paths, 22)
