"""Atomics."""
import group
import isa


def check(rep):
    rep.rule = "For every encoding of the table (all operand fields and register/CSR contents unknown) the decode and execute code is interpreted over the bit-provenance domain; each feasible path's effect summary (register, pc, reservation, memory and trap effects, and everything that must stay unchanged) must have the same normal form as the table's specification under the path's facts."
    rep.assumptions = group.TRUST
    n = group.run32(rep, group.AMO)
    rep.floor('encodings', n, 33)
