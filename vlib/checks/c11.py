from ..driver import Check
from . import binfam


def check(c):
    if c is None:
        return Check("C11", "fault_enumeration", "Random class definitions, per class random values: the data truncated at every byte (at least 100 positions for longer data) and 25 mutants (bit flips, interesting bytes, insertions, "
                     "removals, oversized lengths, splices) plus noise; success, value, consumed bytes and kind of exception compared with an independent decoder; memory limited to 8 MiB. "
                     "Non-trivial: not empty; distinct by (class, bytes).")
    c.required = {"truncations": 10000, "decodable": 1500, "allocation_failures": 100, "rejected: variant index out of range": 50, "rejected: unknown reference": 50, "rejected: invalid length": 100,
                  "rejected: reference of other type": 100, "wrong_references": 500}
    binfam.run(c, "c11", 14, 400)
