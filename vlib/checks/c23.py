from ..driver import Check
from . import binfam


def check(c):
    if c is None:
        return Check("C23", "fault_enumeration", "Random class definitions, per class random values: output failing at every byte (at least 60 positions for longer data), by error return or exception; input in random small pieces; "
                     "input failing at every byte into new or populated objects which are inspected, restored again or written afterwards. Non-trivial: more than one byte; distinct by (class, bytes).")
    c.required = {"write_faults": 20000, "read_faults": 20000, "piecewise_reads": 1000, "restores_after_fault": 5000}
    binfam.run(c, "c23", 30, 500)
