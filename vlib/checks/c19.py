from ..driver import Check
from ..progs import Prog
from .c18 import ChronoProg


def check(c):
    if c is None:
        return Check("C19", "exploration", "Every operation (writing, reading valid/mutated/truncated data in JSON and binary, throwing and not throwing) on random classes is executed alone in a forked process first; then 8 threads "
                     "under ThreadSanitizer execute the same or random operations on shared immutable inputs and own targets with random delays before operations and within streams; results compared with those when "
                     "executed alone; finally random histories of operations in one thread. Case: one round of threads resp. one history; distinct by operations and overlaps observed.")
    c.required = {"operations": 20000, "executed alone": 500, "operations in histories": 5000, "op toJson": 1000, "op fromJson": 1000, "op fromJson throwing": 500, "op write": 1000, "op read": 1000, "op read truncated": 500,
                  "op format": 500, "op pull from shared value": 500, "op fromJson invalid text": 500, "distinct pairs of operation kinds observed overlapping": 150}
    c.min_evals = 200
    n = c.scale(5, 20)
    gen = c.generator()
    progs = []
    for i in range(n):
        k = i % 5
        if k == 3:
            p = Prog(c.seed * 1000 + 1100 + i, "bin", i).populate(i % n, n, extra=6).add_versions()
        elif k == 4:
            p = ChronoProg(c.seed * 1000 + 1100 + i, "json", i, floats_in_sets=False).populate(i % n, n, extra=6)
        else:
            p = Prog(c.seed * 1000 + 1100 + i, "both", i).populate(i % n, n, extra=6)
        progs.append(p)
    c.run_programs(gen, progs, "c19", c.scale(40, 1500), ["json", "binary"], san="tsan", extra=lambda i: ["vhcheck::finish();"])
