from ..driver import Check
from ..progs import Prog


def check(c):
    if c is None:
        return Check("C17", "exploration", "Random class definitions (JSON, binary or both); random values restored up to three times in a row into objects populated with random content, alternating JSON and binary; result compared with "
                     "the denoted value; previously shared objects monitored. Non-trivial: any; distinct by (class, previous content, data).")
    c.min_evals = 5000
    c.required = {"json_restores": 3000, "binary_restores": 3000, "watched_objects": 1000, "partial_restores": 1000}
    gen = c.generator()
    n = c.scale(7, 24)
    progs = [Prog(c.seed * 1000 + 900 + i, ["json", "bin", "both"][i % 3], i).populate(i % 8, 8, extra=c.scale(6, 14)) for i in range(n)]
    # data of certain versions only covers some of the members
    progs += [Prog(c.seed * 1000 + 950 + i, "bin", n + i).populate((c.seed + i) % 8, 8, extra=c.scale(4, 10)).add_versions() for i in range(c.scale(1, 8))]
    c.run_programs(gen, progs, "c17", c.scale(200, 4000), ["json", "binary"])
