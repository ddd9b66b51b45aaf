"""Common part of the checks running on random programs with JSON (de)serialization."""
from ..driver import Check
from ..progs import Prog
from .c01 import TOPS, ENORMOUS


def run(c, header, quick_cases, thorough_cases, n=8, tn=24, tops=True, push_only=False, min_evals=1000, progs=None, extra=None, enormous=False):
    c.min_evals = min_evals
    n = c.scale(n, tn)
    gen = c.generator()
    progs = progs or [Prog(c.seed * 1000 + i, "json", i, push_only=push_only).populate(i % 8, 8, extra=c.scale(6, 14)) for i in range(n)]
    c.run_programs(gen, progs, header, c.scale(quick_cases, thorough_cases), ["json"], top=(lambda p: TOPS[p.index % 8::8]) if tops else None, extra=extra, enormous=ENORMOUS if enormous else ())
    return gen
