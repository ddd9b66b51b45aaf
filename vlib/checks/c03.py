from ..driver import Check
from . import jsonfam


def check(c):
    if c is None:
        return Check("C03", "exploration", "Random class definitions; per class byte sequences: mutated, spliced, truncated and random JSON, all truncations of some documents, 150000-fold nested ignored content; oracle: independent strict parser plus reference model. Distinct by (class, bytes).")
    c.required = {"rejected": 1000, "accepted": 1000, "extensions within documents": 500, "deep": 8}
    jsonfam.run(c, "c03", 150, 3000, extra=lambda i: ["vhcheck::overflowProbe();"] if i == 0 else [])
