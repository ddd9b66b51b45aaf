from ..driver import Check
from . import jsonfam


def check(c):
    if c is None:
        return Check("C06", "exploration", "Random class definitions; per class documents made from a random value by up to 12 mutations (removed, added, reordered, replaced parts), deserialized into a new and into a populated object; expected values from an independent model. Non-trivial: mutated; distinct by (class, document).")
    c.required = {"enormous-containers": 20, "mismatching documents": 500, "pulled into populated object": 500}
    jsonfam.run(c, "c06", 300, 5000, enormous=True)
