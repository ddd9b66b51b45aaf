from ..driver import Check
from . import binfam


def check(c):
    if c is None:
        return Check("C08", "exploration", "Random class definitions with all supported member types, per class random values (partly with shared objects, big containers, NaN payloads, invalid UTF-8); sequences of objects/values "
                     "in one stream. Non-trivial: more than one byte; distinct by (class, bytes).")
    c.required = {"enormous-containers": 40, "sequence_elements": 2000}
    binfam.run(c, "c08", 400, 6000, enormous=True, extra=lambda i: ["vhcheck::sequences();"])
