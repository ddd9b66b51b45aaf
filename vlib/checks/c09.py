from ..driver import Check
from . import binfam


def check(c):
    if c is None:
        return Check("C09", "exploration", "Random class definitions with all supported member types, per class random values; written bytes matched byte by byte against an independent encoder, independently encoded data "
                     "(random identifiers incl. big ones) read by the library, written data read by an independent decoder. Non-trivial: more than one byte; distinct by (class, bytes).")
    c.required = {"enormous-containers": 40, "pointers_first": 500, "pointers_repeated": 200}
    binfam.run(c, "c09", 300, 5000, enormous=True)
