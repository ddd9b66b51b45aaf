from ..driver import Check
from . import jsonfam


def check(c):
    if c is None:
        return Check("C04", "exploration", "Random class definitions; per class documents made from a random value by up to 12 structural mutations; expected errors from an independent model. Non-trivial: at least one expected error; distinct by (class, document).")
    c.required = {"errors object reused": 200, "errors object reused after fatal error": 200, "enormous-containers": 20, "error TypeMismatch": 500, "error ArraySizeMismatch": 20, "error ConversionError": 50, "error UnexpectedDuplicate": 20, "error InvalidVariantObject": 20, "error InvalidVariantIndex": 20, "documents with several errors": 200}
    jsonfam.run(c, "c04", 500, 8000, enormous=True)
