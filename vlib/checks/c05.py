from ..driver import Check
from . import jsonfam


def check(c):
    if c is None:
        return Check("C05", "exploration", "Random class definitions; per class mutated documents x 10 sets of fatal error kinds (each single kind, all, all but the first occurring, random). Non-trivial: at least one error occurs; distinct by (class, document).")
    c.required = {"fatal TypeMismatch": 500, "fatal ArraySizeMismatch": 20, "fatal ConversionError": 20, "fatal UnexpectedDuplicate": 20, "fatal InvalidVariantObject": 20, "fatal InvalidVariantIndex": 20, "nothing fatal": 500}
    jsonfam.run(c, "c05", 200, 3000)
