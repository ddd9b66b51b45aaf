from ..driver import Check
from . import jsonfam


def check(c):
    if c is None:
        return Check("C20", "exploration", "All combinations of error kind, expected and actual type, absent/empty/special/random record and member names and absent/zero/largest/random index formatted and compared with an "
                     "independently built message; additionally the messages of the errors really reported for mutated documents of random classes compared with messages built from an independent model. Distinct by message.")
    c.required = {"message " + k: 5000 for k in ("type mismatch", "array size mismatch", "conversion error", "unexpected duplicate", "invalid variant object", "invalid variant index")}
    c.required.update({"messages of documents": 1000, "message without record": 5000, "message with member": 5000, "message with index": 5000, "message with record only": 3000, "message with member and index": 5000})
    jsonfam.run(c, "c20", 120, 3000, n=3, extra=lambda i: ["vhcheck::enumerate();"] if i == 0 else [])
