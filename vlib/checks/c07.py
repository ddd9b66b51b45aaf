from ..driver import Check
from . import jsonfam


def check(c):
    if c is None:
        return Check("C07", "exploration", "Random class definitions (incl. string views and C-strings); source object, text or document is destroyed or overwritten before the result is inspected under "
                     "AddressSanitizer. Distinct by (class, value).")
    c.required = {"object destroyed": 500, "object modified": 500, "text destroyed": 500, "document destroyed": 500, "in-situ document": 200, "value pushed": 500, "strings": 5000}
    jsonfam.run(c, "c07", 200, 3000, push_only=True)
