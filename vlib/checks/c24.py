from ..driver import Check
from . import jsonfam


def check(c):
    if c is None:
        return Check("C24", "exploration", "Random class definitions and top-level types; every entry point run on the same value or text. Distinct by (class, text).")
    c.required = {"top-level mismatch": 100, "malformed text": 100, "push: push(array)": 100, "pull: pull(value)": 100}
    jsonfam.run(c, "c24", 200, 3000)
