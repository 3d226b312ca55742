"""What every proof of this framework trusts, and what the mechanical extraction drops."""
TRUSTED = [
    "CPython 3.12 executes the instrumented code: attribute access, calls, classes, exceptions, context managers and generators have CPython's own semantics",
    "engine/instrument.py (AST rewriting of /repo/src on every run) and engine/*.py (symbolic values, path enumeration, loop rule); self-tested by running the repository's own tests on the instrumented code and by deliberately broken bodies",
    "z3 (and cvc5 for the re-proved conditions)",
    "the executable specifications in spec/ and the contracts in contracts/",
    "Python integers are mathematical integers (exact: Python ints do not overflow)",
]
DROPPED = ("Every module of /repo/src except the generated schema classes in xrns/xml is parsed and rewritten at import: loops, comprehensions, f-strings, "
           "subscripts, `is`, `in`, %, * and string-method calls go through hooks that keep CPython's semantics on concrete values; nothing is dropped or rewritten by hand. "
           "print() only evaluates its arguments; logging is left to the library.")
