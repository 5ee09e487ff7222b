"""Mode-agnostic connectives: work on symbolic values (dv.sym) and on plain Python values.

Specifications are written once with these and evaluated by the deductive verifier (symbolic
values -> SMT formulas) and by the replay/search harness (plain values on the real iconservice).
"""

SYM = None        # module dv.sym when the symbolic back end is loaded


def _sym(*xs):
    return SYM is not None and any(isinstance(x, SYM.SymBase) for x in xs)


def And(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = tuple(xs[0])
    if _sym(*xs):
        return SYM.s_and(xs)
    return all(bool(x) for x in xs)


def Or(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = tuple(xs[0])
    if _sym(*xs):
        return SYM.s_or(xs)
    return any(bool(x) for x in xs)


def Not(x):
    if _sym(x):
        return SYM.s_not(x)
    return not x


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if _sym(a, b):
        return SYM.s_iff(a, b)
    return bool(a) == bool(b)


def If(c, a, b):
    """value-level conditional"""
    if _sym(c):
        return SYM.s_ite(c, a, b)
    return a if c else b


def eq(a, b):
    """equality that never raises: None/Address/int/bytes/str"""
    if _sym(a, b):
        return SYM.s_eq(a, b)
    if a is None or b is None:
        return a is b
    return a == b


def ne(a, b):
    return Not(eq(a, b))


def distinct(*xs):
    return And(*[ne(xs[i], xs[j]) for i in range(len(xs)) for j in range(i)]) if len(xs) > 1 else True


def isin(x, xs):
    return Or(*[eq(x, y) for y in xs]) if xs else False
