"""High-precision evaluation of value DAGs on one shadow sample: used to make sure that a disagreement seen in
double precision is a disagreement over the reals and not a rounding artefact."""
import mpmath
from fractions import Fraction
mp = mpmath.mp
mp.dps = 60


class Undecided(Exception):
    pass


def mpq(c):
    if isinstance(c, float):
        return mpmath.mpf(c)
    return mpmath.mpf(c.numerator) / mpmath.mpf(c.denominator)


def f32(x):
    import numpy as np
    return mpmath.mpf(float(np.float32(float(x))))


FN = {'sin': mpmath.sin, 'cos': mpmath.cos, 'tan': mpmath.tan, 'exp': mpmath.exp, 'log': mpmath.log,
      'asin': mpmath.asin, 'acos': mpmath.acos, 'atan': mpmath.atan, 'sinh': mpmath.sinh, 'cosh': mpmath.cosh,
      'tanh': mpmath.tanh, 'floor': mpmath.floor, 'ceil': mpmath.ceil, 'rint': mpmath.nint, 'rnd32': f32,
      'trunc': lambda x: mpmath.floor(x) if x >= 0 else mpmath.ceil(x), 'log2': lambda x: mpmath.log(x, 2),
      'log10': mpmath.log10, 'atan2': mpmath.atan2, 'pow': mpmath.power, 'fmod': mpmath.fmod}


def value(node, col, memo):
    st = [node]
    while st:
        n = st[-1]
        if id(n) in memo:
            st.pop()
            continue
        ch = [c for c in (n.a, n.b) if c is not None and hasattr(c, 'op')]
        todo = [c for c in ch if id(c) not in memo]
        if todo:
            st.extend(todo)
            continue
        st.pop()
        memo[id(n)] = (ev(n, col, memo), n)
    return memo[id(node)][0]


def ev(n, col, memo):
    op = n.op
    if op == 'k':
        return mpq(n.c)
    if op == 'atom':
        v = n.a.vals
        if v is None:
            v = n.v
        try:
            return mpmath.mpf(float(v[col]))
        except (IndexError, TypeError):
            return mpmath.mpf(float(v))
    a = memo[id(n.a)][0]
    b = memo[id(n.b)][0] if n.b is not None else None
    try:
        if op == '+':
            return a + b
        if op == '-':
            return a - b
        if op == '*':
            return a * b
        if op == '/':
            return a / b
        if op == 'neg':
            return -a
        if op == 'abs':
            return abs(a)
        if op == 'sqrt':
            if a < 0:
                raise Undecided()
            return mpmath.sqrt(a)
        if op == 'fn':
            r = FN[n.c](a) if b is None else FN[n.c](a, b)
            if isinstance(r, mpmath.mpc):
                raise Undecided()
            return r
    except (ZeroDivisionError, KeyError, ValueError, OverflowError):
        raise Undecided()
    raise Undecided()


def truth(c, col, memo):
    """truth of a boolean on a sample, over the reals; Undecided when too close to call"""
    if type(c) is int:
        return bool(c)
    if c.k == 'cmp':
        a, b = value(c.a, col, memo), value(c.b, col, memo)
        d = a - b
        tiny = mpmath.mpf(10) ** -40 * max(1, abs(a), abs(b))
        if abs(d) < tiny:
            if c.p in ('eq', 'le', 'ge'):
                return True
            return False
        p = c.p
        return bool((p == 'ne') or (p in ('lt', 'le') and d < 0) or (p in ('gt', 'ge') and d > 0))
    if c.k == 'not':
        return not truth(c.a, col, memo)
    if c.k == 'and':
        return truth(c.a, col, memo) and truth(c.b, col, memo)
    if c.k == 'or':
        return truth(c.a, col, memo) or truth(c.b, col, memo)
    if c.k == 'xor':
        return truth(c.a, col, memo) != truth(c.b, col, memo)
    if c.k == 'z':
        if c.v is not None:
            try:
                return bool(c.v[col])
            except (IndexError, TypeError):
                return bool(c.v)
    raise Undecided()


CONST = {}


def constcmp(p, a, b):
    """comparison of two constant expressions with 60 digits; None when they may be equal"""
    if len(CONST) > 200000:
        CONST.clear()
    try:
        d = value(a, 0, CONST) - value(b, 0, CONST)
    except (Undecided, OverflowError, ValueError, ZeroDivisionError, TypeError):
        return None
    if not mpmath.isfinite(d) or abs(d) < mpmath.mpf(10) ** -30:
        return None
    return 1 if p == 'ne' or p in ('lt', 'le') and d < 0 or p in ('gt', 'ge') and d > 0 else 0
