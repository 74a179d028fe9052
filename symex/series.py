"""
Truncated power series with symbolic coefficients, and the value of a sympy
expression when every class function F_i(x, k, ...) is the true series.

A series is {monomial: coefficient}, a monomial a sorted tuple of (variable,
exponent); terms of degree more than N in x are dropped.  A value is a pair
(numerator, denominator) of series.
"""
import sympy

X = "x"


class Unsupported(Exception):
    pass


def degree(m):
    for v, e in m:
        if v == X:
            return e
    return 0


def mono_mul(a, b):
    res = dict(a)
    for v, e in b:
        res[v] = res.get(v, 0) + e
    return tuple(sorted((v, e) for v, e in res.items() if e))


def mono_pow(a, k):
    return tuple((v, e * k) for v, e in a) if k else ()


def clean(s):
    return {m: c for m, c in s.items() if not (type(c) is int and c == 0)}


def add(a, b, sign=1):
    res = dict(a)
    for m, c in b.items():
        res[m] = res.get(m, 0) + sign * c
    return clean(res)


def mul(a, b, N):
    res = {}
    for m, c in a.items():
        for k, d in b.items():
            if degree(m) + degree(k) <= N:
                t = mono_mul(m, k)
                res[t] = res.get(t, 0) + c * d
    return clean(res)


ONE = {(): 1}


class Evaluator:
    """terms(name, n): {values of the statistics: coefficient} of F_name."""

    def __init__(self, terms, coefficients, N):
        self.terms = terms
        self.coefficients = coefficients
        self.N = N

    def monomial(self, e):
        """An argument of a class function: a product of powers of variables."""
        num, den = self.value(e)
        if den != ONE or len(num) != 1:
            raise Unsupported(f"argument {e}")
        (m, c), = num.items()
        if type(c) is not int or c != 1:
            raise Unsupported(f"argument {e}")
        return m

    def function(self, name, args):
        monos = [self.monomial(a) for a in args]
        if degree(monos[0]) < 1:
            raise Unsupported(f"first argument {args[0]}")
        res = {}
        for n in range(self.N + 1):
            for v, c in self.terms(name, n).items():
                if len(v) != len(monos) - 1:
                    raise Unsupported(f"{len(v)} statistics, arguments {args}")
                m = mono_pow(monos[0], n)
                for base, e in zip(monos[1:], v):
                    m = mono_mul(m, mono_pow(base, int(e)))
                if degree(m) <= self.N:
                    res[m] = res.get(m, 0) + c
        return clean(res)

    def value(self, e):
        N = self.N
        if e.is_Integer:
            return clean({(): int(e)}), ONE
        if e.is_Rational:
            return {(): int(e.p)}, {(): int(e.q)}
        if e.is_Symbol:
            if e in self.coefficients:
                return clean({(): self.coefficients[e]}), ONE
            return {((e.name, 1),): 1}, ONE
        if e.is_Add:
            num, den = {}, ONE
            for a in e.args:
                n, d = self.value(a)
                if d == den:
                    num = add(num, n)
                else:
                    num = add(mul(num, d, N), mul(n, den, N))
                    den = mul(den, d, N)
            return num, den
        if e.is_Mul:
            num, den = ONE, ONE
            for a in e.args:
                n, d = self.value(a)
                num, den = mul(num, n, N), mul(den, d, N)
            return num, den
        if e.is_Pow:
            if not e.exp.is_Integer:
                raise Unsupported(str(e))
            n, d = self.value(e.base)
            k = int(e.exp)
            if k < 0:
                n, d, k = d, n, -k
            num, den = ONE, ONE
            for _ in range(k):
                num, den = mul(num, n, N), mul(den, d, N)
            return num, den
        if isinstance(e, sympy.core.function.AppliedUndef):
            return self.function(e.func.__name__, e.args), ONE
        raise Unsupported(f"{type(e).__name__} {e}")


def compare(E, evaluator, eq, what):
    """eq holds, coefficient by coefficient, up to the order."""
    if eq is sympy.true or eq is True:
        return
    if eq is sympy.false or eq is False:
        E.fail(f"{what}: the equation is false")
    (a, b), (c, d) = evaluator.value(eq.lhs), evaluator.value(eq.rhs)
    left, right = mul(a, d, evaluator.N), mul(c, b, evaluator.N)
    for m in sorted(set(left) | set(right)):
        name = "*".join(f"{v}^{k}" for v, k in m) or "1"
        E.check(
            left.get(m, 0) == right.get(m, 0),
            f"{what}: {eq.lhs} = {eq.rhs} fails at the coefficient of {name}",
        )
