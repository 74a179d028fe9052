"""
A small dynamic symbolic execution engine for Python, deciding with z3.

The functions of /repo are *executed* (not modelled): their integer inputs are
``SymInt`` proxies over z3 terms, their booleans ``SymBool`` proxies.  Whenever
the running code asks for the truth value of a symbolic boolean the solver is
asked which of the two outcomes is feasible under the path condition; if both
are, the execution forks (the other outcome is queued as a decision prefix and
re-executed later).  Where Python insists on a concrete integer (``range``,
list index, hashing in the "concrete" hash mode) the solver enumerates all
feasible values and the execution forks over all of them; nothing is dropped.

``check(cond)`` is the assertion of a harness: the solver has to show
``path_condition => cond`` for all values.  If it finds a counterexample the
harness is re-run on the real code with ordinary Python integers taken from
the model (``ConcreteEngine``) and the violation is reported only when it
reproduces.
"""
# pylint: disable=all
import os
import random
import time
import z3
import z3.z3 as _z3mod

_z3mod.Z3_DEBUG = False

SEED = os.environ.get("VERIF_SEED", "1")
# how often a value other than the solver's first comes first
DIVERSE = float(os.environ.get("VERIF_DIVERSE", "0.5"))


class PathAbort(BaseException):
    """The current path is infeasible, i.e. an assumption is unsatisfiable."""


class EngineLimit(BaseException):
    """The engine can not continue this path; it is counted as inconclusive."""


class NonDeterminism(BaseException):
    """A re-execution did not follow the recorded decisions."""


class Found(BaseException):
    """A check failed on this path."""

    def __init__(self, message, model=None):
        super().__init__(message)
        self.message = message
        self.model = model


_CURRENT = None  # the engine in charge (SymEngine or ConcreteEngine)


def current():
    return _CURRENT


def set_current(engine):
    global _CURRENT
    _CURRENT = engine


def _is_intlike(x):
    t = type(x)
    return t is int or t is bool or t is SymInt or t is SymBool


def to_z3(x):
    t = type(x)
    if t is SymInt:
        return x._e
    if t is int:
        return z3.IntVal(x)
    if t is bool:
        return z3.IntVal(int(x))
    if t is SymBool:
        return z3.If(x._e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, z3.ExprRef):
        return x
    raise TypeError(f"can not convert {t} to a z3 integer")


def to_z3b(x):
    t = type(x)
    if t is SymBool:
        return x._e
    if t is bool:
        return z3.BoolVal(x)
    if t is SymInt:
        return x._e != 0
    if t is int:
        return z3.BoolVal(x != 0)
    if isinstance(x, z3.BoolRef):
        return x
    raise TypeError(f"can not convert {t} to a z3 boolean")


class SymBool:
    __slots__ = ("_e", "_val")

    def __init__(self, e):
        self._e = e
        self._val = None  # outcome once decided on the current path

    def __bool__(self):
        v = self._val
        if v is None:
            v = self._val = _CURRENT.branch(self._e)
        return v

    def _bin(self, other, f):
        if type(other) in (SymBool, bool):
            return mkbool(f(self._e, to_z3b(other)))
        return NotImplemented

    def __and__(self, other):
        if type(other) in (SymBool, bool):
            return mkbool(z3.And(self._e, to_z3b(other)))
        return mkint(to_z3(self)) & other

    __rand__ = __and__

    def __or__(self, other):
        return self._bin(other, z3.Or)

    __ror__ = __or__

    def __xor__(self, other):
        return self._bin(other, z3.Xor)

    __rxor__ = __xor__

    def __invert__(self):
        # logical negation (used by the harnesses only)
        return mkbool(z3.Not(self._e))

    def __eq__(self, other):
        if type(other) in (SymBool, bool):
            return mkbool(self._e == to_z3b(other))
        return mkint(to_z3(self)) == other

    def __ne__(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else snot(r)

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __add__(self, other):
        return mkint(to_z3(self)) + other

    __radd__ = __add__

    def __mul__(self, other):
        return mkint(to_z3(self)) * other

    __rmul__ = __mul__

    def __sub__(self, other):
        return mkint(to_z3(self)) - other

    def __rsub__(self, other):
        return other - mkint(to_z3(self))

    def __lt__(self, other):
        return mkint(to_z3(self)) < other

    def __gt__(self, other):
        return mkint(to_z3(self)) > other

    def __le__(self, other):
        return mkint(to_z3(self)) <= other

    def __ge__(self, other):
        return mkint(to_z3(self)) >= other

    def __repr__(self):
        return f"<{self._e}>"


def mkbool(e):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def mkint(e):
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


def sand(*xs):
    es = [to_z3b(x) for x in xs]
    es = [e for e in es if not z3.is_true(e)]
    if any(z3.is_false(e) for e in es):
        return False
    if not es:
        return True
    return mkbool(z3.And(*es)) if len(es) > 1 else mkbool(es[0])


def sor(*xs):
    es = [to_z3b(x) for x in xs]
    es = [e for e in es if not z3.is_false(e)]
    if any(z3.is_true(e) for e in es):
        return True
    if not es:
        return False
    return mkbool(z3.Or(*es)) if len(es) > 1 else mkbool(es[0])


def snot(x):
    if type(x) is bool:
        return not x
    return mkbool(z3.Not(to_z3b(x)))


def simplies(a, b):
    return sor(snot(a), b)


def sif(c, a, b):
    if type(c) is bool:
        return a if c else b
    return mkint(z3.If(to_z3b(c), to_z3(a), to_z3(b)))


def to_poly(e, limit=4000):
    """{sorted tuple of (atom id, ...): coefficient} and the atoms, or None."""
    atoms = {}

    def go(e):
        if z3.is_int_value(e):
            v = e.as_long()
            return {(): v} if v else {}
        k = e.decl().kind()
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
            res = dict(go(e.arg(0)))
            sign = 1 if k == z3.Z3_OP_ADD else -1
            for a in e.children()[1:]:
                for m, c in go(a).items():
                    v = res.get(m, 0) + sign * c
                    if v:
                        res[m] = v
                    else:
                        res.pop(m, None)
            return res
        if k == z3.Z3_OP_UMINUS:
            return {m: -c for m, c in go(e.arg(0)).items()}
        if k == z3.Z3_OP_MUL:
            res = {(): 1}
            for a in e.children():
                p = go(a)
                nxt = {}
                if len(res) * len(p) > limit:
                    raise OverflowError
                for m1, c1 in res.items():
                    for m2, c2 in p.items():
                        m = tuple(sorted(m1 + m2))
                        v = nxt.get(m, 0) + c1 * c2
                        if v:
                            nxt[m] = v
                        else:
                            nxt.pop(m, None)
                res = nxt
            return res
        atoms[e.get_id()] = e
        return {(e.get_id(),): 1}

    try:
        return go(e), atoms
    except OverflowError:
        return None, atoms


def _mono_div(m, d):
    m = list(m)
    for x in d:
        if x not in m:
            return None
        m.remove(x)
    return tuple(m)


def exact_quotient(a, b):
    """q with a = q*b as polynomials in the symbols, or None."""
    if z3.is_int_value(b) or z3.is_int_value(a):
        return None
    pb, _ = to_poly(b)
    pa, atoms = to_poly(a)
    if not pb or pa is None:
        return None
    key = lambda m: (len(m), m)
    lead = max(pb, key=key)
    lc = pb[lead]
    q = {}
    for _ in range(2000):
        if not pa:
            break
        m = max(pa, key=key)
        d = _mono_div(m, lead)
        if d is None or pa[m] % lc:
            return None
        c = pa[m] // lc
        q[d] = q.get(d, 0) + c
        for mb, cb in pb.items():
            k = tuple(sorted(d + mb))
            v = pa.get(k, 0) - c * cb
            if v:
                pa[k] = v
            else:
                pa.pop(k, None)
    if pa:
        return None
    res = z3.IntVal(0)
    for m, c in q.items():
        t = z3.IntVal(c)
        for i in m:
            t = t * atoms[i]
        res = res + t
    return z3.simplify(res)


def same_poly(a, b):
    """True when a and b are the same polynomial in the symbols."""
    p, _ = to_poly(a - b)
    return p is not None and not p


def _unpickled(i):
    return _CURRENT.pickled[i]


class SymInt:
    """A symbolic mathematical integer (Python's int)."""

    __slots__ = ("_e", "_i")

    def __init__(self, e):
        self._e = e
        self._i = e.get_id()

    # isinstance(x, int) must hold without being a subclass of int
    @property
    def __class__(self):
        return int

    def _v(self):
        """concrete value if this term was already concretised on the path"""
        c = _CURRENT
        return c.conc.get(self._i) if c is not None else None

    # -- arithmetic -----------------------------------------------------
    def __add__(self, o):
        if type(o) is int and o == 0:
            return self
        return mkint(self._e + to_z3(o)) if _is_intlike(o) else NotImplemented

    def __radd__(self, o):
        if type(o) is int and o == 0:
            return self
        return mkint(to_z3(o) + self._e) if _is_intlike(o) else NotImplemented

    def __sub__(self, o):
        if o is self:
            return 0
        if type(o) is int and o == 0:
            return self
        return mkint(self._e - to_z3(o)) if _is_intlike(o) else NotImplemented

    def __rsub__(self, o):
        return mkint(to_z3(o) - self._e) if _is_intlike(o) else NotImplemented

    def __mul__(self, o):
        if type(o) in (int, bool):
            if o == 0:
                return 0
            if o == 1:
                return self
        if _is_intlike(o):
            return mkint(self._e * to_z3(o))
        if isinstance(o, (list, tuple, str)):
            return o * self.__index__()
        return NotImplemented

    def __rmul__(self, o):
        if type(o) in (int, bool):
            if o == 0:
                return 0
            if o == 1:
                return self
        if _is_intlike(o):
            return mkint(to_z3(o) * self._e)
        if isinstance(o, (list, tuple, str)):
            return o * self.__index__()
        return NotImplemented

    def __neg__(self):
        return mkint(-self._e)

    def __pos__(self):
        return self

    def __abs__(self):
        return -self if self < 0 else self

    @staticmethod
    def _divmod(a, b):
        if b == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if b < 0:
            a, b = -a, -b
            # floor(a/b) with b > 0 equals z3's Euclidean division
            q = z3.simplify(to_z3(a) / to_z3(b))
            r = z3.simplify(-(to_z3(a) % to_z3(b)))
            return mkint(q), mkint(r)
        q = exact_quotient(to_z3(a), to_z3(b))
        if q is not None:
            return mkint(q), 0
        q = z3.simplify(to_z3(a) / to_z3(b))
        r = z3.simplify(to_z3(a) % to_z3(b))
        return mkint(q), mkint(r)

    def __floordiv__(self, o):
        return SymInt._divmod(self, o)[0] if _is_intlike(o) else NotImplemented

    def __rfloordiv__(self, o):
        return SymInt._divmod(o, self)[0] if _is_intlike(o) else NotImplemented

    def __mod__(self, o):
        return SymInt._divmod(self, o)[1] if _is_intlike(o) else NotImplemented

    def __rmod__(self, o):
        if isinstance(o, str):
            return o % (str(self),)
        return SymInt._divmod(o, self)[1] if _is_intlike(o) else NotImplemented

    def __divmod__(self, o):
        return SymInt._divmod(self, o) if _is_intlike(o) else NotImplemented

    def __rdivmod__(self, o):
        return SymInt._divmod(o, self) if _is_intlike(o) else NotImplemented

    def __pow__(self, o, m=None):
        k = int(o)
        if k < 0 or m is not None:
            raise EngineLimit("pow")
        r = 1
        for _ in range(k):
            r = r * self
        return r

    def __rpow__(self, o):
        return o ** self.__index__()

    def __and__(self, o):
        return self.__index__() & int(o)

    def __or__(self, o):
        return self.__index__() | int(o)

    def __truediv__(self, o):
        return self.__index__() / o

    def __rtruediv__(self, o):
        return o / self.__index__()

    # -- comparisons ----------------------------------------------------
    def _cmp(self, o, op, f):
        if not _is_intlike(o):
            return NotImplemented
        key = (op, self._i, o._i if type(o) is SymInt else (o,))
        cache = _CURRENT.cmpcache
        hit = cache.get(key)
        if hit is not None:
            r = hit[0]
            if type(r) is SymBool and r._val is not None:
                return r._val
            return r
        if type(o) is SymBool:
            return mkbool(z3.simplify(f(self._e, to_z3(o))))
        r = mkbool(z3.simplify(f(self._e, to_z3(o))))
        cache[key] = (r, self, o)
        return r

    def __lt__(self, o):
        return self._cmp(o, "<", lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, "<=", lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, ">", lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, ">=", lambda a, b: a >= b)

    def __eq__(self, o):
        if o is self:
            return True
        if not _is_intlike(o):
            return NotImplemented
        v = self._v()
        if v is not None:
            w = o._v() if type(o) is SymInt else (o if type(o) is int else None)
            if w is not None:
                return v == w
        return self._cmp(o, "==", lambda a, b: a == b)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return snot(r)

    # -- concretisation -------------------------------------------------
    def __bool__(self):
        r = self != 0
        return r if type(r) is bool else bool(r)

    def __index__(self):
        return _CURRENT.concretize(self._e)

    __int__ = __index__

    def __round__(self, n=None):
        return self

    __trunc__ = __floor__ = __ceil__ = __round__

    def __hash__(self):
        if _CURRENT.relational:
            return 0x5EED
        return hash(self.__index__())

    def __str__(self):
        return f"<{self._e}>"

    __repr__ = __str__

    def __format__(self, spec):
        return f"<{self._e}>"

    def __reduce__(self):
        if not _CURRENT.relational:
            return (int, (self.__index__(),))
        # pickled and restored within the same path: the expression is kept
        kept = _CURRENT.__dict__.setdefault("pickled", [])
        kept.append(self)
        return (_unpickled, (len(kept) - 1,))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def _sympy_(self):
        import sympy

        return sympy.Integer(self.__index__())

    def bit_length(self):
        return self.__index__().bit_length()

    @property
    def real(self):
        return self

    @property
    def numerator(self):
        return self


class Stats:
    FIELDS = (
        "paths",
        "aborted",
        "limits",
        "decisions",
        "queries",
        "checks",
        "checks_by_solver",
        "unknown",
        "replayed",
        "divergent",
    )

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0
        self.covers = {}
        self.limit_msgs = {}
        self.samples = []

    def merge(self, o):
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + getattr(o, f))
        self.solver_s += o.solver_s
        for k, v in o.covers.items():
            self.covers[k] = self.covers.get(k, 0) + v
        for k, v in o.limit_msgs.items():
            self.limit_msgs[k] = self.limit_msgs.get(k, 0) + v
        for s in o.samples:
            if len(self.samples) < 6:
                self.samples.append(s)


class BaseEngine:
    symbolic = False

    def cover(self, tag):
        if self.replaying:
            return
        self.stats.covers[tag] = self.stats.covers.get(tag, 0) + 1

    def choose(self, name, options):
        """A symbolic choice between finitely many options (forks on use)."""
        options = list(options)
        if len(options) == 1:
            return options[0]
        i = self.int(name, 0, len(options) - 1)
        return options[int(i)]


class SymEngine(BaseEngine):
    symbolic = True

    def __init__(self, relational=False, timeout_ms=20000, max_values=64):
        self.stats = Stats()
        self.relational = relational
        self.timeout_ms = timeout_ms
        self.max_values = max_values
        self.solver = z3.SolverFor("QF_NIA") if False else z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.conc = {}
        self.cmpcache = {}
        self.pending = []
        self.rng = random.Random(SEED)

    # -- solver ---------------------------------------------------------
    def _check(self, *extra):
        t = time.perf_counter()
        self.stats.queries += 1
        if extra:
            self.solver.push()
            for e in extra:
                self.solver.add(e)
            r = self.solver.check()
            m = self.solver.model() if r == z3.sat else None
            self.solver.pop()
        else:
            r = self.solver.check()
            m = self.solver.model() if r == z3.sat else None
        self.stats.solver_s += time.perf_counter() - t
        if r == z3.unknown:
            self.stats.unknown += 1
        return r, m

    def _add(self, e):
        self.solver.add(e)
        self.pc.append(e)

    def _need_model(self):
        if self.model is None:
            r, m = self._check()
            if r == z3.unsat:
                raise PathAbort()
            if r == z3.unknown:
                raise EngineLimit("solver unknown")
            self.model = m
        return self.model

    # -- variables ------------------------------------------------------
    def int(self, name, lo=None, hi=None):
        if name in self.vars:
            return self.vars[name][0]
        if lo is not None and lo == hi:
            return lo
        v = z3.Int(name)
        s = SymInt(v)
        self.vars[name] = (s, lo, hi)
        if lo is not None:
            self._add(v >= lo)
        if hi is not None:
            self._add(v <= hi)
        if self.model is not None and (lo is not None or hi is not None):
            # keep the model valid: the new variable is fresh
            val = self.model.eval(v, model_completion=True).as_long()
            if (lo is not None and val < lo) or (hi is not None and val > hi):
                self.model = None
        return s

    def bool(self, name):
        if name in self.vars:
            return self.vars[name][0]
        v = z3.Bool(name)
        s = SymBool(v)
        self.vars[name] = (s, None, None)
        return s

    # -- decisions ------------------------------------------------------
    def branch(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        key = e.get_id()
        if key in self.decided:
            return self.decided[key][0]
        pos = self.pos
        if pos < len(self.prefix):
            kind, val = self.prefix[pos]
            if kind == "k":  # known outcome, the other side is infeasible
                pass
            elif kind != "b":
                raise NonDeterminism(f"expected branch, recorded {kind}")
            self.pos += 1
            self._commit(e, val, kind)
            return val
        model = self._need_model()
        val = z3.is_true(model.eval(e, model_completion=True))
        other = z3.Not(e) if val else e
        r, _ = self._check(other)
        if r == z3.unsat:
            self._commit(e, val, "k")
        else:
            # sat, or unknown: explore the other side as well
            self.pending.append(self.trace + [("b", not val)])
            self._commit(e, val, "b")
        self.pos += 1
        return val

    def _commit(self, e, val, kind):
        self.stats.decisions += kind == "b" and self.pos >= len(self.prefix)
        self.trace.append((kind, val))
        self.decided[e.get_id()] = (val, e)  # keep e alive: ids are reused
        ne = z3.Not(e)
        nes = z3.simplify(ne)
        self.decided[nes.get_id()] = (not val, nes)
        if kind == "b":
            self._add(e if val else ne)
        if self.pos < len(self.prefix):
            pass

    def concretize(self, e):
        key = e.get_id()
        if key in self.conc:
            return self.conc[key]
        s = z3.simplify(e)
        if z3.is_int_value(s):
            return s.as_long()
        pos = self.pos
        if pos < len(self.prefix):
            kind, val = self.prefix[pos]
            if kind not in ("v", "u"):
                raise NonDeterminism(f"expected value, recorded {kind}")
        else:
            model = self._need_model()
            val = model.eval(e, model_completion=True).as_long()
            values = [val]
            self.solver.push()
            self.solver.add(e != val)
            while True:
                t = time.perf_counter()
                self.stats.queries += 1
                r = self.solver.check()
                self.stats.solver_s += time.perf_counter() - t
                if r == z3.unsat:
                    break
                if r == z3.unknown:
                    self.solver.pop()
                    self.stats.unknown += 1
                    raise EngineLimit("unknown while concretising")
                w = self.solver.model().eval(e, model_completion=True).as_long()
                values.append(w)
                if len(values) > self.max_values:
                    self.solver.pop()
                    raise EngineLimit(f"more than {self.max_values} values for {e}")
                self.solver.add(e != w)
            self.solver.pop()
            kind = "v" if len(values) > 1 else "u"
            if kind == "v" and DIVERSE and self.rng.random() < DIVERSE:
                # every value gets explored: any of them may come first
                i = self.rng.randrange(len(values))
                if i:
                    values[0], values[i] = values[i], values[0]
                    val = values[0]
                    self.model = None
            for w in values[1:]:
                self.pending.append(self.trace + [("v", w)])
        self.pos += 1
        self.trace.append((kind, val))
        if kind == "v":
            self.stats.decisions += pos >= len(self.prefix)
            self._add(e == val)
        self.conc[key] = val
        self.keep.append(e)
        if kind == "v" and pos < len(self.prefix):
            self.model = None
        return val

    # -- assertions -----------------------------------------------------
    def assume(self, cond):
        if type(cond) is bool:
            if not cond:
                raise PathAbort()
            return
        e = to_z3b(cond)
        self._add(e)
        if self.model is not None and not z3.is_true(
            self.model.eval(e, model_completion=True)
        ):
            self.model = None

    def feasible(self):
        self._need_model()

    def _assignment(self, model):
        res = {}
        for name, (s, lo, hi) in self.vars.items():
            val = model.eval(s._e, model_completion=True)
            if type(s) is SymBool:
                res[name] = bool(z3.is_true(val))
            else:
                res[name] = val.as_long()
        return res

    def assignment(self):
        return self._assignment(self._need_model())

    @property
    def replaying(self):
        """
        True while the recorded decision prefix is being followed: the path that
        recorded the prefix discharged every assertion met so far under this very
        path condition, so they are not asked again.
        """
        return self.pos < len(self.prefix)

    def check(self, cond, message=""):
        if self.pos < len(self.prefix):
            return
        self.stats.checks += 1
        if type(cond) is bool or not isinstance(cond, (SymBool, z3.BoolRef)):
            if not cond:
                raise Found(message, self.assignment())
            return
        e = z3.simplify(to_z3b(cond))
        if z3.is_true(e):
            self.stats.checks_by_solver += 1
            return
        self.stats.checks_by_solver += 1
        if z3.is_eq(e) and z3.is_int(e.arg(0)) and same_poly(e.arg(0), e.arg(1)):
            return  # an identity between polynomials in the inputs
        r, m = self._check(z3.Not(e))
        if r == z3.unsat:
            return
        if r == z3.unknown:
            raise EngineLimit("unknown: " + str(message))
        raise Found(message, self._assignment(m))

    def check_none(self, constraints, message=""):
        """
        The constraints (z3 expressions, over the symbolic inputs and fresh
        existential variables) must be unsatisfiable with the path condition.
        """
        if self.pos < len(self.prefix):
            return
        self.stats.checks += 1
        self.stats.checks_by_solver += 1
        r, m = self._check(*constraints)
        if r == z3.unsat:
            return
        if r == z3.unknown:
            raise EngineLimit("unknown: " + str(message))
        raise Found(message, self._assignment(m))

    def fail(self, message):
        self.check(False, message)

    # -- exploring ------------------------------------------------------
    def run_path(self, harness, prefix):
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.pc = []
        self.vars = {}
        self.conc = {}
        self.keep = []
        self.decided = {}
        self.cmpcache = {}
        self.model = None
        self.pending = []
        self.solver.push()
        set_current(self)
        found = None
        sample = None
        try:
            harness(self)
            self.stats.paths += 1
            try:
                sample = self.assignment()
            except PathAbort:
                self.stats.paths -= 1
                self.stats.aborted += 1
        except PathAbort:
            self.stats.aborted += 1
        except EngineLimit as e:
            self.stats.limits += 1
            k = str(e)[:120]
            self.stats.limit_msgs[k] = self.stats.limit_msgs.get(k, 0) + 1
        except Found as f:
            found = f
            self.stats.paths += 1
        except (KeyboardInterrupt, SystemExit, MemoryError):
            raise
        except NonDeterminism:
            raise
        except Exception as e:  # an exception escaping the harness
            import traceback

            try:
                found = Found(
                    f"exception {type(e).__name__}: {e}", self.assignment()
                )
                found.tb = traceback.format_exc()
                self.stats.paths += 1
            except PathAbort:
                self.stats.aborted += 1
            except EngineLimit as limit:
                # the solver cannot tell whether the path exists
                self.stats.limits += 1
                k = f"{limit} after {type(e).__name__}"[:120]
                self.stats.limit_msgs[k] = self.stats.limit_msgs.get(k, 0) + 1
        finally:
            set_current(None)
            self.solver.pop()
        return found, sample


class ConcreteEngine(BaseEngine):
    """Re-runs a harness with the plain Python integers of a model."""

    relational = False
    replaying = False

    def __init__(self, assignment):
        self.assignment_ = dict(assignment)
        self.stats = Stats()
        self.conc = {}
        self.cmpcache = {}
        self.used = {}

    def int(self, name, lo=None, hi=None):
        if lo is not None and lo == hi:
            return lo
        v = self.assignment_.get(name)
        if v is None or isinstance(v, bool):
            v = lo if lo is not None else (hi if hi is not None else 0)
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise PathAbort()
        self.used[name] = v
        return v

    def bool(self, name):
        v = bool(self.assignment_.get(name, False))
        self.used[name] = v
        return v

    def branch(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        raise TypeError(f"symbolic branch in a concrete run: {e}")

    def concretize(self, e):
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        raise TypeError(f"symbolic value in a concrete run: {e}")

    def assume(self, cond):
        if type(cond) is not bool:
            cond = self.branch(to_z3b(cond))
        if not cond:
            raise PathAbort()

    def feasible(self):
        pass

    def assignment(self):
        return dict(self.assignment_)

    def check(self, cond, message=""):
        self.stats.checks += 1
        if isinstance(cond, (SymBool, z3.BoolRef)):
            cond = self.branch(to_z3b(cond))
        if not cond:
            raise Found(message, self.assignment_)

    def check_none(self, constraints, message=""):
        self.stats.checks += 1
        s = z3.Solver()
        s.set("timeout", 60000)
        s.add(*constraints)
        r = s.check()
        if r == z3.sat:
            raise Found(message, self.assignment_)
        if r == z3.unknown:
            raise EngineLimit("unknown in replay")

    def fail(self, message):
        raise Found(message, self.assignment_)


def run_concrete(harness, assignment):
    """Return (verdict, message): verdict in ok / violation / abort / limit."""
    eng = ConcreteEngine(assignment)
    set_current(eng)
    try:
        harness(eng)
        return "ok", "", eng
    except Found as f:
        return "violation", f.message, eng
    except PathAbort:
        return "abort", "", eng
    except EngineLimit as e:
        return "limit", str(e), eng
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except Exception as e:
        if os.environ.get("VERIF_TRACE"):
            import traceback

            traceback.print_exc()
        return "violation", f"exception {type(e).__name__}: {e}", eng
    finally:
        set_current(None)
