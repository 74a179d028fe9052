"""Environment of the code under test: imports, stubs, resets."""
# pylint: disable=all
import os
import random as _random
import sys
import time as _time

REPO = os.environ.get("VERIF_REPO", "/repo")
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def setup_path():
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    if VT not in sys.path:
        sys.path.append(VT)


setup_path()

import logging  # noqa: E402

import logzero  # noqa: E402

logzero.loglevel(logging.CRITICAL)

import comb_spec_searcher  # noqa: E402

logging.disable(logging.CRITICAL)  # the code under test logs its progress

assert os.path.realpath(comb_spec_searcher.__file__).startswith(
    os.path.realpath(REPO) + os.sep
), comb_spec_searcher.__file__

from . import engine as eng  # noqa: E402


def repo_modules():
    for name, mod in list(sys.modules.items()):
        if mod is not None and (
            name == "comb_spec_searcher" or name.startswith("comb_spec_searcher.")
        ):
            yield mod


_CLEARABLE = None


def reset_repo_caches():
    """Forget every process-wide cache of the code under test."""
    global _CLEARABLE
    if _CLEARABLE is None:
        _CLEARABLE = []
        seen = set()
        for mod in repo_modules():
            for obj in list(vars(mod).values()):
                cands = [obj]
                if isinstance(obj, type):
                    cands += [getattr(v, "__func__", v) for v in vars(obj).values()]
                for c in cands:
                    f = getattr(c, "cache_clear", None)
                    if f is not None and callable(f) and id(c) not in seen:
                        seen.add(id(c))
                        _CLEARABLE.append(f)
    for f in _CLEARABLE:
        f()
    from comb_spec_searcher.utils import TermsCache

    TermsCache.ALL_CACHES.clear()
    TermsCache.KEY_CACHE.clear()


class FakeClock:
    """time.time() returns arbitrary non-decreasing instants chosen by a hook."""

    def __init__(self):
        self.hook = None

    def time(self):
        if self.hook is not None:
            return self.hook()
        return _REAL_TIME()


CLOCK = FakeClock()
_REAL_TIME = _time.time


class SymRandom:
    """
    Nondeterministic replacement for the functions of ``random``: every
    possible outcome, picked through symbolic variables of the engine in
    charge.
    """

    def __init__(self):
        self.n = 0
        self.calls = []

    def reset(self):
        self.n = 0
        self.calls = []
        self.script = None

    def _name(self, kind):
        self.n += 1
        return f"rnd{self.n}_{kind}"

    def distribution(self, fn):
        """
        Exact distribution of fn() over every outcome of the random functions
        (whose ranges must be concrete): list of (Fraction, result).
        """
        from fractions import Fraction

        res = []
        todo = [[]]
        while todo:
            self.script = (todo.pop(), [])
            try:
                out = fn()
                taken = self.script[1]
            finally:
                self.script = None
            p = Fraction(1)
            for i, (a, b, v) in enumerate(taken):
                p /= b - a + 1
            res.append((p, out))
            todo.extend(self._next_scripts(taken))
        return res

    @staticmethod
    def _next_scripts(taken):
        """Scripts following the one taken, in the order of an odometer."""
        for i in reversed(range(len(taken))):
            a, b, v = taken[i]
            if v < b:
                return [[t[2] for t in taken[:i]] + [v + 1]]
        return []

    script = None

    def randint(self, a, b):
        if self.script is not None:
            a, b = int(a), int(b)
            if a > b:
                raise ValueError(f"empty range in randrange({a}, {b})")
            given, taken = self.script
            v = given[len(taken)] if len(taken) < len(given) else a
            taken.append((a, b, v))
            return v
        e = eng.current()
        if e is None:
            return _REAL["randint"](a, b)
        if a > b:
            raise ValueError(f"empty range in randrange({a}, {b})")
        name = self._name("randint")
        if not e.symbolic and name in e.assignment_:
            # the iteration order of sets may differ between symbolic and plain
            # integers: any value in range is a legal outcome
            v = e.assignment_[name]
            if not a <= v <= b:
                e.assignment_[name] = a + (v - a) % (b - a + 1)
        if type(a) is int and type(b) is int:
            r = e.int(name, a, b)
        else:
            r = e.int(name)
            e.assume(eng.sand(r >= a, r <= b))
        self.calls.append((a, b, r))
        return r

    def randrange(self, start, stop=None, step=1):
        if stop is None:
            start, stop = 0, start
        assert step == 1
        return self.randint(start, stop - 1)

    def choice(self, seq):
        if eng.current() is None and self.script is None:
            return _REAL["choice"](seq)
        if len(seq) == 0:
            raise IndexError("Cannot choose from an empty sequence")
        return seq[int(self.randint(0, len(seq) - 1))]

    def shuffle(self, x):
        if eng.current() is None and self.script is None:
            return _REAL["shuffle"](x)
        for i in reversed(range(1, len(x))):
            j = int(self.randint(0, i))
            x[i], x[j] = x[j], x[i]

    def choices(self, population, weights=None, *, cum_weights=None, k=1):
        if eng.current() is None and self.script is None:
            return _REAL["choices"](population, weights, cum_weights=cum_weights, k=k)
        population = list(population)
        if cum_weights is not None:
            weights = [
                b - a for a, b in zip([0] + list(cum_weights)[:-1], cum_weights)
            ]
        if weights is None:
            return [self.choice(population) for _ in range(k)]
        res = []
        for _ in range(k):
            total = 0
            for w in weights:
                total = total + w
            r = self.randint(1, total)
            acc = 0
            for p, w in zip(population, weights):
                acc = acc + w
                if r <= acc:
                    res.append(p)
                    break
        return res

    def sample(self, population, k):
        if eng.current() is None and self.script is None:
            return _REAL["sample"](population, k)
        pool = list(population)
        res = []
        for _ in range(k):
            i = int(self.randint(0, len(pool) - 1))
            res.append(pool.pop(i))
        return res


RANDOM = SymRandom()
_NAMES = ("randint", "randrange", "choice", "shuffle", "choices", "sample")
_REAL = {n: getattr(_random, n) for n in _NAMES}
_PATCHED = False


def patch_environment():
    """Replace random and time.time, wherever the repo's modules see them."""
    global _PATCHED
    if _PATCHED:
        return
    _PATCHED = True
    repl = {id(_REAL[n]): getattr(RANDOM, n) for n in _NAMES}
    for n in _NAMES:
        setattr(_random, n, getattr(RANDOM, n))
    _time.time = CLOCK.time
    patch_int()
    for mod in repo_modules():
        for k, v in list(vars(mod).items()):
            try:
                if id(v) in repl:
                    setattr(mod, k, repl[id(v)])
                elif v is _REAL_TIME:
                    setattr(mod, k, CLOCK.time)
                elif k == "asizeof" and callable(v):  # slow, printed only
                    setattr(mod, k, lambda *a, **kw: 0)
                elif k == "tabulate" and hasattr(v, "tabulate"):  # printed only
                    setattr(mod, k, _Tables)
            except Exception:
                pass


class _Tables:
    """Stands for the module drawing tables."""

    @staticmethod
    def tabulate(table, headers=(), **kwargs):
        return "\n".join("  ".join(map(str, row)) for row in table)


import builtins  # noqa: E402


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.int)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.int)

    def __call__(cls, *args, **kw):
        if len(args) == 1 and not kw and type(args[0]) is eng.SymInt:
            return args[0]
        return builtins.int(*args, **kw)


class symbolic_int(metaclass=_IntMeta):
    """``int`` for modules converting counts: int(count) stays symbolic."""


class _RangeMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.range)

    def __call__(cls, *args):
        if any(type(a) is eng.SymInt for a in args):
            step = args[2] if len(args) > 2 else 1
            start, stop = (0, args[0]) if len(args) == 1 else args[:2]
            return _symbolic_range(start, stop, step)
        return builtins.range(*args)


class symbolic_range(metaclass=_RangeMeta):
    """``range`` between symbolic bounds: one fork per turn of the loop."""


def _symbolic_range(start, stop, step):
    assert type(step) is int and step != 0
    while (start < stop) if step > 0 else (start > stop):
        yield start
        start = start + step


SYMBOLIC_RANGE_IN = (
    "comb_spec_searcher.utils",
    "comb_spec_searcher.strategies.constructor.cartesian",
    "comb_spec_searcher.strategies.constructor.disjoint",
)


def patch_int():
    for name in SYMBOLIC_RANGE_IN:
        if name in sys.modules:
            sys.modules[name].range = symbolic_range
    mod = sys.modules.get("comb_spec_searcher.strategies.constructor.cartesian")
    if mod is not None:
        mod.int = symbolic_int


def begin_path():
    reset_repo_caches()
    RANDOM.reset()
    CLOCK.hook = None
