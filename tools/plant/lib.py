"""A toy library of combinatorial classes given by a grammar."""
import ast
import os
import sys
from collections import Counter, defaultdict

sys.path.insert(0, os.getcwd())
import logzero  # noqa: E402

logzero.loglevel(40)

from comb_spec_searcher import (  # noqa: E402
    CombinatorialClass,
    CombinatorialSpecificationSearcher,
    StrategyPack,
)
from comb_spec_searcher.exception import StrategyDoesNotApply  # noqa: E402
from comb_spec_searcher.strategies.strategy import (  # noqa: E402
    CartesianProductStrategy,
    DisjointUnionStrategy,
    StrategyFactory,
    SymmetryStrategy,
    VerificationStrategy,
)

# name -> ("union", names) | ("prod", names) | ("same", name)
#       | ("fin", {size: [(object, {statistic: value})]})
GRAMMAR = {}


class Obj(tuple):
    """An object that knows its size."""

    n = None

    def size(self):
        return self.n


def sized(t, n):
    res = Obj(t)
    res.n = n
    return res


def fin(sizes, **stats):
    """An opaque class: sizes = {size: number of objects}."""
    return ("fin", {n: [(f"{n}#{i}", dict(stats)) for i in range(k)] for n, k in sizes.items()})


def atom(n=1, **stats):
    return ("fin", {n: [("*", stats)]})


EPS = ("fin", {0: [("e", {})]})
EMPTY = ("fin", {})


def least(name):
    """Least size of an object."""
    val = {x: float("inf") for x in GRAMMAR}
    for _ in range(len(GRAMMAR) + 1):
        for x, d in GRAMMAR.items():
            if d[0] == "fin":
                val[x] = min([n for n, o in d[1].items() if o], default=float("inf"))
            elif d[0] == "prod":
                val[x] = sum(val[y] for y in d[1])
            else:
                val[x] = min(val[y] for y in ([d[1]] if d[0] == "same" else d[1]))
    return val[name]


def objects(name, n):
    """[(object, {statistic: value})] by brute force."""
    d = GRAMMAR[name]
    if n < least(name):
        return []
    if d[0] == "fin":
        return [(sized((name, o), n), s) for o, s in d[1].get(n, [])]
    if d[0] == "same":
        return [((name, o), s) for o, s in objects(d[1], n)]
    if d[0] == "union":
        return [((name, i, o), s) for i, y in enumerate(d[1]) for o, s in objects(y, n)]

    def prod(ys, n):
        if not ys:
            return [((), {})] if n == 0 else []
        rest = sum(map(least, ys[1:]))
        res = []
        if rest == float("inf") or least(ys[0]) == float("inf"):
            return []
        for k in range(least(ys[0]), n - rest + 1):
            for o, s in objects(ys[0], k):
                for os_, t in prod(ys[1:], n - k):
                    res.append(((o,) + os_, dict(Counter(s) + Counter(t))))
        return res

    return [((name,) + o, s) for o, s in prod(list(d[1]), n)]


class C(CombinatorialClass):
    """A name of the grammar, tracking statistics: ((parameter, statistic), ...)."""

    def __init__(self, name, stats=()):
        self.name = name
        self.stats = tuple(tuple(s) for s in stats)

    @property
    def extra_parameters(self):
        return tuple(k for k, _ in self.stats)

    def get_minimum_value(self, parameter):
        return 0

    def is_empty(self):
        return least(self.name) == float("inf")

    def is_atom(self):
        d = GRAMMAR[self.name]
        return d[0] == "fin" and sum(map(len, d[1].values())) == 1

    def minimum_size_of_object(self):
        return least(self.name)

    def by_stats(self, n):
        res = defaultdict(list)
        for o, s in objects(self.name, n):
            res[tuple(s.get(t, 0) for _, t in self.stats)].append(o)
        return res

    def objects_of_size(self, n, **parameters):
        for v, objs in self.by_stats(n).items():
            if not parameters or dict(zip(self.extra_parameters, v)) == parameters:
                yield from objs

    def possible_parameters(self, n):
        for v in self.by_stats(n):
            yield dict(zip(self.extra_parameters, v))

    def truth(self, n):
        return {v: len(objs) for v, objs in self.by_stats(n).items()}

    def to_bytes(self):
        return repr((self.name, self.stats)).encode()

    @classmethod
    def from_bytes(cls, b):
        return cls(*ast.literal_eval(b.decode()))

    def to_jsonable(self):
        d = super().to_jsonable()
        d["name"], d["stats"] = self.name, self.stats
        return d

    @classmethod
    def from_dict(cls, d):
        return cls(d["name"], d["stats"])

    def __eq__(self, o):
        return isinstance(o, C) and (self.name, self.stats) == (o.name, o.stats)

    def __hash__(self):
        return hash((self.name, self.stats))

    def __str__(self):
        return self.name + "".join(f"[{k}={s}]" for k, s in self.stats)

    __repr__ = __str__


# what a class tracks: names for which the parameters are renamed or dropped
RENAME = {}


def child(parent, name):
    stats = parent.stats
    if name in RENAME:
        stats = tuple((RENAME[name][k], s) for k, s in stats if RENAME[name].get(k))
        stats = tuple(dict.fromkeys(stats))
    return C(name, stats)


def pmap(parent, c):
    r = RENAME.get(c.name, {k: k for k, _ in parent.stats})
    return {k: r[k] for k, _ in parent.stats if r.get(k)}


class _Base:
    def __init__(self, only=None, **kw):
        super().__init__(**kw)
        self.only = None if only is None else tuple(only)

    def names(self, comb_class):
        if self.only is not None and comb_class.name not in self.only:
            return None
        return self.parts(comb_class)

    def decomposition_function(self, comb_class):
        names = self.names(comb_class)
        return None if names is None else tuple(child(comb_class, x) for x in names)

    def extra_parameters(self, comb_class, children=None):
        children = children or self.decomposition_function(comb_class)
        if children is None:
            raise StrategyDoesNotApply
        return tuple(pmap(comb_class, c) for c in children)

    def formal_step(self):
        return type(self).__name__

    def to_jsonable(self):
        d = super().to_jsonable()
        d["only"] = self.only
        return d

    @classmethod
    def from_dict(cls, d):
        return cls(**d)

    def __repr__(self):
        return f"{type(self).__name__}({self.only})"


class Split(_Base, DisjointUnionStrategy):
    def parts(self, c):
        d = GRAMMAR[c.name]
        return d[1] if d[0] == "union" else None

    def forward_map(self, comb_class, obj, children=None):
        return tuple(obj[2] if i == obj[1] else None for i in range(len(GRAMMAR[comb_class.name][1])))

    def backward_map(self, comb_class, objs, children=None):
        i = self.backward_map_index(objs)
        yield (comb_class.name, i, objs[i])


class OneWaySplit(Split):
    def is_two_way(self, comb_class):
        return False

    def is_reversible(self, comb_class):
        return False


class Factor(_Base, CartesianProductStrategy):
    def parts(self, c):
        d = GRAMMAR[c.name]
        return d[1] if d[0] == "prod" and not c.is_empty() else None

    def forward_map(self, comb_class, obj, children=None):
        return tuple(obj[1:])

    def backward_map(self, comb_class, objs, children=None):
        yield (comb_class.name,) + tuple(objs)


class Rename(_Base, DisjointUnionStrategy):
    """A class defined as the same as another."""

    def parts(self, c):
        d = GRAMMAR[c.name]
        return (d[1],) if d[0] == "same" else None

    def forward_map(self, comb_class, obj, children=None):
        return (obj[1],)

    def backward_map(self, comb_class, objs, children=None):
        yield (comb_class.name, objs[0])


class OneWayRename(Rename):
    def is_two_way(self, comb_class):
        return False

    def is_reversible(self, comb_class):
        return False


class Cover(_Base, DisjointUnionStrategy):
    """A class is another class defined as the same."""

    def __init__(self, copies, **kw):
        super().__init__(**kw)
        self.copies = dict(copies)

    def to_jsonable(self):
        d = super().to_jsonable()
        d["copies"] = self.copies
        return d

    def parts(self, c):
        return (self.copies[c.name],) if c.name in self.copies else None

    def forward_map(self, comb_class, obj, children=None):
        return ((self.copies[comb_class.name], obj),)

    def backward_map(self, comb_class, objs, children=None):
        yield objs[0][1]


class Verify(VerificationStrategy):
    """Opaque classes (and the named ones) are verified."""

    def __init__(self, extra=(), ignore_parent=True):
        super().__init__(ignore_parent=ignore_parent)
        self.extra = tuple(extra)

    def verified(self, comb_class):
        if comb_class.is_empty():
            return False
        return GRAMMAR[comb_class.name][0] == "fin" or comb_class.name in self.extra

    def formal_step(self):
        return "verified"

    def pack(self, comb_class):
        return make_pack()

    def get_terms(self, comb_class, n):
        return Counter(comb_class.truth(n))

    def get_objects(self, comb_class, n):
        return comb_class.by_stats(n)

    def random_sample_object_of_size(self, comb_class, n, **parameters):
        import random

        return random.choice(list(comb_class.objects_of_size(n, **parameters)))

    def get_genf(self, comb_class, funcs=None):
        import sympy

        x = sympy.var("x")
        res = sympy.Integer(0)
        for n, objs in GRAMMAR[comb_class.name][1].items():
            for _, s in objs:
                mono = x**n
                for k, t in comb_class.stats:
                    mono *= sympy.var(k) ** s.get(t, 0)
                res += mono
        return res

    def to_jsonable(self):
        d = super().to_jsonable()
        d["extra"] = self.extra
        return d

    @classmethod
    def from_dict(cls, d):
        return cls(**d)


def make_pack(initial=None, inferral=(), expansion=None, ver=None, symmetries=(), iterative=False):
    return StrategyPack(
        initial_strats=[Factor()] if initial is None else initial,
        inferral_strats=list(inferral),
        expansion_strats=[[Split(), Rename()]] if expansion is None else expansion,
        ver_strats=[Verify()] if ver is None else ver,
        symmetries=list(symmetries),
        iterative=iterative,
        name="toy",
    )


def searcher(start, pack=None, **kw):
    return CombinatorialSpecificationSearcher(start, pack or make_pack(), **kw)


def expect(cond, msg=""):
    if not cond:
        print("BROKEN:", msg)
        sys.exit(1)


def same_terms(got, truth):
    return {k: v for k, v in got.items() if v} == {k: v for k, v in truth.items() if v}
