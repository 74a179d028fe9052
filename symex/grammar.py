"""
A universe of combinatorial classes whose structure is symbolic, the genuine
strategies relating them, and the independent truth about them.

A class is an expression over core classes 0..n-1 together with the statistics
it tracks.  What a core class *is* (empty, a single object, an opaque set of
objects with symbolic counts, a union or a product of other classes) is decided
by the engine the first time the code under test or the truth asks.  Counts of
opaque classes are symbolic integers, so the truth at each size is a polynomial
in them.

Expressions:
    ("c", i)      core class i
    ("eps",)      the object of size 0
    ("atom", lat) one object of size 1 whose latent statistics are lat
    ("none", j)   the empty class (several copies)
    ("w", a, e)   a disguised copy of e
"""
# pylint: disable=all
import ast
from collections import Counter, defaultdict
from itertools import product as iproduct

from symex import env  # noqa: F401
from symex.combi import ob
from symex.engine import SymInt  # noqa: F401

import sympy

from comb_spec_searcher import CombinatorialClass, StrategyPack
from comb_spec_searcher.exception import StrategyDoesNotApply
from comb_spec_searcher.strategies.constructor import Constructor
from comb_spec_searcher.strategies.rule import NonBijectiveRule
from comb_spec_searcher.strategies.strategy import (
    AtomStrategy,
    CartesianProductStrategy,
    DisjointUnionStrategy,
    StrategyFactory,
    SymmetryStrategy,
    VerificationStrategy,
)

CUR = None  # the universe of the current path
INF = float("inf")


class Universe:
    def __init__(self, E, n, kinds, nlat=0, schemes=(0,), drops=(False,), opaque_max=1,
                 opaque_sizes=2, hi=None, partial=False, verifiable=False, lat_top=1,
                 cons_any=True, prefix="", force=None, opaque_mins=None, concrete=False,
                 targets=None, picks=None):
        global CUR
        CUR = self
        self.E = E
        self.n = n
        self.kinds = kinds
        self.nlat = nlat
        self.lats = list(iproduct(range(lat_top + 1), repeat=nlat))
        self.schemes = schemes
        self.drops = drops
        self.opaque_max = opaque_max
        self.opaque_mins = opaque_mins
        self.order = 1
        self.genf_forms = False
        self.targets = targets  # of the productions that may be recursive
        self.concrete = concrete  # make the counts of opaque classes concrete
        self.opaque_sizes = opaque_sizes
        self.hi = hi
        self.partial = partial
        self.verifiable = verifiable
        self.cons_any = cons_any
        self.prefix = prefix
        self.force = force or {}
        self.picks = picks or {}  # {(core class, part): core classes}
        self.hidden = set()
        self.defs = {}
        self.flags = {}
        self.tables = {}
        self._terms = {}
        self._objs = {}
        self._mins = {}
        self._closed = False
        self.frozen = False

    # -- symbolic structure -------------------------------------------------

    def choose(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return self.E.choose(self.prefix + name, options)

    def flag(self, name, options=(True, False)):
        if name not in self.flags:
            self.flags[name] = self.choose("f_" + name, options)
        return self.flags[name]

    def applies(self, tag, expr):
        if not self.partial:
            return True
        return self.flag(f"{tag}_{show(expr)}")

    def atom(self, i, k):
        return ("atom", self.choose(f"d{i}_a{k}", self.lats))

    def define(self, i):
        """The definition of core class i, decided on first use."""
        if i in self.defs:
            return self.defs[i]
        later = range(i + 1, self.n)
        opts = []
        for k in self.force.get(i, self.kinds):
            if k in ("union", "prod", "sum3", "cube+") and i + 1 >= self.n:
                continue
            if k == "ueps" and i + 1 >= self.n:
                continue
            opts.append(k)
        if not later:
            opts = [k for k in opts if k not in ("union", "prod", "ueps", "uatom", "sum3", "cube+")]
        kind = self.choose(f"d{i}", opts)
        pick = lambda k, rng: ("c", self.choose(f"d{i}_{k}", self.picks.get((i, k), rng)))
        anyc = self.targets or range(self.n) if self.cons_any else [j for j in range(self.n) if j != i]
        if kind == "eps":
            d = ("eps",)
        elif kind == "atom":
            d = self.atom(i, 0)
        elif kind == "empty":
            d = ("empty",)
        elif kind in ("opaque", "hidden"):
            if kind == "hidden":  # no strategy knows its objects
                self.hidden.add(("c", i))
            m = self.choose(f"d{i}_min", self.opaque_mins or range(self.opaque_max + 1))
            d = ("opaque", f"{i}", m)
        elif kind == "union":
            d = ("union", (pick("l", later), pick("r", later)))
        elif kind == "sum3":
            d = ("union", (pick("l", later), pick("m", later), pick("r", later)))
        elif kind == "ueps":
            d = ("union", (("eps",), pick("r", later)))
        elif kind == "uatom":
            d = ("union", (self.atom(i, 0), pick("r", later)))
        elif kind == "prod":
            d = ("prod", (pick("l", later), pick("r", later)))
        elif kind == "cons":
            d = ("prod", (self.atom(i, 0), pick("r", anyc)))
        elif kind == "cons2":
            d = ("prod", (self.atom(i, 0), pick("l", anyc), pick("r", anyc)))
        elif kind == "square":
            d = ("prod", (pick("l", anyc), pick("r", anyc)))
        elif kind == "cube":
            d = ("prod", (pick("l", anyc), pick("m", anyc), pick("r", anyc)))
        elif kind == "cube+":  # not recursive
            d = ("prod", (pick("l", later), pick("m", later), pick("r", later)))
        elif kind == "snoc":
            d = ("prod", (pick("l", anyc), self.atom(i, 0)))
        else:
            raise ValueError(kind)
        self.defs[i] = d
        return d

    def definition(self, e):
        e = strip(e)
        if e[0] == "c":
            return self.define(e[1])
        if e[0] == "none":
            return ("empty",)
        return e  # eps, atom

    def reachable(self, e):
        seen = []
        todo = [strip(e)]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.append(x)
            d = self.definition(x)
            if d[0] in ("union", "prod"):
                todo.extend(map(strip, d[1]))
        return seen

    # -- truth --------------------------------------------------------------

    def min_size(self, e):
        """Least size of an object (infinite when there is none)."""
        e = strip(e)
        if e in self._mins:
            return self._mins[e]
        d = self.definition(e)
        if d[0] not in ("union", "prod"):
            return {"eps": 0, "atom": 1, "empty": INF}.get(d[0], d[2] if len(d) > 2 else 0)
        nodes = self.reachable(e)
        val = {x: INF for x in nodes}
        changed = True
        while changed:
            changed = False
            for x in nodes:
                d = self.definition(x)
                if d[0] == "union":
                    v = min(val[strip(y)] for y in d[1])
                elif d[0] == "prod":
                    v = sum(val[strip(y)] for y in d[1])
                else:
                    v = {"eps": 0, "atom": 1, "empty": INF}.get(d[0], d[2] if len(d) > 2 else 0)
                if v != val[x]:
                    val[x] = v
                    changed = True
        self._mins.update(val)  # all that is reachable is defined by now
        return val[e]

    def min_value(self, e, lat):
        """Least value of a latent statistic."""
        nodes = self.reachable(e)
        val = {x: INF for x in nodes}
        for _ in range(len(nodes) + 2):
            for x in nodes:
                d = self.definition(x)
                if d[0] == "union":
                    v = min(val[strip(y)] for y in d[1])
                elif d[0] == "prod":
                    v = sum(val[strip(y)] for y in d[1])
                elif d[0] == "atom":
                    v = d[1][lat]
                else:
                    v = INF if d[0] == "empty" else 0
                val[x] = v
        v = val[strip(e)]
        return 0 if v == INF else v

    def always_zero(self, e, lat):
        for x in self.reachable(e):
            d = self.definition(x)
            if d[0] == "opaque" or (d[0] == "atom" and d[1][lat]):
                return False
        return True

    def opaque_table(self, d):
        """{size: {lat: symbolic count}} of an opaque class."""
        name, m = d[1], d[2]
        if name not in self.tables:
            t = {}
            for s in range(m, m + self.opaque_sizes):
                t[s] = {
                    lat: self.E.int(f"{self.prefix}n{name}_{s}_{'_'.join(map(str, lat))}", 0, self.hi)
                    for lat in self.lats
                }
            tot = 0
            for x in t[m].values():
                tot = tot + x
            self.E.assume(tot >= 1)
            if self.concrete:
                t = {s: {lat: int(c) for lat, c in row.items()} for s, row in t.items()}
            self.tables[name] = t
        return self.tables[name]

    def terms(self, e, n):
        """{lat: count} of the objects of size n."""
        e = strip(e)
        key = (e, n)
        if key in self._terms:
            return self._terms[key]
        d = self.definition(e)
        res = {}
        if n < 0 or d[0] == "empty":
            pass
        elif d[0] == "eps":
            if n == 0:
                res[self.lats[0]] = 1
        elif d[0] == "atom":
            if n == 1:
                res[d[1]] = 1
        elif d[0] == "opaque":
            res = dict(self.opaque_table(d).get(n, {}))
        elif d[0] == "union":
            for y in d[1]:
                for lat, c in self.terms(y, n).items():
                    res[lat] = res.get(lat, 0) + c
        else:
            res = self._prod(d[1], n)
        self._terms[key] = res
        return res

    def _prod(self, ys, n):
        if len(ys) == 1:
            return self.terms(ys[0], n)
        mins = [self.min_size(y) for y in ys]
        if INF in mins:
            return {}
        rest = sum(mins[1:])
        res = {}
        for a in range(mins[0], n - rest + 1):
            # the tail first when it is the smaller part: keeps recursion guarded
            left = self.terms(ys[0], a)
            if not left:
                continue
            right = self._prod(ys[1:], n - a)
            for u, p in left.items():
                for v, q in right.items():
                    w = tuple(x + y for x, y in zip(u, v))
                    res[w] = res.get(w, 0) + p * q
        return res

    def objects(self, e, n):
        """[(object, lat)], counts of opaque classes concretised."""
        if e[0] == "w":
            return [(ob("w", e[1], o), lat) for o, lat in self.objects(e[2], n)]
        key = (e, n)
        if key in self._objs:
            return self._objs[key]
        d = self.definition(e)
        res = []
        if n < 0 or d[0] == "empty":
            pass
        elif d[0] == "eps":
            if n == 0:
                res.append((ob("e"), self.lats[0]))
        elif d[0] == "atom":
            if n == 1:
                res.append((ob("a", *d[1]), d[1]))
        elif d[0] == "opaque":
            t = self.opaque_table(d).get(n, {})
            for lat in list(t):
                t[lat] = int(t[lat])
                for k in range(t[lat]):
                    res.append((ob("o", d[1], n, *lat, k), lat))
        elif d[0] == "union":
            for i, y in enumerate(d[1]):
                res.extend((ob("u", i, o), lat) for o, lat in self.objects(y, n))
        else:
            res = [(ob("p", *o), lat) for o, lat in self._prod_objects(d[1], n)]
        self._objs[key] = res
        return res

    def _prod_objects(self, ys, n):
        if len(ys) == 1:
            return [((o,), lat) for o, lat in self.objects(ys[0], n)]
        mins = [self.min_size(y) for y in ys]
        if INF in mins:
            return []
        res = []
        for a in range(mins[0], n - sum(mins[1:]) + 1):
            left = self.objects(ys[0], a)
            if not left:
                continue
            for o, u in left:
                for os, v in self._prod_objects(ys[1:], n - a):
                    res.append(((o,) + os, tuple(x + y for x, y in zip(u, v))))
        return res

    # -- statistics ---------------------------------------------------------

    def child_class(self, e, parent):
        """The class of expression e tracking what the parent tracks."""
        lats = sorted({l for _, l in parent.stats})
        return self.make(e, lats)

    def make(self, e, lats):
        if lats and True in self.drops and self.flag(f"drop_{show(e)}", self.drops):
            lats = [l for l in lats if not self.always_zero(e, l)]
        s = self.flag(f"scheme_{show(e)}", self.schemes) if lats else 0
        names = {
            0: lambda l: f"k{l}",
            1: lambda l: f"j{l}",
            2: lambda l: f"k{self.nlat - 1 - l}",
        }[s]
        stats = [(names(l), l) for l in lats]
        if s == 2:
            stats.reverse()
        return G(e, tuple(stats))

    def project(self, cls, n):
        """Truth for a class: {values of its statistics: count}."""
        res = {}
        for lat, c in self.terms(cls.expr, n).items():
            v = tuple(lat[l] for _, l in cls.stats)
            res[v] = res.get(v, 0) + c
        return res

    def project_objects(self, cls, n):
        res = {}
        for o, lat in self.objects(cls.expr, n):
            v = tuple(lat[l] for _, l in cls.stats)
            res.setdefault(v, []).append(o)
        return res


def strip(e):
    while e[0] == "w":
        e = e[2]
    return e


def show(e):
    if e[0] == "w":
        return f"w{e[1]}" + show(e[2])
    if e[0] == "atom":
        return "a" + "".join(map(str, e[1]))
    return "".join(map(str, e))


def unwrap(e, o):
    while e[0] == "w":
        e, o = e[2], o[2]
    return o


def wrap(e, o):
    if e[0] == "w":
        return ob("w", e[1], wrap(e[2], o))
    return o


def size_of(o):
    return o.size()


class G(CombinatorialClass):
    """An expression with the statistics tracked: ((name, latent), ...)."""

    def __init__(self, expr, stats=()):
        self.expr = expr
        self.stats = tuple(stats)

    @property
    def extra_parameters(self):
        return tuple(k for k, _ in self.stats)

    def get_minimum_value(self, parameter):
        return CUR.min_value(self.expr, dict(self.stats)[parameter])

    def is_empty(self):
        return CUR.min_size(self.expr) == INF

    def is_atom(self):
        return CUR.definition(self.expr)[0] in ("eps", "atom")

    def minimum_size_of_object(self):
        m = CUR.min_size(self.expr)
        return 0 if m == INF else m

    def objects_of_size(self, n, **parameters):
        for v, objs in CUR.project_objects(self, n).items():
            if not parameters or dict(zip(self.extra_parameters, v)) == parameters:
                yield from objs

    def get_parameters(self, obj):
        n = size_of(obj)
        for o, lat in CUR.objects(self.expr, n):
            if o == obj:
                return tuple(lat[l] for _, l in self.stats)
        raise ValueError(f"{obj} not in {self}")

    def possible_parameters(self, n):
        for v in CUR.project(self, n):
            yield dict(zip(self.extra_parameters, v))

    def to_bytes(self):
        return repr((self.expr, self.stats)).encode()

    @classmethod
    def from_bytes(cls, b):
        return cls(*ast.literal_eval(b.decode()))

    def to_jsonable(self):
        d = super().to_jsonable()
        d["data"] = repr((self.expr, self.stats))
        return d

    @classmethod
    def from_dict(cls, d):
        return cls(*ast.literal_eval(d["data"]))

    def __eq__(self, o):
        return isinstance(o, G) and (self.expr, self.stats) == (o.expr, o.stats)

    def __hash__(self):
        return hash((self.expr, self.stats))

    def __repr__(self):
        return f"G({self.expr}, {self.stats})"

    def __str__(self):
        s = show(self.expr)
        if self.stats:
            s += "[" + ",".join(f"{k}:{l}" for k, l in self.stats) + "]"
        return s


# ---------------------------------------------------------------------------
# strategies


def param_map(parent, child):
    res = {}
    for k, l in parent.stats:
        for kk, ll in child.stats:
            if ll == l:
                res[k] = kk
                break
        else:
            assert CUR.always_zero(child.expr, l)
    return res


class _Base:
    """Shared by the strategies: attributes are plain, so equality works."""

    def to_jsonable(self):
        d = super().to_jsonable()
        for k, v in self.__dict__.items():
            if not k.startswith("_"):
                d[k] = v
        return d

    @classmethod
    def from_dict(cls, d):
        return cls(**d)

    def extra_parameters(self, comb_class, children=None):
        if children is None:
            children = self.decomposition_function(comb_class)
            if children is None:
                raise StrategyDoesNotApply
        return tuple(param_map(comb_class, c) for c in children)

    def __repr__(self):
        return f"{type(self).__name__}({', '.join(f'{k}={v!r}' for k, v in self.__dict__.items() if not k.startswith('_'))})"


def flags_of(d):
    return {k: d[k] for k in ("ignore_parent", "inferrable", "possibly_empty", "workable") if k in d}


class DefUnion(_Base, DisjointUnionStrategy):
    """A core class defined as a union is that union (disguised or not)."""

    def __init__(self, tag="u", two_way=True, **kw):
        super().__init__(**kw)
        self.tag = tag
        self.two_way = two_way

    def is_two_way(self, comb_class):
        return self.two_way

    def is_reversible(self, comb_class):
        return self.two_way

    def decomposition_function(self, comb_class):
        d = CUR.definition(comb_class.expr)
        if d[0] != "union" or not CUR.applies(self.tag, comb_class.expr):
            return None
        return tuple(CUR.child_class(e, comb_class) for e in d[1])

    def formal_step(self):
        return f"{self.tag}: definition as a union"

    def forward_map(self, comb_class, obj, children=None):
        o = unwrap(comb_class.expr, obj)
        d = CUR.definition(comb_class.expr)
        return tuple(o[2] if i == o[1] else None for i in range(len(d[1])))

    def backward_map(self, comb_class, objs, children=None):
        i = self.backward_map_index(objs)
        yield wrap(comb_class.expr, ob("u", i, objs[i]))


class DefProd(_Base, CartesianProductStrategy):
    def __init__(self, tag="p", swap=False, **kw):
        super().__init__(**kw)
        self.tag = tag
        self.swap = swap

    def order(self, n):
        return list(reversed(range(n))) if self.swap else list(range(n))

    def decomposition_function(self, comb_class):
        d = CUR.definition(comb_class.expr)
        if d[0] != "prod" or comb_class.is_empty() or not CUR.applies(self.tag, comb_class.expr):
            return None  # products declare that no factor is empty
        return tuple(CUR.child_class(d[1][i], comb_class) for i in self.order(len(d[1])))

    def formal_step(self):
        return f"{self.tag}: definition as a product"

    def forward_map(self, comb_class, obj, children=None):
        o = unwrap(comb_class.expr, obj)[1:]
        return tuple(o[i] for i in self.order(len(o)))

    def backward_map(self, comb_class, objs, children=None):
        res = [None] * len(objs)
        for i, o in zip(self.order(len(objs)), objs):
            res[i] = o
        yield wrap(comb_class.expr, ob("p", *res))


class Cautious(DefProd):
    """The same product, promising smaller shifts than it could: other rules with the same children."""

    def __init__(self, tag="p", swap=False, less=1, **kw):
        super().__init__(tag, swap, **kw)
        self.less = less

    def shifts(self, comb_class, children=None):
        return tuple(max(0, s - self.less) for s in super().shifts(comb_class, children))

    def can_be_equivalent(self):
        return False

    def is_two_way(self, comb_class):
        return False

    def is_reversible(self, comb_class):
        return False

    def formal_step(self):
        return f"{self.tag}: definition as a product, cautiously"


class FoldConstructor(Constructor):
    """k copies of the only child."""

    def __init__(self, k, turn, inner):
        self.k = k
        self.turn = turn
        self.inner = inner  # the union of one child

    def can_be_equivalent(self):
        return False

    def get_equation(self, lhs_func, rhs_funcs):
        (f,) = rhs_funcs
        return sympy.Eq(
            lhs_func, self.k * Constructor.substitute_parameters(f, self.inner.extra_parameters[0])
        )

    def reliance_profile(self, n, **parameters):
        return self.inner.reliance_profile(n, **parameters)

    def get_terms(self, parent_terms, subterms, n):
        res = Counter()
        for v, c in self.inner.get_terms(parent_terms, subterms, n).items():
            res[v] = self.k * c
        return res

    def get_sub_objects(self, subobjs, n):
        return self.inner.get_sub_objects(subobjs, n)

    def random_sample_sub_objects(self, parent_count, subsamplers, subrecs, n, **parameters):
        return self.inner.random_sample_sub_objects(
            parent_count // self.k, subsamplers, subrecs, n, **parameters
        )

    def equiv(self, other, data=None):
        if not isinstance(other, FoldConstructor) or self.k != other.k:
            return False, None
        # both ways the same, and the inverse is itself
        return True, "turn" if self.turn or other.turn else None


class FoldRule(NonBijectiveRule):
    def _forward_order(self, obj, image, data=None):
        i = self.strategy.place(self.comb_class, obj)
        return self.constructor.k - 1 - i if data == "turn" else i

    def _backward_order_item(self, idx, objs, data=None):
        i = self.constructor.k - 1 - idx if data == "turn" else idx
        return list(self.backward_map(objs))[i]


class Fold(_Base, DisjointUnionStrategy):
    """A union of a class with itself is so many copies of it: not a bijection."""

    def __init__(self, turn=False, upside=False, **kw):
        super().__init__(**kw)
        self.turn = turn
        self.upside = upside

    def __call__(self, comb_class, children=None):
        if children is None:
            children = self.decomposition_function(comb_class)
            if children is None:
                raise StrategyDoesNotApply
        return FoldRule(self, comb_class, children=children)

    def can_be_equivalent(self):
        return False

    def is_two_way(self, comb_class):
        return False

    def is_reversible(self, comb_class):
        return False

    def decomposition_function(self, comb_class):
        d = CUR.definition(comb_class.expr)
        if d[0] != "union" or len(set(d[1])) != 1 or not CUR.applies("fold", comb_class.expr):
            return None
        return (CUR.child_class(d[1][0], comb_class),)

    def constructor(self, comb_class, children=None):
        if children is None:
            children = self.decomposition_function(comb_class)
        d = CUR.definition(comb_class.expr)
        return FoldConstructor(
            len(d[1]), self.turn, super().constructor(comb_class, children)
        )

    def place(self, comb_class, obj):
        i = unwrap(comb_class.expr, obj)[1]
        return len(CUR.definition(comb_class.expr)[1]) - 1 - i if self.upside else i

    def formal_step(self):
        return "the same class several times"

    def forward_map(self, comb_class, obj, children=None):
        return (unwrap(comb_class.expr, obj)[2],)

    def backward_map(self, comb_class, objs, children=None):
        k = len(CUR.definition(comb_class.expr)[1])
        for i in reversed(range(k)) if self.upside else range(k):
            yield wrap(comb_class.expr, ob("u", i, objs[0]))


class ToCopy(_Base, DisjointUnionStrategy):
    """A class is its disguised copy, plus possibly some empty classes."""

    def __init__(self, a=0, pos=0, empties=0, two_way=True, core=True, **kw):
        super().__init__(**kw)
        self.a = a
        self.pos = pos
        self.empties = empties
        self.two_way = two_way
        self.core = core

    def is_two_way(self, comb_class):
        return self.two_way

    def is_reversible(self, comb_class):
        return self.two_way

    def decomposition_function(self, comb_class):
        e = comb_class.expr
        if e[0] == "w" or (self.core and e[0] != "c"):
            return None
        if not CUR.applies(f"to{self.a}", e):
            return None
        kids = [G(("none", j), ()) for j in range(self.empties)]
        kids.insert(self.pos, CUR.child_class(("w", self.a, e), comb_class))
        return tuple(kids)

    def formal_step(self):
        return f"disguise {self.a}"

    def forward_map(self, comb_class, obj, children=None):
        res = [None] * (self.empties + 1)
        res[self.pos] = ob("w", self.a, obj)
        return tuple(res)

    def backward_map(self, comb_class, objs, children=None):
        yield objs[self.pos][2]


class FromCopy(_Base, DisjointUnionStrategy):
    """A disguised copy is what it is a copy of."""

    def __init__(self, a=0, two_way=True, **kw):
        super().__init__(**kw)
        self.a = a
        self.two_way = two_way

    def is_two_way(self, comb_class):
        return self.two_way

    def is_reversible(self, comb_class):
        return self.two_way

    def decomposition_function(self, comb_class):
        e = comb_class.expr
        if e[0] != "w" or e[1] != self.a or not CUR.applies(f"from{self.a}", e):
            return None
        return (CUR.child_class(e[2], comb_class),)

    def formal_step(self):
        return f"uncover {self.a}"

    def forward_map(self, comb_class, obj, children=None):
        return (obj[2],)

    def backward_map(self, comb_class, objs, children=None):
        yield ob("w", self.a, objs[0])


class CopySymmetry(_Base, SymmetryStrategy):
    """The copy as a symmetry: w(a, e) <-> e."""

    def __init__(self, a=7, **kw):
        super().__init__(**kw)
        self.a = a

    def decomposition_function(self, comb_class):
        e = comb_class.expr
        if e[0] == "w":
            if e[1] != self.a:
                return None
            return (CUR.child_class(e[2], comb_class),)
        if e[0] != "c":
            return None
        return (CUR.child_class(("w", self.a, e), comb_class),)

    def formal_step(self):
        return f"symmetry {self.a}"

    def forward_map(self, comb_class, obj, children=None):
        if comb_class.expr[0] == "w":
            return (obj[2],)
        return (ob("w", self.a, obj),)

    def backward_map(self, comb_class, objs, children=None):
        if comb_class.expr[0] == "w":
            yield ob("w", self.a, objs[0])
        else:
            yield objs[0][2]


class EpsProduct(_Base, CartesianProductStrategy):
    """e = eps x (copy of) e: genuine, but no progress."""

    def __init__(self, a=None, first=True, core=True, **kw):
        super().__init__(**kw)
        self.a = a
        self.first = first
        self.core = core

    def decomposition_function(self, comb_class):
        e = comb_class.expr
        if (self.core and e[0] != "c") or comb_class.is_empty() or not CUR.applies("eps", e):
            return None
        if self.a is None:
            other = comb_class
        else:
            other = CUR.child_class(("w", self.a, e), comb_class)
        eps = CUR.child_class(("eps",), comb_class)
        return (eps, other) if self.first else (other, eps)

    def formal_step(self):
        return "product with the object of size 0"

    def forward_map(self, comb_class, obj, children=None):
        o = obj if self.a is None else ob("w", self.a, obj)
        return (ob("e"), o) if self.first else (o, ob("e"))

    def backward_map(self, comb_class, objs, children=None):
        o = objs[1 if self.first else 0]
        yield o if self.a is None else o[2]


class UnaryProduct(_Base, CartesianProductStrategy):
    """e = copy of e, as a product with one factor."""

    def __init__(self, a=3, **kw):
        super().__init__(**kw)
        self.a = a

    def decomposition_function(self, comb_class):
        e = comb_class.expr
        if e[0] != "c" or comb_class.is_empty() or not CUR.applies("up", e):
            return None
        return (CUR.child_class(("w", self.a, e), comb_class),)

    def formal_step(self):
        return "product of one factor"

    def forward_map(self, comb_class, obj, children=None):
        return (ob("w", self.a, obj),)

    def backward_map(self, comb_class, objs, children=None):
        yield objs[0][2]


class UnaryStep(UnaryProduct):
    """The same, declared to be no equivalence."""

    def can_be_equivalent(self):
        return False

    def formal_step(self):
        return "step which is no equivalence"


class Flatten(_Base, DisjointUnionStrategy):
    """A union with a child which is a union itself, flattened."""

    def __init__(self, child=0, **kw):
        super().__init__(**kw)
        self.child = child

    def _parts(self, comb_class):
        d = CUR.definition(comb_class.expr)
        if d[0] != "union" or self.child >= len(d[1]):
            return None
        e = d[1][self.child]
        dd = CUR.definition(e)
        if dd[0] != "union":
            return None
        parts = [((i,), x) for i, x in enumerate(d[1]) if i != self.child]
        parts[self.child : self.child] = [((self.child, j), x) for j, x in enumerate(dd[1])]
        return parts

    def decomposition_function(self, comb_class):
        parts = self._parts(comb_class)
        if parts is None or not CUR.applies(f"flat{self.child}", comb_class.expr):
            return None
        return tuple(CUR.child_class(x, comb_class) for _, x in parts)

    def formal_step(self):
        return f"flatten child {self.child}"

    def forward_map(self, comb_class, obj, children=None):
        o = unwrap(comb_class.expr, obj)
        parts = self._parts(comb_class)
        if o[1] == self.child:
            pos, inner = (o[1], o[2][1]), o[2][2]
        else:
            pos, inner = (o[1],), o[2]
        return tuple(inner if p == pos else None for p, _ in parts)

    def backward_map(self, comb_class, objs, children=None):
        i = self.backward_map_index(objs)
        pos = self._parts(comb_class)[i][0]
        o = objs[i]
        for p in reversed(pos):
            o = ob("u", p, o)
        yield wrap(comb_class.expr, o)


class Parents(_Base, StrategyFactory):
    """
    Rules whose parent is not the class expanded: the definitions of the core
    classes mentioning it; or the strategies expanding the class itself.
    """

    def __init__(self, mode="parents"):
        self.mode = mode

    def __call__(self, comb_class):
        e = comb_class.expr
        if self.mode == "strategies":
            yield DefUnion()
            yield DefProd()
            return
        if e[0] != "c":
            return
        if self.mode == "own":  # ready rules for the class itself
            for strat in (DefUnion(), DefProd()):
                if strat.decomposition_function(comb_class) is not None:
                    yield strat(comb_class)
            return
        if self.mode == "cousins":  # rules which do not mention the class
            i = (e[1] + 1) % CUR.n
            lats = sorted({l for _, l in comb_class.stats})
            other = CUR.make(("c", i), lats)
            for strat in (DefUnion(), DefProd()):
                if strat.decomposition_function(other) is not None:
                    yield strat(other)
            return
        for i in range(CUR.n):
            d = CUR.define(i)
            if d[0] in ("union", "prod") and e in d[1]:
                lats = sorted({l for _, l in comb_class.stats})
                parent = CUR.make(("c", i), lats)
                strat = DefUnion() if d[0] == "union" else DefProd()
                kids = strat.decomposition_function(parent)
                if kids is not None and comb_class in kids:
                    yield strat(parent)

    def to_jsonable(self):
        d = StrategyFactory.to_jsonable(self)
        d["mode"] = self.mode
        return d

    def __str__(self):
        return f"factory {self.mode}"

    @classmethod
    def from_dict(cls, d):
        return cls(**d)


class Mixed(_Base, StrategyFactory):
    """Strategies, some of which do not apply, and ready rules, in turn."""

    def __init__(self, a=0):
        self.a = a

    def __call__(self, comb_class):
        yield FromCopy(self.a)
        yield DefProd()
        copy = ToCopy(self.a)
        if copy.decomposition_function(comb_class) is not None:
            yield copy(comb_class)
            other = CUR.child_class(("w", self.a, comb_class.expr), comb_class)
            back = FromCopy(self.a)
            if back.decomposition_function(other) == (comb_class,):
                yield back(other)  # the parent is not the class expanded
        yield DefUnion()

    def to_jsonable(self):
        d = StrategyFactory.to_jsonable(self)
        d["a"] = self.a
        return d

    def __str__(self):
        return f"mixed factory {self.a}"

    @classmethod
    def from_dict(cls, d):
        return cls(**d)


class AtomSteps(_Base, StrategyFactory):
    """The class expanded, and rules of the atoms too."""

    def __init__(self, mode="eps"):
        self.mode = mode

    def __call__(self, comb_class):
        if comb_class.expr[0] != "c":
            return
        atom = CUR.child_class(CUR.atom(0, "l"), comb_class)
        if self.mode == "eps":
            strat = EpsProduct(4, core=False)
        else:
            strat = ToCopy(4, core=False)
        if strat.decomposition_function(atom) is not None:
            yield strat(atom)

    def to_jsonable(self):
        d = StrategyFactory.to_jsonable(self)
        d["mode"] = self.mode
        return d

    def __str__(self):
        return f"rules of atoms {self.mode}"

    @classmethod
    def from_dict(cls, d):
        return cls(**d)


class VerFactory(_Base, StrategyFactory):
    """Verification strategies as a factory."""

    def __init__(self):
        pass

    def __call__(self, comb_class):
        yield VerifyOpaque()
        yield VerifySome(own=True)

    def to_jsonable(self):
        return StrategyFactory.to_jsonable(self)

    def __str__(self):
        return "verification factory"

    @classmethod
    def from_dict(cls, d):
        return cls(**d)


class _Truthful(_Base, VerificationStrategy):
    """Verification strategies counting from the truth."""

    def __init__(self, ignore_parent=True):
        super().__init__(ignore_parent=ignore_parent)

    def to_jsonable(self):
        d = VerificationStrategy.to_jsonable(self)
        for k, v in self.__dict__.items():
            if not k.startswith("_"):
                d[k] = v
        return d

    def get_terms(self, comb_class, n):
        if not self.verified(comb_class):
            raise StrategyDoesNotApply
        return Counter(CUR.project(comb_class, n))

    def get_objects(self, comb_class, n):
        if not self.verified(comb_class):
            raise StrategyDoesNotApply
        res = defaultdict(list)
        for v, objs in CUR.project_objects(comb_class, n).items():
            res[v] = list(objs)
        return res

    def random_sample_object_of_size(self, comb_class, n, **parameters):
        from symex.env import RANDOM

        v = tuple(parameters[k] for k in comb_class.extra_parameters)
        objs = CUR.project_objects(comb_class, n).get(v, [])
        if not objs:
            raise ValueError("nothing to sample")
        return RANDOM.choice(objs)

    def get_genf(self, comb_class, funcs=None):
        res = self.series(comb_class)
        if CUR.genf_forms and res != 0:
            # the same, given as an equation in F, or with the function of another class
            others = sorted(funcs or (), key=str)
            form = CUR.flag("genf of others" if others else "genf", ("series", "F", "functions") if others else ("series", "F"))
            if form == "F":
                CUR.E.cover("equation in F")
                return res + sympy.var("x") * (sympy.var("F") - res)
            if form == "functions":
                CUR.E.cover("equation in other functions")
                return res + sympy.var("x") * (funcs[others[0]] - self.series(others[0]))
        return res

    @staticmethod
    def series(comb_class):
        x = sympy.var("x")
        res = sympy.Integer(0)
        d = CUR.definition(comb_class.expr)
        # only truncated series are needed of classes with infinitely many objects
        sizes = range(CUR.order + 1) if d[0] != "opaque" else list(CUR.opaque_table(d))
        for n in sizes:
            for v, c in CUR.project(comb_class, n).items():
                mono = x**n
                for (k, _), a in zip(comb_class.stats, v):
                    mono *= sympy.var(k) ** a
                res += as_sympy(c) * mono
        return res


COEFFS = {}


def as_sympy(c):
    """A (symbolic) count as a sympy number or symbol, remembered in COEFFS."""
    if type(c) is int:
        return sympy.Integer(c)
    s = sympy.Symbol(f"coeff_{len(COEFFS)}")
    COEFFS[s] = c
    return s


class VerifyAtoms(_Truthful):
    def __init__(self, ignore_parent=True):
        super().__init__(ignore_parent)

    def verified(self, comb_class):
        return comb_class.is_atom()

    def formal_step(self):
        return "is an atom (with statistics)"

    def pack(self, comb_class):
        from comb_spec_searcher.exception import InvalidOperationError

        raise InvalidOperationError("no pack")


class VerifyOpaque(_Truthful):
    def __init__(self, ignore_parent=True):
        super().__init__(ignore_parent)

    def verified(self, comb_class):
        d = CUR.definition(comb_class.expr)
        return d[0] == "opaque" and strip(comb_class.expr) not in CUR.hidden

    def formal_step(self):
        return "opaque"

    def pack(self, comb_class):
        from comb_spec_searcher.exception import InvalidOperationError

        raise InvalidOperationError("no pack")


class VerifySome(_Truthful):
    """Verifies classes other strategies could also expand."""

    def __init__(self, tag="v", own=True, packed=True, ignore_parent=True):
        super().__init__(ignore_parent)
        self.tag = tag
        self.own = own
        self.packed = packed

    def verified(self, comb_class):
        e = comb_class.expr
        if strip(e)[0] != "c" or comb_class.is_empty() or strip(e) in CUR.hidden:
            return False
        return CUR.flag(f"{self.tag}er_{show(e)}", (False, True))

    def formal_step(self):
        return f"{self.tag}: verified"

    def pack(self, comb_class):
        from comb_spec_searcher.exception import InvalidOperationError

        if not self.packed:
            raise InvalidOperationError("no pack")
        return basic_pack("for verified")

    def get_terms(self, comb_class, n):
        if self.own:
            return super().get_terms(comb_class, n)
        return VerificationStrategy.get_terms(self, comb_class, n)

    def get_objects(self, comb_class, n):
        if self.own:
            return super().get_objects(comb_class, n)
        return VerificationStrategy.get_objects(self, comb_class, n)

    def random_sample_object_of_size(self, comb_class, n, **parameters):
        if self.own:
            return super().random_sample_object_of_size(comb_class, n, **parameters)
        return VerificationStrategy.random_sample_object_of_size(
            self, comb_class, n, **parameters
        )


def base_verification():
    return [AtomStrategy() if CUR.nlat == 0 else VerifyAtoms(), VerifyOpaque()]


def basic_pack(name="basic"):
    return StrategyPack(
        initial_strats=[DefProd()],
        inferral_strats=[],
        expansion_strats=[[DefUnion(), FromCopy(0), FromCopy(1), FromCopy(3)]],
        ver_strats=base_verification(),
        name=name,
    )


def build_pack(U, menu, ver=(), symmetries=(), name="pack", iterative=False):
    """
    menu: [(strategy or list of alternatives, allowed positions)]; positions are
    "initial", "inferral", "e0", "e1", "absent".
    """
    slots = {"initial": [], "inferral": [], "e0": [], "e1": [], "absent": []}
    for i, (alts, positions) in enumerate(menu):
        if not isinstance(alts, (list, tuple)):
            alts = [alts]
        where = U.choose(f"pos{i}", positions)
        if where == "absent":
            continue
        slots[where].append(alts[U.choose(f"alt{i}", range(len(alts)))])
    return StrategyPack(
        initial_strats=slots["initial"],
        inferral_strats=slots["inferral"],
        expansion_strats=[s for s in (slots["e0"], slots["e1"]) if s],
        ver_strats=base_verification() + list(ver),
        symmetries=list(symmetries),
        name=name,
        iterative=iterative,
    )
