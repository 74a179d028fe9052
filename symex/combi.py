"""
Combinatorial classes given by (symbolic) tables and the strategies relating
them: the genuine rules the counting/sampling harnesses feed to the library.

A class has a name, statistics, a minimum size and a table
``table[n][v] = number of objects of size n with statistic vector v``.
The table of a parent is *defined* from those of its children here,
independently of the code under test (see ``union_table``/``product_table``).
"""
# pylint: disable=all
from collections import Counter, defaultdict
from itertools import product as iproduct

from symex import env  # noqa: F401

from comb_spec_searcher import CombinatorialClass
from comb_spec_searcher.strategies.strategy import (
    CartesianProductStrategy,
    DisjointUnionStrategy,
    VerificationStrategy,
)


class Obj(tuple):
    """An object which is false in Python, like the empty word may be."""

    __slots__ = ()

    def __bool__(self):
        return False

    def size(self):
        """The size follows from the object alone."""
        k = self[0]
        if k in ("e", "a"):
            return int(k == "a")
        if k == "o":
            return self[2]
        if k in ("u", "w"):
            return self[2].size()
        return sum(o.size() for o in self[1:])


def ob(*parts):
    return Obj(parts)


class TableClass(CombinatorialClass):
    def __init__(self, name, params=(), table=None, min_size=0, min_vals=None,
                 atom=False, empty=False):
        self.name = name
        self.params = tuple(params)
        self.table = table if table is not None else {}
        self.min_size = min_size
        self.min_vals = min_vals if min_vals is not None else {p: 0 for p in self.params}
        self.atom = atom
        self.empty = empty

    @property
    def extra_parameters(self):
        return self.params

    def get_minimum_value(self, parameter):
        return self.min_vals[parameter]

    def is_empty(self):
        return self.empty

    def is_atom(self):
        return self.atom

    def minimum_size_of_object(self):
        return self.min_size

    def get_terms(self, n):
        return Counter(self.table.get(n, {}))

    def objects_of_size(self, n, **parameters):
        raise NotImplementedError

    def possible_parameters(self, n):
        for v in self.table.get(n, {}):
            yield dict(zip(self.params, v))

    def to_bytes(self):
        raise NotImplementedError

    @classmethod
    def from_dict(cls, d):
        raise NotImplementedError

    def __eq__(self, o):
        return isinstance(o, TableClass) and self.name == o.name

    def __hash__(self):
        return hash(self.name)

    def __str__(self):
        return f"{self.name}({','.join(self.params)})"

    __repr__ = __str__


class MapUnion(DisjointUnionStrategy):
    def __init__(self, children, maps, **kw):
        super().__init__(**kw)
        self.kids = tuple(children)
        self.maps = tuple(maps)

    def decomposition_function(self, comb_class):
        return self.kids

    def extra_parameters(self, comb_class, children=None):
        return tuple(dict(m) for m in self.maps)

    def formal_step(self):
        return "union"

    relabel = None  # (parent, child, position): objects ("L", class, base)

    def forward_map(self, comb_class, obj, children=None):
        if self.relabel:
            p, c, pos = self.relabel
            assert obj[:2] == ("L", p)
            return tuple(ob("L", c, obj[2]) if i == pos else None for i in range(len(self.kids)))
        # an object of the parent is ("u", i, object of child i)
        return tuple(obj[2] if i == obj[1] else None for i in range(len(self.kids)))

    def backward_map(self, comb_class, objs, children=None):
        idx = self.backward_map_index(objs)
        if self.relabel:
            p, c, pos = self.relabel
            assert idx == pos and objs[idx][:2] == ("L", c)
            yield ob("L", p, objs[idx][2])
            return
        yield ob("u", idx, objs[idx])

    @classmethod
    def from_dict(cls, d):
        raise NotImplementedError


class MapProduct(CartesianProductStrategy):
    def __init__(self, children, maps, **kw):
        super().__init__(**kw)
        self.kids = tuple(children)
        self.maps = tuple(maps)

    def decomposition_function(self, comb_class):
        return self.kids

    def extra_parameters(self, comb_class, children=None):
        return tuple(dict(m) for m in self.maps)

    def formal_step(self):
        return "product"

    relabel = None

    def forward_map(self, comb_class, obj, children=None):
        if self.relabel:
            p, c, pos = self.relabel
            assert obj[:2] == ("L", p)
            return (ob("L", c, obj[2]),)
        return tuple(obj[1:])

    def backward_map(self, comb_class, objs, children=None):
        if self.relabel:
            p, c, pos = self.relabel
            assert objs[0][:2] == ("L", c) and len(objs) == 1
            yield ob("L", p, objs[0][2])
            return
        yield ob("p", *objs)

    @classmethod
    def from_dict(cls, d):
        raise NotImplementedError


def lift(v, child_params, parent_params, pmap):
    """Parent statistics of an object whose child statistics are v."""
    pos = {c: i for i, c in enumerate(child_params)}
    return tuple(v[pos[pmap[p]]] if p in pmap else 0 for p in parent_params)


def union_table(parent_params, children, maps, sizes):
    res = {}
    for n in sizes:
        t = {}
        for c, m in zip(children, maps):
            for v, cnt in c.table.get(n, {}).items():
                q = lift(v, c.params, parent_params, m)
                t[q] = t.get(q, 0) + cnt
        res[n] = t
    return res


def product_table(parent_params, children, maps, sizes):
    zero = tuple(0 for _ in parent_params)
    cur = {0: {zero: 1}}
    top = max(sizes)
    for c, m in zip(children, maps):
        nxt = {}
        for a, ta in cur.items():
            for b in range(top - a + 1):
                for v, cnt in c.table.get(b, {}).items():
                    q = lift(v, c.params, parent_params, m)
                    for u, k in ta.items():
                        w = tuple(x + y for x, y in zip(u, q))
                        d = nxt.setdefault(a + b, {})
                        d[w] = d.get(w, 0) + k * cnt
        cur = nxt
    return {n: cur.get(n, {}) for n in sizes}


class Leaf:
    """
    Stands for the rule of a child in a specification; answers from the true
    table and records every request.
    """

    def __init__(self, comb_class, log=None, key=None, sampler=None):
        self.comb_class = comb_class
        self.log = log if log is not None else []
        self.key = key
        self.sampler = sampler

    def get_terms(self, n):
        self.log.append((self.key, n))
        if n < 0:  # what a real rule would do
            raise IndexError(f"terms of size {n} requested")
        return Counter(self.comb_class.table.get(n, {}))

    def count_objects_of_size(self, n, **parameters):
        self.log.append((self.key, n))
        c = self.comb_class
        assert set(parameters) == set(c.params), (parameters, c.params)
        v = tuple(parameters[p] for p in c.params)
        return c.table.get(n, {}).get(v, 0)

    def get_objects(self, n):
        self.log.append((self.key, n))
        res = defaultdict(list)
        for v, objs in self.comb_class.objects.get(n, {}).items():
            res[v] = list(objs)
        return res

    def random_sample_object_of_size(self, n, **parameters):
        c = self.comb_class
        assert set(parameters) == set(c.params), (parameters, c.params)
        v = tuple(parameters[p] for p in c.params)
        if self.sampler is not None:
            return self.sampler(self.key, n, v)
        return (self.key, n, v)


def check_terms(E, got, expected, what):
    """got (from the code) and expected (the truth) agree on every key."""
    for k in set(expected) | set(got):
        E.check(got.get(k, 0) == expected.get(k, 0), f"{what}: wrong number at {k}")


# ---------------------------------------------------------------------------
# symbolic shapes


def choose_params(E, name, most, prefix):
    n = E.choose(f"{name}_np", range(most + 1))
    return tuple(f"{prefix}{i}" for i in range(n))


def choose_map(E, name, parent_params, child_params, onto=False, total=False):
    """A partial map from parent statistics to child statistics."""
    if not parent_params:
        if onto and child_params:
            E.assume(False)
        return {}
    res = {}
    for p in parent_params:
        opts = list(child_params) if (total and child_params) else [None] + list(child_params)
        c = E.choose(f"{name}_{p}", opts)
        if c is not None:
            res[p] = c
    if onto and set(res.values()) != set(child_params):
        E.assume(False)
    return res


def free_table(E, name, params, min_size, sizes, top_val, hi=None, exact_min=False,
               min_vals=None):
    """Independent symbolic counts for every size and statistic vector."""
    table = {}
    for n in sizes:
        if n < min_size:
            continue
        t = {}
        for v in iproduct(range(top_val + 1), repeat=len(params)):
            if min_vals and any(x < min_vals[p] for x, p in zip(v, params)):
                continue
            t[v] = E.int(f"{name}_{n}_{'_'.join(map(str, v))}", 0, hi)
        table[n] = t
    if exact_min and min_size in table:
        tot = 0
        for c in table[min_size].values():
            tot = tot + c
        E.assume(tot >= 1)
    return table


def atom_table(E, name, params, min_size, top_val):
    v = tuple(E.choose(f"{name}_atom_{p}", range(top_val + 1)) for p in params)
    return {min_size: {v: 1}}, dict(zip(params, v))
