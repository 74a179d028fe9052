"""
Universes given by tables: classes known by a name and the number of their
objects of each size, each with a (symbolic) choice of rules, all of them
genuine: the sums and products of tables are checked when a universe is built.
The objects are ("o", name, size, index).
"""
# pylint: disable=all
from collections import Counter

from symex import grammar as gr
from symex.combi import ob

from comb_spec_searcher.class_queue import DefaultQueue  # noqa: F401
from comb_spec_searcher.strategies.strategy import (
    CartesianProductStrategy,
    DisjointUnionStrategy,
)


def total(tables, M):
    return [sum(t[n] if n < len(t) else 0 for t in tables) for n in range(M + 1)]


def times(tables, M):
    res = [1] + [0] * M
    for t in tables:
        res = [
            sum(res[k] * (t[n - k] if n - k < len(t) else 0) for k in range(n + 1))
            for n in range(M + 1)
        ]
    return res


class Tables:
    """`tables`: name -> counts; `rules`: name -> [("u" | "p", children)]."""

    def __init__(self, tables, rules, atoms, order):
        gr.CUR = self
        self.order = order
        self.tables = {k: (list(t) + [0] * order)[: order + 1] for k, t in tables.items()}
        self.rules = rules
        self.atoms = set(atoms)
        self.prefix = ""
        self.nlat = 0
        for x in atoms:
            assert sum(tables[x]) == 1
        for parent, alternatives in rules.items():
            assert parent not in self.atoms
            for kind, children in alternatives:
                f = total if kind == "u" else times
                t = f([self.tables[c] for c in children], order)
                assert t == self.tables[parent], (parent, kind, children, t)

    # what the checks ask a universe
    def min_size(self, e):
        return next((n for n, c in enumerate(self.tables[e]) if c), gr.INF)

    def definition(self, e):
        if e in self.atoms:
            return ("atom", ()) if self.min_size(e) else ("eps",)
        return ("table", e)

    def min_value(self, e, lat):
        return 0

    def applies(self, tag, e):
        return True

    def project(self, cls, n):
        c = self.tables[cls.expr][n]
        return Counter({(): c}) if c else Counter()

    def project_objects(self, cls, n):
        c = self.tables[cls.expr][n]
        return {(): [ob("o", cls.expr, n, i) for i in range(c)]} if c else {}

    def rule(self, e, kind, j):
        rules = self.rules.get(e, ())
        if j < len(rules) and rules[j][0] == kind:
            return rules[j][1]
        return None

    # the maps: ranks
    def tuples(self, children, n):
        """The tuples of objects of total size n, in order."""
        if not children:
            if n == 0:
                yield ()
            return
        for k in range(n + 1):
            for i in range(self.tables[children[0]][k]):
                for rest in self.tuples(children[1:], n - k):
                    yield (ob("o", children[0], k, i),) + rest

    def split(self, kind, children, n):
        """The images of the objects of size n, in order."""
        if kind in "ps":
            return list(self.tuples(children, n))
        return [
            tuple(ob("o", c, n, i) if k == pos else None for k in range(len(children)))
            for pos, c in enumerate(children)
            for i in range(self.tables[c][n])
        ]


class _Ruled(gr._Base):
    kind = ""

    def __init__(self, j=0, **kw):
        super().__init__(**kw)
        self.j = j

    def decomposition_function(self, comb_class):
        kids = gr.CUR.rule(comb_class.expr, self.kind, self.j)
        return None if kids is None else tuple(gr.G(c) for c in kids)

    def formal_step(self):
        return f"alternative {self.j}"

    def forward_map(self, comb_class, obj, children=None):
        kids = gr.CUR.rule(comb_class.expr, self.kind, self.j)
        return gr.CUR.split(self.kind, kids, obj[2])[obj[3]]

    def backward_map(self, comb_class, objs, children=None):
        kids = gr.CUR.rule(comb_class.expr, self.kind, self.j)
        n = sum(o[2] for o in objs if o is not None)
        yield ob("o", comb_class.expr, n, gr.CUR.split(self.kind, kids, n).index(tuple(objs)))


class TableUnion(_Ruled, DisjointUnionStrategy):
    kind = "u"


class TableProduct(_Ruled, CartesianProductStrategy):
    kind = "p"


class TableStep(TableProduct):
    """One child with as many objects, declared to be no equivalence."""

    kind = "s"

    def can_be_equivalent(self):
        return False
