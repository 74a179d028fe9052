"""
Symbolic genuine rules in every form the library derives, shared by C09 and
C10 (and, for sampling and generating, by C07 and C08).
"""
from collections import Counter

from symex import env  # noqa: F401
from symex.combi import (
    Leaf,
    MapProduct,
    MapUnion,
    TableClass,
    atom_table,
    check_terms,
    choose_map,
    choose_params,
    free_table,
    product_table,
    union_table,
)

from comb_spec_searcher.strategies.rule import EquivalencePathRule


def wire(rule):
    """Set the children's functions; record what is asked from whom."""
    log = []
    keys = iter(range(len(rule.children)))
    rule.set_subrecs(_NumberedLeaf(rule, log))
    return log


class _NumberedLeaf:
    """get_subrule: calls come child after child, four times over."""

    def __init__(self, rule, log):
        self.rule = rule
        self.log = log

    def __call__(self, child):
        # the same class may occur several times; requests are attributed to the
        # class, and the weakest declared shift among its occurrences is used
        return Leaf(child, self.log, child.name)


def child_names(E, idx):
    return "k" if E.choose(f"names{idx}", (True, False)) else f"c{idx}_"


def sym_children(E, count, stats, top_val, sizes, mins=(0,), atoms=False, hi=None,
                 exact_min=False, same=False, min_vals=False, fixed_names=None):
    kids = []
    for i in range(count):
        if same and i and E.choose(f"same{i}", (False, True)):
            kids.append(kids[0])
            continue
        params = choose_params(
            E, f"c{i}", stats, fixed_names or ("k" if i % 2 == 0 else "c")
        )
        mn = E.choose(f"c{i}_min", mins)
        atom = atoms and E.choose(f"c{i}_isatom", (False, True))
        if atom:
            table, mv = atom_table(E, f"c{i}", params, mn, top_val)
        else:
            mv = {p: E.choose(f"c{i}_mv_{p}", (0, 1)) if min_vals else 0 for p in params}
            table = free_table(
                E, f"c{i}", params, mn, sizes, top_val, hi, exact_min, mv
            )
        kids.append(
            TableClass(f"C{i}", params, table, min_size=mn, min_vals=mv, atom=atom)
        )
    return tuple(kids)


def child_maps(E, parent_params, kids, onto=()):
    maps = []
    for i, c in enumerate(kids):
        j = next(j for j, d in enumerate(kids) if d is c)
        maps.append(
            choose_map(E, f"m{i}", parent_params, c.params, onto=(i in onto))
        )
    return tuple(maps)


def union_rule(E, count, stats, cstats, top_val, sizes, onto=(), same=False):
    pparams = choose_params(E, "p", stats, "k")
    kids = sym_children(E, count, cstats, top_val, sizes, same=same)
    maps = child_maps(E, pparams, kids, onto)
    parent = TableClass("P", pparams, union_table(pparams, kids, maps, sizes))
    return MapUnion(kids, maps)(parent)


def product_rule(E, count, stats, cstats, top_val, sizes, mins, atoms, onto=(),
                 hi=None, exact_min=True, same=False, min_vals=False):
    pparams = choose_params(E, "p", stats, "k")
    kids = sym_children(
        E, count, cstats, top_val, sizes, mins=mins, atoms=atoms, hi=hi,
        exact_min=exact_min, same=same, min_vals=min_vals,
    )
    maps = child_maps(E, pparams, kids, onto)
    mv = {
        p: sum(c.min_vals[m[p]] if p in m else 0 for c, m in zip(kids, maps))
        for p in pparams
    }
    parent = TableClass(
        "P", pparams, product_table(pparams, kids, maps, sizes),
        min_size=sum(c.min_size for c in kids), min_vals=mv,
    )
    return MapProduct(kids, maps)(parent)


# ---------------------------------------------------------------------------
# unary equivalences and chains of them


def latent_class(E, name, nlat, stats, prefix, top_val, sizes, counts):
    """
    A class whose statistics are functions of the latent statistics of the
    objects all the classes of a chain share: latent coordinate j, or zero.
    """
    n = E.choose(f"{name}_np", range(stats + 1))
    params = tuple(f"{prefix}{i}" for i in range(n))
    funcs = tuple(E.choose(f"{name}_f{i}", range(-1, nlat)) for i in range(n))
    table = {}
    for size in sizes:
        t = {}
        for lat, cnt in counts[size].items():
            v = tuple(0 if f < 0 else lat[f] for f in funcs)
            t[v] = t.get(v, 0) + cnt
        table[size] = t
    c = TableClass(name, params, table)
    c.funcs = dict(zip(params, funcs))
    return c


def genuine_map(E, name, parent, child, injective, onto):
    """
    Statistics of the parent sent to statistics of the child that take the same
    value; those always zero may be dropped.
    """
    res = {}
    for p in parent.params:
        opts = [c for c in child.params if child.funcs[c] == parent.funcs[p]]
        if parent.funcs[p] < 0:
            opts.append(None)
        if not opts:
            E.assume(False)
        c = E.choose(f"{name}_{p}", opts)
        if c is not None:
            res[p] = c
    if injective and len(set(res.values())) != len(res):
        E.assume(False)
    if onto and set(res.values()) != set(child.params):
        E.assume(False)
    return res


def unary_step(E, i, upper, lower, forward, siblings, kind, onto=False):
    """
    The rule upper -> lower: from a union (or unary product) with the single
    non-empty child ``lower`` (forward), or reversed, from one whose parent is
    ``lower`` and whose only non-empty child is ``upper``.
    """
    parent, child = (upper, lower) if forward else (lower, upper)
    m = genuine_map(E, f"s{i}", parent, child, injective=not forward, onto=onto or not forward)
    if kind == "product":
        strat = MapProduct((child,), (m,))
        strat.relabel = (parent.name, child.name, 0)
        rule = strat(parent)
        return rule if forward else rule.to_reverse_rule(0)
    pos = E.choose(f"s{i}_pos", range(siblings + 1)) if siblings else 0
    kids = [TableClass(f"E{i}_{j}", (), {}, empty=True) for j in range(siblings)]
    maps = [{} for _ in range(siblings)]
    kids.insert(pos, child)
    maps.insert(pos, m)
    strat = MapUnion(kids, maps)
    strat.relabel = (parent.name, child.name, pos)
    rule = strat(parent)
    if siblings == 0:
        return rule if forward else rule.to_reverse_rule(0)
    form = E.choose(f"s{i}_form", (0, 1)) if not forward else 0
    if forward:
        return rule.to_equivalence_rule()
    if form:
        return rule.to_equivalence_rule().to_reverse_rule(0)
    return rule.to_reverse_rule(pos).to_equivalence_rule()


def chain(E, length, nlat, stats, top_val, sizes, kinds=("union",), top_siblings=1, hi=None,
          onto=False):
    """[(rule, expected table)] for each step, and for the path of all of them."""
    from itertools import product as iproduct

    counts = {
        n: {
            lat: E.int(f"o_{n}_{'_'.join(map(str, lat))}", 0, hi)
            for lat in iproduct(range(top_val + 1), repeat=nlat)
        }
        for n in sizes
    }
    classes = [
        latent_class(E, f"L{i}", nlat, stats, "k" if i % 2 == 0 else "j", top_val,
                     sizes, counts)
        for i in range(length + 1)
    ]
    rules = []
    for i in range(length):
        forward = E.choose(f"s{i}_fwd", (True, False))
        kind = E.choose(f"s{i}_kind", kinds)
        sib = 0 if kind == "product" else E.choose(f"s{i}_sib", range(top_siblings + 1))
        rules.append(
            unary_step(E, i, classes[i], classes[i + 1], forward, sib, kind, onto)
        )
    return classes, rules


# ---------------------------------------------------------------------------
# products and quotients whose minimum sizes and evaluated size are unbounded


class OffsetLeaf:
    """Tables are indexed by the offset from the minimum size of the class."""

    def __init__(self, E, c, slack, log):
        self.E = E
        self.c = c
        self.slack = slack
        self.log = log

    def __call__(self, m):
        self.log.append((self.c, m))
        if m < self.c.min_size:
            return Counter()
        self.E.assume(m - self.c.min_size <= self.slack)
        return Counter(self.c.table.get(int(m - self.c.min_size), {}))


def offset_product(E, count, stats, slack, hi=None, onto=(), exact=False, top_val=1):
    pparams = choose_params(E, "p", stats, "k")
    kids = []
    for i in range(count):
        params = choose_params(E, f"c{i}", stats, "k" if i % 2 == 0 else "c")
        mn = E.int(f"min{i}", 0)
        atom = E.choose(f"c{i}_isatom", (False, True))
        if atom:
            table, mv = atom_table(E, f"c{i}", params, 0, top_val)
        else:
            mv = None
            table = free_table(E, f"c{i}", params, 0, range(slack + 1), top_val, hi, exact)
        kids.append(TableClass(f"C{i}", params, table, mn, mv, atom=atom))
    maps = child_maps(E, pparams, kids, onto)
    table = product_table(pparams, kids, maps, range(slack + 1))
    parent = TableClass("P", pparams, table, sum(c.min_size for c in kids))
    return MapProduct(kids, maps)(parent)
