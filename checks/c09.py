"""C09: every rule form counts its parent correctly from its children."""
from symex.combi import check_terms
from symex.run import Harness

from checks.c10 import h_offset_product
from checks.forms import EquivalencePathRule, chain, product_rule, union_rule, wire

ASSUMPTIONS = [
    "rules are genuine: the parent's table is computed here from the children's tables by the "
    "definition of union/product with statistics; reversed rules determine the child (each of its "
    "statistics is the image of a parent statistic)",
    "minimum_size_of_object is exact for the factors of products",
    "counts are arbitrary nonnegative integers (bounded only where stated); sizes, number of "
    "statistics, of children and the values of statistics are bounded as stated",
    "unary products are included among the equivalences (forward and reversed)",
]


def compare(E, rule, expected, sizes, what):
    wire(rule)
    top = max(sizes)
    first = E.choose("first", (0, top)) if top else 0
    for n in [first] + list(sizes):
        check_terms(E, rule.get_terms(n), expected.table.get(n, {}), f"{what} size {n}")
    params = rule.comb_class.extra_parameters
    for v, cnt in expected.table.get(top, {}).items():
        E.check(
            rule.count_objects_of_size(top, **dict(zip(params, v))) == cnt,
            f"{what}: count_objects_of_size at {v}",
        )


def h_union(E, count, stats, cstats, val, N, same):
    sizes = range(N + 1)
    rule = union_rule(E, count, stats, cstats, val, sizes, same=same)
    E.cover("union")
    compare(E, rule, rule.comb_class, sizes, "union")


def h_complement(E, count, stats, cstats, val, N):
    sizes = range(N + 1)
    idx = E.choose("idx", range(count))
    rule = union_rule(E, count, stats, cstats, val, sizes, onto=(idx,))
    rev = rule.to_reverse_rule(idx)
    maps = rule.strategy.maps
    if len(set(maps[idx].values())) != len(maps[idx]):
        E.cover("several parent statistics on one")
    if len(maps[idx]) < len(rule.comb_class.params):
        E.cover("dropped statistic")
    compare(E, rev, rule.children[idx], sizes, "complement")


def h_product(E, count, stats, cstats, val, N, mins, atoms, same):
    sizes = range(N + 1)
    rule = product_rule(
        E, count, stats, cstats, val, sizes, mins, atoms, exact_min=False, same=same
    )
    E.cover("product")
    compare(E, rule, rule.comb_class, sizes, "product")


def h_quotient(E, count, stats, cstats, val, N, mins, atoms, hi, same):
    top = N + (count - 1) * max(mins)
    sizes = range(top + 1)
    idx = E.choose("idx", range(count))
    rule = product_rule(
        E, count, stats, cstats, val, sizes, mins, atoms, onto=(idx,), hi=hi, same=same
    )
    maps = rule.strategy.maps
    if len(set(maps[idx].values())) != len(maps[idx]):
        E.cover("several parent statistics on one")
    rev = rule.to_reverse_rule(idx)
    E.cover("quotient")
    compare(E, rev, rule.children[idx], range(N + 1), "quotient")


def h_chain(E, length, nlat, stats, val, N, kinds, hi):
    sizes = range(N + 1)
    classes, rules = chain(E, length, nlat, stats, val, sizes, kinds, hi=hi)
    for i, r in enumerate(rules):
        assert r.comb_class is classes[i] and r.children == (classes[i + 1],)
        compare(E, r, classes[i], sizes, f"step {i} {type(r).__name__}")
    path = EquivalencePathRule(rules)
    E.cover(f"path of {length}")
    compare(E, path, classes[0], sizes, "path")


BUDGET = {"quick": 90, "thorough": 600}


def harnesses(tier):
    T = tier == "thorough"
    hs = []

    def add(name, fn, bounds, covers=(), weight=1.0, **params):
        hs.append(Harness(name=name, fn=fn, bounds={**bounds, **{k: str(v) for k, v in params.items()}},
                          weight=weight, relational=False, covers=covers, params=params))

    U = {"counts": "unbounded", "statistic values": "0..val"}
    add("union", h_union, U, ["union"], count=2, stats=2, cstats=2, val=1, N=1, same=True)
    add("union-3", h_union, U, ["union"], count=3, stats=2, cstats=2, val=1, N=1, same=False)
    add("complement", h_complement, U, ["several parent statistics on one", "dropped statistic"],
        count=2, stats=2, cstats=2, val=1, N=0, weight=2)
    add("complement-small", h_complement, U, count=2, stats=1, cstats=1, val=1, N=1)
    add("complement-3", h_complement, U, count=3, stats=2, cstats=1, val=1, N=0)
    add("product-plain", h_product, U, ["product"], count=3, stats=0, cstats=0, val=0, N=4,
        mins=(0, 1, 2), atoms=True, same=True)
    add("product-2", h_product, U, ["product"], count=2, stats=2, cstats=2, val=1, N=2,
        mins=(0, 1), atoms=True, same=True, weight=2)
    add("product-3", h_product, U, ["product"], count=3, stats=1, cstats=1, val=1, N=2,
        mins=(0, 1), atoms=True, same=False)
    add("product-4", h_product, U, ["product"], count=4, stats=0, cstats=0, val=0, N=3,
        mins=(0, 1), atoms=True, same=False)
    add("quotient-plain", h_quotient, U, ["quotient"], count=2, stats=0, cstats=0, val=0, N=2,
        mins=(0, 1), atoms=True, hi=None, same=False)
    add("quotient-plain-3", h_quotient, U, ["quotient"], count=3, stats=0, cstats=0, val=0, N=2,
        mins=(0, 1), atoms=True, hi=None, same=True)
    add("quotient-stats", h_quotient, {"counts": "0..hi", "statistic values": "0..val"},
        ["several parent statistics on one"], count=2, stats=2, cstats=1, val=1, N=1,
        mins=(0, 1), atoms=True, hi=2, same=False, weight=2)
    add("quotient-stats-01", h_quotient, {"counts": "0..hi", "statistic values": "0..val"},
        ["several parent statistics on one"], count=2, stats=2, cstats=2, val=1, N=0,
        mins=(0, 1), atoms=True, hi=1, same=False, weight=2)
    add("quotient-stats-3", h_quotient, {"counts": "0..hi", "statistic values": "0..val"},
        ["quotient"], count=3, stats=1, cstats=1, val=1, N=1,
        mins=(0, 1), atoms=True, hi=1, same=True, weight=1)
    # wider: larger values, more statistics, more children, larger sizes
    add("union-values", h_union, U, ["union"], count=2, stats=1, cstats=1, val=3, N=1, same=True)
    add("union-3-stats", h_union, U, ["union"], count=2, stats=3, cstats=3, val=1, N=0, same=False)
    add("union-4", h_union, U, ["union"], count=4, stats=1, cstats=1, val=1, N=4, same=False)
    add("complement-values", h_complement, U, count=2, stats=1, cstats=1, val=3, N=0)
    add("complement-3-stats", h_complement, U, count=2, stats=3, cstats=3, val=1, N=0)
    add("complement-4", h_complement, U, count=4, stats=1, cstats=1, val=1, N=0)
    add("product-values", h_product, U, ["product"], count=2, stats=1, cstats=1, val=3, N=1,
        mins=(0, 1), atoms=True, same=True)
    add("product-3-stats", h_product, U, ["product"], count=2, stats=3, cstats=2, val=1, N=1,
        mins=(0, 1), atoms=True, same=False)
    add("product-sizes", h_product, U, ["product"], count=2, stats=0, cstats=0, val=0, N=9,
        mins=(0, 2, 4), atoms=True, same=True)
    add("quotient-sizes", h_quotient, {"counts": "0..hi", "statistic values": "0..val"}, ["quotient"],
        count=2, stats=0, cstats=0, val=0, N=5, mins=(0, 1, 2), atoms=True, hi=2, same=True)
    add("quotient-values", h_quotient, {"counts": "0..hi", "statistic values": "0..val"}, ["quotient"],
        count=2, stats=1, cstats=1, val=2, N=1, mins=(0, 1), atoms=True, hi=1, same=False)
    for length in (1, 2, 3, 4):
        for kinds, hi in ((("union",), None), (("union", "product"), 2)):
            hs.append(Harness(
                name=f"chain-{length}" + ("" if hi is None else "-products"), fn=h_chain,
                bounds={"counts": "unbounded" if hi is None else f"0..{hi}",
                        "statistic values": "0..1", "length": length,
                        "latent statistics": 2 if length < 3 else 1, "statistics per class": 2},
                covers=[f"path of {length}"], weight=1.5 if length > 1 else 0.7,
                params=dict(length=length, nlat=2 if length < 3 else 1,
                            stats=2, val=1, N=0 if length > 1 else 1, kinds=kinds, hi=hi),
            ))
    for count, stats, slack, rev, hi in (
        (2, 1, 2, False, None), (3, 0, 2, False, None),
        (1, 0, 3, True, None), (2, 0, 2, True, None), (2, 1, 1, True, 1),
    ):
        hs.append(Harness(
            name=f"symbolic-{'quotient' if rev else 'product'}-{count}" + ("-stats" if stats else ""),
            fn=h_offset_product,
            bounds={"sizes": "symbolic and unbounded minimum sizes and size, at most `slack` above the minimum",
                    "slack": slack, "children": count, "statistics": stats,
                    "counts": "unbounded" if hi is None else f"0..{hi}"},
            covers=["children read"],
            params=dict(count=count, stats=stats, slack=slack, reverse=rev, hi=hi),
        ))
    return hs
