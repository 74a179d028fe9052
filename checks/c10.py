"""C10: declared shifts bound what a rule reads when counting."""
from symex.run import Harness

from symex.combi import check_terms

from checks.forms import EquivalencePathRule, OffsetLeaf, chain, offset_product, product_rule, union_rule, wire

BUDGET = {"quick": 90, "thorough": 600}

ASSUMPTIONS = [
    "rules are genuine (as in C09); minimum_size_of_object is exact for the factors of products",
    "requests are attributed to child classes; when a class occurs more than once among the "
    "children the smallest of its declared shifts applies",
    "bounds on sizes, children and statistics as stated; the counts the rules read are symbolic",
]


def watch(E, rule, N, what):
    labels = {}

    def get_label(c):
        return labels.setdefault(c.name, len(labels))

    shifts = rule.shifts()
    E.check(len(shifts) == len(rule.children), f"{what}: one shift per child")
    key = rule.forest_key(get_label)
    E.check(key.shifts == shifts, f"{what}: forest key has the shifts of the rule")
    E.check(
        key.children == tuple(get_label(c) for c in rule.children)
        and key.parent == get_label(rule.comb_class),
        f"{what}: forest key has the labels of the rule",
    )
    bound = {}
    for c, s in zip(rule.children, shifts):
        bound[c.name] = min(s, bound.get(c.name, s))
    log = wire(rule)
    own = []
    depth = [0]
    real = rule.get_terms

    def get_terms(n):
        if depth[0]:
            own.append(n)
            # an own term that is not yet available can not be computed
            E.check(n < level[0], f"{what}: own term {n} needed for size {level[0]}")
        depth[0] += 1
        try:
            return real(n)
        finally:
            depth[0] -= 1

    level = [0]
    rule.get_terms = get_terms
    first = E.choose("first", (0, N))
    for n in range(first, N + 1):
        level[0] = n
        del log[:], own[:]
        rule.get_terms(n)
        for name, m in log:
            E.check(
                m <= n - bound[name],
                f"{what}: size {m} of {name} read for size {n}, declared shift {bound[name]}",
            )
            E.cover(what)
            if m == n - bound[name]:
                E.cover("bound attained")
        if own:
            E.cover("own terms read")


def h_union(E, count, stats, val, N):
    rule = union_rule(E, count, stats, stats, val, range(N + 1), same=True)
    watch(E, rule, N, "union")


def h_complement(E, count, stats, val, N):
    idx = E.choose("idx", range(count))
    rule = union_rule(E, count, stats, stats, val, range(N + 1), onto=(idx,))
    watch(E, rule.to_reverse_rule(idx), N, "complement")


def h_product(E, count, stats, val, N, mins, same):
    rule = product_rule(
        E, count, stats, stats, val, range(N + 1), mins, True, exact_min=False, same=same
    )
    watch(E, rule, N, "product")


def h_quotient(E, count, stats, val, N, mins, same, hi):
    idx = E.choose("idx", range(count))
    sizes = range(N + 1 + (count - 1) * max(mins))
    rule = product_rule(
        E, count, stats, stats, val, sizes, mins, True, onto=(idx,), same=same, hi=hi
    )
    watch(E, rule.to_reverse_rule(idx), N, "quotient")


def h_chain(E, length, stats, N, kinds, hi):
    classes, rules = chain(E, length, stats, stats, 1, range(N + 1), kinds, hi=hi)
    for r in rules:
        watch(E, r, N, "equivalence")
    watch(E, EquivalencePathRule(rules), N, "path")


def h_offset_product(E, count, stats, slack, reverse, hi):
    """
    The constructor itself at a symbolic size with symbolic minimum sizes:
    nothing but the number of terms above the minimum is bounded.
    """
    idx = E.choose("idx", range(count)) if reverse else None
    rule = offset_product(
        E, count, stats, slack, hi, onto=(idx,) if reverse else (), exact=reverse
    )
    kids = rule.children
    if reverse:
        rule = rule.to_reverse_rule(idx)
    parent = rule.comb_class
    n = E.int("n", 0)
    E.assume(n <= parent.min_size + slack)
    shifts = rule.shifts()
    E.check(len(shifts) == len(rule.children), "one shift per child")
    log = []
    own = OffsetLeaf(E, parent, slack, log)

    def parent_terms(m):
        E.check(m < n, "own term needed that is not yet available")
        E.cover("own terms read")
        return own(m)

    logs = [[] for _ in rule.children]
    subterms = tuple(
        OffsetLeaf(E, c, slack, lg) for c, lg in zip(rule.children, logs)
    )
    got = rule.constructor.get_terms(parent_terms, subterms, n)
    for i, (lg, s) in enumerate(zip(logs, shifts)):
        for _, m in lg:
            E.check(m <= n - s, f"child {i} read beyond its declared shift")
            E.check(m >= 0, f"child {i} read at a negative size")
            E.cover("children read")
    if n < parent.min_size:
        expected = {}
    else:
        expected = parent.table.get(int(n - parent.min_size), {})
    check_terms(E, got, expected, "terms at a symbolic size")
    del kids


def harnesses(tier):
    T = tier == "thorough"
    hs = []

    def add(name, fn, covers, weight=1.0, **params):
        hs.append(Harness(name=name, fn=fn, bounds={k: str(v) for k, v in params.items()},
                          covers=covers, params=params, weight=weight))

    add("union", h_union, ["union"], count=2, stats=1, val=1, N=3, weight=0.5)
    add("union-4", h_union, ["union"], count=4, stats=0, val=0, N=3, weight=0.5)
    add("complement", h_complement, ["complement"], count=2, stats=0, val=0, N=3, weight=0.5)
    add("complement-3", h_complement, ["complement"], count=3, stats=0, val=0, N=2, weight=0.5)
    add("product-1", h_product, ["product"], count=1, stats=1, val=1, N=4, mins=(0, 1, 2, 3),
        same=False, weight=0.5)
    add("product-2", h_product, ["product", "bound attained"], count=2, stats=0, val=0, N=6,
        mins=(0, 1, 2, 3), same=True)
    add("product-2-stats", h_product, ["product"], count=2, stats=1, val=1, N=3,
        mins=(0, 1, 2), same=True)
    add("product-3", h_product, ["product", "bound attained"], count=3, stats=0, val=0, N=5,
        mins=(0, 1, 2), same=True)
    add("product-4", h_product, ["product"], count=4, stats=0, val=0, N=5 if T else 4,
        mins=(0, 1, 2), same=False)
    add("quotient-1", h_quotient, ["quotient"], count=1, stats=0, val=0, N=4,
        mins=(0, 1, 2), same=False, hi=None, weight=0.5)
    add("quotient-2", h_quotient, ["quotient", "bound attained", "own terms read"], count=2,
        stats=0, val=0, N=3, mins=(0, 1, 2), same=True, hi=None)
    add("quotient-3", h_quotient, ["quotient"], count=3, stats=0, val=0, N=3 if T else 2,
        mins=(0, 1, 2), same=True, hi=2)
    add("quotient-2-stats", h_quotient, ["quotient"], count=2, stats=1, val=1, N=1,
        mins=(0, 1), same=False, hi=1)
    sym = "symbolic minimum sizes and size, unbounded; at most `slack` above the minimum"
    for count, stats, slack, rev, hi in (
        (1, 1, 3, False, None), (2, 1, 2, False, None), (3, 0, 3, False, None), (4, 0, 2, False, None),
        (1, 0, 3, True, None), (2, 0, 2, True, None), (3, 0, 2, True, None), (2, 1, 1, True, 1),
    ):
        hs.append(Harness(
            name=f"symbolic-{'quotient' if rev else 'product'}-{count}" + ("-stats" if stats else ""),
            fn=h_offset_product, bounds={"sizes": sym, "slack": slack, "children": count,
                                         "statistics": stats, "counts": "unbounded" if hi is None else f"0..{hi}"},
            covers=["children read"] + (["own terms read"] if rev and count > 1 else []),
            params=dict(count=count, stats=stats, slack=slack, reverse=rev, hi=hi),
        ))
    add("product-2-large", h_product, ["product", "bound attained"], count=2, stats=0, val=0, N=9,
        mins=(0, 2, 4, 5), same=True, weight=0.5)
    add("product-2-values", h_product, ["product"], count=2, stats=1, val=2, N=3,
        mins=(0, 1, 3), same=True, weight=0.5)
    add("quotient-2-large", h_quotient, ["quotient", "bound attained", "own terms read"], count=2,
        stats=0, val=0, N=6, mins=(0, 1, 2, 4), same=True, hi=2, weight=0.5)
    add("quotient-2-values", h_quotient, ["quotient"], count=2, stats=1, val=2, N=2,
        mins=(0, 1), same=False, hi=1, weight=0.5)
    for length in (1, 2, 3, 4):
        add(f"chain-{length}", h_chain, ["equivalence", "path"], length=length, stats=0, N=2,
            kinds=("union", "product"), hi=None, weight=0.5)
    add("chain-2-stats", h_chain, ["equivalence", "path"], length=2, stats=1, N=1,
        kinds=("union", "product"), hi=1)
    return hs
