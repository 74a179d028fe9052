"""C03: TableMethod / RuleDBForest against the least fixed point."""
import z3

from symex.engine import sand, simplies, sor, to_z3
from symex.run import Harness

from comb_spec_searcher.rule_db.forest import TableMethod
from comb_spec_searcher.typing import ForestRuleKey, RuleBucket

BUDGET = {"quick": 90, "thorough": 600}

ASSUMPTIONS = [
    "labels are numbered by first appearance (as ClassDB hands them out) except in "
    "the 'any label' harness",
    "the number of rules, labels, the arity and |shift| are bounded as stated per harness",
]


def least_fixed_point_check(E, rules, n_labels, f, what):
    """f: label -> int or None(=infinity); rules: list of (parent, children, shifts)"""
    if E.replaying:
        return
    # (1) pre-fixed: no rule can give another term
    for p, children, shifts in rules:
        if f(p) is None:
            continue
        ok = sor(*[c_val + s <= f(p) for c_val, s in
                   ((f(c), s) for c, s in zip(children, shifts)) if c_val is not None])
        E.check(ok, f"{what}: rule {p}->{children} can still give terms: f is not closed")
    # (2) least: no smaller pre-fixed function over the naturals with infinity
    g = [z3.Int(f"g{i}") for i in range(n_labels)]
    inf = [z3.Bool(f"ginf{i}") for i in range(n_labels)]
    cons = [gi >= 0 for gi in g]
    for p, children, shifts in rules:
        cons.append(
            z3.Or(inf[p], *[z3.And(z3.Not(inf[c]), g[c] + to_z3(s) <= g[p])
                            for c, s in zip(children, shifts)])
        )
    smaller = []
    for l in range(n_labels):
        v = f(l)
        if v is None:
            smaller.append(z3.Not(inf[l]))
        elif not (type(v) is int and v == 0):
            smaller.append(z3.And(z3.Not(inf[l]), g[l] < to_z3(v)))
    if smaller:
        E.check_none(cons + [z3.Or(*smaller)],
                     f"{what}: reports more terms than the least fixed point")


def pick_rule(E, i, n_labels, seen, max_arity, S, canonical, arities=None):
    def label(name):
        hi = min(n_labels - 1, len(seen)) if canonical else n_labels - 1
        l = int(E.int(name, 0, hi))
        if canonical and l == len(seen):
            seen.append(l)
        return l

    p = label(f"p{i}")
    lo, hi = arities if arities else (0, max_arity)
    k = int(E.int(f"k{i}", lo, hi))
    children = tuple(label(f"c{i}_{j}") for j in range(k))
    shifts = tuple(E.int(f"s{i}_{j}", -S, S) for j in range(k))
    return p, children, shifts


def observe(tb, l):
    """Terms the table method reports for a label (None = all)."""
    d = tb.function
    v = d.get(l, 0)
    assert tb.is_pumping(l) == (v is None), "function and is_pumping disagree"
    return v


def h_table(E, R, L, A, S, canonical=True, arities=None, leaf_first=False):
    tb = TableMethod()
    blind = TableMethod()  # the same rules, not looked at before the end
    rules = []
    seen = []
    prev = {l: 0 for l in range(L)}
    for i in range(R):
        ar = arities
        if leaf_first and i == 0:
            ar = (0, 0)
        p, children, shifts = pick_rule(E, i, L, seen, A, S, canonical, ar)
        rules.append((p, children, shifts))
        tb.add_rule_key(ForestRuleKey(p, children, shifts, RuleBucket.NORMAL))
        blind.add_rule_key(ForestRuleKey(p, children, shifts, RuleBucket.NORMAL))
        tb.status()
        vals = {l: observe(tb, l) for l in range(L)}
        least_fixed_point_check(E, rules, L, vals.__getitem__, f"after insertion {i + 1}")
        for l in range(L):
            grown = vals[l] is None or (prev[l] is not None and prev[l] <= vals[l])
            E.check(grown, f"value of {l} went down")
        prev = vals
        if any(v is None for v in vals.values()):
            E.cover("some class pumps")
            if any(v is not None and v > 0 for v in vals.values()):
                E.cover("pumping and partial classes together")
        if any(v is not None and v > 0 for v in vals.values()):
            E.cover("partially computable class")
        # the pumping subuniverse
        stable = {l for l in range(L) if vals[l] is None}
        got = sorted(
            (rk.parent, rk.children) for rk in tb.pumping_subuniverse()
        )
        want = sorted(
            (q, ch) for q, ch, _ in rules if q in stable and stable.issuperset(ch)
        )
        E.check(got == want, "pumping_subuniverse is not the set of rules on pumping classes")
    E.check(sorted(tb.stable_subset()) == sorted(l for l in range(L) if prev[l] is None),
            "stable_subset")
    late = {l: observe(blind, l) for l in range(L)}
    E.check(late == prev, f"values {late} when asked at the end only, {prev} otherwise")


# -- through RuleDBForest, with real rules of a strategy with arbitrary shifts --
from symex.toys import PlainClass, ShiftStrategy  # noqa: E402


class StubSearcher:
    def __init__(self, classdb, start_label):
        self.classdb = classdb
        self.start_label = start_label
        self.strategy_pack = ()


def h_ruledb(E, R, L, A, S):
    from comb_spec_searcher.class_db import ClassDB
    from comb_spec_searcher.rule_db import RuleDBForest

    classdb = ClassDB(PlainClass)
    classes = [PlainClass(i) for i in range(L)]
    labels = [classdb.get_label(c) for c in classes]
    db = RuleDBForest(reverse=False)
    db.link_searcher(StubSearcher(classdb, labels[0]))
    rules = []
    for i in range(R):
        p, children, shifts = pick_rule(E, i, L, [0], A, S, False)
        strat = ShiftStrategy(tuple(classes[c] for c in children), shifts, 1)
        rule = strat(classes[p])
        db.add(labels[p], tuple(labels[c] for c in children), rule)
        rules.append((p, children, shifts))
        ver = [db.is_verified(labels[l]) for l in range(L)]
        E.check(db.has_specification() == ver[0], "has_specification is not is_verified(root)")
        # pumping classes = classes with infinite value in the least fixed point
        # (decided through the solver: pre-fixed g with the complement finite exists,
        #  and no pre-fixed g makes a verified class finite)
        g = [z3.Int(f"g{j}") for j in range(L)]
        inf = [z3.Bool(f"ginf{j}") for j in range(L)]
        cons = [gi >= 0 for gi in g]
        for q, ch, sh in rules:
            cons.append(z3.Or(inf[q], *[z3.And(z3.Not(inf[c]), g[c] + to_z3(s) <= g[q])
                                        for c, s in zip(ch, sh)]))
        fin = [z3.Not(inf[l]) for l in range(L) if ver[l]]
        if fin:
            E.cover("verified")
            E.check_none(cons + [z3.Or(*fin)], "a class that does not pump is verified")
        # shifts are bounded by S: a finite least fixed point of L labels stays
        # below (L*A+1)*S*L, so the closed form below is exact within the bound
        K = (L + 1) * (S + 1)
        vals = lfp_by_unrolling(rules, L, K)
        for l in range(L):
            if not ver[l]:
                E.check(vals[l] < K, f"class {l} pumps but is not verified")


def lfp_by_unrolling(rules, L, K):
    """Kleene iteration with symbolic shifts, values capped at K (= infinity)."""
    val = [z3.IntVal(0)] * L
    for _ in range(K * L):
        new = list(val)
        for p, ch, sh in rules:
            terms = [z3.If(val[c] >= K, z3.IntVal(K), val[c] + to_z3(s)) for c, s in zip(ch, sh)]
            m = z3.IntVal(K)
            for t in terms:
                m = z3.If(t < m, t, m)
            new[p] = z3.If(m > new[p], m, new[p])
        new = [z3.simplify(x) for x in new]
        if all(a.eq(b) for a, b in zip(new, val)):
            break
        val = new
    return val


def harnesses(tier):
    q = tier == "quick"
    cov = ("some class pumps", "partially computable class")
    res = [
        Harness("small", h_table, "2 rules over 2 labels, arity<=2, shifts in [-2,2]",
                params=dict(R=2, L=2, A=2, S=2), weight=8, covers=("some class pumps",), replay_every=5),
        Harness("any-3-labels-2-rules", h_table,
                "2 rules over 3 labels in any numbering, arity<=2, shifts in [-3,3]",
                params=dict(R=2, L=3, A=2, S=3, canonical=False), weight=1, covers=("some class pumps",), replay_every=5),
        Harness("3-rules", h_table,
                "3 rules over <=3 labels, arity<=2, repeated children, shifts in [-2,2]",
                params=dict(R=3, L=3, A=2, S=2), weight=4, covers=cov, replay_every=5),
        Harness("leaf+3-unary", h_table,
                "a verified class and 3 rules of arity 1 over <=4 labels, shifts in [-3,3]",
                params=dict(R=4, L=4, A=1, S=3, leaf_first=True, arities=(1, 1)), weight=3, covers=cov, replay_every=5),
        Harness("leaf+3-rules", h_table,
                "a verified class and 3 rules of arity 1..2 over <=4 labels, shifts in [-2,2]",
                params=dict(R=4, L=4, A=2, S=2, leaf_first=True, arities=(1, 2)), weight=4, covers=cov, replay_every=5),
        Harness("leaf+6-rules", h_table,
                "a verified class and 6 rules of arity 1..3 over <=5 labels, shifts in [-3,3]",
                params=dict(R=7, L=5, A=3, S=3, leaf_first=True, arities=(1, 3)), weight=2, covers=cov, replay_every=5),
        Harness("large-shifts", h_table,
                "a verified class and 3 rules of arity 1..2 over <=3 labels, shifts in [-7,7]",
                params=dict(R=4, L=3, A=2, S=7, leaf_first=True, arities=(1, 2)), weight=2, covers=cov, replay_every=5),
        Harness("database", h_ruledb,
                "3 rules of a strategy with any shifts in [-2,2], arity <=2, 3 classes, through RuleDBForest",
                params=dict(R=3, L=3, A=2, S=2), weight=2, covers=("verified",), replay_every=5),
    ]
    return res
