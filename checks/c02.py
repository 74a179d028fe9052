"""C02: specifications handed back are closed, genuine and productive."""
from symex import grammar as gr
from symex.grammar import Universe
from symex.run import Harness

from checks.c01 import ASSUMPTIONS as A1
from checks.c01 import configurations, cover_forms, search

from symex.grammar import Fold, FoldRule

from comb_spec_searcher.strategies.rule import (
    EquivalencePathRule,
    EquivalenceRule,
    ReverseRule,
    Rule,
    VerificationRule,
)
from comb_spec_searcher.strategies.strategy import EmptyStrategy, StrategyFactory

BUDGET = {"quick": 100, "thorough": 700}

ASSUMPTIONS = A1 + [
    "productivity is decided from the truth: a union reads its children at the parent's size, a "
    "product each factor at the parent's size minus the least sizes of the others, a reversed "
    "rule accordingly",
]


def rule_results(pack, classes):
    """{(parent, children, strategy repr)}: what the pack does to the classes."""
    res = []
    for c in classes:
        for s in pack:
            if isinstance(s, StrategyFactory):
                for x in s(c):
                    if hasattr(x, "comb_class"):
                        res.append((x.comb_class, x.children, x.strategy))
                    else:
                        kids = x.decomposition_function(c)
                        if kids is not None:
                            res.append((c, kids, x))
            else:
                kids = s.decomposition_function(c)
                if kids is not None:
                    res.append((c, kids, s))
    return res


def check_genuine(E, rule, universe):
    """The rule is one of the pack's or a derived form of one."""
    if isinstance(rule, EquivalencePathRule):
        cur = rule.comb_class
        for r in rule.rules:
            E.check(r.comb_class == cur, f"broken path {rule.comb_class}")
            E.check(len(r.children) == 1, "a step of a path has several children")
            E.check(r.is_equivalence(), "a step of a path is no equivalence")
            check_genuine(E, r, universe)
            cur = r.children[0]
        E.check(rule.children == (cur,), "the path ends elsewhere")
    elif isinstance(rule, EquivalenceRule):
        orig = rule.original_rule
        check_genuine(E, orig, universe)
        E.check(rule.comb_class == orig.comb_class, "equivalence of another class")
        alive = [c for c in orig.children if not c.is_empty()]
        E.check(list(rule.children) == alive and len(alive) == 1,
                f"equivalence rule {rule.comb_class} -> {rule.children} of {orig.children}")
    elif isinstance(rule, ReverseRule):
        orig = rule.original_rule
        check_genuine(E, orig, universe)
        i = rule.idx
        E.check(rule.comb_class == orig.children[i], "reversed rule of another child")
        E.check(
            rule.children == (orig.comb_class,) + orig.children[:i] + orig.children[i + 1 :],
            "children of the reversed rule",
        )
    elif isinstance(rule, VerificationRule) and isinstance(rule.strategy, EmptyStrategy):
        E.check(rule.comb_class.is_empty(), f"{rule.comb_class} declared empty")
        E.check(rule.children == (), "empty rule with children")
    else:
        E.check(type(rule) in (Rule, VerificationRule, FoldRule), f"unknown form {type(rule)}")
        E.check((type(rule) is FoldRule) == isinstance(rule.strategy, Fold),
                f"{rule.strategy} makes other rules than {type(rule)}")
        E.check(
            (rule.comb_class, rule.children, rule.strategy) in universe,
            f"{rule.strategy} does not give {rule.comb_class} -> {rule.children}",
        )


def reads(rule):
    """[(child, s)]: size n reads the child at sizes up to n - s."""
    if isinstance(rule, EquivalencePathRule):
        return [(rule.children[0], 0)]
    if isinstance(rule, EquivalenceRule):
        return [(rule.children[0], 0)]
    size = lambda c: gr.CUR.min_size(c.expr)
    if isinstance(rule, ReverseRule):
        orig = rule.original_rule
        if is_product(orig):
            rest = [c for j, c in enumerate(orig.children) if j != rule.idx]
            # B = A * C: A(n) = (B(n + m) - sum_{k < n} A(k) C(n + m - k)) / C(m) with m
            # the least size of C: B is read at n + m, the factors c of C up to
            # n + size(c) - size(A)
            return [(orig.comb_class, -sum(map(size, rest)))] + [
                (c, size(rule.comb_class) - size(c)) for c in rest
            ]
        return [(c, 0) for c in rule.children]
    if isinstance(rule, VerificationRule):
        return []
    if is_product(rule):
        tot = sum(map(size, rule.children))
        return [(c, tot - size(c)) for c in rule.children]
    return [(c, 0) for c in rule.children]


def is_product(rule):
    from comb_spec_searcher.strategies.strategy import CartesianProductStrategy

    return isinstance(rule.strategy, CartesianProductStrategy)


def check_productive(E, spec):
    """Least function: n(c) terms of class c can be computed."""
    rules = dict(spec.rules_dict)
    cap = 60
    INF = float("inf")
    have = {c: 0 for c in rules}
    changed = True
    while changed:
        changed = False
        for c, r in rules.items():
            rd = reads(r)
            v = min([INF] + [have.get(k, INF) + s for k, s in rd])
            if v >= cap:
                v = INF
            if v > have[c]:
                have[c] = v
                changed = True
    for c, v in have.items():
        E.check(v == INF, f"only {v} terms of {c} can be computed")


def check_spec(E, css, pack, spec):
    rules = spec.rules_dict
    E.check(spec.root == css.start_class, "another start class")
    E.check(spec.root in rules, "the start class has no rule")
    classes = set()
    for c, r in rules.items():
        E.check(r.comb_class == c, f"rule of {r.comb_class} filed under {c}")
        classes.add(c)
        for k in r.children:
            E.check(k in rules or k.is_empty(), f"{k} has no rule")
    # reachability: no spurious rule
    seen = set()
    todo = [spec.root]
    while todo:
        c = todo.pop()
        if c in seen or c not in rules:
            continue
        seen.add(c)
        todo.extend(rules[c].children)
    E.check(seen == set(rules), f"rules nothing needs: {set(rules) - seen}")
    # genuineness
    involved = set(classes)
    for r in rules.values():
        for x in involved_rules(r):
            involved.add(x.comb_class)
            involved.update(x.children)
    universe = rule_results(pack, involved)
    for r in rules.values():
        check_genuine(E, r, universe)
    check_productive(E, spec)


def involved_rules(r):
    yield r
    for x in getattr(r, "rules", ()):
        yield from involved_rules(x)
    if hasattr(r, "original_rule"):
        yield from involved_rules(r.original_rule)


def h_spec(E, kind, menu_name, N, sym=False, ver=False, **ukw):
    U = Universe(E, **ukw)
    css, spec = search(E, U, kind, menu_name, sym, ver)
    if spec is None:
        return
    cover_forms(E, spec)
    check_spec(E, css, css.strategy_pack, spec)
    # asking again gives a specification again, of the same quality
    E.check(css.has_specification(), "no longer a specification")
    again = css.get_specification(minimization_time_limit=0)
    check_spec(E, css, css.strategy_pack, again)


def harnesses(tier):
    hs = []
    for name, w, params in configurations(tier):
        hs.append(Harness(
            name=name, fn=h_spec, weight=w, relational=False, params=params,
            covers=("found",),
            bounds={"classes": params["n"], "productions": str(params["kinds"]),
                    "statistics": params.get("nlat", 0)},
        ))
    return hs
