"""C11: the forest extraction is minimal, closed and productive."""
import z3

from symex.engine import to_z3
from symex.grammar import Universe
from symex.run import Harness

from checks.c01 import ASSUMPTIONS as A1
from checks.c01 import configurations, search
from checks.c02 import check_genuine, rule_results
from checks.c03 import lfp_by_unrolling, pick_rule

from comb_spec_searcher.rule_db import RuleDBForest
from comb_spec_searcher.rule_db.forest import ForestRuleExtractor
from comb_spec_searcher.strategies.rule import (
    EquivalencePathRule,
    EquivalenceRule,
    ReverseRule,
    VerificationRule,
)
from comb_spec_searcher.strategies.strategy import EmptyStrategy
from comb_spec_searcher.typing import ForestRuleKey, RuleBucket

BUDGET = {"quick": 90, "thorough": 600}

ASSUMPTIONS = A1 + [
    "integer universes: labels are numbered by first appearance, the number of rules and labels, "
    "the arity and |shift| are bounded as stated; shifts are symbolic on every path",
    "whether a set of keys is productive is decided by z3 on the least fixed point written out as "
    "a term in the symbolic shifts, not by the table method",
]

BUCKETS = (RuleBucket.NORMAL, RuleBucket.REVERSE, RuleBucket.EQUIV, RuleBucket.VERIFICATION)


def constraints(keys, labels):
    pos = {l: i for i, l in enumerate(labels)}
    g = [z3.Int(f"g{i}") for i in range(len(labels))]
    inf = [z3.Bool(f"ginf{i}") for i in range(len(labels))]
    cons = [gi >= 0 for gi in g]
    for k in keys:
        p = pos[k.parent]
        cons.append(z3.Or(inf[p], *[
            z3.And(z3.Not(inf[pos[c]]), g[pos[c]] + to_z3(s) <= g[p])
            for c, s in zip(k.children, k.shifts)
        ]))
    return cons, {l: inf[i] for l, i in pos.items()}


def labels_of(keys, root):
    res = [root]
    for k in keys:
        for l in (k.parent, *k.children):
            if l not in res:
                res.append(l)
    return res


def is_productive(E, keys, root, msg):
    if E.replaying:
        return
    cons, inf = constraints(keys, labels_of(keys, root))
    E.check_none(cons + [z3.Not(inf[root])], msg)


def is_unproductive(E, keys, root, S, msg):
    labels = labels_of(keys, root)
    K = (len(labels) + 1) * (S + 1)
    rules = [
        (labels.index(k.parent), tuple(map(labels.index, k.children)), k.shifts) for k in keys
    ]
    E.check(lfp_by_unrolling(rules, len(labels), K)[0] < K, msg)


def check_extraction(E, needed, inserted, root, S):
    """What holds of the keys extracted for a root that pumps."""
    show = [(k.parent, k.children, k.bucket.name) for k in needed]
    left = list(inserted)
    for k in needed:
        i = next((i for i, x in enumerate(left) if x is k or same_key(x, k)), None)
        E.check(i is not None, f"{k} was never inserted (or not that often)")
        left.pop(i)
    mentioned = labels_of(needed, root)
    for l in mentioned:
        n = sum(k.parent == l for k in needed)
        E.check(n == 1, f"class {l} has {n} rules in {show}")
    is_productive(E, needed, root, f"{show} is not productive")
    for i, k in enumerate(needed):
        is_unproductive(E, needed[:i] + needed[i + 1:], root, S,
                        f"{show} is productive without rule {i}")
    if any(k.bucket == RuleBucket.REVERSE for k in needed):
        E.cover("reverse rule used")
        is_unproductive(E, [k for k in inserted if k.bucket != RuleBucket.REVERSE], root, S,
                        f"{show} has a reverse rule, none is needed")
    if len(needed) > 1:
        E.cover("several rules")
    if len(needed) < len(inserted):
        E.cover("rules left out")


def same_key(a, b):
    if (a.parent, a.children, a.bucket) != (b.parent, b.children, b.bucket):
        return False
    return all(x is y or (type(x) is int and x == y) for x, y in zip(a.shifts, b.shifts))


def h_table(E, R, L, A, S, leaves=0, arities=None, buckets=BUCKETS, root_leaf=False):
    """The first rules are of the given arities, the last ``leaves`` have no children."""
    db = RuleDBForest()
    inserted = []
    seen = [0]
    for i in range(R):
        ar = (0, 0) if i >= R - leaves else arities
        p, children, shifts = pick_rule(E, i, L, seen, A, S, True, ar)
        if not root_leaf and p == 0:
            E.assume(len(children) > 0)
        bucket = E.choose(f"b{i}", buckets)
        key = ForestRuleKey(p, children, shifts, bucket)
        inserted.append(key)
    if leaves and E.choose("leaves first", (False, True)):
        inserted = inserted[-leaves:] + inserted[:-leaves]
    for key in inserted:
        db.table_method.add_rule_key(key)
    if not db.table_method.is_pumping(0):
        E.cover("not pumping")
        return
    extractor = ForestRuleExtractor(0, db, None, ())
    extractor.check()
    check_extraction(E, list(extractor.needed_rules), inserted, 0, S)
    E.cover("extracted")


# ---------------------------------------------------------------------------
# universes recorded by real searches


def record_keys(db):
    keys = []
    add = db.table_method.add_rule_key

    def watched(key):
        keys.append(key)
        return add(key)

    db.table_method.add_rule_key = watched
    return keys


def h_search(E, kind, menu_name, N, sym=False, ver=False, **ukw):
    U = Universe(E, **ukw)
    db = RuleDBForest(reverse=kind == "forest-reverse")
    keys = record_keys(db)
    css, spec = search(E, U, kind, menu_name, sym, ver, db=db,
                       options=menu_name in ("copies", "unary"))
    if spec is None:
        return
    root = css.start_label
    label, empty = css.classdb.get_label, css.classdb.is_empty
    S = max([abs(s) for k in keys for s in k.shifts] + [1])
    extractor = ForestRuleExtractor(root, db, css.classdb, css.strategy_pack)
    extractor.check()
    needed = list(extractor.needed_rules)
    check_extraction(E, needed, keys, root, S)
    # each key turned back into a rule of the pack
    universe = rule_results(
        css.strategy_pack, [css.classdb.get_class(l) for l in list(css.classdb)]
    )
    rules = list(extractor.rules(()))
    todo = list(needed)
    for r in rules:
        found = [k for k in todo if matches(r, k, label, empty)]
        E.check(bool(found), f"{r.comb_class} -> {[str(c) for c in r.children]} has no such key")
        todo.remove(found[0])
        check_genuine(E, r, universe)
        E.cover("rule of " + found[0].bucket.name)
    for k in todo:
        c = css.classdb.get_class(k.parent)
        E.check(k.children == () and c.is_empty(), f"no rule for {k}")
        E.cover("empty rule")
    # the public way
    again = list(db.get_specification_rules())
    E.check(again == rules, "get_specification_rules gives other rules")


def matches(rule, key, label, empty):
    if rule.forest_key(label, empty) == key:
        return True
    # rules with a single non-empty child are handed out as equivalences
    return (
        isinstance(rule, EquivalenceRule)
        and rule.original_rule.forest_key(label, empty) == key
    )


def harnesses(tier):
    T = tier == "thorough"
    hs = []

    def add(name, weight=1.0, covers=("extracted", "several rules"), **params):
        hs.append(Harness(
            name=name, fn=h_table, weight=weight, params=params, covers=covers, replay_every=5,
            bounds={k: str(v) for k, v in params.items()},
        ))

    RV = ("extracted", "several rules", "reverse rule used", "rules left out")
    NR = (RuleBucket.NORMAL, RuleBucket.REVERSE)
    add("small", weight=8, R=2, L=2, A=2, S=1, root_leaf=True, buckets=NR)
    add("small-unary", weight=8, R=3, L=2, A=1, S=1, leaves=1, arities=(1, 1), buckets=NR)
    add("2-rules", R=2, L=3, A=2, S=2, root_leaf=True)
    add("3-rules", weight=2, R=3, L=3, A=2, S=2, root_leaf=True, covers=("extracted",))
    add("unary", weight=3, R=4, L=3, A=1, S=2, leaves=1, arities=(1, 1), covers=RV, buckets=NR)
    add("binary", weight=3, R=4, L=3, A=2, S=1, leaves=1, arities=(1, 2), covers=RV, buckets=NR)
    add("two-leaves", weight=3, R=5, L=3, A=2, S=1, leaves=2, arities=(1, 2), covers=RV, buckets=NR)
    add("buckets", weight=2, R=4, L=3, A=1, S=1, leaves=2, arities=(1, 1), covers=RV)
    add("one-bucket", weight=2, R=5, L=4, A=2, S=1, leaves=1, arities=(1, 2),
        buckets=(RuleBucket.NORMAL,), covers=("extracted", "several rules", "rules left out"))
    add("7-rules", weight=2, R=7, L=5, A=2, S=2, leaves=2, arities=(1, 2), buckets=NR)
    add("large-shifts", weight=1, R=4, L=3, A=2, S=5, leaves=1, arities=(1, 2), buckets=NR)
    add("wide-rules", weight=1, R=4, L=4, A=3, S=1, leaves=2, arities=(1, 3), buckets=NR)
    for name, w, params in configurations(tier):
        if not params["kind"].startswith("forest"):
            continue
        hs.append(Harness(
            name="search-" + name, fn=h_search, weight=0.5 * w, relational=False,
            params=dict(params), covers=("several rules",),
            bounds={"classes": params["n"], "productions": str(params["kinds"]),
                    "statistics": params.get("nlat", 0)},
        ))
    return hs
