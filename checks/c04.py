"""C04: what the searcher records is what the strategies of the pack give."""
from symex import grammar as gr
from symex.grammar import Universe
from symex.run import Harness

from checks.c01 import ASSUMPTIONS as A1
from checks.c01 import configurations, make_db, search

from comb_spec_searcher.rule_db import RuleDBForest
from comb_spec_searcher.strategies.rule import Rule, VerificationRule
from comb_spec_searcher.strategies.strategy import EmptyStrategy, StrategyFactory

BUDGET = {"quick": 100, "thorough": 700}

ASSUMPTIONS = A1 + [
    "the reference applies each strategy or factory of the pack afresh to the classes labelled so "
    "far; strategies are pure, so applying them again changes nothing but the symbolic structure "
    "they ask for",
]


class Watch:
    """Wraps add of a database and checks every insertion."""

    def __init__(self, E, db):
        self.E = E
        self.db = db
        self.count = 0
        self.depth = 0
        self.add = db.add
        db.add = self.watched_add
        self.labels = []
        self.keys = []
        if isinstance(db, RuleDBForest):
            add_key = db.table_method.add_rule_key

            def watched_key(key):
                self.keys.append(key)
                return add_key(key)

            db.table_method.add_rule_key = watched_key

    def fresh_labels(self, classdb):
        """Labels are a bijection with the classes."""
        E = self.E
        known = {c: l for l, c in enumerate(self.labels)}
        for l in list(classdb)[len(self.labels):]:
            c = classdb.get_class(l)
            E.check(c not in known, f"{c} labelled {known.get(c)} and {l}")
            E.check(l == len(self.labels), "labels are not consecutive")
            known[c] = l
            self.labels.append(c)
        return known

    def whole_bijection(self, classdb):
        for l, c in enumerate(self.labels):
            self.E.check(classdb.get_class(l) == c, f"label {l} is another class")
            self.E.check(classdb.get_label(c) == l, f"{c} has another label than {l}")

    def watched_add(self, start, ends, rule):
        E = self.E
        classdb = self.db.classdb
        known = self.fresh_labels(classdb)
        E.check(type(start) is int and type(ends) is tuple, "labels of another type")
        E.check(known.get(rule.comb_class) == start,
                f"rule of {rule.comb_class} recorded for label {start} ({self.name(start)})")
        E.check(
            tuple(known.get(c) for c in rule.children) == ends,
            f"children {[str(c) for c in rule.children]} recorded as "
            f"{[self.name(l) for l in ends]}",
        )
        self.genuine(rule, known)
        self.depth += 1
        before = self.stored()
        self.add(start, ends, rule)
        self.depth -= 1
        self.count += 1
        E.cover("rule recorded")
        if isinstance(self.db, RuleDBForest):
            self.forest_keys(before, start, ends, rule)
        else:
            self.stored_keys(before, start, ends, rule)
        if len(ends) > 1 and len(set(ends)) < len(ends):
            E.cover("repeated child")

    def name(self, l):
        return str(self.labels[l]) if type(l) is int and 0 <= l < len(self.labels) else f"?{l}"

    # -- one strategy of the pack, applied to the class carrying the label ----

    def genuine(self, rule, known):
        E = self.E
        cls, strat = rule.comb_class, rule.strategy
        what = f"{strat!r}: {cls} -> {[str(c) for c in rule.children]}"
        if isinstance(strat, EmptyStrategy):
            E.check(cls.is_empty() and rule.children == (), f"empty rule for {what}")
            E.cover("empty rule")
            return
        kids = strat.decomposition_function(cls)
        E.check(kids is not None, f"the strategy does not apply: {what}")
        E.check(kids == rule.children, f"the strategy gives other children: {what}")
        E.check(
            isinstance(rule, VerificationRule) == hasattr(strat, "verified"),
            f"rule of another kind: {what}",
        )
        pack = self.db.searcher.strategy_pack
        for s in pack:
            if not isinstance(s, StrategyFactory) and s == strat:
                E.cover("plain strategy")
                return
        for s in pack:
            if not isinstance(s, StrategyFactory):
                continue
            # the factory was given this class, or another one: children first
            for c in [cls] + list(rule.children) + list(known):
                for x in s(c):
                    if isinstance(x, Rule) or isinstance(x, VerificationRule):
                        if (x.comb_class, x.children, x.strategy) == (cls, rule.children, strat):
                            E.cover("foreign parent" if c != cls else "ready rule")
                            return
                    elif c == cls and x == strat:
                        E.cover("strategy of a factory")
                        return
        E.fail(f"nothing of the pack gives this rule: {what}")

    # -- what is stored -------------------------------------------------------

    def stored(self):
        if isinstance(self.db, RuleDBForest):
            return len(self.keys)
        return set(self.db.rule_to_strategy), set(self.db.eqv_rule_to_strategy)

    def kept(self, ends, rule):
        """Labels which have to be kept, and those which may be dropped."""
        keep, drop = [], []
        for l, c in zip(ends, rule.children):
            (drop if rule.possibly_empty and c.is_empty() else keep).append(l)
        return keep, drop

    def stored_keys(self, before, start, ends, rule):
        E = self.E
        keep, drop = self.kept(ends, rule)
        if drop:
            E.cover("empty child dropped")
        now = self.stored()
        key = (start, tuple(sorted(keep)))
        for i in (0, 1):
            for k in now[i] - before[i]:
                E.check(k == key, f"recorded {self.rule_name(k)} for {self.rule_name((start, ends))}")
        E.check(key in now[0] | now[1] or key == (start, (start,)),
                f"{self.rule_name(key)} not recorded")
        # the rest stays (a two-way rule may replace one-way versions of itself)
        back = (key[1][0], (start,)) if len(key[1]) == 1 else None
        for i in (0, 1):
            for k in before[i] - now[i]:
                E.check(k in (key, back) and (key in now[1]), f"{self.rule_name(k)} disappeared")
        if key in now[1]:
            E.check(len(key[1]) == 1 and (rule.is_two_way() or key in before[1]),
                    f"{self.rule_name(key)} recorded as two-way")
        which = self.db.eqv_rule_to_strategy if key in now[1] else self.db.rule_to_strategy
        if key in now[0] | now[1] and isinstance(which, dict):
            s = which[key]
            E.check(s == rule.strategy or key in before[0] | before[1],
                    f"{self.rule_name(key)} recorded with strategy {s}, not {rule.strategy}")

    def forest_keys(self, before, start, ends, rule):
        E = self.E
        keys = self.keys[before:]
        allowed = {(start, ends)}
        if self.db.reverse and rule.is_reversible():
            for i, l in enumerate(ends):
                allowed.add((l, (start,) + ends[:i] + ends[i + 1 :]))
        for _, c in zip(ends, rule.children):
            if rule.possibly_empty and c.is_empty():
                allowed.add((self.labels.index(c), ()))
        got = {(k.parent, k.children) for k in keys}
        for k in got:
            E.check(k in allowed, f"recorded {self.rule_name(k)} for {self.rule_name((start, ends))}")
        E.check((start, ends) in got, f"{self.rule_name((start, ends))} not recorded")
        for k in keys:
            if k.children == () and k.parent != start:
                E.check(self.labels[k.parent].is_empty(), f"{self.name(k.parent)} recorded as empty")

    def rule_name(self, key):
        return f"{self.name(key[0])} -> {[self.name(l) for l in key[1]]}"


def h_record(E, kind, menu_name, N, sym=False, ver=False, **ukw):
    U = Universe(E, **ukw)
    db = make_db(kind)
    watch = Watch(E, db)
    css, spec = search(E, U, kind, menu_name, sym, ver, db=db)
    watch.fresh_labels(css.classdb)
    watch.whole_bijection(css.classdb)
    E.check(css.classdb.get_class(css.start_label) == css.start_class, "start class")
    # verdicts about emptiness are true
    for l, e in enumerate(css.classdb.empty_list):
        E.check(e is None or bool(e) == watch.labels[l].is_empty(),
                f"{watch.labels[l]} recorded as {'' if e else 'not '}empty")
    E.cover("searched")


def harnesses(tier):
    hs = []
    for name, w, params in configurations(tier):
        covers = ["rule recorded", "searched"]
        if "flags" in name or "copies" in name:
            covers.append("plain strategy")
        if "factories" in name:
            covers += ["strategy of a factory", "ready rule", "foreign parent"]
        hs.append(Harness(
            name=name, fn=h_record, weight=w, relational=False, params=params, covers=tuple(covers),
            bounds={"classes": params["n"], "productions": str(params["kinds"]),
                    "statistics": params.get("nlat", 0), "database": params["kind"]},
        ))
    return hs
