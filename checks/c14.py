"""C14: the default and the memory-saving rule database agree after every insertion."""
from itertools import chain

from symex import grammar as gr
from symex.env import CLOCK
from symex.grammar import Universe
from symex.run import Harness

from checks.c01 import KINDS, CountingClock, expand, searcher

from comb_spec_searcher.rule_db import RuleDB, RuleDBForgetStrategy
from comb_spec_searcher.rule_db.abstract import RuleDBAbstract
from comb_spec_searcher.strategies.rule import VerificationRule

BUDGET = {"quick": 100, "thorough": 700}

ASSUMPTIONS = [
    "rule sequences are those of real searches over the symbolic grammar universes of C01 (same "
    "assumptions); both databases receive every insertion and are compared after each",
    "when the (state-changing) question whether a specification exists is asked is a symbolic "
    "choice: after every insertion, or after the chosen ones",
]


class Lockstep(RuleDBAbstract):
    """Feeds two databases and compares them."""

    def __init__(self, E, asks):
        super().__init__()
        self.E = E
        self.asks = asks
        self.one = RuleDB()
        self.two = RuleDBForgetStrategy()
        self.n = 0
        self.expected = set()

    def link_searcher(self, searcher):
        super().link_searcher(searcher)
        self.one.link_searcher(searcher)
        self.two.link_searcher(searcher)

    def add(self, start, ends, rule):
        self.one.add(start, ends, rule)
        self.two.add(start, ends, rule)
        if self.n == 0:
            self.E.cover("insertion")
        self.n += 1
        self.compare(start, ends, rule)

    def compare(self, start, ends, rule):
        E = self.E
        a, b = self.one, self.two
        when = f"after insertion {self.n}"
        E.check(set(a.rule_to_strategy) == set(b.rule_to_strategy), f"rules differ {when}")
        E.check(set(a.eqv_rule_to_strategy) == set(b.eqv_rule_to_strategy),
                f"two-way rules differ {when}")
        labels = list(self.classdb)
        if self.n == 3:
            a.status(elaborate=True), b.status(elaborate=True)  # only look
        for l in labels:
            E.check(a.is_verified(l) == b.is_verified(l), f"{l} verified in one only {when}")
        if self.asks == "each" or self.asks == self.n:
            E.check(a.has_specification() == b.has_specification(), f"specification in one only {when}")
            if a.has_specification():
                E.cover("specification")
            for l in labels:
                E.check(a.is_verified(l) == b.is_verified(l),
                        f"{l} verified in one only {when} (and a look for a specification)")
                for m in labels:
                    E.check(a.are_equivalent(l, m) == b.are_equivalent(l, m), f"{l} ~ {m} {when}")
        # membership, of what is stored and what is not
        keys = set(a)
        E.check(keys == set(b), f"stored rules differ {when}")
        near = set()
        for s, e in keys:
            near.add((s, e))
            near.add((s, tuple(reversed(e))))
            near.add((s, e + (s,)))
            near.add((s, e[1:]))
            if len(e) == 1:
                near.add((e[0], (s,)))
        for s, e in near:
            truth = (s, tuple(sorted(e))) in keys
            E.check(a.contains(s, e) == truth, f"default: contains({s}, {e}) {when}")
            E.check(b.contains(s, e) == truth, f"memory-saving: contains({s}, {e}) {when}")
        self.strategies(when, {(start, tuple(sorted(ends)))} if self.n % 4 else keys)

    def strategies(self, when, keys):
        E = self.E
        known = set(self.one)
        for key in sorted(keys & known):
            start, ends = key
            cls = self.classdb.get_class(start)
            if cls.is_empty():
                continue
            for db, name in ((self.one, "default"), (self.two, "memory-saving")):
                for d, eqv in ((db.rule_to_strategy, False), (db.eqv_rule_to_strategy, True)):
                    if key not in d:
                        continue
                    strat = d[key]
                    rule = strat(cls)
                    got = (
                        self.classdb.get_label(rule.comb_class),
                        tuple(sorted(
                            self.classdb.get_label(c) for c in rule.children if not c.is_empty()
                        )),
                    )
                    E.check(got == key, f"{name}: strategy for {key} gives {got} {when}")
                    E.check(not eqv or rule.is_two_way(), f"{name}: one-way strategy for {key} {when}")
                    if not ends:
                        E.check(isinstance(rule, VerificationRule),
                                f"{name}: {strat} does not verify {cls} {when}")
                    E.cover("strategy")

    def is_verified(self, label):
        return self.one.is_verified(label)

    def status(self, elaborate):
        return ""

    def has_specification(self):
        r = self.one.has_specification()
        self.E.check(r == self.two.has_specification(), "specification in one only")
        return r

    def get_specification_rules(self, **kw):
        return self.one.get_specification_rules(**kw)


def h_lockstep(E, menu_name, packets, sym=False, ver=False, **ukw):
    U = Universe(E, **ukw)
    CLOCK.hook = CountingClock()
    asks = E.choose("asks", ("each", "never", 2, 5))
    db = Lockstep(E, asks)
    css, pack = searcher(E, U, "lockstep", menu_name, sym, ver, True, db)
    n = 0
    for label, strategies, inferral in css.classqueue:
        if n >= packets:
            break
        n += 1
        if css.expand_verified or not css.ruledb.is_verified(label):
            expand(css, label, strategies, inferral)
    db.has_specification()
    db.strategies("at the end", set(db.one))
    if db.n > 3:
        E.cover("more than three insertions")


def harnesses(tier):
    hs = []
    base = dict(n=3, kinds=KINDS, packets=12 if tier == "quick" else 30)
    hs.append(("small", dict(base, n=2, menu_name="basic", kinds=("union", "cons", "atom", "eps"))))
    for m in ("basic", "copies", "empties", "unary", "flatten", "factories", "reverse", "cousins", "oneway"):
        hs.append((m, dict(base, menu_name=m, ver=m in ("flatten", "reverse"),
                           partial=m in ("copies", "empties", "unary", "reverse"))))
    hs.append(("stats", dict(base, menu_name="copies", nlat=1, schemes=(0, 1), drops=(False, True))))
    hs.append(("verified", dict(base, menu_name="copies", ver=True)))
    hs.append(("verified-unary", dict(base, menu_name="unary", ver=True)))
    hs.append(("verified-factories", dict(base, menu_name="factories", ver=True)))
    hs.append(("symmetries", dict(base, menu_name="basic", sym=True, partial=True)))
    hs.append(("symmetries-copies", dict(base, menu_name="copies", sym=True)))
    return [
        Harness(
            name=name, fn=h_lockstep, relational=False, params=p, covers=("insertion", "strategy"),
            bounds={"classes": p["n"], "productions": str(p["kinds"]), "statistics": p.get("nlat", 0),
                    "work packets": p["packets"]},
        )
        for name, p in hs
    ]
