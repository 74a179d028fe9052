BUGS = []


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


bug(
    "pruned-dict-stale",
    "C05",
    [("rule_db/base.py",
      """        self._pruned_dict = None
        ends = self._clean_labels(ends, rule)
        if ends == [start]:
            return
""",
      """        ends = self._clean_labels(ends, rule)
        if ends == [start]:
            return
        if len(ends) != 1:
            self._pruned_dict = None
""")],
    "asking for a specification before the last equivalence or one-child rule that completes one is added",
    "the pruned rules are not computed again after an equivalence is added: a specification goes unnoticed",
    '''
from lib import *

GRAMMAR.update({
    "A": atom(1), "E": EPS,
    "S": ("same", "T"), "T": ("same", "U"), "U": ("union", ["E", "V"]), "V": ("prod", ["A", "U"]),
})


def rules(css):
    for name, strat in (("V", Factor()), ("U", Split()), ("E", Verify()), ("A", Verify()), ("T", Rename()), ("S", Rename())):
        c = C(name)
        label = css.classdb.get_label(c)
        for res in css._expand_class_with_strategy(c, strat, label):
            yield res


for ask in (False, True):
    css = searcher(C("S"))
    for start, ends, rule in rules(css):
        css.add_rule(start, ends, rule)
        if ask:
            css.has_specification()
    expect(css.has_specification(), f"no specification (asked before: {ask})")
''',
)

bug(
    "quotient-reads-siblings-early",
    "C10",
    [("strategies/constructor/cartesian.py",
      """        if n < self._min_sizes[self.idx]:
            return Counter()
        new_terms: Terms = Counter()
""",
      """        new_terms: Terms = Counter()
""")],
    "the reverse of a product, counted for a size below the least size of the child",
    "the quotient reads its siblings at their least size even when its own terms are all zero",
    '''
from lib import *

GRAMMAR.update({
    "A": atom(1), "D": atom(2), "F": fin({2: 1, 3: 2}), "G": fin({1: 2, 2: 1}), "S": ("prod", ["F", "G", "D"]),
})
for idx in range(3):
    rule = Factor()(C("S")).to_reverse_rule(idx)
    shifts = rule.shifts()
    for n in range(6):
        read = []

        def sub(i, c):
            def get(m):
                read.append((i, m))
                return Counter(c.truth(m))
            return get

        def own(m):
            read.append((None, m))
            return Counter(rule.comb_class.truth(m))

        subs = tuple(sub(i, c) for i, c in enumerate(rule.children))
        got = rule.constructor.get_terms(own, subs, n)
        expect(same_terms(got, rule.comb_class.truth(n)), (idx, n, got))
        for i, m in read:
            if i is None:
                expect(m < n, f"own term {m} for {n}")
            else:
                expect(m <= n - shifts[i], f"child {i} at {m} for {n}, shift {shifts[i]}")
''',
)

bug(
    "find-rule-ignores-shifts",
    "C11",
    [("rule_db/forest.py",
      """                if (
                    rule.forest_key(self.classdb.get_label, self.classdb.is_empty)
                    == rule_key
                ):
                    return rule
""",
      """                forest_key = rule.forest_key(
                    self.classdb.get_label, self.classdb.is_empty
                )
                if forest_key.key == rule_key.key:
                    return rule
""")],
    "two strategies that give the same children with different shifts, the less productive one first in the pack",
    "the rule found for an extracted key can have other shifts than the key",
    '''
from lib import *
from comb_spec_searcher.rule_db import RuleDBForest

GRAMMAR.update({
    "A": atom(1), "E": EPS, "S": ("union", ["E", "T"]), "T": ("prod", ["A", "S"]),
})


class Cautious(Factor):
    """The same, but it promises less."""

    def shifts(self, comb_class, children=None):
        return tuple(0 for _ in GRAMMAR[comb_class.name][1])

    def can_be_equivalent(self):
        return False


pack = make_pack(initial=[Cautious(ignore_parent=False), Factor()], expansion=[[Split()]])
css = searcher(C("S"), pack, ruledb=RuleDBForest())
spec = css.auto_search()
shifts = {c.name: rule.shifts() for c, rule in spec.rules_dict.items() if rule.children}
expect(shifts["T"] == (0, 1), shifts)
''',
)

TABLE = '''
import os, random, sys
sys.path.insert(0, os.getcwd())
import logzero
logzero.loglevel(40)
from comb_spec_searcher.rule_db.forest import TableMethod
from comb_spec_searcher.typing import ForestRuleKey, RuleBucket

CAP = 200


def lfp(rules, n):
    val = [0] * n
    while True:
        new = list(val)
        for p, kids, sh in rules:
            new[p] = max(new[p], min([val[c] + s for c, s in zip(kids, sh)] + [CAP]))
        new = [min(v, CAP) for v in new]
        if new == val:
            return [None if v >= CAP - 50 else v for v in val]
        val = new


random.seed(7)
for _ in range(6000):
    n = random.randint(2, 5)
    rules = []
    for _ in range(random.randint(2, 8)):
        k = random.choice([0, 1, 1, 1, 2, 2])
        rules.append((
            random.randrange(n),
            tuple(random.randrange(n) for _ in range(k)),
            tuple(random.choice([-6, -4, -2, -1, 0, 1, 1, 2, 3, 5, 6]) for _ in range(k)),
        ))
    tb = TableMethod()
    for i, r in enumerate(rules):
        tb.add_rule_key(ForestRuleKey(*r, RuleBucket.NORMAL))
        want = lfp(rules[: i + 1], n)
        got = [tb.function.get(c, 0) for c in range(n)]
        if got != want:
            sys.exit(f"BROKEN: {rules[:i+1]}: {got}, least fixed point {want}")
'''

bug(
    "gap-only-negative-shifts",
    "C03",
    [("rule_db/forest.py",
      """        max_gap = max((abs(s) for s in rule_key.shifts), default=0)
""",
      """        max_gap = max((-s for s in rule_key.shifts), default=0)
""")],
    "a rule with a large positive shift on a child with finitely many terms",
    "the gap is too narrow for positive shifts: a class with finitely many terms is set to infinity",
    TABLE,
)

bug(
    "verified-genf-keeps-F",
    "C20",
    [("strategies/rule.py",
      """            self.strategy.get_genf(self.comb_class, funcs).subs({var("F"): lhs_func}),
""",
      """            self.strategy.get_genf(self.comb_class, funcs),
""")],
    "a verification strategy that gives its generating function as an equation in F",
    "the equation of the verified class is about a symbol F instead of the class",
    '''
from lib import *
import sympy

GRAMMAR.update({"A": atom(1), "B": fin({0: 1, 1: 1, 2: 2, 3: 5, 4: 14, 5: 42, 6: 132}), "S": ("prod", ["A", "B"])})


class VerifyCatalan(Verify):
    def get_genf(self, comb_class, funcs=None):
        if comb_class.name == "B":
            x, F = sympy.var("x F")
            return 1 + x * F**2
        return super().get_genf(comb_class, funcs)


spec = searcher(C("S"), make_pack(ver=[VerifyCatalan()])).auto_search()
x = sympy.var("x")
series = {
    spec.get_function(c): sum(sum(c.truth(n).values()) * x**n for n in range(7)) for c in spec.comb_classes()
}
for eq in spec.get_equations():
    diff = sympy.expand((eq.lhs - eq.rhs).subs(series))
    expect(diff.free_symbols <= {x}, f"{eq}: {diff}")
    low = [diff.coeff(x, n) for n in range(6)]
    expect(not any(low), f"{eq}: {low}")
''',
)

bug(
    "parallel-atoms-by-size",
    "C13",
    [("bijection.py",
      """        return sz1 == sz2 and terms1 == terms2
""",
      """        return sz1 == sz2
""")],
    "classes that track a statistic, with atoms of the same size and different values of it",
    "atoms are matched by size only: the pair of specifications is not isomorphic",
    '''
from lib import *
from comb_spec_searcher.bijection import ParallelSpecFinder
from comb_spec_searcher.isomorphism import Isomorphism

GRAMMAR.update({
    "A": atom(1, k=1), "B": atom(1), "E": EPS,
    "S": ("union", ["E", "T"]), "T": ("prod", ["A", "S"]),
    "P": ("union", ["E", "Q"]), "Q": ("prod", ["B", "P"]),
})
stats = (("k", "k"),)
for x, y in ("SS", "SP", "PS", "PP"):
    res = ParallelSpecFinder(searcher(C(x, stats)), searcher(C(y, stats))).find()
    if x == y:
        expect(res is not None, f"nothing for {x}, {y}")
    if res is not None:
        expect(Isomorphism.check(*res), f"{x}, {y}: not isomorphic")
''',
)

bug(
    "pack-json-symmetries-first",
    "C18",
    [("strategies/strategy_pack.py",
      """            iterative=d.get("iterative", False),
        )

    # Method""",
      """            iterative=d.get("iterative", False) and not symmetries,
        )

    # Method""")],
    "an iterative pack with symmetries",
    "an iterative pack with symmetries is not iterative any more after a JSON round trip",
    '''
from lib import *

for iterative in (False, True):
    for sym in ([], [Rename()]):
        pack = make_pack(symmetries=sym, iterative=iterative)
        back = StrategyPack.from_dict(pack.to_jsonable())
        expect(back == pack, f"{pack!r} {back!r}")
''',
)
