BUGS = []


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


TABLE_DEMO = '''
import itertools, os, random, sys
sys.path.insert(0, os.getcwd())
import logzero
logzero.loglevel(40)
from comb_spec_searcher.rule_db.forest import TableMethod
from comb_spec_searcher.typing import ForestRuleKey, RuleBucket

CAP = 60


def lfp(rules, n):
    val = [0] * n
    while True:
        new = list(val)
        for p, kids, sh in rules:
            new[p] = max(new[p], min([val[c] + s for c, s in zip(kids, sh)] + [CAP]))
        new = [min(v, CAP) for v in new]
        if new == val:
            return [None if v >= CAP - 12 else v for v in val]
        val = new


random.seed(11)
for _ in range(6000):
    n = random.randint(1, 4)
    rules = []
    for _ in range(random.randint(1, 6)):
        k = random.choice([0, 1, 1, 2, 2])
        top = random.choice([1, 1, 2, 3])
        rules.append((
            random.randrange(n),
            tuple(random.randrange(n) for _ in range(k)),
            tuple(random.randint(-top, top) for _ in range(k)),
        ))
    tb = TableMethod()
    for i, r in enumerate(rules):
        tb.add_rule_key(ForestRuleKey(*r, RuleBucket.NORMAL))
        want = lfp(rules[: i + 1], n)
        got = [tb.function.get(c, 0) for c in range(n)]
        if got != want or any(tb.is_pumping(c) != (want[c] is None) for c in range(n)):
            sys.exit(f"BROKEN: {rules[:i+1]}: {got}, least fixed point {want}")
'''

EXTRACT_DEMO = '''
import itertools, os, random, sys
sys.path.insert(0, os.getcwd())
import logzero
logzero.loglevel(40)
from types import SimpleNamespace
from comb_spec_searcher.rule_db.forest import ForestRuleExtractor, TableMethod
from comb_spec_searcher.typing import ForestRuleKey, RuleBucket

B = [RuleBucket.REVERSE, RuleBucket.NORMAL, RuleBucket.EQUIV, RuleBucket.VERIFICATION]


def productive(rules):
    """Is 0 pumping? By rounds, on its own."""
    cap = 80
    val = {}
    while True:
        new = dict(val)
        for r in rules:
            v = min([val.get(c, 0) + s for c, s in zip(r.children, r.shifts)] + [cap])
            if v > new.get(r.parent, 0):
                new[r.parent] = v
        if new == val:
            return val.get(0, 0) >= cap - 15
        val = new


random.seed(7)
done = 0
while done < 700:
    n = random.randint(1, 4)
    rules = []
    for _ in range(random.randint(2, 9)):
        k = random.choice([0, 1, 1, 2])
        bucket = RuleBucket.VERIFICATION if not k else random.choice(B[:3])
        rules.append(ForestRuleKey(
            random.randrange(n), tuple(random.randrange(n) for _ in range(k)),
            tuple(random.randint(-1 if bucket == B[0] else 0, 2) for _ in range(k)), bucket))
    rules = list(dict.fromkeys(rules))
    tb = TableMethod()
    for r in rules:
        tb.add_rule_key(r)
    if not productive(rules):
        continue
    done += 1
    try:
        ex = ForestRuleExtractor(0, SimpleNamespace(table_method=tb), None, None)
        ex.check()
    except Exception as e:
        sys.exit(f"BROKEN: {rules}: {e!r}")
    got = ex.needed_rules
    if not set(got) <= set(rules) or not productive(got):
        sys.exit(f"BROKEN: {rules}: {got} is not a productive subset")
    if any(c not in {r.parent for r in got} for r in got for c in r.children):
        sys.exit(f"BROKEN: {rules}: {got} is not closed")
    for r in got:
        if productive([s for s in got if s != r]):
            sys.exit(f"BROKEN: {rules}: {r} is not needed in {got}")
    if any(r.bucket == B[0] for r in got) and productive([r for r in rules if r.bucket != B[0]]):
        sys.exit(f"BROKEN: {rules}: needless reverse rule in {got}")
'''

bug(
    "forest-normal-minimised-first",
    "C11",
    [("rule_db/forest.py",
      """        RuleBucket.REVERSE,
        RuleBucket.NORMAL,
        RuleBucket.EQUIV,
""",
      """        RuleBucket.NORMAL,
        RuleBucket.REVERSE,
        RuleBucket.EQUIV,
""")],
    "a universe in which a reverse rule can replace a normal rule of the specification",
    "normal rules are given up before reverse rules: reverse rules are used although a choice without them exists",
    EXTRACT_DEMO,
)

bug(
    "isomorphism-permutation-not-inverted",
    "C12",
    [("isomorphism.py",
      """        inv = [0] * len(perm)
        for i, v in enumerate(perm):
            inv[v] = i
        return inv
""",
      """        return list(perm)
""")],
    "rules with three children matched by a cyclic permutation",
    "the inverse of the order of the children is only right for permutations that are their own inverse",
    '''
from itertools import permutations
from lib import *

GRAMMAR.update({
    "A": atom(1), "B": atom(2), "D": atom(3),
    "X": ("union", ["A", "B"]), "Y": ("prod", ["A", "B"]), "Z": ("union", ["A", "B", "D"]),
})
for i, p in enumerate(permutations("XYZ")):
    GRAMMAR[f"P{i}"] = ("prod", list(p))
for i in range(6):
    for j in range(6):
        s, t = searcher(C(f"P{i}")).auto_search(), searcher(C(f"P{j}")).auto_search()
        bij = s.get_bijection_to(t)
        expect(bij is not None, "no bijection")
        for n in range(10):
            xs = list(C(f"P{i}").objects_of_size(n))
            try:
                ys = [bij.map(x) for x in xs]
                back = [bij.inverse_map(y) for y in ys]
            except Exception as e:
                expect(False, f"{i} {j} {n}: {e!r}")
            expect(sorted(ys) == sorted(C(f"P{j}").objects_of_size(n)), f"{i} {j} {n}: {ys}")
            expect(back == xs, f"{i} {j} {n}: {back} {xs}")
''',
)

bug(
    "bijection-json-one-partner",
    "C18",
    [("isomorphism.py",
      """            if i1 not in json_map:
                json_map[i1] = {i2: value}
            else:
                json_map[i1][i2] = value
""",
      """            json_map.setdefault(i1, {i2: value})
""")],
    "a class of one specification that is matched with two classes of the other one",
    "only the first partner of a class is dumped, the reloaded bijection cannot map objects through the others",
    '''
import json
from lib import *
from comb_spec_searcher.isomorphism import Bijection

GRAMMAR.update({
    "A": atom(1), "E": EPS,
    "L": ("union", ["E", "AL"]), "AL": ("prod", ["A", "L"]),
    "M": ("union", ["E", "AM"]), "AM": ("prod", ["A", "M"]),
    "P": ("prod", ["A", "L", "L"]), "Q": ("prod", ["A", "L", "M"]),
})
for x, y in (("P", "Q"), ("Q", "P"), ("Q", "Q"), ("P", "P")):
    bij = searcher(C(x)).auto_search().get_bijection_to(searcher(C(y)).auto_search())
    expect(bij is not None, "no bijection")
    new = Bijection.from_dict(json.loads(json.dumps(bij.to_jsonable())))
    for n in range(5):
        for o in C(x).objects_of_size(n):
            try:
                got = new.map(o)
            except Exception as e:
                expect(False, f"{x} {y} {o}: {e!r}")
            expect(got == bij.map(o) and new.inverse_map(got) == o, f"{o}: {got}")
''',
)

bug(
    "expand-shares-path-rules",
    "C19",
    [("specification.py",
      "                    spec_rules.extend(map(copy, rule.rules))\n",
      "                    spec_rules.extend(rule.rules)\n")],
    "the specification contains an equivalence path besides the class that is expanded",
    "the rules inside equivalence paths are shared between the original and the expanded specification",
    '''
from lib import *

GRAMMAR.update({
    "A": atom(1), "E": EPS, "Z": atom(2), "D": atom(3),
    "S": ("same", "T"), "T": ("same", "U"), "U": ("prod", ["A", "V", "W"]),
    "V": ("union", ["E", "Z"]), "W": ("same", "X"), "X": ("union", ["Z", "D"]),
})
pack = make_pack(ver=[Verify(extra=("V",))])


class VerifyV(Verify):
    def pack(self, comb_class):
        if GRAMMAR[comb_class.name][0] == "fin":
            from comb_spec_searcher.exception import InvalidOperationError
            raise InvalidOperationError("nothing simpler")
        return make_pack(ver=[VerifyV()])


spec = searcher(C("S"), make_pack(ver=[VerifyV(extra=("V",))])).auto_search()


def parts(rule):
    yield rule
    for r in getattr(rule, "rules", ()):
        yield from parts(r)
    if hasattr(rule, "original_rule"):
        yield from parts(rule.original_rule)


before = {id(r) for rule in spec for r in parts(rule)}
counts = [spec.count_objects_of_size(n) for n in range(8)]
new = spec.expand_verified()
expect(len(list(new.unexpanded_verified_classes())) == 0, "not expanded")
shared = [r for rule in new for r in parts(rule) if id(r) in before]
expect(not shared, f"shared rules: {shared}")
expect([new.count_objects_of_size(n) for n in range(8)] == counts, "counts")
expect([spec.count_objects_of_size(n) for n in range(8)] == counts, "counts")
''',
)

bug(
    "pickle-without-staging",
    "C17",
    [("class_queue.py",
      """        return self.__class__ == other.__class__ and self.__dict__ == other.__dict__

    @property
    def levels_completed""",
      """        return self.__class__ == other.__class__ and (
            self.__getstate__() == other.__getstate__()
        )

    def __getstate__(self) -> dict:
        # the staged work packets are recomputed from the rest of the state
        return {**self.__dict__, "staging": deque()}

    @property
    def levels_completed""")],
    "pickling the searcher between two work packets of one label (the queue has staged packets)",
    "the staged work packets are lost, the restored searcher skips strategies of a label",
    '''
import pickle
from lib import *

GRAMMAR.update({
    "A": atom(1), "B": atom(2), "D": atom(3), "E": EPS,
    "S": ("union", ["E", "AS", "T"]), "AS": ("prod", ["A", "S"]),
    "T": ("prod", ["B", "U"]), "U": ("union", ["D", "V"]), "V": ("same", "W"), "W": ("prod", ["A", "B"]),
})


def new():
    return searcher(C("S"), make_pack(initial=[Factor(), Split()], expansion=[[Rename()], [Split(), Factor()]]))


def step(css):
    try:
        label, strategies, inferral = next(css.classqueue)
    except StopIteration:
        return None
    css._expand(css.classdb.get_class(label), label, strategies, inferral)
    return label, str(strategies), inferral


total = []
css = new()
while True:
    s = step(css)
    if s is None:
        break
    total.append(s)
for k in range(len(total)):
    css = new()
    for _ in range(k):
        step(css)
    back = pickle.loads(pickle.dumps(css))
    expect(back == css, f"not equal after {k} steps")
    rest = []
    while True:
        s = step(back)
        if s is None:
            break
        rest.append(s)
    expect(rest == total[k:], f"after {k} steps: {rest}, expected {total[k:]}")
''',
)

bug(
    "deadline-loses-packet",
    "C17",
    [("comb_spec_searcher.py",
      """                expansion_time, status_update, status_start, auto_search_start
            )
""",
      """                expansion_time,
                status_update,
                status_start,
                auto_search_start,
                max_expansion_time,
            )
"""),
     ("comb_spec_searcher.py",
      """        auto_search_start: float,
    ) -> Tuple[bool, float]:
""",
      """        auto_search_start: float,
        max_expansion_time: Optional[float] = None,
    ) -> Tuple[bool, float]:
"""),
     ("comb_spec_searcher.py",
      """        for label, strategies, inferral in self.classqueue:
            if label != last_label:
""",
      """        for label, strategies, inferral in self.classqueue:
            if (
                max_expansion_time is not None
                and expansion_time > 0
                and time.time() - auto_search_start > max_expansion_time
            ):
                # do not start on another strategy when the time is up
                break
            if label != last_label:
""")],
    "the time limit strikes in the middle of a round of expansions, and the search is called again",
    "the work packet taken from the queue when the time is up is never worked on, a later call misses its rules",
    '''
from lib import *
import comb_spec_searcher.comb_spec_searcher as module
from comb_spec_searcher.exception import ExceededMaxtimeError, SpecificationNotFound

GRAMMAR.update({"E": EPS, "A": atom(1)})
N = 6
for i in range(N):
    GRAMMAR[f"S{i}"] = ("union", ["E", f"P{i}"])
    GRAMMAR[f"P{i}"] = ("prod", ["A", f"S{i+1}"])
GRAMMAR[f"S{N}"] = ("same", "A")


class Clock:
    now = 0.0

    def time(self):
        Clock.now += 1.0
        return Clock.now


module.time = Clock()
import comb_spec_searcher.utils as utils
for limit in range(5, 120, 3):
    css = searcher(C("S0"), make_pack(ver=[Verify(ignore_parent=False)]))
    spec = None
    for _ in range(200):
        try:
            spec = css.auto_search(max_expansion_time=limit)
            break
        except ExceededMaxtimeError:
            continue
        except SpecificationNotFound:
            expect(False, f"time limit {limit}: the specification is not found")
    expect(spec is not None and [spec.count_objects_of_size(n) for n in range(5)] ==
           [len(list(C("S0").objects_of_size(n))) for n in range(5)], "counts")
''',
)

