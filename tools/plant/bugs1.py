BUGS = []


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


EQUIV_DEMO = '''
import os, random, sys
sys.path.insert(0, os.getcwd())
from comb_spec_searcher.equiv_db import EquivalenceDB

random.seed(3)
for _ in range(3000):
    n = random.randint(2, 5)
    db = EquivalenceDB()
    edges = set()
    marked = set()
    log = []
    for _ in range(random.randint(1, 8)):
        a, b = random.randrange(n), random.randrange(n)
        op = random.choice(["one", "one", "two", "mark", "cycle"])
        log.append((op, a, b))
        if op == "one":
            db.add_one_way_edge(a, b)
            edges.add((a, b))
        elif op == "two":
            db.add_two_way_edge(a, b)
            edges |= {(a, b), (b, a)}
        elif op == "mark":
            db.set_verified(a)
            marked.add(a)
        else:
            db.connect_cycles()
    db.connect_cycles()
    reach = {(a, a) for a in range(n)} | edges
    for k in range(n):
        for i in range(n):
            for j in range(n):
                if (i, k) in reach and (k, j) in reach:
                    reach.add((i, j))
    for i in range(n):
        same = [j for j in range(n) if (i, j) in reach and (j, i) in reach]
        for j in range(n):
            if db.equivalent(i, j) != (j in same):
                sys.exit(f"{log}: equivalent({i}, {j}) = {db.equivalent(i, j)}")
            if j in same:
                path = db.find_path(i, j)
                if path[0] != i or path[-1] != j or any(e not in edges for e in zip(path, path[1:])):
                    sys.exit(f"{log}: path {path} from {i} to {j}")
        if db.is_verified(i) != any(j in marked for j in same):
            sys.exit(f"{log}: is_verified({i}) = {db.is_verified(i)}")
'''

bug(
    "equiv-stale-component",
    "C06",
    [(
        "equiv_db.py",
        """            start = self[start]
            for end in ends:
                end = self[end]
                if start != end:
                    res[start].add(end)
""",
        """            for end in ends:
                end = self[end]
                if self[start] != end:
                    res[start].add(end)
""",
    )],
    "one-way edges leaving a label which is later merged (two-way edge, or an earlier cycle) into a class with another representative, and a cycle that closes through that class",
    "the edges of the merged label are filed under the old label: a cycle through the class is missed",
    EQUIV_DEMO,
)

bug(
    "equiv-path-visited-early",
    "C06",
    [(
        "equiv_db.py",
        """            for new_end in self.vertices[end]:
                if new_end in path:
                    continue
                dequeue.append(path + (new_end,))
            visited.add(path[-1])
        return path
""",
        """            for new_end in self.vertices[end]:
                if new_end in path or not self.equivalent(new_end, path[-1]):
                    continue
                dequeue.append(path + (new_end,))
                if len(self.vertices[new_end]) <= 1:
                    visited.add(new_end)  # leads nowhere but back
            visited.add(path[-1])
        return path
""",
    )],
    "a class held together by one-way edges only: on the way is a label with exactly one outgoing edge, at least two steps from the end",
    "labels with one outgoing edge are treated as dead ends and the explanation path stops short of its end",
    EQUIV_DEMO,
)

QUEUE_DEMO = '''
import os, random, sys
sys.path.insert(0, os.getcwd())
from types import SimpleNamespace
from comb_spec_searcher.class_queue import DefaultQueue

random.seed(5)
for _ in range(4000):
    inf, ini = random.choice([(), ("f",)]), random.choice([(), ("i",), ("i", "j")])
    exp = random.choice([(), (("x",),), (("x",), ("y", "z")), (("x", "y"), ("z",))])
    if not inf + ini + exp:
        continue
    q = DefaultQueue(SimpleNamespace(inferral_strats=inf, initial_strats=ini, expansion_strats=exp))
    added, stopped, notinf, out, log = set(), set(), set(), [], []

    def take():
        try:
            wp = next(q)
        except StopIteration:
            return False
        log.append(wp)
        if wp.label in stopped:
            sys.exit(f"{inf, ini, exp} {log}: stopped label")
        if wp in out:
            sys.exit(f"{inf, ini, exp} {log}: twice")
        out.append(wp)
        return True

    for _ in range(random.randint(1, 9)):
        op, l = random.choice(["add", "add", "next", "next", "stop", "noinf"]), random.randrange(3)
        log.append((op, l))
        try:
            if op == "add":
                q.add(l)
                added.add(l)
            elif op == "next":
                take()
            elif op == "stop":
                q.set_stop_yielding(l)
                stopped.add(l)
            elif op == "noinf":
                q.set_not_inferrable(l)
                notinf.add(l)
        except AssertionError as e:
            sys.exit(f"{inf, ini, exp} {log}: {e}")
    try:
        while take():
            pass
        if take():
            sys.exit("not exhausted")
    except AssertionError as e:
        sys.exit(f"{inf, ini, exp} {log}: {e}")
    for l in added - stopped:
        got = [s for wp in out if wp.label == l for s in wp.strategies]
        rest = list(ini) + [s for xs in exp for s in xs]
        want = [rest, list(inf) + rest] if l in notinf else [list(inf) + rest]
        # an expanded label is stopped by the queue itself
        if got not in want:
            sys.exit(f"{inf, ini, exp} {log}: label {l} got {got}")
'''

bug(
    "queue-working-once",
    "C16",
    [(
        "class_queue.py",
        """        while not self.staging and self.working:
            self.staging.extend(self._iter_helper_working())
        while not self.staging:
""",
        """        if self.working:
            self.staging.extend(self._iter_helper_working())
        while not self.staging:
""",
    )],
    "a label added twice before it is handed out, with more labels waiting behind its second entry",
    "an entry without work makes the queue move on to the expansion level although labels still wait for their inferral/initial work",
    QUEUE_DEMO,
)

bug(
    "queue-expansion-after-initial-only",
    "C16",
    [(
        "class_queue.py",
        """            self.set_not_initial(label)
        self.next_level.update((label,))
""",
        """            self.set_not_initial(label)
            self.next_level.update((label,))
""",
    )],
    "a pack with inferral but without initial strategies",
    "labels which only had inferral work are never handed out for expansion",
    QUEUE_DEMO,
)


bug(
    "classdb-compress-by-hash",
    "C15",
    [(
        "class_db.py",
        """        try:
            return zlib.compress(key.to_bytes(), 9)
        except NotImplementedError:
""",
        """        try:
            if hash(key) not in self._compressed:
                self._compressed[hash(key)] = zlib.compress(key.to_bytes(), 9)
            return self._compressed[hash(key)]
        except NotImplementedError:
""",
    ), (
        "class_db.py",
        """        self.combinatorial_class = combinatorial_class
        self._empty_time = 0.0
""",
        """        self.combinatorial_class = combinatorial_class
        self._compressed: Dict[int, bytes] = {}  # saves compressing twice
        self._empty_time = 0.0
""",
    )],
    "two unequal classes with the same hash, stored compressed (e.g. hash(-1) == hash(-2) in CPython)",
    "unequal classes share a label and get_class returns the wrong one",
    '''
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
from lib import C
from comb_spec_searcher.class_db import ClassDB

class D(C):
    def __hash__(self):
        return hash(self.name)

db = ClassDB(D)
a, b = D("A", (("k", "s"),)), D("A")
assert a != b
assert db.get_label(a) == 0 and db.get_label(b) == 1, "shared label"
assert db.get_class(0) == a and db.get_class(1) == b
''',
)

bug(
    "classdb-empty-shared",
    "C15",
    [(
        "class_db.py",
        """            self.set_empty(label, empty)
        return bool(empty)
""",
        """            self.empty_list[-1 if label >= len(self.empty_list) - 1 else label] = empty
        return bool(empty)
""",
    )],
    "is_empty() of a class adds further classes to the database (or is evaluated while the database grows)",
    "the answer is cached for the newest label instead of the one asked about",
    '''
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import C, GRAMMAR, EMPTY, atom
from comb_spec_searcher.class_db import ClassDB

GRAMMAR.update(A=atom(), E=EMPTY)
db = ClassDB(C)

class Asking(C):
    pass

def is_empty(self):
    # looks at another class of the same database
    db.get_label(C("A"))
    return self.name == "E"

C.is_empty = is_empty
e = C("E")
label = db.get_label(e)
assert db.is_empty(e, label)
a = C("A")
assert not db.is_empty(a, db.get_label(a)), "wrong cached emptiness"
''',
)
BUGS.pop()

TREE_DEMO_COMMON = '''
import itertools, os, random, sys
sys.path.insert(0, os.getcwd())
from collections import defaultdict
from comb_spec_searcher import tree_searcher as ts


def universe(rng, n, m):
    d = {i: set() for i in range(n)}
    for _ in range(m):
        ends = tuple(sorted(rng.randrange(n) for _ in range(rng.randint(0, 3))))
        d[rng.randrange(n)].add(ends)
    return {k: v for k, v in d.items() if v}


def check_tree(d, root, tree):
    """Only recorded rules, one rule for each label, no label without a rule."""
    assert tree.label == root
    rules = {}
    labels = set()
    for node in tree.nodes():
        labels.add(node.label)
        ends = tuple(sorted(c.label for c in node.children))
        if node.children:
            if rules.setdefault(node.label, ends) != ends:
                return f"two rules for {node.label}"
            if ends not in d[node.label]:
                return f"no rule {node.label} -> {ends}"
    for l in labels:
        if l not in rules and () not in d.get(l, ()):
            return f"no rule for {l}"
    return None


def smallest(d, root):
    """Size of the smallest proof tree: choose a rule for each label."""
    best = None
    labels = sorted(d)
    for choice in itertools.product(*(sorted(d[l]) for l in labels)):
        ch = dict(zip(labels, choice))
        size, stack, seen = 0, [root], set()
        while stack:
            l = stack.pop()
            size += 1
            if l in seen:
                continue
            seen.add(l)
            stack.extend(ch[l])
        best = size if best is None else min(best, size)
    return best
'''

bug(
    "dfs-maximum-tight",
    "C05",
    [(
        "tree_searcher.py",
        "                new_maximum = maximum - length if maximum is not None else None\n",
        "                new_maximum = maximum - length - 1 if maximum is not None else None\n",
    )],
    "a bound within one of the smallest tree, with a rule of two or more children whose first child's tree is as large as the bound allows",
    "the bounded search discards trees that fit the bound: 'smallest' returns a larger tree",
    TREE_DEMO_COMMON + '''
rng = random.Random(1)
for _ in range(2000):
    d = universe(rng, rng.randint(1, 4), rng.randint(1, 7))
    ts.prune(d)
    for root in d:
        want = smallest(d, root)
        trees = list(itertools.islice(ts.proof_tree_generator_dfs(d, root, maximum=want), 50))
        if min(map(len, trees), default=None) != want:
            sys.exit(f"{d} {root}: smallest {want}, found {[len(t) for t in trees]}")
''',
)

bug(
    "iterative-tree-overwritten",
    "C05",
    [(
        "tree_searcher.py",
        """        if start in trees:
            return
        root = Node(start)
""",
        """        root = Node(start)
""",
    )],
    "an iterative pack where a class verified early gets a second rule later, after another class has used it",
    "the iterative finder returns trees in which one class has two different rules",
    TREE_DEMO_COMMON + '''
rng = random.Random(2)
for _ in range(20000):
    d = universe(rng, rng.randint(2, 5), rng.randint(2, 9))
    for root in list(d):
        pruned = ts.iterative_prune(d, root=root)
        if root not in pruned:
            continue
        tree = ts.iterative_proof_tree_finder(pruned, root)
        labels, stack, seen = {}, [tree], 0
        while stack:
            node = stack.pop()
            seen += 1
            if seen > 5000:
                sys.exit(f"{d} {root}: endless tree")
            ends = tuple(sorted(c.label for c in node.children))
            if not (node.label == root and not ends):
                if labels.setdefault(node.label, ends) != ends:
                    sys.exit(f"{d} {root}: two rules for {node.label}")
            stack.extend(node.children)
''',
)

bug(
    "random-tree-seen-when-queued",
    "C05",
    [(
        "tree_searcher.py",
        """        if not (v.label in seen or rule == ()):
            children = [Node(i) for i in rule]
            shuffle(children)
            queue.extend(children)
            v.children = children
        seen.add(v.label)
""",
        """        seen.add(v.label)
        if rule != ():
            children = [Node(i) for i in rule]
            shuffle(children)
            queue.extend(child for child in children if child.label not in seen)
            v.children = children
""",
    )],
    "a label waiting in the queue twice which has two or more rules",
    "both occurrences are expanded, possibly with different rules: the tree gives a class two rules",
    TREE_DEMO_COMMON + '''
random.seed(4)
rng = random.Random(3)
for _ in range(4000):
    d = universe(rng, rng.randint(2, 4), rng.randint(2, 9))
    ts.prune(d)
    for root in d:
        for _ in range(3):
            msg = check_tree(d, root, ts.random_proof_tree(d, root))
            if msg:
                sys.exit(f"{d} {root}: {msg}")
''',
)

TABLE_DEMO = '''
import os, random, sys
sys.path.insert(0, os.getcwd())
from comb_spec_searcher.rule_db.forest import TableMethod
from comb_spec_searcher.typing import ForestRuleKey, RuleBucket

TOP = 60


def lfp(rules, n):
    """Number of computable terms, by rounds; a class beyond TOP is infinite."""
    f = [0] * n
    while True:
        changed = False
        for p, cs, ss in rules:
            v = min([f[c] + s for c, s in zip(cs, ss)], default=TOP)
            v = min(v, TOP)
            if v > f[p]:
                f[p] = min(f[p] + 1, v)
                changed = True
        if not changed:
            return f


rng = random.Random(7)
for _ in range(6000):
    n = rng.randint(2, 4)
    rules, tm = [], TableMethod()
    for _ in range(rng.randint(1, 6)):
        cs = tuple(rng.randrange(n) for _ in range(rng.randint(0, 2)))
        rule = (rng.randrange(n), cs, tuple(rng.randint(-3, 3) for _ in cs))
        rules.append(rule)
        try:
            tm.add_rule_key(ForestRuleKey(*rule, RuleBucket.NORMAL))
        except AssertionError:
            sys.exit(f"{rules}: assertion")
        want = lfp(rules, n)
        got = tm.function
        for i in range(n):
            g = got.get(i, 0)
            if (g is None) != (want[i] > 40) or (g is not None and g != want[i]):
                sys.exit(f"{rules}: {i} -> {g}, should be {want[i]}")
'''




bug(
    "reverse-sibling-shift",
    "C10",
    [(
        "strategies/rule.py",
        """            s + pshift
            for s in""",
        """            s
            for s in""",
    )],
    "a reverse rule of a product with three or more factors, or whose counted child is not the only one with positive minimum size",
    "the shifts declared for the siblings are too large: the reverse rule reads their terms beyond what it declares and cycles are accepted as productive",
    '''
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *
from collections import Counter

GRAMMAR.update(a=atom(1), B=fin({1: 1, 2: 2, 3: 1}), D=fin({2: 1, 3: 1, 4: 2}), P=("prod", ("a", "B", "D")))
rule = Factor()(C("P"))
for idx in range(3):
    rev = rule.to_reverse_rule(idx)
    shifts = rev.shifts()
    for n in range(0, 7):
        asked = [[] for _ in rev.children]

        def term(i, child):
            def get(k):
                asked[i].append(k)
                return Counter(child.truth(k))
            return get

        rev.constructor.get_terms(
            lambda k: Counter(rev.comb_class.truth(k)),
            tuple(term(i, c) for i, c in enumerate(rev.children)),
            n,
        )
        for i, ks in enumerate(asked):
            expect(all(k <= n - shifts[i] for k in ks), (idx, n, i, ks, shifts))
''',
)

bug(
    "quotient-sibling-maps",
    "C09",
    [(
        "strategies/constructor/cartesian.py",
        "                (m for i, m in enumerate(self._children_param_maps) if i != self.idx),\n",
        "                self._children_param_maps[-(self.number_of_children - 1) :],\n",
    )],
    "the reverse of a product for a child that is not the first, with statistics the siblings rename differently and siblings that carry them at their minimum size",
    "the statistics of the siblings are read with the parameter map of the wrong child",
    '''
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *
from collections import Counter

# P tracks k and l; B only the second
GRAMMAR.update(
    B=("fin", {1: [("*", {"t": 1})]}),
    D=("fin", {1: [("u", {"s": 1}), ("v", {"t": 1})], 2: [("w", {"s": 2})]}),
    P=("prod", ("B", "D")),
    Q=("prod", ("D", "B")),
)
RENAME.update(B={"l": "m"})
for name in "PQ":
    rule = Factor()(C(name, (("k", "s"), ("l", "t"))))
    for idx in range(2):
        rev = rule.to_reverse_rule(idx)
        for n in range(5):
            try:
                got = rev.constructor.get_terms(
                    lambda k: Counter(rev.comb_class.truth(k)),
                    tuple((lambda c: lambda k: Counter(c.truth(k)))(c) for c in rev.children),
                    n,
                )
            except AssertionError:
                expect(False, (name, idx, n, "assertion"))
            expect(same_terms(got, rev.comb_class.truth(n)), (name, idx, n, got))
''',
)

bug(
    "equivalence-form-first-map",
    "C09",
    [(
        "strategies/rule.py",
        "                    (original_constructor.extra_parameters[self.child_idx],),\n",
        "                    original_constructor.extra_parameters[:1],\n",
    )],
    "a union with an empty first child whose parameter map differs from that of the non-empty child",
    "the equivalence form counts with the parameter map of the wrong child",
    '''
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *
from collections import Counter

GRAMMAR.update(
    N=EMPTY,
    B=("fin", {1: [("*", {"s": 1})], 2: [("u", {}), ("v", {"s": 2, "t": 1})]}),
    U=("union", ("N", "B")),
)
RENAME.update(B={"k": "l", "l": "k"})
rule = Split()(C("U", (("k", "s"), ("l", "t")))).to_equivalence_rule()
for n in range(4):
    got = rule.constructor.get_terms(None, tuple((lambda c: lambda k: Counter(c.truth(k)))(c) for c in rule.children), n)
    expect(same_terms(got, rule.comb_class.truth(n)), (n, got))
''',
)

bug(
    "path-keeps-dropped-statistic",
    "C09",
    [(
        "strategies/rule.py",
        """                extra_parameters = {
                    parent_var: rules_parameters[child_var]
                    for parent_var, child_var in extra_parameters.items()
                    if child_var in rules_parameters
                }
""",
        """                extra_parameters = {
                    parent_var: rules_parameters.get(child_var, child_var)
                    for parent_var, child_var in extra_parameters.items()
                }
""",
    )],
    "a chain of equivalences in which one class does not track a statistic of its parent (it is always zero) while the last class uses the same name for another one",
    "the path rule maps the dropped statistic onto the unrelated statistic of the same name",
    '''
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *
from collections import Counter
from comb_spec_searcher.strategies.rule import EquivalencePathRule

# A tracks k=s (always 0) and l=t; B tracks l=t as m; D tracks it as k
GRAMMAR.update(
    D=("fin", {1: [("*", {"t": 1})], 2: [("u", {}), ("v", {"t": 2})]}),
    B=("same", "D"),
    A=("same", "B"),
)
RENAME.update(B={"l": "m"}, D={"m": "k"})
r1 = Rename()(C("A", (("k", "s"), ("l", "t"))))
r2 = Rename()(r1.children[0])
path = EquivalencePathRule([r1, r2])
child = r2.children[0]
expect(child.extra_parameters == ("k",))
for n in range(4):
    try:
        got = path.constructor.get_terms(None, (lambda k: Counter(child.truth(k)),), n)
    except AssertionError:
        expect(False, "assertion")
    expect(same_terms(got, path.comb_class.truth(n)), (n, got))
''',
)

SAMPLE_DEMO = '''
import os, sys, random
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *
from collections import Counter
import comb_spec_searcher.strategies.constructor.disjoint as dj
import comb_spec_searcher.strategies.constructor.cartesian as ca


def exact(rule, n, **params):
    """Weight of every choice of the constructor, over all outcomes of randint."""
    total = rule.comb_class.truth(n).get(tuple(params[k] for k in rule.comb_class.extra_parameters), 0)
    res = Counter()
    for r in range(1, total + 1):
        dj.randint = lambda a, b, r=r: r
        random.randint = lambda a, b, r=r: r
        rule.set_subrecs(lambda c: Fake(c))
        sub = rule.constructor.random_sample_sub_objects(
            total, rule.subsamplers, rule.subrecs, n, **params
        )
        res[sub] += 1
    return res


class Fake:
    def __init__(self, c):
        self.c = c
    def count_objects_of_size(self, n, **params):
        return self.c.truth(n).get(tuple(params[k] for k in self.c.extra_parameters), 0)
    def random_sample_object_of_size(self, n, **params):
        return (self.c.name, n, tuple(params[k] for k in self.c.extra_parameters))
    def get_objects(self, n):
        return self.c.by_stats(n)
    def get_terms(self, n):
        return Counter(self.c.truth(n))


def check(rule, sizes=range(5)):
    """Every composition is chosen with the number of objects it accounts for."""
    pc = rule.comb_class
    for n in sizes:
        for v, objs in pc.by_stats(n).items():
            want = Counter()
            for o in objs:
                parts = rule.forward_map(o)
                key = tuple(
                    None if p is None else (
                        c.name,
                        size(c, p),
                        stats(c, p),
                    )
                    for c, p in zip(rule.children, parts)
                )
                want[key] += 1
            try:
                got = exact(rule, n, **dict(zip(pc.extra_parameters, v)))
            except RuntimeError as e:
                sys.exit(f"{rule} {n} {v}: {e}")
            if got != want:
                sys.exit(f"{rule} {n} {v}: {got}, should be {want}")


def size(c, o):
    return next(n for n in range(8) if any(o in os_ for os_ in c.by_stats(n).values()))


def stats(c, o):
    return next(v for n in range(8) for v, os_ in c.by_stats(n).items() if o in os_)
'''

bug(
    "union-sample-duplicate-statistic",
    "C08",
    [(
        "strategies/constructor/disjoint.py",
        """                if child_var not in update_params:
                    update_params[child_var] = updated_value
                elif update_params[child_var] != updated_value:
                    break
""",
        """                if update_params.get(child_var, updated_value) < updated_value:
                    break
                update_params[child_var] = updated_value
""",
    )],
    "two statistics of the parent that agree on one child (mapped to one statistic there) and differ on a sibling, the first larger than the second",
    "that child is asked for objects although none of them has the two different values: sampling is not uniform",
    SAMPLE_DEMO + '''
GRAMMAR.update(
    B=("fin", {1: [("b", {"s": 1, "t": 1})], 2: [("c", {"s": 1, "t": 1}), ("d", {})]}),
    D=("fin", {1: [("e", {"s": 1})], 2: [("f", {"s": 2, "t": 1}), ("g", {"t": 1}), ("h", {"s": 1})]}),
    U=("union", ("B", "D")),
)
RENAME.update(B={"k": "m", "l": "m"})
C_child = child


class Two(Split):
    def decomposition_function(self, c):
        return (C("B", (("m", "s"),)), C("D", (("k", "s"), ("l", "t"))))


check(Two()(C("U", (("k", "s"), ("l", "t")))))
''',
)

bug(
    "union-sample-untracked",
    "C08",
    [(
        "strategies/constructor/disjoint.py",
        "                val != 0 and k in self.zeroes[idx] for k, val in parameters.items()\n",
        "                val > 1 and k in self.zeroes[idx] for k, val in parameters.items()\n",
    )],
    "a child that does not track a statistic (it is zero there) with objects at the same size and remaining statistics, sampled at the value 1 of that statistic",
    "objects of the child are counted although their value is 0: sampling at value 1 is not uniform",
    SAMPLE_DEMO + '''
GRAMMAR.update(
    B=("fin", {1: [("b", {})], 2: [("c", {}), ("d", {})]}),
    D=("fin", {1: [("e", {"s": 1})], 2: [("f", {"s": 2}), ("g", {"s": 1}), ("h", {"s": 1})]}),
    U=("union", ("B", "D")),
)
RENAME.update(B={})
check(Split()(C("U", (("k", "s"),))))
''',
)

bug(
    "product-sample-zero-statistic",
    "C08",
    [(
        "strategies/constructor/cartesian.py",
        "                        max(minmax[k][0], parameters[k] - max_available[k]),\n",
        "                        max(minmax[k][0], parameters[k] - max_available[k], len(minmaxes) - 2),\n",
    )],
    "a product of three or more factors whose first factor may have size or statistic 0",
    "compositions with a small first part are skipped",
    SAMPLE_DEMO + '''
GRAMMAR.update(
    B=fin({0: 1, 1: 2, 2: 1}),
    D=fin({0: 1, 1: 1, 3: 2}),
    F=fin({0: 2, 1: 1}),
    P=("prod", ("B", "D", "F")),
)
check(Factor()(C("P")))
''',
)


bug(
    "reverse-map-first-part",
    "C07",
    [(
        "strategies/rule.py",
        "        res = self.original_rule.forward_map(objs[0])[self.idx]\n",
        "        res = next(filter(None, self.original_rule.forward_map(objs[0])), None)\n",
    )],
    "an equivalence that came from a reversed union or product whose objects include a falsy one (e.g. the empty word)",
    "mapping back an object that is falsy in Python fails",
    '''
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *


class Plain(Rename):
    def forward_map(self, comb_class, obj, children=None):
        return ("" if obj == "A-empty" else obj,)

    def backward_map(self, comb_class, objs, children=None):
        yield "A-empty" if objs[0] == "" else objs[0]


GRAMMAR.update(B=fin({0: 1, 1: 1}), A=("same", "B"))
rev = Plain()(C("A")).to_reverse_rule(0)
for obj in ["", "x"]:
    try:
        there = rev.forward_map(obj)
        back = list(rev.backward_map(there))
    except AssertionError:
        expect(False, (obj, "assertion"))
    expect(back == [obj], (obj, there, back))
''',
)

bug(
    "recompute-one-way-as-equivalence",
    "C14",
    [(
        "rule_db/forget.py",
        """                        if self.only_equiv and not rule.is_two_way():
                            continue
                        return rule.strategy
""",
        """                        return rule.strategy
""",
    )],
    "two strategies of the pack giving the same unary rule, the first of them only one way",
    "the memory-saving database hands back the one-way strategy for a two-way rule",
    '''
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *
from comb_spec_searcher.rule_db import RuleDB
from comb_spec_searcher.rule_db.forget import RuleDBForgetStrategy

GRAMMAR.update(B=fin({1: 1, 2: 2}), A=("same", "B"))
for db in (RuleDB(), RuleDBForgetStrategy()):
    pack = make_pack(expansion=[[OneWayRename()], [Rename()]], ver=[Verify()])
    css = searcher(C("A"), pack, ruledb=db)
    css.auto_search()
    while True:
        try:
            css.do_level()
        except Exception:
            break
    keys = set(css.ruledb.eqv_rule_to_strategy)
    expect(keys, "no equivalence")
    for key in keys:
        strat = css.ruledb.eqv_rule_to_strategy[key]
        expect(strat.is_two_way(css.classdb.get_class(key[0])), (type(db), key, strat))
''',
)


bug(
    "labels-of-factory-rules",
    "C04",
    [(
        "comb_spec_searcher.py",
        """            if rule.comb_class == comb_class:
                start_label = label
            else:
                start_label = self.classdb.get_label(rule.comb_class)
""",
        """            if comb_class not in children:
                start_label = label
            else:
                start_label = self.classdb.get_label(rule.comb_class)
""",
    )],
    "a factory that, applied to a class, yields a rule whose parent is another class and that does not have the expanded class among its children",
    "the rule is recorded with the label of the expanded class as its parent",
    '''
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *
from comb_spec_searcher.rule_db import RuleDB


class Relatives(StrategyFactory):
    """Expanding A gives the rule of its sibling."""
    def __call__(self, comb_class):
        if comb_class.name == "A":
            yield Split()(C("Z"))

    def __str__(self):
        return "relatives"

    def __repr__(self):
        return "Relatives()"

    @classmethod
    def from_dict(cls, d):
        return cls()


GRAMMAR.update(
    a=atom(), b=fin({2: 1}), c=fin({3: 2}), A=("union", ("a", "b")), Z=("union", ("b", "c")),
)
css = searcher(C("A"), make_pack(initial=[Relatives()]))
try:
    while True:
        css.do_level()
except Exception:
    pass
for start, ends in css.ruledb:
    parent = css.classdb.get_class(start)
    strat = {**css.ruledb.rule_to_strategy, **css.ruledb.eqv_rule_to_strategy}[(start, ends)]
    want = tuple(sorted(css.classdb.get_label(c) for c in strat(parent).children))
    expect(want == ends, (parent, ends, want))
''',
)

bug(
    "empties-dropped-always",
    "C04",
    [(
        "rule_db/base.py",
        "            if rule.possibly_empty and self.classdb.is_empty(comb_class, child_label):\n",
        "            if self.classdb.is_empty(comb_class, child_label):\n",
    ), (
        "comb_spec_searcher.py",
        """            if not rule.possibly_empty:
                self.classdb.set_empty(child_label, empty=False)
""",
        "",
    )],
    "a strategy that declares its children are never empty but has an empty child",
    "children are dropped from rules of strategies that did not declare them possibly empty",
    '''
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *


class Sure(Split):
    def __init__(self, **kw):
        super().__init__(possibly_empty=False, **{k: v for k, v in kw.items() if k == "only"})


GRAMMAR.update(a=atom(), b=fin({2: 1}), N=EMPTY, A=("union", ("a", "b", "N")))
css = searcher(C("A"), make_pack(expansion=[[Sure()]]))
try:
    while True:
        css.do_level()
except Exception:
    pass
keys = [k for k in css.ruledb if k[0] == 0]
expect(any(len(ends) == 3 for _, ends in keys), keys)
''',
)
