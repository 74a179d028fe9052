"""C05: pruning-based detection and proof-tree search are exact."""
from itertools import product

from symex import env
from symex.engine import SymInt
from symex.run import Harness
from symex.toys import GeneralStrategy, PlainClass, PlainVerification

from comb_spec_searcher import tree_searcher as ts
from comb_spec_searcher.rule_db import RuleDB
from comb_spec_searcher.strategies.strategy_pack import StrategyPack

BUDGET = {"quick": 90, "thorough": 600}

ASSUMPTIONS = [
    "labels are arbitrary pairwise distinct integers; they stay symbolic (only order and equality matter)",
    "(in the harnesses of the random finders: the labels 0..L-1 or L-1..0, because set iteration order matters)",
    "random.choice/shuffle are replaced by all their outcomes, the clock by a counter",
    "no rule start -> (start,) is inserted (the searcher filters self-equivalences)",
    "number of labels, rules and the arity bounded as stated",
    "iterative_proof_tree_bfs is not called by the library (and need not terminate); it is not covered",
]


# ---------------------------------------------------------------- reference
def gfp(rules):
    """Greatest fixed point: labels having a rule all whose children survive."""
    alive = {p for p, _ in rules}
    while True:
        new = {p for p, ch in rules if p in alive and all(c in alive for c in ch)}
        if new == alive:
            return alive
        alive = new


def lfp(rules, root):
    """Bottom-up derivable labels when the root may be used."""
    got = set()
    while True:
        new = {p for p, ch in rules if all(c in got or c == root for c in ch)}
        if new <= got:
            return got
        got |= new


def min_size(rules, root):
    """Minimum of 1 + sum of arities over all choice functions closed from root."""
    byp = {}
    for p, ch in rules:
        byp.setdefault(p, set()).add(ch)
    best = [None]

    def go(todo, chosen, size):
        if best[0] is not None and size >= best[0]:
            return
        while todo and todo[-1] in chosen:
            todo = todo[:-1]
        if not todo:
            best[0] = size
            return
        l = todo[-1]
        for ch in byp.get(l, ()):
            go(todo[:-1] + list(ch), {**chosen, l: ch}, size + len(ch))

    go([root], {}, 1)
    return best[0]


def idx(lab, label):
    for i, l in enumerate(lab):
        if l is label or bool(l == label):
            return i
    raise AssertionError(f"unknown label {label}")


def check_tree(E, node, root, rules, lab, what, rep=None, iterative=False):
    """
    A proof tree: rooted at root, only recorded rules, one rule per class, no
    class without a rule; for iterative: recursion only to the root.
    """
    rs = set(rules)
    rule_of = {}
    leaves = []
    conv = lambda l: idx(lab, l) if rep is None else rep[idx(lab, l)]

    def walk(n, above):
        l = conv(n.label)
        if n.children:
            ch = tuple(sorted(conv(c.label) for c in n.children))
            E.check((l, ch) in rs, f"{what}: {l}->{ch} is not a recorded rule ({rules})")
            E.check(rule_of.setdefault(l, ch) == ch, f"{what}: two rules for {l}: {ch} {rule_of[l]}, tree {node}")
            if iterative:
                E.check(l not in above, f"{what}: {l} recurses to itself")
            for c in n.children:
                walk(c, above | {l})
        else:
            leaves.append(l)

    walk(node, frozenset())
    E.check(conv(node.label) == root, f"{what}: rooted at {node.label}")
    for l in leaves:
        if l not in rule_of:
            E.check((l, ()) in rs, f"{what}: {l} has no rule in the tree {node}, rules {rules}")
            rule_of[l] = ()
        if iterative:
            E.check(l == root or (l, ()) in rs or True, "")
    return rule_of


def pool(E, L, relational=True):
    if not relational:
        # set iteration order matters for the random finders: concrete labels
        return E.choose("labels", [list(range(L)), list(range(L))[::-1]])
    lab = [E.int(f"label{i}") for i in range(L)]
    for i in range(L):
        for j in range(i):
            E.assume(lab[i] != lab[j])
    return lab


def pick_rules(E, R, L, A, first_root=True):
    rules = []
    used = 1 if first_root else 0

    def pick(name):
        nonlocal used
        i = int(E.int(name, 0, min(used, L - 1)))
        used = max(used, i + 1)
        return i

    for k in range(R):
        p = pick(f"p{k}")
        a = int(E.int(f"k{k}", 0, A))
        ch = []
        for j in range(a):
            ch.append(pick(f"c{k}_{j}"))
        rules.append((p, tuple(sorted(ch))))
    return rules


def to_dict(rules, lab):
    from collections import defaultdict

    d = defaultdict(set)
    for p, ch in rules:
        d[lab[p]].add(tuple(sorted(lab[c] for c in ch)))
    return d


def h_prune(E, R, L, A):
    lab = pool(E, L)
    rules = pick_rules(E, R, L, A, first_root=False)
    rd = to_dict(rules, lab)
    if bool(E.bool("norules")):
        rd[lab[L - 1]]  # a label with an empty set of rules
    root = int(E.int("root", 0, L - 1))
    it = ts.iterative_prune(rd, lab[root])
    want = lfp(rules, root)
    E.check({idx(lab, k) for k in it if it[k]} == want and all(it.values()),
            f"iterative_prune of {rules} root {root}")
    for k, v in it.items():
        for ch in v:
            E.check((idx(lab, k), tuple(sorted(idx(lab, c) for c in ch))) in rules, "iterative_prune invents a rule")
    ts.prune(rd)
    alive = gfp(rules)
    E.check({idx(lab, k) for k in rd} == alive, f"prune of {rules}: {dict(rd)}")
    if alive:
        E.cover("survivors")
    if want - {root}:
        E.cover("iteratively derivable")
    got = {(idx(lab, k), tuple(sorted(idx(lab, c) for c in ch))) for k, v in rd.items() for ch in v}
    E.check(got == {r for r in set(rules) if r[0] in alive and all(c in alive for c in r[1])},
            f"prune of {rules} keeps {got}")
    if root in want:
        node = ts.iterative_proof_tree_finder(it, lab[root])
        check_tree(E, node, root, rules, lab, "iterative finder", iterative=True)
        E.cover("iterative tree")
    E.feasible()


# beginnings of rule sequences: classes needed twice at once, at different depths,
# by each other
GIVEN = (
    ((0, (1, 1)), (2, ())),
    ((0, (1, 2)), (2, (1,)), (1, (2, 2))),
    ((0, (1, 2)), (1, (2,)), (2, ())),
    ((0, (1, 1)), (1, (0, 2)), (2, ())),
    ((0, (0, 1)), (1, (2,)), (0, (1, 1)), (2, ())),
)


def h_finders(E, R, L, A, finder, generator_limit=60, given=False):
    lab = pool(E, L, finder in ("dfs", "bfs"))
    rules = []
    if given:
        rules = list(E.choose("given", GIVEN))
        for k in range(R):
            rules.append((int(E.int(f"p{k}", 0, L - 1)), tuple(sorted(
                int(E.int(f"c{k}_{j}", 0, L - 1)) for j in range(int(E.int(f"k{k}", 0, A)))))))
    else:
        rules = pick_rules(E, R, L, A)
    rules = list(dict.fromkeys(rules))
    alive = gfp(rules)
    E.assume(0 in alive)
    rd = to_dict(rules, lab)
    ts.prune(rd)
    rules = [r for r in rules if r[0] in alive and all(c in alive for c in r[1])]
    E.cover("tree exists")
    if finder == "random":
        node = ts.random_proof_tree(rd, lab[0])
        check_tree(E, node, 0, rules, lab, "random_proof_tree")
    elif finder == "proof_tree_dfs":
        seen, node = ts.proof_tree_dfs(rd, lab[0])
        check_tree(E, node, 0, rules, lab, "proof_tree_dfs")
    elif finder == "smallish":
        ticks = iter(range(10**6))
        env.CLOCK.hook = lambda: next(ticks)
        node = ts.smallish_random_proof_tree(rd, lab[0], 3)
        env.CLOCK.hook = None
        check_tree(E, node, 0, rules, lab, "smallish")
    elif finder in ("dfs", "bfs"):
        gen = ts.proof_tree_generator_dfs if finder == "dfs" else ts.proof_tree_generator_bfs
        sizes = []
        for n, node in enumerate(gen(rd, lab[0])):
            check_tree(E, node, 0, rules, lab, f"generator {finder}")
            sizes.append(len(node))
            if n > generator_limit:
                break
        E.check(sizes, f"generator {finder} yields nothing although {rules} has a proof tree")
        if finder == "dfs":
            m = min_size(rules, 0)
            if len(sizes) <= generator_limit:
                E.check(min(sizes) == m, f"smallest generated tree {min(sizes)}, smallest tree {m}")
            for bound in range(1, max(sizes) + 1):
                got = next(gen(rd, lab[0], maximum=bound), None)
                E.check((got is not None) == (m <= bound),
                        f"bounded search: maximum {bound}, smallest tree {m}, rules {rules}: {got}")
                if got is not None:
                    E.check(len(got) <= bound, "bounded search exceeds its bound")
                    check_tree(E, got, 0, rules, lab, "bounded dfs")
            if m > 2:
                E.cover("nontrivial minimum")
    E.feasible()


# ------------------------------------------------------------ the database
class StubQueue:
    def set_stop_yielding(self, label):
        pass


class StubSearcher:
    def __init__(self, start_label, pack):
        self.start_label = start_label
        self.strategy_pack = pack
        self.classqueue = StubQueue()
        self.classdb = None


def h_ruledb(E, R, L, A, iterative, final, kinds):
    lab = pool(E, L, iterative)
    pack = StrategyPack(initial_strats=[], inferral_strats=[], expansion_strats=[],
                        ver_strats=[], name="toy", iterative=iterative)
    classes = [PlainClass(i) for i in range(L)]
    used = 1

    def pick(name):
        nonlocal used
        i = int(E.int(name, 0, min(used, L - 1)))
        used = max(used, i + 1)
        return i

    db = RuleDB()
    db.link_searcher(StubSearcher(lab[0], pack))
    edges, recorded = [], []
    for k in range(R):
        kind = E.choose(f"kind{k}", kinds)
        p = pick(f"p{k}")
        if kind == "ver":
            rule = PlainVerification()(classes[p])
            ch = ()
        elif kind in ("two", "one"):
            c = pick(f"c{k}_0")
            E.assume(c != p)
            rule = GeneralStrategy((classes[c],), kind == "two", k)(classes[p])
            ch = (c,)
            edges.append((p, c))
            if kind == "two":
                edges.append((c, p))
        else:
            ch = tuple(pick(f"c{k}_{j}") for j in range(A))
            rule = GeneralStrategy(tuple(classes[c] for c in ch), True, k)(classes[p])
        recorded.append((p, tuple(sorted(ch))))
        db.add(lab[p], tuple(lab[c] for c in ch), rule)
        # reference
        reach = [[i == j for j in range(L)] for i in range(L)]
        for a, b in edges:
            reach[a][b] = True
        for m in range(L):
            for i in range(L):
                for j in range(L):
                    reach[i][j] |= reach[i][m] and reach[m][j]
        rep = [min(j for j in range(L) if reach[i][j] and reach[j][i]) for i in range(L)]
        rules = sorted({
            (rep[q], tuple(sorted(rep[c] for c in cs))) for q, cs in recorded
            if not (len(cs) == 1 and rep[q] == rep[cs[0]])
        })
        want = (rep[0] in lfp(rules, rep[0])) if iterative else (rep[0] in gfp(rules))
        last = k == R - 1
        if not last and final == "last" and not bool(E.bool(f"ask{k}")):
            continue
        got = db.has_specification()
        E.check(bool(got) == want,
                f"has_specification is {got}, rules {recorded}, edges {edges}, iterative {iterative}")
        if want:
            E.cover("has specification")
            if rep.count(rep[0]) > 1:
                E.cover("start class in a bigger equivalence class")
        if not want or not last:
            continue
        ticks = iter(range(10**6))
        env.CLOCK.hook = lambda: next(ticks)
        if not hasattr(db, "_get_specification_node"):
            E.cover("iterative node" if iterative else "smallest node")
        elif iterative:
            node = db._get_specification_node(1, False)
            check_tree(E, node, rep[0], rules, lab, "iterative node", rep, iterative=True)
            E.cover("iterative node")
        else:
            if bool(E.bool("smallest")):
                node = db._get_specification_node(1, True)
                check_tree(E, node, rep[0], rules, lab, "smallest node", rep)
                m = min_size([r for r in rules], rep[0])
                alive = gfp(rules)
                m = min_size([r for r in rules if r[0] in alive and all(c in alive for c in r[1])], rep[0])
                E.check(len(node) == m, f"smallest tree has size {len(node)}, minimum is {m}: {rules}")
                E.cover("smallest node")
            else:
                node = db._get_specification_node(1, False)
                check_tree(E, node, rep[0], rules, lab, "smallish node", rep)
        env.CLOCK.hook = None
    E.feasible()


def harnesses(tier):
    n = 0 if tier == "quick" else 1
    res = [
        Harness("prune-small", h_prune, "3 rules over 2 labels, arity<=2, any root",
                params=dict(R=3, L=2, A=2), relational=True, weight=6,
                covers=("survivors", "iteratively derivable", "iterative tree"), replay_every=3),
        Harness("prune", h_prune, f"{4+n} rules over 3 labels, arity<=2, any root",
                params=dict(R=4 + n, L=3, A=2), relational=True, weight=2,
                covers=("survivors", "iteratively derivable", "iterative tree"), replay_every=3),
        Harness("prune-4-labels", h_prune, f"{5+n} rules over 4 labels, arity<=2, any root",
                params=dict(R=5 + n, L=4, A=2), relational=True, weight=1.5, replay_every=3),
    ]
    res.append(Harness("prune-8-rules", h_prune, f"{8+n} rules over 6 labels, arity<=3, any root",
                       params=dict(R=8 + n, L=6, A=3), relational=True, weight=1, replay_every=3))
    for f, R, L, w in (("dfs", 8, 6, 1), ("random", 6, 5, 0.7),
                       ("random", 4, 3, 1), ("proof_tree_dfs", 4, 3, 1), ("smallish", 3, 3, 0.7),
                       ("dfs", 5, 3, 1.5), ("bfs", 4, 3, 1), ("dfs", 7, 4, 1), ("bfs", 6, 4, 0.7)):
        res.append(Harness(f"finder-{f}-{L}", h_finders, f"{R+n} rules over {L} labels, arity<=2, all random outcomes",
                           params=dict(R=R + n, L=L, A=2, finder=f), relational=f in ("dfs", "bfs"), weight=w,
                           covers=("tree exists",), replay_every=3))
    for f in ("random", "proof_tree_dfs", "smallish", "dfs", "bfs"):
        res.append(Harness(f"finder-{f}-given", h_finders, f"2 rules of arity <= 2 over 3 labels added to each of {len(GIVEN)} "
                           "beginnings with classes needed several times, all random outcomes",
                           params=dict(R=2 + n, L=3, A=2, finder=f, given=True), relational=f in ("dfs", "bfs"),
                           weight=1, covers=("tree exists",), replay_every=3))
    for f in ("random", "proof_tree_dfs", "smallish", "dfs", "bfs"):
        res.append(Harness(f"finder-{f}-small", h_finders, "2 rules over 2 labels, arity<=2, all random outcomes",
                           params=dict(R=2, L=2, A=2, finder=f), relational=f in ("dfs", "bfs"), weight=3,
                           covers=("tree exists",), replay_every=3))
    for it in (False, True):
        res.append(Harness(f"ruledb-small-{'iterative' if it else 'recursive'}", h_ruledb,
                           "2 insertions (verification, two-way, one-way, binary) over 3 labels, "
                           "specification asked for after every insertion",
                           params=dict(R=2, L=3, A=2, iterative=it, final="each",
                                       kinds=("ver", "two", "one", "gen")),
                           relational=it, weight=6, replay_every=3))
        res.append(Harness(f"ruledb-{'iterative' if it else 'recursive'}", h_ruledb,
                           f"{4+n} insertions (verification, two-way, one-way, binary) over 4 labels, "
                           "specification asked for after every insertion",
                           params=dict(R=4 + n, L=4, A=2, iterative=it, final="each",
                                       kinds=("ver", "two", "one", "gen")),
                           relational=it, weight=3, replay_every=3,
                           covers=("has specification", "start class in a bigger equivalence class")))
        res.append(Harness(f"ruledb-long-{'iterative' if it else 'recursive'}", h_ruledb,
                           f"{6+n} insertions over 4 labels, specification asked for at arbitrary moments",
                           params=dict(R=6 + n, L=4, A=2, iterative=it, final="last",
                                       kinds=("ver", "two", "one", "gen")),
                           relational=it, weight=2, replay_every=3))
    return res
