"""C06: EquivalenceDB equals strong connectivity of the recorded edges."""
from symex.engine import SymInt, snot
from symex.run import Harness

from comb_spec_searcher.equiv_db import EquivalenceDB

BUDGET = {"quick": 90, "thorough": 600}

ASSUMPTIONS = [
    "labels are arbitrary pairwise distinct integers (unbounded, in any order): the labels "
    "themselves stay symbolic, the solver decides every comparison the code makes",
    "queries are made right after a cycle detection, as the property asks",
    "number of operations and of distinct labels bounded as stated",
]


def reach(edges, L):
    r = [[i == j for j in range(L)] for i in range(L)]
    for a, b in edges:
        r[a][b] = True
    for k in range(L):
        for i in range(L):
            for j in range(L):
                r[i][j] = r[i][j] or (r[i][k] and r[k][j])
    return r


def query(E, db, lab, edges, marked, L, paths=True):
    r = reach(edges, L)
    succ = {(a, b) for a, b in edges}
    for i in range(L):
        same = [j for j in range(L) if r[i][j] and r[j][i]]
        E.check(bool(db.is_verified(lab[i])) == any(m in same for m in marked),
                f"is_verified({i}) wrong, edges {edges} marked {marked}")
        for j in range(L):
            want = r[i][j] and r[j][i]
            E.check(bool(db.equivalent(lab[i], lab[j])) == want,
                    f"equivalent({i},{j}) should be {want}, edges {edges}")
            E.check(bool(db[lab[i]] == db[lab[j]]) == want,
                    f"representatives of {i},{j}, edges {edges}")
            if not paths:
                continue
            if want:
                path = db.find_path(lab[i], lab[j])
                idx = [next(k for k in range(L) if bool(lab[k] == p)) for p in path]
                E.check(idx[0] == i and idx[-1] == j, f"find_path({i},{j}) = {idx}")
                for a, b in zip(idx, idx[1:]):
                    E.check((a, b) in succ, f"find_path({i},{j}) = {idx} leaves the edges {edges}")
                if len(idx) > 1:
                    E.cover("explanation path")
                    if len(idx) > 2:
                        E.cover("long explanation path")
            else:
                try:
                    db.find_path(lab[i], lab[j])
                except KeyError:
                    pass
                else:
                    E.fail(f"find_path({i},{j}) of non equivalent labels")
        es = db.equivalent_set(lab[i])
        E.check(all(any(bool(lab[k] == x) for x in es) for k in same),
                f"equivalent_set({i})")


def h_history(E, K, L, ops, mid_queries):
    db = EquivalenceDB()
    lab = [E.int(f"label{i}") for i in range(L)]
    for i in range(L):
        for j in range(i):
            E.assume(lab[i] != lab[j])
    used = 0
    edges, marked = [], []

    def pick(name):
        nonlocal used
        i = int(E.int(name, 0, min(used, L - 1)))
        used = max(used, i + 1)
        return i

    for k in range(K):
        op = E.choose(f"op{k}", ops)
        a = pick(f"a{k}")
        if op == "verify":
            db.set_verified(lab[a])
            marked.append(a)
        else:
            b = pick(f"b{k}")
            if op == "two":
                db.add_two_way_edge(lab[a], lab[b])
                edges += [(a, b), (b, a)]
            else:
                db.add_one_way_edge(lab[a], lab[b])
                edges += [(a, b)]
        if mid_queries and k + 1 < K and bool(E.bool(f"detect{k}")):
            db.connect_cycles()
            if mid_queries == "full":
                query(E, db, lab, edges, marked, L, paths=False)
    db.connect_cycles()
    query(E, db, lab, edges, marked, L)
    if marked:
        E.cover("verified label")
    r = reach(edges, L)
    if any(r[i][j] and not r[j][i] for i in range(L) for j in range(L)):
        E.cover("one way reachability")
    E.feasible()


def harnesses(tier):
    q = tier == "quick"
    n = 0 if q else 1
    return [
        Harness("small", h_history, "3 operations (two-way, one-way, verify) over 3 labels, "
                "cycle detection optionally after every step",
                params=dict(K=3, L=3, ops=("two", "one", "verify"), mid_queries="full"),
                relational=True, weight=8, replay_every=3,
                covers=("verified label", "one way reachability")),
        Harness("mixed", h_history, "4 operations (two-way, one-way, verify) over 4 labels, "
                "cycle detection optionally after every step",
                params=dict(K=4, L=4, ops=("two", "one", "verify"), mid_queries="full"),
                relational=True, weight=4, replay_every=3,
                covers=("verified label", "one way reachability", "long explanation path")),
        Harness("one-way-only", h_history, f"{5+n} one-way edges over 4 labels",
                params=dict(K=5 + n, L=4, ops=("one",), mid_queries=None),
                relational=True, weight=3, replay_every=3,
                covers=("one way reachability", "long explanation path")),
        Harness("one-way-verified", h_history,
                f"{6+n} operations one-way/verify over 3 labels, optional detection after every step",
                params=dict(K=6 + n, L=3, ops=("one", "verify"), mid_queries="yes"),
                relational=True, weight=3, replay_every=3, covers=("verified label",)),
        Harness("deep", h_history,
                f"{7+n} operations two/one-way over 5 labels, optional detection after every step",
                params=dict(K=7 + n, L=5, ops=("one", "two"), mid_queries="yes"),
                relational=True, weight=3, replay_every=3),
        Harness("wide", h_history,
                f"{11+n} operations two/one-way/verify over 7 labels, optional detection after every step",
                params=dict(K=11 + n, L=7, ops=("one", "two", "one", "verify"), mid_queries="yes"),
                relational=True, weight=2, replay_every=3, covers=("verified label",)),
    ]
