"""C08: sampling descends into each composition with exactly the right weight."""
from fractions import Fraction
from itertools import product as iproduct

from symex import engine as eng
from symex.combi import Leaf, lift
from symex.engine import sand
from symex.env import RANDOM
from symex.grammar import Universe
from symex.run import Harness

from comb_spec_searcher.strategies.rule import EquivalenceRule, ReverseRule

from comb_spec_searcher.exception import InvalidOperationError

from checks.c01 import ASSUMPTIONS as A1
from checks.c01 import configurations, search
from checks.forms import EquivalencePathRule, chain, product_rule, union_rule

BUDGET = {"quick": 100, "thorough": 700}

ASSUMPTIONS = A1 + [
    "the functions of random are replaced by nondeterministic ones: randint(a, b) returns every "
    "value of [a, b], each equally likely; choices draws one of sum(weights) equally likely tickets",
    "rules are genuine and every statistic of a child is the image of a statistic of the parent "
    "(the library has no way of naming the others when it asks a child for a sample)",
    "samplers of the children are uniform and independent (each stands for a token naming the "
    "child, size and statistics it was asked for)",
    "counts are arbitrary nonnegative integers where not bounded; sizes, shapes and values of "
    "statistics bounded as stated",
]


class Asked:
    """A request for a uniformly random object of a child."""

    def __init__(self, key, n, v):
        self.id = (key, n, v)


def wire(rule):
    rule.set_subrecs(lambda c: Leaf(c, [], c.name, lambda k, n, v: Asked(k, n, v)))


def tokens(obj):
    """The requests an object of the parent is made of, in order."""
    if isinstance(obj, Asked):
        return (obj,)
    if isinstance(obj, tuple):
        return tuple(t for x in obj for t in tokens(x))
    return ()


def run(E, rule, n, q):
    """One sample: (outcome, the only relevant random value and its range)."""
    before = len(RANDOM.calls)
    obj = rule.random_sample_object_of_size(n, **q)
    calls = [
        (a, b, r)
        for a, b, r in RANDOM.calls[before:]
        if not (type(a) is int and type(b) is int and a == b)
    ]
    return tokens(obj), obj, calls


def multiplicity(rule, outcome):
    """How many objects of the parent the requests stand for."""
    byname = {c.name: c for c in rule.children}
    res = 1
    for t in outcome:
        key, n, v = t.id
        res = res * byname[key].table.get(n, {}).get(v, 0)
    return res


def ids(outcome):
    return tuple(t.id for t in outcome)


def uniform_by_distribution(E, rule, n, q, total):
    """The exact distribution, on concrete counts."""
    dist = {}
    for p, out in RANDOM.distribution(
        lambda: tokens(rule.random_sample_object_of_size(n, **q))
    ):
        dist[ids(out)] = dist.get(ids(out), 0) + p
    byid = {}
    for k, p in dist.items():
        m = 1
        byname = {c.name: c for c in rule.children}
        for key, size, v in k:
            m *= int(byname[key].table.get(size, {}).get(v, 0))
        E.check(p == Fraction(m, int(total)), f"outcome {k} has probability {p}, not {m}/{total}")
    E.check(sum(dist.values()) == 1, "probabilities do not add up to one")


def concretise(rule):
    for c in rule.children:
        for t in c.table.values():
            for v in t:
                t[v] = int(t[v])
    for t in rule.comb_class.table.values():
        for v in t:
            t[v] = int(t[v])


def check_sampling(E, rule, belongs, N, concrete):
    wire(rule)
    parent = rule.comb_class
    params = parent.extra_parameters
    cands = [(n, v) for n in range(N + 1) for v in parent.table.get(n, {})]
    if not cands:
        return
    n, v = cands[E.choose("which", range(len(cands)))]
    q = dict(zip(params, v))
    total = parent.table[n][v]
    if concrete:
        concretise(rule)
        total = parent.table[n][v]
        if total == 0:
            refuse(E, rule, n, q)
            return
        uniform_by_distribution(E, rule, n, q, total)
        E.cover("sampled")
        return
    if total == 0:
        refuse(E, rule, n, q)
        return
    o1, obj1, c1 = run(E, rule, n, q)
    E.check(belongs(o1, n, v), f"sampled {ids(o1)}, of another size or statistics than {n}, {v}")
    E.cover("sampled")
    if len(c1) != 1:
        # several relevant random decisions: exact distribution instead
        E.cover("several draws")
        concretise(rule)
        uniform_by_distribution(E, rule, n, q, int(total))
        return
    o2, obj2, c2 = run(E, rule, n, q)
    if len(c2) != 1:
        concretise(rule)
        uniform_by_distribution(E, rule, n, q, int(total))
        return
    (a1, b1, r1), (a2, b2, r2) = c1[0], c2[0]
    E.check(sand(a1 == a2, b1 == b2), "the draws have different ranges")
    if ids(o1) != ids(o2):
        return
    # All values leading to one outcome are less than its share apart, for every
    # outcome: as shares add up to one, each outcome has exactly its share.
    size = b1 - a1 + 1
    share = multiplicity(rule, o1)
    if r1 >= r2:
        ok = (r1 - r2 + 1) * total <= share * size
    else:
        ok = (r2 - r1 + 1) * total <= share * size
    if ok:
        E.cover("shares")
        return
    # not contiguous or not uniform: decide on concrete counts
    concretise(rule)
    uniform_by_distribution(E, rule, n, q, int(total))


def refuse(E, rule, n, q):
    try:
        rule.random_sample_object_of_size(n, **q)
    except Exception:
        E.cover("refused")
        return
    E.fail("an object was sampled although there is none")


def h_union(E, count, stats, cstats, val, N, hi, concrete):
    sizes = range(N + 1)
    rule = union_rule(E, count, stats, cstats, val, sizes, onto=range(count), same=False)
    bound(E, rule, hi)
    maps = rule.strategy.maps

    def belongs(o, n, v):
        if len(o) != 1:
            return False
        key, m, u = o[0].id
        i = [c.name for c in rule.children].index(key)
        c = rule.children[i]
        return m == n and lift(u, c.params, rule.comb_class.params, maps[i]) == v

    check_sampling(E, rule, belongs, N, concrete)


def bound(E, rule, hi):
    if hi is not None:
        for c in rule.children:
            for t in c.table.values():
                for x in t.values():
                    E.assume(x <= hi)


def h_product(E, count, stats, cstats, val, N, mins, hi, concrete, min_vals=False):
    sizes = range(N + 1)
    rule = product_rule(
        E, count, stats, cstats, val, sizes, mins, True, onto=range(count),
        exact_min=False, min_vals=min_vals,
    )
    bound(E, rule, hi)
    maps = rule.strategy.maps
    pparams = rule.comb_class.params

    def belongs(o, n, v):
        if len(o) != len(rule.children):
            return False
        if [t.id[0] for t in o] != [c.name for c in rule.children]:
            return False
        if sum(t.id[1] for t in o) != n:
            return False
        lifted = [
            lift(t.id[2], c.params, pparams, m)
            for t, c, m in zip(o, rule.children, maps)
        ]
        return tuple(map(sum, zip(*lifted))) == v if pparams else v == ()

    check_sampling(E, rule, belongs, N, concrete)


def h_chain(E, length, nlat, stats, val, N, kinds, hi, concrete, each):
    sizes = range(N + 1)
    classes, rules = chain(E, length, nlat, stats, val, sizes, kinds, hi=hi, onto=True)
    for r in rules:
        r.forward_map = _Through()
        r.backward_map = lambda objs: iter(o for o in objs if o is not None)
    if each:
        rule = rules[0]
        lower = classes[1]
    else:
        rule = EquivalencePathRule(rules)
        lower = classes[-1]
    upper = classes[0]

    def belongs(o, n, v):
        # the objects of the statistics asked of the last class are the objects
        # of the statistics asked of the first
        if len(o) != 1:
            return False
        key, m, u = o[0].id
        if key != lower.name or m != n:
            return False
        for lat in iproduct(range(val + 1), repeat=nlat):
            a = tuple(0 if upper.funcs[p] < 0 else lat[upper.funcs[p]] for p in upper.params)
            b = tuple(0 if lower.funcs[p] < 0 else lat[lower.funcs[p]] for p in lower.params)
            if (a == v) != (b == u):
                return False
        return True

    try:
        check_sampling(E, rule, belongs, N, concrete)
    except NotImplementedError:
        # sampling is not offered by reverse rules; every other form supports it
        if not reverse_step(rule):
            raise
        E.cover("not supported")


def reverse_step(rule):
    if isinstance(rule, EquivalencePathRule):
        return any(map(reverse_step, rule.rules))
    if isinstance(rule, EquivalenceRule):
        return reverse_step(rule.original_rule)
    return isinstance(rule, ReverseRule)


# ---------------------------------------------------------------------------
# whole specifications


def h_spec(E, kind, menu_name, N, sym=False, ver=False, **ukw):
    U = Universe(E, **dict(ukw, hi=2))
    css, spec = search(E, U, kind, menu_name, sym, ver, options=False)
    if spec is None:
        return
    cls = css.start_class
    params = cls.extra_parameters
    unsupported = any(isinstance(r, ReverseRule) for r in spec.rules_dict.values())
    n = E.choose("size", range(N + 1))
    exp = U.project_objects(cls, n)
    cands = list(exp)
    if params:
        cands += [v for v in iproduct(range(2), repeat=len(params)) if v not in exp]
    elif not exp:
        cands = [()]
    v = cands[E.choose("which", range(len(cands)))]
    q = dict(zip(params, v))
    objs = exp.get(v, [])
    if not objs:
        try:
            o = spec.random_sample_object_of_size(n, **q)
        except InvalidOperationError:
            E.cover("spec refuses")
        else:
            E.fail(f"sampled {o}, there is no object of size {n} with {q}")
        return
    E.assume(len(objs) <= 5)
    try:
        dist = {}
        for p, o in RANDOM.distribution(lambda: spec.random_sample_object_of_size(n, **q)):
            dist[o] = dist.get(o, 0) + p
    except NotImplementedError:
        if not unsupported:
            raise
        E.cover("spec not supported")
        return
    for o in set(dist) | set(objs):
        E.check(
            (o in objs) and dist.get(o, 0) == Fraction(1, len(objs)),
            f"{o} of {len(objs)} objects of size {n} sampled with probability {dist.get(o, 0)}",
        )
    E.cover("spec sampled")
    if len(objs) > 1:
        E.cover("spec sampled from several")


class _Through:
    def __call__(self, obj):
        return (obj,)


def harnesses(tier):
    T = tier == "thorough"
    hs = []

    def add(name, fn, covers=("sampled",), weight=1.0, **params):
        b = {k: str(v) for k, v in params.items()}
        b["counts"] = "unbounded" if params.get("hi") is None else f"0..{params['hi']}"
        hs.append(Harness(name=name, fn=fn, bounds=b, weight=weight, relational=False,
                          covers=covers, params=params))

    S = ("sampled", "refused")
    add("union-plain", h_union, S, count=3, stats=0, cstats=0, val=0, N=0, hi=None, concrete=False)
    add("union", h_union, S, count=2, stats=2, cstats=2, val=1, N=0, hi=None, concrete=False)
    add("union-sizes", h_union, S, count=2, stats=1, cstats=1, val=1, N=1, hi=None, concrete=False)
    add("union-4", h_union, S, count=4, stats=1, cstats=1, val=1, N=0, hi=None, concrete=False)
    add("union-dist", h_union, S, count=3, stats=1, cstats=1, val=1, N=0, hi=2, concrete=True)
    add("product-plain", h_product, S, count=2, stats=0, cstats=0, val=0, N=3, mins=(0, 1),
        hi=None, concrete=False)
    add("product-plain-3", h_product, S, count=3, stats=0, cstats=0, val=0, N=2, mins=(0, 1),
        hi=None, concrete=False)
    add("product-stats", h_product, S, count=2, stats=2, cstats=1, val=1, N=1, mins=(0, 1),
        hi=None, concrete=False, weight=2)
    add("product-min-values", h_product, S, count=2, stats=1, cstats=1, val=2, N=1, mins=(0, 1),
        hi=None, concrete=False, min_vals=True)
    add("product-stats-3", h_product, S, count=3, stats=1, cstats=1, val=1, N=1, mins=(0, 1),
        hi=2, concrete=False)
    add("product-dist", h_product, S, count=2, stats=2, cstats=2, val=1, N=1, mins=(0, 1),
        hi=1, concrete=True)
    add("union-values", h_union, S, count=2, stats=1, cstats=1, val=3, N=0, hi=None, concrete=False,
        weight=0.5)
    add("union-3-stats", h_union, S, count=2, stats=3, cstats=2, val=1, N=0, hi=2, concrete=False,
        weight=0.5)
    add("union-sizes-4", h_union, S, count=2, stats=0, cstats=0, val=0, N=4, hi=None, concrete=False,
        weight=0.5)
    add("product-values", h_product, S, count=2, stats=1, cstats=1, val=2, N=2, mins=(0, 1),
        hi=2, concrete=False, weight=0.5)
    add("product-sizes", h_product, S, count=2, stats=0, cstats=0, val=0, N=5, mins=(0, 1, 2, 3),
        hi=2, concrete=False, weight=0.5)
    for kinds, hi in ((("union",), None), (("union", "product"), 2)):
        for length in (1, 2, 3, 4):
            for each in ((True, False) if length == 1 else (False,)):
                add(f"chain-{length}-{kinds[-1]}" + ("-rule" if each else ""), h_chain,
                    ("sampled", "refused") + (("not supported",) if each else ()),
                    length=length, nlat=2, stats=2, val=1, N=0, kinds=kinds, hi=hi,
                    concrete=False, each=each)
    for name, w, params in configurations(tier):
        kind = params["kind"]
        if kind == "forget" or "hidden" in name or "unproductive" in name:
            continue
        p = dict(params)
        p["N"] = min(p["N"], 3)
        hs.append(Harness(
            name="spec-" + name, fn=h_spec, weight=0.4, relational=False, params=p,
            covers=("spec sampled from several",),
            bounds={"classes": p["n"], "sizes": p["N"], "opaque counts": "0..2",
                    "productions": str(p["kinds"]), "statistics": p.get("nlat", 0)},
        ))
    return hs
