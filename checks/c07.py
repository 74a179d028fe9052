"""C07: generated objects are exactly the objects of the class, each once."""
from itertools import product as iproduct

from symex.combi import Leaf, check_terms, lift, ob
from symex.grammar import Universe, size_of
from symex.run import Harness

from checks.c01 import ASSUMPTIONS as A1
from checks.c01 import configurations, cover_forms, search
from checks.c02 import involved_rules
from checks.forms import chain, product_rule, union_rule

from comb_spec_searcher.strategies.rule import (
    EquivalencePathRule,
    NonBijectiveRule,
    EquivalenceRule,
    ReverseRule,
    VerificationRule,
)

BUDGET = {"quick": 100, "thorough": 700}

ASSUMPTIONS = A1 + [
    "objects are concrete: the number of objects of an opaque class or of a cell of a table is a "
    "symbolic integer of the stated range, concretised (forked) when objects are listed",
]


# ---------------------------------------------------------------------------
# one rule on symbolic tables


def table_objects(c):
    """Fill in the objects of a table class: as many tokens as counted."""
    c.objects = {}
    for n, t in c.table.items():
        c.objects[n] = {}
        for v in t:
            t[v] = int(t[v])
            objs = [ob("t", c.name, n, v, k) for k in range(t[v])]
            if objs:
                c.objects[n][v] = objs


def compare(E, got, expected, what):
    """Same objects with the same statistics, none twice."""
    for v in set(got) | set(expected):
        g = sorted(map(repr, got.get(v, [])))
        e = sorted(map(repr, expected.get(v, [])))
        E.check(g == e, f"{what}, statistics {v}: generated {g[:6]}..., the objects are {e[:6]}...")


def check_rule(E, rule, expected, sizes):
    """expected[n][v]: the objects of the parent."""
    rule.set_subrecs(lambda c: Leaf(c))
    params = rule.comb_class.extra_parameters
    first = E.choose("first", sizes)
    for n in [first] + list(sizes):
        got = rule.get_objects(n)
        compare(E, got, expected[n], f"get_objects({n})")
        if any(got.values()):
            E.cover("objects")
        terms = rule.get_terms(n)
        for v in set(expected[n]) | set(terms):
            k = len(expected[n].get(v, ()))
            E.check(terms.get(v, 0) == k, f"{terms.get(v, 0)} counted at {n}, {v}, not {k}")
            objs = list(rule.generate_objects_of_size(n, **dict(zip(params, v))))
            compare(E, {v: objs}, {v: expected[n].get(v, [])}, f"generate_objects_of_size({n})")


def h_union(E, count, stats, cstats, val, N, hi):
    sizes = range(N + 1)
    rule = union_rule(E, count, stats, cstats, val, sizes, same=True)
    bound(E, rule, hi)
    exp = {n: {} for n in sizes}
    for c in rule.children:
        table_objects(c)
    P = rule.comb_class
    for i, (c, m) in enumerate(zip(rule.children, rule.strategy.maps)):
        for n in sizes:
            for v, objs in c.objects.get(n, {}).items():
                w = lift(v, c.params, P.params, m)
                exp[n].setdefault(w, []).extend(ob("u", i, o) for o in objs)
    check_rule(E, rule, exp, sizes)
    round_trip(E, rule, [o for t in exp.values() for os in t.values() for o in os])


def bound(E, rule, hi):
    for c in rule.children:
        for t in c.table.values():
            for x in t.values():
                if type(x) is not int:
                    E.assume(x <= hi)


def h_product(E, count, stats, cstats, val, N, mins, hi, min_vals=False):
    sizes = range(N + 1)
    rule = product_rule(
        E, count, stats, cstats, val, sizes, mins, True, exact_min=False, same=True,
        min_vals=min_vals, hi=hi,
    )
    for c in rule.children:
        table_objects(c)
    P = rule.comb_class
    exp = {n: {} for n in sizes}
    cells = [
        [(n, v, objs) for n, t in c.objects.items() for v, objs in t.items()]
        for c in rule.children
    ]
    for combo in iproduct(*cells):
        n = sum(x[0] for x in combo)
        if n > N:
            continue
        lifted = [
            lift(x[1], c.params, P.params, m)
            for x, c, m in zip(combo, rule.children, rule.strategy.maps)
        ]
        w = tuple(map(sum, zip(*lifted))) if P.params else ()
        exp[n].setdefault(w, []).extend(ob("p", *os) for os in iproduct(*(x[2] for x in combo)))
    check_rule(E, rule, exp, sizes)
    round_trip(E, rule, [o for t in exp.values() for os in t.values() for o in os])


def round_trip(E, rule, objs):
    for o in objs:
        parts = rule.forward_map(o)
        back = list(rule.backward_map(parts))
        E.check(back == [o], f"{o} -> {parts} -> {back}")
        E.cover("round trip")


def h_chain(E, length, nlat, stats, val, N, kinds, hi):
    sizes = range(N + 1)
    classes, rules = chain(E, length, nlat, stats, val, sizes, kinds, hi=hi)
    latents = {}
    for n in sizes:
        latents[n] = {}
        for lat in iproduct(range(val + 1), repeat=nlat):
            # counts of the shared objects, from the engine by name
            c = E.int(f"o_{n}_{'_'.join(map(str, lat))}", 0, hi)
            latents[n][lat] = int(c)
    for c in classes:
        c.objects = {n: {} for n in sizes}
        for n in sizes:
            for lat, k in latents[n].items():
                v = tuple(0 if c.funcs[p] < 0 else lat[c.funcs[p]] for p in c.params)
                objs = [ob("L", c.name, (n, lat, i)) for i in range(k)]
                if objs:
                    c.objects[n].setdefault(v, []).extend(objs)
    upper, lower = classes[0], classes[-1]
    try:
        rule = EquivalencePathRule(rules)
        rule.constructor
    except NotImplementedError:
        E.fail("a path of supported equivalences has no constructor")
    check_rule(E, rule, upper.objects, sizes)
    for r, a, b in [(rule, upper, lower)] + [
        (r, x, y) for r, x, y in zip(rules, classes, classes[1:])
    ]:
        for n in sizes:
            for v, objs in a.objects[n].items():
                for o in objs:
                    parts = r.forward_map(o)
                    target = ("L", b.name, o[2])
                    E.check(
                        len(parts) == len(r.children)
                        and [x for x in parts if x is not None] == [target],
                        f"{type(r).__name__} {a.name} -> {b.name}: {o} -> {parts}",
                    )
                    back = list(r.backward_map(parts))
                    E.check(back == [o], f"{type(r).__name__}: {o} -> {parts} -> {back}")
        E.cover(type(r).__name__)


# ---------------------------------------------------------------------------
# whole specifications


def h_spec(E, kind, menu_name, N, sym=False, ver=False, **ukw):
    U = Universe(E, **dict(ukw, hi=2))
    css, spec = search(E, U, kind, menu_name, sym, ver, options=menu_name in ("copies", "unary"))
    if spec is None:
        return
    cover_forms(E, spec)
    cls = css.start_class
    params = cls.extra_parameters
    unsupported = any(
        isinstance(r, ReverseRule) for r in spec.rules_dict.values()
    )
    first = E.choose("first size", (0, N))
    try:
        for n in [first] + list(range(N + 1)):
            exp = U.project_objects(cls, n)
            compare(E, spec.get_objects(n), exp, f"specification, size {n}")
            check_terms(E, spec.get_terms(n), {v: len(o) for v, o in exp.items()}, f"counts, size {n}")
            values = set(exp)
            if params:
                values |= set(iproduct(range(3), repeat=len(params)))
            for v in values:
                q = dict(zip(params, v))
                objs = list(spec.generate_objects_of_size(n, **q))
                compare(E, {v: objs}, {v: exp.get(v, [])}, f"generate_objects_of_size, size {n}")
                E.check(len(objs) == spec.count_objects_of_size(n, **q), f"count at {n}, {v}")
            if any(exp.values()):
                E.cover("objects")
    except NotImplementedError:
        if not unsupported:
            raise
        E.cover("not supported")
    for r in spec.rules_dict.values():
        for x in involved_rules(r):
            check_maps(E, U, x, N)


def offered(rule):
    """Does the form offer object maps?"""
    if isinstance(rule, ReverseRule):
        return sum(not c.is_empty() for c in rule.original_rule.children) == 1
    return True


def check_maps(E, U, rule, N):
    if isinstance(rule, VerificationRule):
        return
    if not offered(rule):
        try:
            for n in range(N + 1):
                for o, _ in U.objects(rule.comb_class.expr, n):
                    rule.forward_map(o)
        except NotImplementedError:
            return
        return
    fan = is_product_form(rule)
    where = f"{type(rule).__name__} {rule.comb_class} -> {[str(c) for c in rule.children]}"
    members = {}

    def stats(cls, n):
        if (cls, n) not in members:
            members[cls, n] = {
                o: dict(zip(cls.extra_parameters, v))
                for v, objs in U.project_objects(cls, n).items() for o in objs
            }
        return members[cls, n]

    for n in range(N + 1):
        seen = set()
        for o in stats(rule.comb_class, n):
            parts = rule.forward_map(o)
            E.check(len(parts) == len(rule.children), f"{where}: {o} has parts {parts}")
            present = [(p, c) for p, c in zip(parts, rule.children) if p is not None]
            E.check(len(present) == (len(parts) if fan else 1), f"{where}: {o} has parts {parts}")
            E.check(sum(size_of(p) for p, _ in present) == n, f"{where}: sizes of the parts of {o}")
            for p, c in present:
                E.check(p in stats(c, size_of(p)), f"{where}: part {p} of {o} is not in {c}")
            back = list(rule.backward_map(parts))
            again, idx = rule.indexed_forward_map(o)
            E.check(again == parts, f"{where}: {o} -> {again}, at other times {parts}")
            E.check(rule.indexed_backward_map(parts, idx) == o, f"{where}: {o} -> {parts}, {idx} -> "
                    f"{rule.indexed_backward_map(parts, idx)}")
            E.check((parts, idx) not in seen, f"{where}: two objects with the parts {parts}")
            seen.add((parts, idx))
            if isinstance(rule, NonBijectiveRule):
                E.check(o in back and len(set(back)) == len(back), f"{where}: {parts} -> {back}")
                E.cover("maps of NonBijectiveRule")
                continue
            E.check(back == [o], f"{where}: {o} -> {parts} -> {back}")
            E.cover("maps of " + type(rule).__name__)
        if not fan and not isinstance(rule, NonBijectiveRule):
            for i, c in enumerate(rule.children):
                for p in stats(c, n):
                    parts = tuple(p if j == i else None for j in range(len(rule.children)))
                    back = list(rule.backward_map(parts))
                    E.check(len(back) == 1 and back[0] in stats(rule.comb_class, n),
                            f"{where}: {parts} -> {back}")
                    E.check(rule.forward_map(back[0]) == parts, f"{where}: {parts} -> {back} -> other")


def is_product_form(rule):
    from comb_spec_searcher.strategies.strategy import CartesianProductStrategy

    if isinstance(rule, (EquivalencePathRule, EquivalenceRule, ReverseRule)):
        return False
    return isinstance(rule.strategy, CartesianProductStrategy)


def harnesses(tier):
    hs = []

    def add(name, fn, covers=("objects",), weight=1.0, **params):
        b = {k: str(v) for k, v in params.items()}
        hs.append(Harness(name=name, fn=fn, bounds=b, weight=weight, relational=False,
                          covers=covers, params=params))

    R = ("objects", "round trip")
    add("union", h_union, R, count=2, stats=2, cstats=2, val=1, N=0, hi=2)
    add("union-sizes", h_union, R, count=2, stats=1, cstats=1, val=1, N=2, hi=1)
    add("union-3", h_union, R, count=3, stats=1, cstats=1, val=1, N=0, hi=2)
    add("product-plain", h_product, R, count=2, stats=0, cstats=0, val=0, N=3, mins=(0, 1), hi=2)
    add("product-3", h_product, R, count=3, stats=0, cstats=0, val=0, N=2, mins=(0, 1), hi=1)
    add("product-stats", h_product, R, count=2, stats=2, cstats=2, val=1, N=1, mins=(0, 1), hi=1)
    add("product-min-values", h_product, R, count=2, stats=1, cstats=1, val=2, N=1, mins=(0, 1),
        hi=1, min_vals=True)
    add("union-values", h_union, R, count=2, stats=1, cstats=1, val=3, N=0, hi=2, weight=0.5)
    add("union-3-stats", h_union, R, count=2, stats=3, cstats=2, val=1, N=0, hi=1, weight=0.5)
    add("product-values", h_product, R, count=2, stats=1, cstats=1, val=2, N=2, mins=(0, 1), hi=1,
        weight=0.5)
    add("product-sizes", h_product, R, count=2, stats=0, cstats=0, val=0, N=4, mins=(0, 1, 2, 3), hi=2,
        weight=0.5)
    for length in (1, 2, 3, 4):
        add(f"path-{length}", h_chain, ("objects", "EquivalencePathRule"), length=length, nlat=2,
            stats=2, val=1, N=0, kinds=("union", "product"), hi=1)
    for name, w, params in configurations(tier):
        kind = params["kind"]
        if kind == "forget" and name.split("-")[-1] not in ("copies", "foreign"):
            continue
        p = dict(params)
        p["N"] = min(p["N"], 3)
        hs.append(Harness(
            name="spec-" + name, fn=h_spec, weight=w, relational=False, params=p,
            covers=("found",) if "hidden" in name else ("found", "objects"),
            bounds={"classes": p["n"], "sizes": p["N"], "opaque counts": "0..2",
                    "productions": str(p["kinds"]), "statistics": p.get("nlat", 0)},
        ))
    return hs
