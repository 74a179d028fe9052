"""C13: the parallel specification finder."""
from symex import grammar as gr
from symex.env import CLOCK
from symex.grammar import G, Universe, VerifyAtoms
from symex.run import Harness
from symex.tables import Tables, TableProduct, TableStep, TableUnion

from checks.c01 import CountingClock, check_counts
from checks.c02 import check_spec
from checks.c12 import ASSUMPTIONS as A12
from checks.c12 import COMMON, KINDS, MENUS, check_pair, pick_searcher

from comb_spec_searcher.bijection import EqPathParallelSpecFinder, ParallelSpecFinder
from comb_spec_searcher.comb_spec_searcher import CombinatorialSpecificationSearcher
from comb_spec_searcher.exception import NoMoreClassesToExpandError, SpecificationNotFound
from comb_spec_searcher.isomorphism import Isomorphism
from comb_spec_searcher.rule_db import RuleDB
from comb_spec_searcher.strategies import StrategyPack

ASSUMPTIONS = A12 + [
    "both searchers use the rule database the finder supports; a universe without a specification, "
    "or in which something but atoms is verified, is refused with the documented ValueError",
]


MENUS["steps"] = [
    (gr.DefUnion(), ("e0",)),
    ([gr.DefProd(), gr.DefProd("p", swap=True)], ("initial",)),
    (gr.UnaryStep(3), ("absent", "initial", "inferral")),
    ([gr.FromCopy(3), gr.FromCopy(3, two_way=False), gr.ToCopy(3)], ("absent", "initial")),
]
MENUS["atoms"] = [
    (gr.DefUnion(), ("e0",)),
    (gr.DefProd(), ("initial",)),
    ([gr.AtomSteps("eps"), gr.AtomSteps("copy")], ("initial",)),
    (gr.FromCopy(0), ("absent", "initial")),
]


BUDGET = {"quick": 100, "thorough": 700}


def consider(E, U, searchers, variant, N, maps=True):
    """What the finder answers for the two searchers."""
    try:
        finder = variant(*searchers)
    except ValueError as e:
        if "No specifications were found" not in str(e):
            raise
        E.cover("no specification")
        E.check(
            any(not css.has_specification() for css in searchers),
            "refused although there are specifications",
        )
        return
    res = finder.find()
    for css in searchers:
        if css.ruledb.equivdb[css.start_label] != css.start_label:
            E.cover("represented by another class")
    if res is None:
        E.cover("nothing found")
        return
    E.cover("found")
    what = variant.__name__
    specs = tuple(res)
    E.check(len(specs) == 2, f"{what}: {len(specs)} specifications")
    for css, spec in zip(searchers, specs):
        E.check(spec.root == css.start_class, f"{what}: root {spec.root} instead of {css.start_class}")
        check_counts(E, U, spec, css.start_class, N, what)
        check_spec(E, css, css.strategy_pack, spec)
        if any(r.is_equivalence() for r in spec.rules_dict.values()):
            E.cover("equivalences")
        for r in spec.rules_dict.values():
            if len(r.children) == 1 and not r.is_equivalence():
                E.cover("step which is no equivalence")
    E.check(Isomorphism.check(*specs), f"{what}: the specifications of {specs[0].root} and "
            f"{specs[1].root} are not isomorphic")
    if maps:
        check_pair(E, U, *specs, N)


def h_find(E, menus, N, sym=False, starts=(0, 1), sides=None, finders=None, before=False, **ukw):
    U = Universe(E, **ukw)
    searchers = [
        pick_searcher(E, U, side, menus, ("default",), sym, sides[i] if sides else starts)
        for i, side in enumerate("AB")
    ]
    variant = E.choose("finder", finders or FINDERS)
    if before:  # they have been at work already
        for side, css in zip("AB", searchers):
            done = E.choose(f"before {side}", ("nothing", "a level", "three levels", "search", "more"))
            try:
                if done in ("search", "more"):
                    css.auto_search()
                for _ in range({"a level": 1, "three levels": 3, "more": 2}.get(done, 0)):
                    css.do_level()
            except (NoMoreClassesToExpandError, SpecificationNotFound):
                E.cover("nothing more to expand")
            else:
                E.cover(f"before: {done}")
    consider(E, U, searchers, variant, N)


X, P2 = (0, 0, 2), (0, 2)
WAYS = {"union": ("u", ("b", "b")), "product": ("p", ("a", "s"))}


ALTERNATIVES = [("union",), ("product",), ("union", "product"), ("product", "union")]
# two classes x, y of one label, one of them with the rule
STEPS = {
    "y step": lambda x, y: {x: [WAYS["union"]], y: [("s", (x,))]},
    "x step": lambda x, y: {x: [("s", (y,))], y: [WAYS["union"]]},
    "x copy": lambda x, y: {x: [("u", (y,))], y: [WAYS["union"]]},
    "y copy": lambda x, y: {x: [WAYS["union"]], y: [("u", (x,))]},
    "y step back": lambda x, y: {x: [("s", (y,)), WAYS["union"]], y: []},
    "atom, step": lambda x, y: {x: [], y: [("s", (x,))]},
    "step, atom": lambda x, y: {x: [("s", (y,))], y: []},
}


def h_conflict(E, N, free=(), firsts=2, maps=True, deep=False, steps=(), finders=None):
    """Classes met in several matches, with several rules or by several paths."""
    tables = {"a": (0, 1), "b": (0, 0, 1), "s": P2}
    rules = {"s": [("u", ("a", "a"))]}
    leaves = ["x", "y", "z", "t"]
    atoms = {"a", "b"}
    sizes = (2, 2)
    if steps:
        for x, y in ("xy", "zt"):
            config = E.choose(f"{x} and {y}", steps)
            if "atom" in config:
                for k, atom in ((x, "atom," in config), (y, ", atom" in config)):
                    tables[k] = (0, 0, 1)
                    if atom:
                        atoms.add(k)
            else:
                tables[x] = tables[y] = X
            rules.update({k: r for k, r in STEPS[config](x, y).items() if k not in atoms})
        if tables["x"] != tables["z"]:
            return
        sizes = (tables["x"][2],) * 2
    else:
        for k in leaves:
            ways = E.choose(f"rules of {k}", ALTERNATIVES if k in free else ALTERNATIVES[:2])
            tables[k] = X
            rules[k] = [WAYS[w] for w in ways]
    if deep:  # these are a level down
        for k in leaves:
            tables["D" + k] = (0, 0, tables[k][2] + 1)
            rules["D" + k] = [("u", ("b", k))]
        leaves = ["D" + k for k in leaves]
    for side, (u, v) in zip("AB", (leaves[:2], leaves[2:])):
        size = tables[u][2]
        tables["W" + side] = (0, 0, size + 1)
        rules["W" + side] = [("u", E.choose(f"third {side}", (("b", u), (v, "b"))))]
        tables["V" + side] = (0, 0, 2 * size + 1)
        rules["V" + side] = [("u", E.choose(f"second {side}", (
            (u, "W" + side), (v, "W" + side), ("W" + side, u), ("W" + side, v))))]
        tables["R" + side] = (0, 0, 3 * size + 1)
        rules["R" + side] = [("u", E.choose(f"first {side}", ((u, "V" + side), ("V" + side, v))[:firsts]))]
    U = Tables(tables, rules, atoms, N)
    CLOCK.hook = CountingClock()
    searchers = []
    for side in "AB":
        strats = [s(j) for j in (0, 1) for s in (TableUnion, TableProduct, TableStep)]
        pack = StrategyPack(strats, [], [], [VerifyAtoms()], f"tables {side}")
        searchers.append(CombinatorialSpecificationSearcher(G("R" + side), pack, ruledb=RuleDB()))
    consider(E, U, searchers, E.choose("finder", finders or FINDERS), N, maps)


FINDERS = (ParallelSpecFinder, EqPathParallelSpecFinder)
COVERS = ("found", "nothing found", "represented by another class")


def harnesses(tier):
    hs = []

    def add(name, weight=1.0, must=COVERS, **p):
        p.setdefault("n", 3)
        p.setdefault("N", 3)
        p.setdefault("kinds", KINDS)
        hs.append(Harness(
            name=name, fn=h_find, weight=weight, relational=False, params=p, covers=must,
            bounds={"classes": p["n"], "sizes": p["N"], "productions": str(p["kinds"]),
                    "menus": p["menus"], "finders": "both"},
        ))

    add("small", menus=("plain",), n=2, N=3, weight=8, must=("found",), kinds=("union", "cons", "atom", "eps"))
    for m in COMMON:
        add(m, menus=(m,))
    add("any", menus=COMMON, weight=2)
    add("two-classes", menus=COMMON, n=2)
    add("thirds", menus=("shapes", "plain"), n=4,
        kinds=("sum3", "cons", "atom", "eps", "cube+", "ueps", "cons2"),
        force={0: ("sum3", "cube+"), 1: ("sum3", "cons2", "cube+")}, must=("found", "nothing found"))
    # the children of two unions of three, which are equivalent to one another or not
    add("thirds-shared", menus=("plain",), n=8, weight=1.5, N=3,
        force={0: ("sum3",), 1: ("sum3",), 2: ("cons",), 3: ("cons",), 4: ("cons",), 5: ("eps",), 6: ("atom",),
               7: ("eps", "atom")},
        picks={**{(i, k): (2, 3, 4, 5) for i in (0, 1) for k in "lmr"},
               (2, "r"): (5, 6), (3, "r"): (5, 6), (4, "r"): (7,)},
        sides=((0,), (1,)), must=("found", "nothing found"))
    add("before", menus=COMMON, n=2, before=True, must=("found", "before: search", "before: more",
                                                        "before: a level", "nothing more to expand"))
    add("symmetries", menus=("shapes", "paths"), sym=True)
    add("statistics", menus=("shapes", "paths"), nlat=1, n=2, N=3, schemes=(0, 1),
        drops=(False, True), kinds=("union", "cons", "atom", "eps", "cons2", "ueps"))
    # the variant which allows for classes with one label which are not equivalent
    add("steps", menus=("steps",), finders=FINDERS[1:],
        must=("found", "nothing found", "step which is no equivalence"))
    add("atoms", menus=("atoms",), must=("found", "nothing found"))
    for name, deep in (("conflict", False), ("conflict-deep", True)):
        hs.append(Harness(
            name=name, fn=h_conflict, weight=2, relational=False,
            params=dict(N=2, free=("x", "t"), firsts=1, maps=False, deep=deep)
            if tier == "quick" else
            dict(N=3, free=("x", "y", "z", "t"), firsts=2, maps=True, deep=deep),
            covers=("found", "nothing found"),
            bounds={"classes": "four with one or two rules each, met in three places of each side"},
        ))
    for deep in (False, True):
        hs.append(Harness(
            name="paths-deep" if deep else "paths-met", fn=h_conflict, relational=False,
            params=dict(N=2, firsts=1 if tier == "quick" else 2, maps=tier != "quick", deep=deep,
                        steps=tuple(STEPS), finders=FINDERS[1:]),
            covers=("found", "nothing found", "step which is no equivalence"),
            bounds={"classes": "two of one label and a path between them, met in three places "
                    "of each side"},
        ))
    return hs
