"""C12: bijections between specifications."""
import json

from symex import grammar as gr
from symex.combi import Obj
from symex.env import CLOCK, RANDOM
from symex.grammar import CopySymmetry, G, Universe, build_pack
from symex.run import Harness

from checks.c01 import CountingClock, DBS, make_db, menu

from comb_spec_searcher import (
    CombinatorialSpecification,
    CombinatorialSpecificationSearcher,
)
from comb_spec_searcher.exception import SpecificationNotFound
from comb_spec_searcher.isomorphism import Bijection, Isomorphism
from comb_spec_searcher.strategies.rule import ReverseRule, VerificationRule

BUDGET = {"quick": 100, "thorough": 700}

ASSUMPTIONS = [
    "both start classes belong to a universe of at most `classes` core classes whose productions "
    "are symbolic choices, over atoms of size 0 and 1 and the empty class; every strategy of the "
    "packs is genuine, its maps are bijections, and the truth is computed from the grammar",
    "the two searches have their own symbolic pack, rule database and start class; a specification "
    "may also have been dumped to JSON and loaded again before the comparison",
    "sizes are evaluated up to the stated bound",
]

KINDS = ("union", "cons", "atom", "eps", "prod", "cons2", "snoc", "ueps", "empty")

MENUS = {
    # permuted factors, redundant empty children, a disguise before or after
    "shapes": [
        ([gr.DefUnion()], ("e0",)),
        ([gr.DefProd(), gr.DefProd("p", swap=True)], ("initial",)),
        ([gr.ToCopy(0), gr.ToCopy(0, pos=0, empties=1), gr.ToCopy(0, pos=1, empties=1)],
         ("absent", "inferral", "initial")),
        (gr.FromCopy(0), ("initial",)),
    ],
    # equivalences found in other ways, atoms in disguise too
    "paths": [
        ([gr.DefUnion(), gr.Parents("own")], ("e0",)),
        (gr.DefProd(), ("initial",)),
        ([gr.ToCopy(0, core=False), gr.ToCopy(0), gr.UnaryProduct(3),
          gr.ToCopy(0, two_way=False)], ("absent", "inferral", "initial")),
        ([gr.FromCopy(0), gr.FromCopy(0, two_way=False)], ("initial",)),
        (gr.FromCopy(3), ("initial",)),
    ],
    # several rules for the same class
    "choices": [
        (gr.DefUnion(), ("e0",)),
        (gr.DefProd(), ("initial",)),
        ([gr.Flatten(0), gr.Flatten(1), gr.DefProd("q", swap=True)], ("absent", "initial", "e1")),
    ],
    "factories": [
        ([gr.Parents("strategies"), gr.Parents("own")], ("initial",)),
        (gr.Parents("parents"), ("absent", "initial")),
        ([gr.ToCopy(0), gr.Mixed(0)], ("absent", "initial", "inferral")),
    ],
}


class Around(gr._Base, gr.StrategyFactory):
    """The rules of the core class the one expanded is a part of."""

    def __init__(self):
        pass

    def __call__(self, comb_class):
        if comb_class.expr != ("c", 1):
            return
        parent = gr.CUR.make(("c", 0), sorted({l for _, l in comb_class.stats}))
        for strat in (gr.DefUnion(), gr.Flatten(0)):
            if strat.decomposition_function(parent) is not None:
                yield strat(parent)

    def to_jsonable(self):
        return gr.StrategyFactory.to_jsonable(self)

    def __str__(self):
        return "around"

    @classmethod
    def from_dict(cls, d):
        return cls(**d)


# rules which are no bijections: the place among the preimages goes along
MENUS["fold"] = [
    ([gr.Fold(), gr.Fold(turn=True), gr.Fold(upside=True)], ("initial",)),
    (gr.DefUnion(), ("e0",)),
    (gr.DefProd(), ("initial",)),
    ([gr.ToCopy(0), gr.ToCopy(0, pos=1, empties=1), gr.ToCopy(0, core=False)],
     ("absent", "inferral", "initial")),
    (gr.FromCopy(0), ("initial",)),
]
MENUS["plain"] = [(gr.DefUnion(), ("e0",)), (gr.DefProd(), ("initial",))]
MENUS["around"] = [
    (Around(), ("initial",)),
    ([gr.DefProd(), gr.DefProd("p", swap=True)], ("initial",)),
    (gr.ToCopy(0), ("absent", "inferral")),
    (gr.FromCopy(0), ("initial",)),
]


def pick_start(E, U, side, starts=(0, 1)):
    """The start class of one of the searches."""
    opts = [("c", i) for i in starts]
    if side == "B":
        if len(opts) > 1:
            opts.append(("w", 0, opts[0]))
    e = E.choose(f"start {side}", opts)
    return gr.G(e, tuple((f"k{l}", l) for l in range(U.nlat)))


def pick_pack(E, U, side, menus, sym=False, verify=False):
    old, U.prefix = U.prefix, side
    m = E.choose(f"menu {side}", menus)
    syms = [CopySymmetry(7)] if sym and bool(E.bool(f"symmetry {side}")) else []
    pack = build_pack(U, MENUS.get(m) or menu(m), symmetries=syms, name=f"pack {side}",
                      ver=[gr.VerifySome(tag=f"v{side}")] if verify else ())
    U.prefix = old
    return pack


def pick_searcher(E, U, side, menus, dbs, sym=False, starts=(0, 1), verify=False):
    CLOCK.hook = CountingClock()
    pack = pick_pack(E, U, side, menus, sym, verify)
    start = pick_start(E, U, side, starts)
    kind = E.choose(f"database {side}", dbs)
    return CombinatorialSpecificationSearcher(start, pack, ruledb=make_db(kind))


def reloaded(E, spec, side):
    if E.choose(f"reloaded {side}", (False, True)):
        return CombinatorialSpecification.from_dict(json.loads(json.dumps(spec.to_jsonable())))
    return spec


def objects(U, cls, n):
    return [o for objs in U.project_objects(cls, n).values() for o in objs]


def check_maps(E, U, bij, cls1, cls2, N, what="bijection"):
    """One-to-one onto for each size, the inverse undoes it."""
    for n in range(N + 1):
        objs1, objs2 = objects(U, cls1, n), objects(U, cls2, n)
        assert len(set(objs1)) == len(objs1) and len(set(objs2)) == len(objs2)
        if len(objs1) + len(objs2) > 300:
            break
        set1, set2 = set(objs1), set(objs2)
        images = [bij.map(o) for o in objs1]
        for o, i in zip(objs1, images):
            E.check(isinstance(i, Obj) and i in set2,
                    f"{what}: {o} of size {n} goes to {i}, no object of size {n} of the codomain")
        E.check(len(set(images)) == len(images), f"{what}: two objects of size {n} have one image")
        E.check(len(images) == len(objs2), f"{what}: of size {n}, {len(images)} and {len(objs2)} objects")
        for o, i in zip(objs1, images):
            back = bij.inverse_map(i)
            E.check(back == o, f"{what}: {o} goes to {i} which goes back to {back}")
        for o in objs2:
            pre = bij.inverse_map(o)
            E.check(pre in set1 and bij.map(pre) == o, f"{what}: {o} comes from {pre}")
        if objs1:
            E.cover(f"size {n}")
        if len(objs1) > 1:
            E.cover("several objects")


def only_atoms(spec):
    return all(
        rule.comb_class.is_atom() for rule in spec.rules_dict.values()
        if isinstance(rule, VerificationRule) and not rule.comb_class.is_empty()
    )


def cover_pair(E, iso, spec1, spec2):
    if all(any(isinstance(r, gr.FoldRule) for r in s.rules_dict.values()) for s in (spec1, spec2)):
        E.cover("not a bijection")
    eq1 = any(r.is_equivalence() for r in spec1.rules_dict.values())
    eq2 = any(r.is_equivalence() for r in spec2.rules_dict.values())
    if eq1 != eq2:
        E.cover("equivalences on one side only")
    if any(p != sorted(p) for p in iso.get_order().values()):
        E.cover("children permuted")
    for s in (spec1, spec2):
        for r in s.rules_dict.values():
            if r.children and any(c.is_empty() for c in r.children):
                E.cover("empty children")
            if len(set(r.children)) < len(r.children):
                E.cover("repeated children")
            if r.is_equivalence() and r.children and r.children[0].is_atom():
                E.cover("equivalent to an atom")
            E.cover(type(r).__name__)


def check_pair(E, U, spec1, spec2, N):
    """Symmetric; reflexive; a bijection when one is returned."""
    iso = Isomorphism(spec1, spec2)
    there = iso.are_isomorphic()
    E.check(Isomorphism.check(spec1, spec2) == there, "the test answers differently when repeated")
    back = Isomorphism.check(spec2, spec1)
    E.check(
        there == back,
        f"isomorphism test of {spec1.root} and {spec2.root} gives {there}, the other way {back}",
    )
    if not (only_atoms(spec1) and only_atoms(spec2)):
        E.cover("leaf which is no atom")
    bij = Bijection.construct(spec1, spec2)
    other = Bijection.construct(spec2, spec1)
    E.cover("isomorphic" if there else "not isomorphic")
    if there:
        cover_pair(E, iso, spec1, spec2)
    if bij is None:
        return None
    E.check(there, "a bijection between specifications which are not isomorphic")
    E.cover("bijection")
    check_maps(E, U, bij, spec1.root, spec2.root, N)
    if other is not None:
        check_maps(E, U, other, spec2.root, spec1.root, N, "bijection the other way")
    return bij


def check_self(E, U, spec, N):
    if not only_atoms(spec) or spec.root.is_empty():
        return
    E.check(Isomorphism.check(spec, spec), f"specification of {spec.root} not isomorphic to itself")
    E.cover("reflexive")
    bij = Bijection.construct(spec, spec)
    if bij is not None:
        check_maps(E, U, bij, spec.root, spec.root, N, "bijection to itself")


def h_pair(E, menus, dbs, N, sym=False, starts=(0, 1), sides=None, lean=False, verify=False, **ukw):
    U = Universe(E, **ukw)
    specs = []
    for i, side in enumerate("AB"):
        if sides:
            starts = sides[i]
        css = pick_searcher(E, U, side, menus, dbs, sym, starts, verify)
        try:
            if lean:  # only one specification to find
                RANDOM.script = ([], [])
            spec = css.auto_search(smallest=lean)
            RANDOM.script = None
        except SpecificationNotFound:
            E.cover("not found")
            return
        specs.append(spec if lean else reloaded(E, spec, side))
    spec1, spec2 = specs
    for s in () if lean else specs:
        check_self(E, U, s, N - 1)
    check_pair(E, U, spec1, spec2, N)


COMMON = ("shapes", "paths", "choices", "factories")
COVERS = ("bijection", "not isomorphic", "several objects", "reflexive")


def harnesses(tier):
    hs = []

    def add(name, weight=1.0, must=COVERS, **p):
        p.setdefault("n", 3)
        p.setdefault("N", 4)
        p.setdefault("kinds", KINDS)
        hs.append(Harness(
            name=name, fn=h_pair, weight=weight, relational=False, params=p,
            covers=must,
            bounds={"classes": p["n"], "sizes": p["N"], "productions": str(p["kinds"]),
                    "menus": p["menus"], "databases": p["dbs"]},
        ))

    add("small", menus=("plain",), dbs=("default", "forest"), n=2, N=3, weight=8, must=("bijection",),
        kinds=("union", "cons", "atom", "eps"))
    for m in COMMON:
        add(m, menus=(m,), dbs=("default",), weight=2)
    for db in DBS:
        add(f"mixed-{db}", menus=COMMON, dbs=(db,))
    add("thirds", menus=COMMON, dbs=("default",), n=4, N=3,
        kinds=("sum3", "cons", "atom", "eps", "cube+", "ueps", "empty", "cons2"),
        force={0: ("sum3", "cube+"), 1: ("sum3", "cons2", "ueps", "union", "cons")},
        must=COVERS + ("empty children", "repeated children"))
    add("any", menus=COMMON, dbs=DBS, n=2)
    # leaves which are no atoms match nothing
    add("verified", menus=("plain", "shapes"), dbs=("default", "forest"), verify=True, lean=True, N=3,
        force={0: ("union", "sum3", "ueps", "uatom", "atom"), 1: ("union", "sum3", "ueps", "uatom", "atom")},
        kinds=("union", "cons", "atom", "eps", "ueps", "uatom"), must=("bijection", "leaf which is no atom"))
    add("symmetries", menus=("shapes", "paths"), dbs=("default", "forest"), sym=True)
    add("statistics", menus=("shapes", "paths"), dbs=("default",), nlat=1, n=2, N=3,
        schemes=(0, 1), drops=(False, True), kinds=("union", "cons", "atom", "eps", "cons2", "ueps"))
    add("complement", menus=("around",), dbs=("forest-reverse",), n=5, N=3, starts=(1,),
        force={0: ("union",), 1: ("union",), 2: ("cons", "eps", "atom"), 3: ("cons", "eps", "atom"),
               4: ("eps", "atom", "cons")},
        picks={(0, "l"): (1,), (0, "r"): (2,), (1, "l"): (3,), (1, "r"): (4,),
               (2, "r"): (0, 1, 2, 3, 4), (3, "r"): (2, 3, 4)},
        must=("ReverseRule", "reflexive", "isomorphic"))
    # a class twice in the one, two classes in the other
    add("shared", menus=("shapes", "plain", "paths"), dbs=("default", "forest"), n=5, N=3,
        kinds=(), targets=(2, 3, 4), sides=((0,), (1,)), weight=1.5,
        force={0: ("prod", "union"), 1: ("prod", "union"), 2: ("ueps", "uatom"),
               3: ("ueps", "uatom"), 4: ("cons", "cons2")},
        picks={(0, "l"): (2,), (0, "r"): (2, 3), (1, "l"): (2, 3), (1, "r"): (3,),
               (2, "r"): (4,), (3, "r"): (4,)},
        must=("bijection", "not isomorphic", "several objects"))
    # k objects for one
    add("fold", menus=("fold",), dbs=("default", "forest"), n=4, N=3, weight=1.5,
        kinds=("cons", "ueps", "atom", "eps", "cons2"),
        force={0: ("union", "sum3", "cons2"), 1: ("union", "sum3")},
        picks={(1, k): (2,) for k in "lm"}, must=COVERS + ("not a bijection",))
    # empty children at any place
    add("empties", menus=("plain",), lean=True, dbs=("default",), n=6, N=3,
        force={0: ("sum3",), 1: ("sum3",), 2: ("cons", "cons2"), 3: ("empty",), 4: ("eps",), 5: ("atom",)},
        picks={**{(i, k): (2, 3, 4, 5) for i in (0, 1) for k in "lmr"},
               (2, "l"): (4, 0) if tier != "quick" else (4,), (2, "r"): (0, 1)},
        sides=((0,), (1,)), must=("bijection", "empty children", "children permuted"))
    # matches relying on the match of an ancestor which fails later
    add("ancestors", menus=("plain",), lean=True, dbs=("default",), n=8, N=3, weight=2,
        force={0: ("sum3",), 1: ("sum3",), 2: ("union",), 3: ("cons",), 4: ("union",),
               5: ("cons",), 6: ("eps",) if tier == "quick" else ("eps", "atom"),
               7: ("eps", "atom")},
        picks={**{(i, k): (2, 3, 4, 5) for i in (0, 1) for k in "lmr"},
               **({(0, "l"): (2,), (0, "m"): (3, 5), (1, "l"): (2, 4, 5)} if tier == "quick" else {}),
               (2, "l"): (3,), (2, "r"): (6,), (4, "l"): (5,), (4, "r"): (7,), (3, "r"): (2,),
               (5, "r"): (4,) if tier == "quick" else (2, 4)},
        sides=((0,), (1,)), must=("bijection", "not isomorphic"))
    return hs
