"""C18: JSON round trips."""
import copy
import json
import pickle
from itertools import product as iproduct

from symex import grammar as gr
from symex.combi import check_terms
from symex.engine import SymInt
from symex.grammar import G, Universe, build_pack
from symex.run import Harness

from checks.c01 import ASSUMPTIONS as A1
from checks.c01 import configurations, menu, search
from checks import c12
from checks.c07 import compare

from comb_spec_searcher import CombinatorialClass, CombinatorialSpecification, StrategyPack
from comb_spec_searcher.exception import SpecificationNotFound, StrategyDoesNotApply
from comb_spec_searcher.isomorphism import Bijection
from comb_spec_searcher.strategies.constructor import DisjointUnion
from comb_spec_searcher.typing import CombinatorialClassType, CombinatorialObjectType
from comb_spec_searcher.specification import AlreadyVerified
from comb_spec_searcher.strategies.rule import (
    AbstractRule,
    EquivalencePathRule,
    EquivalenceRule,
    ReverseRule,
    Rule,
    VerificationRule,
)
from comb_spec_searcher.strategies.strategy import (
    AbstractStrategy,
    AtomStrategy,
    EmptyStrategy,
    Strategy,
    StrategyFactory,
    strategy_from_dict,
)

BUDGET = {"quick": 100, "thorough": 700}

ASSUMPTIONS = A1 + [
    "classes and strategies of the user implement to_jsonable/from_dict faithfully (the grammar "
    "library's do), as documented",
    "integers a strategy stores may be symbolic: then the text of the JSON document is replaced by "
    "the document itself with the same restrictions (string keys, tuples become lists)",
]


def document(x):
    """What json.loads(json.dumps(x)) gives, symbolic integers included."""
    if isinstance(x, SymInt) or x is None or isinstance(x, (bool, int, float, str)):
        return x
    if isinstance(x, (list, tuple)):
        return [document(y) for y in x]
    if isinstance(x, dict):
        assert all(isinstance(k, (str, int, bool)) or k is None for k in x), "not JSON"
        return {k if isinstance(k, str) else json.loads(json.dumps({k: 0})).popitem()[0]: document(v)
                for k, v in x.items()}
    raise TypeError(f"Object of type {type(x).__name__} is not JSON serializable")


def dumped(x):
    return json.loads(json.dumps(x.to_jsonable()))


def same_strategy(E, a, b, what):
    E.check(type(a) is type(b), f"{what}: {type(b).__name__} instead of {type(a).__name__}")
    E.check(a == b and b == a, f"{what}: strategy {b!r} is not equal to {a!r}")
    E.check(not a != b, f"{what}: equal and unequal")
    for k in ("ignore_parent", "inferrable", "possibly_empty", "workable"):
        if hasattr(a, k):
            E.check(getattr(a, k) == getattr(b, k), f"{what}: {k} differs")
    if hasattr(a, "formal_step"):
        E.check(a.formal_step() == b.formal_step(), f"{what}: {b.formal_step()} / {a.formal_step()}")
    E.check(repr(a) == repr(b) and str(a) == str(b), f"{what}: {b!r}, {b} / {a!r}, {a}")


def same_rule(E, a, b, what):
    """Equal, and the same in everything a rule consists of."""
    what = f"{what}, {type(a).__name__} {a.comb_class} -> {[str(c) for c in a.children]}"
    E.check(type(a) is type(b), f"{what}: a {type(b).__name__}")
    E.check(a == b and b == a, f"{what}: not equal")
    E.check(a.comb_class == b.comb_class, f"{what}: rule of {b.comb_class}")
    E.check(a.children == b.children, f"{what}: children {[str(c) for c in b.children]}")
    same_strategy(E, a.strategy, b.strategy, what)
    E.cover(type(a).__name__)
    if isinstance(a, ReverseRule):
        E.check(a.idx == b.idx, f"{what}: reverse for child {b.idx}")
    if isinstance(a, (ReverseRule, EquivalenceRule)):
        same_rule(E, a.original_rule, b.original_rule, what + ": original rule")
    if isinstance(a, EquivalencePathRule):
        E.check(len(a.rules) == len(b.rules), f"{what}: path of length {len(b.rules)}")
        for x, y in zip(a.rules, b.rules):
            same_rule(E, x, y, what + ": in path")
    E.check(a.formal_step == b.formal_step, f"{what}: {b.formal_step}")


class Truth:
    """Stands for the rule of a child."""

    def __init__(self, U, cls):
        self.U = U
        self.cls = cls

    def get_terms(self, n):
        return self.U.project(self.cls, n)

    def get_objects(self, n):
        return self.U.project_objects(self.cls, n)

    def random_sample_object_of_size(self, n, **q):
        raise AssertionError("not asked for")

    def count_objects_of_size(self, n, **q):
        params = self.cls.extra_parameters
        return self.get_terms(n).get(tuple(q[k] for k in params), 0)


def outcome(f, *args):
    try:
        return f(*args)
    except (NotImplementedError, AssertionError, AttributeError, ValueError, KeyError,
            StrategyDoesNotApply) as e:
        return type(e).__name__


def behaves(E, U, a, b, N, what):
    for r in (a, b):
        if not isinstance(r, VerificationRule):
            r.set_subrecs(lambda c: Truth(U, c))
    for n in range(N + 1):
        s, t = outcome(a.get_terms, n), outcome(b.get_terms, n)
        if isinstance(s, str) or isinstance(t, str):
            E.check(isinstance(s, str) and s == t, f"{what}: terms {t} / {s}")
            break
        check_terms(E, t, s, f"{what}, terms of size {n}")
    names = {}

    def function(c):
        return c.get_function(lambda x: names.setdefault(x, len(names)))

    s, t = outcome(a.get_equation, function), outcome(b.get_equation, function)
    E.check(str(s) == str(t), f"{what}: equation {t}, was {s}")


def forms(rule):
    """All forms of the rule."""
    yield rule
    if not isinstance(rule, Rule):
        return
    todo = [rule]
    if rule.is_reversible():
        for i in range(len(rule.children)):
            r = outcome(rule.to_reverse_rule, i)
            if not isinstance(r, str):
                yield r
                todo.append(r)
    for r in todo:
        if r.is_equivalence():
            e = outcome(r.to_equivalence_rule)
            if not isinstance(e, str):
                yield e
                yield EquivalencePathRule([e])
                if not isinstance(r, ReverseRule):
                    i = outcome(e.to_reverse_rule, 0)
                    if not isinstance(i, str):
                        yield i


def h_spec(E, kind, menu_name, N, sym=False, ver=False, **ukw):
    U = Universe(E, **dict(ukw, hi=2))
    css, spec = search(E, U, kind, menu_name, sym, ver, options=False)
    part = E.choose("part", ("rules", "specification"))
    if part == "rules":
        all_rules(E, U, css, N)
    elif spec is not None:
        before = E.choose("asked first", ("terms", "nothing", "equations"))
        if before == "equations":
            outcome(lambda: list(spec.get_equations()))
        elif before == "terms":
            spec.get_terms(N)
        d = dumped(spec)
        back = CombinatorialSpecification.from_dict(d)
        E.cover("specification")
        E.check(back.root == spec.root, f"root {back.root} instead of {spec.root}")
        E.check(back.rules_dict.keys() == spec.rules_dict.keys(), "rules for other classes")
        for c in spec.rules_dict:
            same_rule(E, spec.rules_dict[c], back.rules_dict[c], "specification")
        E.check(back == spec and spec == back, "specification not equal to the one dumped")
        E.check(back.number_of_rules() == spec.number_of_rules(), "number of rules")
        E.check(back.comb_classes() == spec.comb_classes(), "comb_classes")
        again = CombinatorialSpecification.from_dict(dumped(back))
        E.check(again == spec and dumped(again) == dumped(spec), "second round trip")
        if before == "equations":
            eqs = outcome(lambda: sorted(map(str, spec.get_equations())))
            E.check(outcome(lambda: sorted(map(str, back.get_equations()))) == eqs, "equations differ")
        E.check(str(back) == str(spec), "printed differently")
        for n in range(N + 1):
            s = outcome(spec.get_terms, n)
            t = outcome(back.get_terms, n)
            if isinstance(s, str):
                E.check(s == t, f"terms: {t} / {s}")
                continue
            check_terms(E, t, s, f"terms of size {n}")
            s, t = outcome(spec.get_objects, n), outcome(back.get_objects, n)
            if not isinstance(s, str):
                compare(E, t, s, f"objects of size {n}")
            else:
                E.check(s == t, f"objects: {t} / {s}")


def all_rules(E, U, css, N):
    """The rules of the pack for the classes met, in all their forms."""
    pack = css.strategy_pack
    deep = E.choose("rule compared in depth", range(8))
    count = 0
    for c in [css.classdb.get_class(l) for l in list(css.classdb)][:4]:
        E.check(CombinatorialClass.from_dict(json.loads(json.dumps(c.to_jsonable()))) == c, f"class {c}")
        for strat in pack:
            got = strat(c) if isinstance(strat, StrategyFactory) else (strat,)
            for x in got:
                if isinstance(x, AbstractStrategy):
                    try:
                        x = x(c)
                        x.children
                    except StrategyDoesNotApply:
                        continue
                for r in forms(x):
                    b = AbstractRule.from_dict(dumped(r))
                    same_rule(E, r, b, "rule")
                    E.check(dumped(b) == dumped(r), f"{r}: dumped differently")
                    count += 1
                    if count % 8 == deep:
                        behaves(E, U, r, b, min(N, 2), f"{type(r).__name__} {r.comb_class}")
    p = StrategyPack.from_dict(dumped(pack))
    E.check(p == pack and pack == p, "the pack is not equal to the one dumped")


MENUS = ("basic", "copies", "empties", "unproductive", "unary", "flatten", "factories", "flags",
         "mixed", "reverse", "hidden", "cousins", "oneway")


def h_pack(E):
    U = Universe(E, n=1, kinds=("atom",))
    pack = build_pack(
        U, menu(E.choose("menu", MENUS)),
        ver=[[], [gr.VerFactory()], [gr.VerifySome(own=True), gr.VerifySome(tag=3)]][
            int(E.int("ver", 0, 2))],
        symmetries=[gr.CopySymmetry(7)] if bool(E.bool("sym")) else [],
        iterative=bool(E.bool("iterative")),
    )
    for q in (pack, pack.make_iterative(" iterative")):
        b = StrategyPack.from_dict(dumped(q))
        E.check(type(b) is type(q) and b == q and q == b, f"{b} instead of {q}")
        E.check(b.name == q.name and b.iterative == q.iterative, "name, iterative")
        for x, y in zip(q, b):
            same_strategy(E, x, y, "pack")
            same_strategy(E, x, strategy_from_dict(dumped(x)), "strategy")
        E.check(
            [len(q.initial_strats), len(q.ver_strats), len(q.inferral_strats), len(q.symmetries)]
            + [len(s) for s in q.expansion_strats]
            == [len(b.initial_strats), len(b.ver_strats), len(b.inferral_strats), len(b.symmetries)]
            + [len(s) for s in b.expansion_strats], "strategies in other places",
        )
        E.check(repr(b) == repr(q) and str(b) == str(q), "printed differently")
    E.cover("pack")


# ---------------------------------------------------------------------------
# equality of strategies


class Generic1(gr._Base, gr.DisjointUnionStrategy[CombinatorialClassType, CombinatorialObjectType]):
    """A strategy one writes with type parameters."""

    def __init__(self, a=0, b="x", **kw):
        super().__init__(**kw)
        self.a = a
        self.b = b

    def decomposition_function(self, comb_class):
        return (comb_class,)

    def formal_step(self):
        return f"generic {self.a}"

    def forward_map(self, comb_class, obj, children=None):
        return (obj,)

    def backward_map(self, comb_class, objs, children=None):
        yield objs[0]


class Generic2(Generic1[CombinatorialClassType, CombinatorialObjectType]):
    pass


class GenericFactory(StrategyFactory[CombinatorialClassType]):
    def __init__(self, a=0, b="x"):
        self.a = a
        self.b = b

    def __call__(self, comb_class):
        yield Generic1(self.a)

    def to_jsonable(self):
        return dict(super().to_jsonable(), a=self.a, b=self.b)

    @classmethod
    def from_dict(cls, d):
        return cls(**d)

    def __str__(self):
        return "factory"

    def __repr__(self):
        return f"factory {self.a}"


WAYS = ("call", "alias", "alias of others", "dict", "copy", "deepcopy", "pickle", "new")


def made(E, way, cls, args):
    """The strategy of the class with the given settings, made one way or another."""
    if way == "call":
        return cls(**args)
    if way.startswith("alias"):
        params = getattr(cls, "__parameters__", ())
        if not params:
            return cls(**args)
        types = (G, tuple) if way == "alias" else (CombinatorialClass, CombinatorialObjectType)
        return cls[types[: len(params)]](**args)
    if way == "dict":
        return strategy_from_dict(document(cls(**args).to_jsonable()))
    if way == "copy":
        return copy.copy(cls(**args))
    if way == "deepcopy":
        return copy.deepcopy(cls(**args))
    if way == "pickle":
        return pickle.loads(pickle.dumps(cls(**args)))
    other = cls.__new__(cls)
    other.__init__(**args)
    return other


KINDS_OF = {
    "one": Generic1, "two": Generic2, "factory": GenericFactory, "empty": EmptyStrategy,
    "atom": AtomStrategy, "union": gr.DefUnion, "product": gr.DefProd,
}
FLAGS = ("ignore_parent", "inferrable", "possibly_empty", "workable")


def settings(E, kind, tag):
    if kind in ("empty", "atom"):
        return {}
    a = {}
    if kind in ("one", "two", "factory"):
        a["a"] = E.int(f"a{tag}")
        a["b"] = E.choose(f"b{tag}", ("x", "y"))
    if kind in ("product",):
        a["tag"] = E.choose(f"tag{tag}", ("p", "q"))
        a["swap"] = bool(E.bool(f"swap{tag}"))
    if kind != "factory":
        for f in FLAGS:
            if E.choose(f"{f} given{tag}", (False, True)) if f == "workable" else True:
                a[f] = bool(E.bool(f"{f}{tag}"))
    return a


def h_equality(E):
    k1 = E.choose("kind", tuple(KINDS_OF))
    k2 = k1 if bool(E.bool("same kind")) else E.choose("other kind", tuple(KINDS_OF))
    a1 = settings(E, k1, 1)
    sharing = k1 == k2 and E.choose("settings", ("same", "others")) == "same"
    a2 = dict(a1) if sharing else settings(E, k2, 2)
    w1 = E.choose("way", WAYS)
    w2 = E.choose("other way", WAYS)
    s1 = made(E, w1, KINDS_OF[k1], a1)
    s2 = made(E, w2, KINDS_OF[k2], a2)
    full = lambda k, a: {**({} if k in ("empty", "atom", "factory") else _defaults(k)), **a}
    f1, f2 = full(k1, a1), full(k2, a2)
    truth = k1 == k2 and all(bool(f1[k] == f2[k]) for k in f1)
    got = s1 == s2
    E.check(got is truth, f"{k1} ({w1}) == {k2} ({w2}) is {got}")
    E.check((s2 == s1) is truth and (s1 != s2) is not truth, "equality not symmetric")
    if truth:
        E.cover("equal")
        E.check(s1.to_jsonable() == s2.to_jsonable(), "equal strategies dumped differently")
        try:
            h = hash(s1)
        except TypeError:
            pass
        else:
            E.check(h == hash(s2), "equal strategies with other hashes")
    else:
        E.cover("unequal")
    for s in (s1, s2):
        b = strategy_from_dict(document(s.to_jsonable()))
        E.check(b == s and s == b, f"{k1} ({w1}), {k2} ({w2}): one is not equal to what its dump gives")


def _defaults(k):
    d = dict(zip(FLAGS, (False, True, True, True)))
    if k == "product":
        d = dict(zip(FLAGS, (False, True, True, True)))
    s = KINDS_OF[k]()
    return {f: getattr(s, f) for f in FLAGS}


def h_verified(E):
    """The strategy standing for classes verified already."""
    names = [("c", i) for i in range(3)]
    sets = []
    for tag in "ab":
        sets.append([G(e) for e in names if bool(E.bool(f"{tag}{e[1]}"))])
    a, b = (AlreadyVerified(s if not bool(E.bool("reversed")) else s[::-1]) for s in sets)
    back = strategy_from_dict(dumped(a))
    same = set(sets[0]) == set(sets[1])
    E.check((a == b) is same and (b == a) is same, f"{sets[0]} {sets[1]}: equality is {a == b}")
    E.check(back == a and a == back, "not equal to the one dumped")
    E.check(all(back.verified(G(e)) == a.verified(G(e)) for e in names), "verifies other classes")
    E.cover("equal" if same else "unequal")


# ---------------------------------------------------------------------------
# bijections


class DataConstructor(DisjointUnion):
    """Equivalent to others of its kind, with something to remember."""

    def equiv(self, other, data=None):
        res, _ = super().equiv(other, data)
        return res, [len(self.extra_parameters), {"a": 1}]


class DataUnion(gr.DefUnion):
    def constructor(self, comb_class, children=None):
        if children is None:
            children = self.decomposition_function(comb_class)
        return DataConstructor(comb_class, children, self.extra_parameters(comb_class, children))


def h_bijection(E, menus, N, starts=None, **ukw):
    U = Universe(E, **ukw)
    specs = []
    for side in "AB":
        css = c12.pick_searcher(E, U, side, menus, ("default", "forest"),
                                starts=(0, 1) if starts is None else (starts["AB".index(side)],))
        try:
            specs.append(css.auto_search())
        except SpecificationNotFound:
            return
    bij = Bijection.construct(*specs)
    if bij is None:
        E.cover("none")
        return
    E.cover("bijection")
    pairs = list(getattr(bij, "_get_order", ()))
    if any(len({c2 for c1, c2 in pairs if c1 == c}) > 1 for c, _ in pairs):
        E.cover("class with two partners")
    back = Bijection.from_dict(dumped(bij))
    E.check(back.domain == bij.domain and back.codomain == bij.codomain, "between other specifications")
    c12.check_maps(E, U, back, specs[0].root, specs[1].root, N, "bijection loaded")
    for n in range(N + 1):
        for o in c12.objects(U, specs[0].root, n):
            E.check(back.map(o) == bij.map(o), f"{o} goes to {back.map(o)}, originally {bij.map(o)}")
            E.cover("mapped")
        for o in c12.objects(U, specs[1].root, n):
            E.check(back.inverse_map(o) == bij.inverse_map(o),
                    f"{o} comes from {back.inverse_map(o)}, originally {bij.inverse_map(o)}")


c12.MENUS["data"] = [
    ([DataUnion("d"), gr.DefUnion()], ("e0",)),
    (gr.DefProd(), ("initial",)),
    ([gr.ToCopy(0, core=False), gr.ToCopy(0, pos=1, empties=1)], ("absent", "inferral", "initial")),
    (gr.FromCopy(0), ("initial",)),
]


def harnesses(tier):
    hs = [
        # the same class twice in the one, two classes in the other
        Harness(name="bijection-shared", fn=h_bijection, relational=False, weight=4,
                params=dict(menus=("shapes", "plain"), N=3, n=5, kinds=(), starts=(0, 1),
                            targets=(2, 3, 4),
                            force={0: ("prod",), 1: ("prod",), 2: ("ueps", "uatom"),
                                   3: ("ueps", "uatom"), 4: ("cons", "cons2")},
                            picks={(0, "l"): (2,), (0, "r"): (2,), (1, "l"): (2, 3), (1, "r"): (3,),
                                   (2, "r"): (4,), (3, "r"): (4,)}),
                covers=("bijection", "mapped", "class with two partners"),
                bounds={"classes": 5, "sizes": 3}),
        Harness(name="bijection", fn=h_bijection, relational=False, weight=4,
                params=dict(menus=("shapes", "paths", "choices"), N=3, n=3, kinds=c12.KINDS),
                covers=("bijection", "mapped"), bounds={"classes": 3, "sizes": 3}),
        Harness(name="bijection-data", fn=h_bijection, relational=False, weight=2,
                params=dict(menus=("data", "fold"), N=3, n=3, kinds=c12.KINDS),
                covers=("bijection", "mapped"), bounds={"classes": 3, "sizes": 3}),
        Harness(name="equality", fn=h_equality, relational=True, weight=5, covers=("equal", "unequal"),
                bounds={"kinds": list(KINDS_OF), "ways of making": WAYS, "integer settings": "unbounded"}),
        Harness(name="pack", fn=h_pack, weight=2, covers=("pack",), bounds={"menus": MENUS}),
        Harness(name="already-verified", fn=h_verified, covers=("equal", "unequal"),
                bounds={"classes": 3}),
    ]
    for name, w, params in configurations(tier):
        p = dict(params)
        p["N"] = min(p["N"], 3)
        covers = ["specification"]
        if "hidden" in name:
            covers.append("ReverseRule")
        hs.append(Harness(
            name=f"spec-{name}", fn=h_spec, weight=w, relational=False, params=p, replay_every=4,
            covers=tuple(covers),
            bounds={"classes": p["n"], "sizes": p["N"], "opaque counts": "at most 2 where objects "
                    "are generated", "productions": str(p["kinds"]), "statistics": p.get("nlat", 0)},
        ))
    return hs
