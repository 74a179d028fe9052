"""C19: expanding the verified classes of a specification."""
from itertools import chain

from symex import grammar as gr
from symex.combi import check_terms
from symex.env import CLOCK, RANDOM
from symex.grammar import (
    CopySymmetry,
    DefProd,
    DefUnion,
    Flatten,
    FromCopy,
    Parents,
    ToCopy,
    Universe,
    VerifySome,
    base_verification,
    build_pack,
)
from symex.run import Harness

from checks.c01 import ASSUMPTIONS as A1
from checks.c01 import CountingClock, DBS, check_counts, cover_forms, make_db, menu, start_class
from checks.c02 import check_spec, involved_rules
from checks.c07 import compare

from comb_spec_searcher import CombinatorialSpecificationSearcher, StrategyPack
from comb_spec_searcher.exception import InvalidOperationError, SpecificationNotFound
from comb_spec_searcher.rule_db import RuleDBForest
from comb_spec_searcher.strategies.rule import EquivalencePathRule, VerificationRule

BUDGET = {"quick": 100, "thorough": 700}

ASSUMPTIONS = A1 + [
    "which classes are verified, and by which of the strategies, is symbolic; the pack a strategy "
    "offers does not verify the class it is offered for",
    "an expansion may end in SpecificationNotFound only if the pack offered for one of the "
    "classes does not specify that class, even with reverse rules and everything expanded",
    "a specification without a verified class offering a pack may be returned as it is",
]

OFFERS = []  # (class, strategy) whose pack was asked for


class VerifyWith(VerifySome):
    """Verifies classes, offering a pack."""

    def __init__(self, tag="v", kind="basic", own=True, ignore_parent=True):
        super().__init__(tag, own, True, ignore_parent)
        self.kind = kind

    def to_jsonable(self):
        d = super().to_jsonable()
        d.pop("packed")
        return d

    def verified(self, comb_class):
        if self.tag == "n" and comb_class in [c for c, s in OFFERS if s.kind == "nested"]:
            return False
        return super().verified(comb_class)

    def get_terms(self, comb_class, n):
        if self.own is None:
            raise NotImplementedError("not known for verified classes")
        return super().get_terms(comb_class, n)

    def pack(self, comb_class):
        OFFERS.append((comb_class, self))
        return offered(self.kind)


def offered(kind):
    backs = [FromCopy(a) for a in (0, 1, 3, 7)]
    ver = base_verification()
    if kind == "basic":
        return gr.basic_pack("basic")
    if kind == "copies":
        return StrategyPack([DefProd()] + backs, [ToCopy(1)], [[DefUnion(), Flatten(0)]], ver, "copies")
    if kind == "empties":
        return StrategyPack([DefProd(), ToCopy(2, pos=1, empties=1)], [], [[DefUnion()], backs + [FromCopy(2)]],
                            ver, "empties")
    if kind == "nested":
        return StrategyPack([DefProd()], [], [[DefUnion()] + backs],
                            ver + [VerifyWith("n", "basic")], "nested")
    if kind == "factory":
        return StrategyPack(backs, [], [[Parents("own")], [Parents("parents")]], ver, "factory")
    if kind == "symmetric":
        return StrategyPack([DefProd()], [], [[DefUnion()] + backs], ver, "symmetric",
                            symmetries=[CopySymmetry(7)])
    if kind == "reverse":  # what the class itself is, is not always known
        return StrategyPack([Parents("parents")] + backs, [], [[DefProd(), DefUnion()]],
                            ver + [VerifySome("p", packed=False)], "reverse")
    raise ValueError(kind)


def offers_pack(rule):
    try:
        rule.strategy.pack(rule.comb_class)
    except InvalidOperationError:
        return False
    return True


def left(spec):
    return [c for c, r in spec.rules_dict.items()
            if isinstance(r, VerificationRule) and offers_pack(r)]


def rule_ids(spec):
    return {id(x): x for r in spec.rules_dict.values() for x in involved_rules(r)}


def outcome(f):
    try:
        return ("value", f())
    except NotImplementedError:
        return ("raises", NotImplementedError)


def counts(spec, N):
    return [outcome(lambda: spec.get_terms(n)) for n in range(N + 1)]


def describe(spec):
    """What can be seen of a specification."""
    return (
        [(c, type(r), r.strategy, r.comb_class, r.children,
          [(x.comb_class, x.children) for x in involved_rules(r)])
         for c, r in spec.rules_dict.items()],
        spec.root,
        [(c, spec.get_label(c)) for c in spec.rules_dict],
    )


def specifiable(cls, pack):
    css = CombinatorialSpecificationSearcher(cls, pack, ruledb=RuleDBForest(reverse=True), expand_verified=True)
    try:
        css.auto_search()
    except SpecificationNotFound:
        return False
    return True


def check_result(E, U, css, orig, new, N, done=True):
    packs = [css.strategy_pack] + [offered(s.kind) for _, s in OFFERS]
    packs += [offered("basic")] if any(s.kind == "nested" for _, s in OFFERS) else []
    strategies = list(chain.from_iterable(packs))
    check_spec(E, css, strategies, new)
    if done:
        E.check(not left(new), f"{left(new)} still offer a pack")
    ids = rule_ids(orig)
    for i, x in rule_ids(new).items():
        E.check(i not in ids, f"the rule {x.comb_class} -> {x.children} is shared with the original")
    if not any(getattr(new.rules_dict[c].strategy, "own", True) is None for c in left(new)):
        check_counts(E, U, new, css.start_class, N, "expanded specification")


def h_expand(E, kind, menu_name, packs, N, sym=False, lean=True, own=(True,), objects=False,
             start=None, how=("expand_verified", "class", "label"), verified=(), **ukw):
    del OFFERS[:]
    U = Universe(E, **ukw)
    for tag, i in verified:
        if tag[0] == "!":
            E.assume(not U.flag(f"{tag[1:]}er_c{i}", (False, True)))
            continue
        E.assume(U.flag(f"{tag}er_c{i}", (False, True)))
        E.assume(U.min_size(("c", i)) < gr.INF)
    CLOCK.hook = CountingClock()
    ver = [
        VerifyWith(tag, E.choose(f"pack {tag}", packs), E.choose(f"own {tag}", own))
        for tag in ("v", "w")
    ]
    if "reverse" in packs:
        ver.append(VerifySome("p", packed=False))
    pack = build_pack(U, menu(menu_name), ver=ver, symmetries=[CopySymmetry(7)] if sym else [])
    css = CombinatorialSpecificationSearcher(
        start_class(E, U) if start is None else gr.G(("c", start)), pack, ruledb=make_db(kind),
        expand_verified=bool(E.choose("expand_verified", (False, True))),
    )
    try:
        if lean:
            RANDOM.script = ([], [])
        orig = css.auto_search(smallest=lean and kind == "default")
        RANDOM.script = None
    except SpecificationNotFound:
        return
    todo = left(orig)
    if not todo:
        E.cover("nothing to expand")
        return
    if len(todo) > 1:
        E.cover("several verified classes")
    for r in orig.rules_dict.values():
        if isinstance(r, EquivalencePathRule):
            E.cover("paths")
            if r.children[0] in todo:
                E.cover("path to a verified class")
            if len(r.rules) > 1:
                E.cover("long path")
    if orig.root in todo:
        E.cover("verified root")
    before = describe(orig)
    ids = {id(r): r for r in orig.rules_dict.values()}
    first = E.choose("counted before", (False, True))
    known = counts(orig, N) if first else None
    mode = E.choose("how", how)
    del OFFERS[:]
    try:
        if mode == "expand_verified":
            new = orig.expand_verified()
        else:
            cls = todo[0] if E.choose("which", (0, 1)) == 0 else todo[-1]
            strategy = orig.rules_dict[cls].strategy
            new = orig.expand_comb_class(
                cls if mode == "class" else orig.get_label(cls), strategy.pack(cls),
                reverse=bool(E.choose("reverse", (False, True))),
                continue_expanding_verified=bool(E.choose("continue", (False, True))),
            )
            E.check(not any(
                c == cls and isinstance(r, VerificationRule) and r.strategy == strategy
                for c, r in new.rules_dict.items()), f"{cls} is still verified")
    except SpecificationNotFound:
        new = None
        if mode == "expand_verified":
            asked = {(c, s.kind) for c, s in OFFERS}
            E.check(
                not all(specifiable(c, offered(k)) for c, k in asked),
                f"no specification although each of {[c for c, _ in asked]} has one",
            )
        E.cover("not expanded")
    if new is not None:
        E.cover("expanded")
        cover_forms(E, new)
        for r in new.rules_dict.values():
            for x in involved_rules(r):
                E.cover(type(x).__name__)
        check_result(E, U, css, orig, new, N, mode == "expand_verified")
        if objects:
            for n in range(N + 1):
                compare(E, new.root_rule.get_objects(n), U.project_objects(css.start_class, n),
                        f"objects of size {n} of the expanded specification")
    # the original: as it was
    E.check(describe(orig) == before, "the original specification changed")
    E.check({id(r) for r in orig.rules_dict.values()} == set(ids), "rules of the original replaced")
    after = counts(orig, N)
    if first:
        E.check([k for k, _ in after] == [k for k, _ in known], "what the original counts changed")
    if any(not s.own for s in ver):
        E.cover("uncountable original")
    for n, (k, v) in enumerate(after):
        if k == "value":
            check_original(E, U, css, v, n)
        else:
            E.check(any(not s.own for s in ver), "the original cannot count any more")
    if objects and all(s.own for s in ver):
        for n in range(N + 1):
            compare(E, orig.root_rule.get_objects(n), U.project_objects(css.start_class, n),
                    f"objects of size {n} of the original")


def check_original(E, U, css, terms, n):
    check_terms(E, terms, U.project(css.start_class, n), f"original specification, size {n}")


KINDS = ("union", "cons", "prod", "atom", "eps", "opaque", "cons2", "snoc", "ueps", "empty")
PACKS = ("basic", "copies", "empties", "nested", "factory", "symmetric")


def harnesses(tier):
    hs = []

    def add(name, weight=1.0, must=("expanded",), **p):
        p.setdefault("n", 3)
        p.setdefault("N", 3)
        p.setdefault("kinds", KINDS)
        p.setdefault("packs", PACKS)
        hs.append(Harness(
            name=name, fn=h_expand, weight=weight, relational=False, params=p, covers=must,
            bounds={"classes": p["n"], "sizes": p["N"], "productions": str(p["kinds"]),
                    "packs offered": str(p["packs"]), "database": p["kind"]},
        ))

    two = {"force": {0: ("union", "cons2", "prod", "sum3")},
           "picks": {(0, "l"): (1,), (0, "r"): (2,), (0, "m"): (1, 2)}}
    several = {
        **two,
        "force": {**two["force"], 1: ("cons", "cons2", "snoc", "ueps"), 2: ("cons", "cons2", "snoc")},
        "verified": (("v", 1), ("w", 2), ("!v", 0), ("!w", 0)),
    }
    single = {"force": {0: ("union", "cons", "cons2", "prod", "ueps"), 2: ("cons", "eps", "atom", "opaque")},
              "picks": {(0, "l"): (1,), (0, "r"): (1, 2)}, "verified": (("v", 1),)}
    for kind in DBS:
        for m in ("copies", "empties", "mixed") if kind in ("forget", "forest") else (
            "basic", "copies", "flatten", "empties", "mixed",
        ):
            must = ("expanded",) + (("path to a verified class",) if m == "copies" else ())
            add(f"{kind}-{m}", kind=kind, menu_name=m, must=must, **single)
    for kind, m in (("default", "basic"), ("forest", "copies"), ("default", "flatten"),
                    ("forest-reverse", "mixed")):
        add(f"several-{kind}", kind=kind, menu_name=m, must=("expanded", "several verified classes"), **several)
    add("any", kind="default", menu_name="basic")
    add("small", kind="default", menu_name="basic", n=2, weight=8, kinds=("union", "atom", "eps"),
        packs=("basic",))
    add("any-copies", kind="default", menu_name="copies", must=("expanded", "path to a verified class"))
    add("root", kind="default", menu_name="copies", verified=(("v", 0),), must=("expanded", "verified root"))
    add("reverse", kind="forest-reverse", menu_name="basic", packs=("reverse", "basic"), n=4,
        partial=True, weight=2, **several)
    add("reverse-any", kind="forest-reverse", menu_name="basic", packs=("reverse", "basic"), n=4, partial=True)
    add("symmetries", kind="default", menu_name="copies", sym=True, **single)
    add("statistics", kind="default", menu_name="copies", nlat=1, schemes=(0, 1),
        kinds=("union", "cons", "opaque", "atom", "prod", "eps"), drops=(False, True), **single)
    add("objects", kind="default", menu_name="copies", objects=True,
        **{**single, "force": {0: ("union", "cons", "cons2", "prod", "ueps"), 2: ("cons", "eps", "atom")}},
        kinds=tuple(k for k in KINDS if k != "opaque"))
    add("uncountable", kind="default", menu_name="copies", own=(True, None), **several)
    add("of the pack", kind="default", menu_name="copies", own=(True, False), **several)
    add("free", kind="default", menu_name="basic", lean=False, n=2)
    return hs
