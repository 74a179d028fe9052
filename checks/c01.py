"""C01: the specification handed back counts the start class correctly."""
from symex import grammar as gr
from symex.combi import check_terms
from symex.grammar import (
    CopySymmetry,
    DefProd,
    DefUnion,
    EpsProduct,
    Flatten,
    FromCopy,
    Parents,
    ToCopy,
    UnaryProduct,
    Universe,
    VerifySome,
    build_pack,
)
from symex.env import CLOCK
from symex.run import Harness

from comb_spec_searcher import CombinatorialSpecificationSearcher
from comb_spec_searcher.exception import SpecificationNotFound
from comb_spec_searcher.rule_db import RuleDB, RuleDBForest, RuleDBForgetStrategy

BUDGET = {"quick": 100, "thorough": 700}

ASSUMPTIONS = [
    "the universe of classes is a grammar of at most `classes` nonterminals whose productions are "
    "symbolic, over atoms, the empty class, and opaque verified classes with symbolic counts; "
    "every strategy of the packs is genuine for it and the truth is computed from the grammar",
    "the shape of the universe, the pack and the options are symbolic choices (forked by the "
    "engine); counts of opaque classes are unbounded symbolic integers, so each verdict covers "
    "all of them; sizes are evaluated up to the stated bound",
]

DBS = ("default", "forget", "forest", "forest-reverse")


def make_db(kind):
    if kind == "default":
        return RuleDB()
    if kind == "forget":
        return RuleDBForgetStrategy()
    return RuleDBForest(reverse=kind == "forest-reverse")


def menu(name):
    base = [
        (DefUnion(), ("e0", "initial")),
        (DefProd(), ("initial", "e0")),
    ]
    if name == "basic":
        return base
    if name == "copies":
        return [
            (DefUnion(), ("e0",)),
            (DefProd(), ("initial",)),
            ([ToCopy(0), ToCopy(0, two_way=False)], ("initial", "e1", "inferral")),
            ([FromCopy(0), FromCopy(0, two_way=False)], ("initial", "absent")),
        ]
    if name == "empties":
        return [
            (DefUnion(), ("e0",)),
            (DefProd(), ("initial",)),
            ([ToCopy(0, pos=0, empties=1), ToCopy(0, pos=1, empties=1),
              ToCopy(0, pos=1, empties=2)], ("initial", "e1", "inferral")),
            (FromCopy(0), ("absent", "initial")),
        ]
    if name == "unproductive":
        return base + [
            ([EpsProduct(), EpsProduct(first=False), EpsProduct(3), EpsProduct(3, False)],
             ("initial", "e0")),
            ([UnaryProduct(3), FromCopy(3)], ("absent", "e1", "initial")),
        ]
    if name == "unary":
        return base + [
            (UnaryProduct(3), ("initial", "e1", "inferral")),
            (FromCopy(3), ("absent", "e0")),
        ]
    if name == "cautious":
        return [
            ([gr.Cautious(ignore_parent=False), gr.Cautious(less=2, ignore_parent=False)],
             ("initial", "e0")),
            (DefUnion(), ("e0", "initial")),
            (DefProd(), ("initial", "e0")),
            (FromCopy(0), ("absent", "e1")),
        ]
    if name == "fold":
        return [
            ([gr.Fold(), gr.Fold(upside=True)], ("initial", "e0")),
            (DefUnion(), ("e0", "initial")),
            (DefProd(), ("initial", "e0")),
            (ToCopy(0), ("absent", "e1", "inferral")),
        ]
    if name == "flatten":
        return base + [
            ([Flatten(0), Flatten(1)], ("initial", "e1")),
            (DefProd("q", swap=True), ("absent", "e1")),
        ]
    if name == "factories":
        return [
            ([Parents("strategies"), Parents("own")], ("initial", "e0")),
            (Parents("parents"), ("absent", "initial", "e1")),
            (ToCopy(0), ("absent", "initial", "e1")),
        ]
    if name == "cousins":
        return [
            ([Parents("cousins"), Parents("own")], ("initial", "e0")),
            ([Parents("parents"), Parents("cousins")], ("absent", "e1")),
            (ToCopy(0), ("absent", "initial", "e1")),
        ]
    if name == "oneway":
        return [
            (DefUnion(), ("e0",)),
            (DefProd(), ("initial",)),
            ([ToCopy(0, two_way=False), FromCopy(0, two_way=False)], ("initial", "e0")),
            (ToCopy(0), ("e1", "inferral", "initial")),
            (FromCopy(0), ("absent", "e0")),
        ]
    if name == "reverse":
        return [
            (Parents("parents"), ("initial",)),
            ([Parents("own"), DefUnion()], ("absent", "e0")),
            (DefProd(), ("absent", "e1")),
            ([ToCopy(0), ToCopy(0, pos=1, empties=1), UnaryProduct(3)], ("absent", "e1", "inferral")),
        ]
    if name == "hidden":
        return [
            ([Parents("parents")], ("initial",)),
            (DefUnion(), ("absent", "e0")),
            (DefProd(), ("absent", "e0")),
            (ToCopy(0), ("absent", "initial", "e1")),
        ]
    if name == "flags":
        return [
            ([DefUnion(), DefUnion(ignore_parent=True), DefUnion(inferrable=False),
              DefUnion(workable=False), DefUnion(ignore_parent=True, workable=False)],
             ("e0", "initial", "inferral")),
            ([DefProd(), DefProd(ignore_parent=False), DefProd(inferrable=False),
              DefProd(workable=False)], ("initial", "e0")),
            ([ToCopy(0), ToCopy(0, ignore_parent=True), ToCopy(0, inferrable=False),
              ToCopy(0, workable=False, pos=1, empties=1)], ("inferral", "e1")),
            ([FromCopy(0), ToCopy(1), ToCopy(1, core=False)], ("absent", "inferral", "initial")),
        ]
    if name == "mixed":
        return [
            ([gr.Mixed(0), gr.Mixed(1)], ("initial", "e0", "inferral")),
            ([DefUnion(), Parents("own"), Parents("parents")], ("e0", "initial")),
            ([ToCopy(1), ToCopy(1, core=False), UnaryProduct(3)], ("absent", "inferral", "e1")),
        ]
    raise ValueError(name)


class CountingClock:
    """Every look at the clock takes one second."""

    def __init__(self):
        self.t = 0

    def __call__(self):
        self.t += 1
        return self.t


def searcher(E, U, kind, menu_name, sym=False, ver=False, options=True, db=None):
    vers = [gr.VerFactory() if ver == "factory" else VerifySome(own=True)] if ver else []
    pack = build_pack(
        U, menu(menu_name), ver=vers,
        symmetries=[CopySymmetry(7)] if sym else [],
        iterative=options and kind == "default" and E.choose("iterative", (False, True)),
    )
    start = start_class(E, U, last=menu_name in ("reverse", "hidden"))
    css = CombinatorialSpecificationSearcher(
        start, pack, ruledb=make_db(kind) if db is None else db,
        expand_verified=bool(options and ver and E.choose("expand_verified", (False, True))),
    )
    return css, pack


def search(E, U, kind, menu_name, sym=False, ver=False, options=True, db=None):
    """Run the search; the specification or None."""
    CLOCK.hook = CountingClock()
    css, pack = searcher(E, U, kind, menu_name, sym, ver, options, db)
    smallest = kind == "default" and options and E.choose("smallest", (False, True))
    if pack.iterative:
        smallest = False
    E.cover("search")
    steps_before_look(E, css) if options else None
    try:
        spec = css.auto_search(
            smallest=bool(smallest), perc=E.choose("perc", (1, 100)) if options else 1,
            status_update=E.choose("status_update", (None, 1)) if options else None,
        )
    except SpecificationNotFound:
        E.cover("not found")
        return css, None
    E.cover("found")
    return css, spec


def steps_before_look(E, css):
    """Expand some work packets before the first look for a specification."""
    k = E.choose("steps", (0, 1, 2, 4, 100))
    it = iter(css.classqueue)
    for _ in range(k):
        try:
            label, strategies, inferral = next(it)
        except StopIteration:
            return
        if css.expand_verified or not css.ruledb.is_verified(label):
            expand(css, label, strategies, inferral)


def expand(css, label, strategies, inferral):
    """Let the searcher do one packet of work, whatever its own method is called."""
    if hasattr(css, "_expand"):
        css._expand(css.classdb.get_class(label), label, strategies, inferral)
        return
    css.classqueue.do_level = lambda: iter([(label, strategies, inferral)])
    try:
        css.do_level()
    finally:
        del css.classqueue.do_level


def start_class(E, U, last=False):
    i = U.n - 1 if last else 0
    if U.nlat == 0:
        return gr.G(("c", i))
    opts = [((f"k{l}", l),) for l in range(U.nlat)]
    if U.nlat > 1:
        opts.append((("k0", 0), ("k1", 1)))
    opts.append((("k0", 0), ("d0", 0)))
    return gr.G(("c", i), E.choose("start", opts))


def check_counts(E, U, spec, cls, N, what="specification"):
    first = E.choose("first size", (0, N))
    for n in [first] + list(range(N + 1)):
        check_terms(E, spec.get_terms(n), U.project(cls, n), f"{what}, size {n}")
    for v, c in U.project(cls, N).items():
        E.check(
            spec.count_objects_of_size(N, **dict(zip(cls.extra_parameters, v))) == c,
            f"{what}: count_objects_of_size at {N}, {v}",
        )


def cover_forms(E, spec):
    if spec.number_of_rules() > 4:
        E.cover("more than four rules")
    for rule in spec:
        E.cover(type(rule).__name__)
        for r in getattr(rule, "rules", ()):
            E.cover("path of " + type(r).__name__)


def h_search(E, kind, menu_name, N, sym=False, ver=False, **ukw):
    U = Universe(E, **ukw)
    css, spec = search(E, U, kind, menu_name, sym, ver)
    if spec is None:
        return
    cover_forms(E, spec)
    check_counts(E, U, spec, css.start_class, N)


KINDS = ("union", "cons", "opaque", "atom", "eps", "prod", "cons2", "empty", "ueps", "snoc")


def configurations(tier):
    """(name, weight, parameters) of the searches, shared with C02."""
    res = []
    for kind in DBS:
        for m in ("basic", "copies", "empties", "unproductive", "unary", "flatten", "factories",
                  "flags", "mixed", "cousins", "oneway", "cautious", "fold"):
            if m in ("unproductive", "cautious") and not kind.startswith("forest"):
                continue  # the other databases rely on strategies making progress
            res.append((f"{kind}-{m}", 1.0, dict(
                kind=kind, menu_name=m, n=3, kinds=KINDS, N=4,
                partial=m in ("copies", "empties", "unary", "fold"),
                **(dict(force={0: ("union", "sum3", "cons2", "prod"), 1: ("union", "sum3", "ueps")})
                   if m == "fold" else {}))))
        res.append((f"{kind}-small", 6.0, dict(
            kind=kind, menu_name="basic", n=2, N=4, kinds=("union", "cons", "atom", "eps"))))
        res.append((f"{kind}-stats", 1.5, dict(
            kind=kind, menu_name="copies", n=3, N=3, nlat=1, schemes=(0, 1),
            kinds=("union", "cons", "opaque", "atom", "prod", "eps"), drops=(False, True),
            opaque_sizes=1)))
        res.append((f"{kind}-stats-2", 1.0, dict(
            kind=kind, menu_name="empties", n=3, N=2, nlat=2, schemes=(0, 2),
            kinds=("union", "cons", "opaque", "atom"), drops=(False, True), opaque_sizes=1)))
        res.append((f"{kind}-foreign", 1.0, dict(
            kind=kind, menu_name="reverse", n=3, N=3, ver=True, partial=True,
            kinds=("union", "cons", "opaque", "prod", "atom", "cons2", "ueps"))))
        res.append((f"{kind}-foreign-stats", 1.0, dict(
            kind=kind, menu_name="reverse", n=2, N=2, ver=True, nlat=1, drops=(False, True),
            schemes=(0, 1), hi=2, opaque_sizes=1,
            kinds=("union", "cons", "opaque", "atom", "ueps"))))
        if kind == "forest-reverse":
            for nlat in (0, 1):
                res.append((f"{kind}-hidden" + ("-stats" if nlat else ""), 4.0, dict(
                    kind=kind, menu_name="hidden", n=3, N=2 if nlat else 3, ver=True,
                    nlat=nlat, drops=(False, True) if nlat else (False,),
                    schemes=(0, 1) if nlat else (0,), hi=2 if nlat else None,
                    opaque_sizes=1 if nlat else 2,
                    kinds=KINDS, force={0: ("union", "prod", "cons", "snoc"), 1: ("opaque", "union", "cons", "prod", "ueps"),
                           2: ("hidden", "opaque") if nlat else ("hidden",)})))
        res.append((f"{kind}-verified", 1.0, dict(
            kind=kind, menu_name="copies", n=3, N=4, kinds=KINDS, ver=True)))
        res.append((f"{kind}-verified-factory", 1.0, dict(
            kind=kind, menu_name="mixed", n=3, N=4, kinds=KINDS, ver="factory")))
        res.append((f"{kind}-symmetries", 1.0, dict(
            kind=kind, menu_name="basic", n=3, N=4, kinds=KINDS, sym=True, partial=True)))
    return res


def harnesses(tier):
    hs = []
    for name, w, params in configurations(tier):
        hs.append(Harness(
            name=name, fn=h_search, weight=w, relational=False, params=params,
            covers=("found", "ReverseRule") if "hidden" in name else ("found",),
            bounds={"classes": params["n"], "sizes": params["N"], "opaque counts": "unbounded",
                    "productions": str(params["kinds"]), "statistics": params.get("nlat", 0)},
        ))
    return hs
