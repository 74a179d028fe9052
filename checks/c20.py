"""C20: equations and generating functions agree with the true enumeration."""
import sympy

from symex import env  # noqa: F401
from symex import grammar as gr
from symex import series
from symex.engine import simplies
from symex.grammar import Universe
from symex.run import Harness

from checks.c01 import ASSUMPTIONS as A1
from checks.c01 import configurations, cover_forms, search
from checks.c02 import involved_rules
from checks.forms import chain, product_rule, union_rule

from comb_spec_searcher.exception import IncorrectGeneratingFunctionError, TaylorExpansionError
from comb_spec_searcher.strategies.rule import (
    EquivalencePathRule,
    EquivalenceRule,
    ReverseRule,
    VerificationRule,
)
from comb_spec_searcher.utils import taylor_expand

ASSUMPTIONS = A1 + [
    "sympy's own algebra (substitution, Eq, solve, series) is trusted and run concretely; the "
    "coefficients of the series put into an equation are the symbolic values",
    "an equation with a quotient is compared after multiplying out the denominators",
]


# ---------------------------------------------------------------------------
# one rule on symbolic tables


def table_function(cls):
    x = sympy.Symbol("x")
    return sympy.Function("F_" + cls.name)(x, *map(sympy.Symbol, cls.extra_parameters))


def check_rule(E, rule, classes, N, what):
    """The rule's equation with the tables for the functions."""
    table = {"F_" + c.name: c for c in classes}
    ev = series.Evaluator(lambda name, n: table[name].get_terms(n), {}, N)
    try:
        eq = rule.get_equation(table_function)
    except NotImplementedError:
        # not offered by these; specifications have them as paths
        if not (isinstance(rule, EquivalenceRule) and isinstance(rule.original_rule, ReverseRule)):
            E.fail(f"{what}: no equation")
        E.cover("no equation")
        return
    try:
        series.compare(E, ev, eq, what)
    except series.Unsupported as e:
        E.fail(f"{what}: {eq} is no equation between series of the classes ({e})")
    free = eq.free_symbols if hasattr(eq, "free_symbols") else set()
    known = {sympy.Symbol("x")} | set(map(sympy.Symbol, rule.comb_class.extra_parameters))
    if hasattr(rule, "original_rule"):
        known |= set(map(sympy.Symbol, rule.original_rule.comb_class.extra_parameters))
    E.check(free <= known | {sympy.Symbol(p) for c in rule.children for p in c.extra_parameters},
            f"{what}: {eq} has unknown variables")
    E.cover("equation")


def reversible(rule, idx):
    """Reverse rules need to know all the statistics of the child counted."""
    m = rule.strategy.maps[idx]
    child = rule.children[idx]
    return len(set(m.values())) == len(m) and set(m.values()) == set(child.extra_parameters)


# names which mean something else to sympy
SPECIAL = {"k0": "E", "k1": "I", "c0": "S", "c1": "pi"}


def rename(E, rule):
    if not E.choose("special names", (False, True)):
        return
    seen = []
    for c in (rule.comb_class, *rule.children):
        if not any(c is d for d in seen):
            seen.append(c)
            c.params = tuple(SPECIAL[p] for p in c.params)
            c.min_vals = {SPECIAL[p]: v for p, v in c.min_vals.items()}
    rule.strategy.maps = tuple(
        {SPECIAL[p]: SPECIAL[c] for p, c in m.items()} for m in rule.strategy.maps
    )


def h_union(E, count, stats, cstats, val, N):
    sizes = range(N + 1)
    rule = union_rule(E, count, stats, cstats, val, sizes, same=True)
    rename(E, rule)
    classes = (rule.comb_class, *rule.children)
    check_rule(E, rule, classes, N, "union")
    for i in range(len(rule.children)):
        if reversible(rule, i):
            check_rule(E, rule.to_reverse_rule(i), classes, N, f"complement {i}")
            E.cover("reverse")


def h_product(E, count, stats, cstats, val, N, mins, hi=None):
    sizes = range(N + 1)
    rule = product_rule(
        E, count, stats, cstats, val, sizes, mins, True, hi=hi, exact_min=False, same=True
    )
    rename(E, rule)
    classes = (rule.comb_class, *rule.children)
    check_rule(E, rule, classes, N, "product")
    for i in range(len(rule.children)):
        if reversible(rule, i):
            check_rule(E, rule.to_reverse_rule(i), classes, N, f"quotient {i}")
            E.cover("reverse")


def h_chain(E, length, nlat, stats, val, N, kinds):
    sizes = range(N + 1)
    classes, rules = chain(E, length, nlat, stats, val, sizes, kinds)
    for c in classes:
        c.table = dict(c.table)
    every = list(classes)
    for r in rules:
        every += [c for c in r.children if c not in every]
        orig = getattr(r, "original_rule", None)
        while orig is not None:
            every += [c for c in orig.children if c not in every]
            orig = getattr(orig, "original_rule", None)
    for r in rules:
        check_rule(E, r, every, N, type(r).__name__)
        E.cover(type(r).__name__)
    try:
        path = EquivalencePathRule(rules)
        path.constructor
    except NotImplementedError:
        E.fail("a path of supported equivalences has no constructor")
    check_rule(E, path, every, N, "path")


# ---------------------------------------------------------------------------
# whole specifications


def h_spec(E, kind, menu_name, N, sym=False, ver=False, **ukw):
    U = Universe(E, **ukw)
    U.order = N
    U.genf_forms = True
    gr.COEFFS.clear()
    css, spec = search(E, U, kind, menu_name, sym, ver, options=menu_name in ("copies", "unary"))
    if spec is None:
        return
    cover_forms(E, spec)
    check_spec(E, U, spec, N)


def check_spec(E, U, spec, N):
    def terms(name, n):
        assert name.startswith("F_")
        return U.project(spec.get_comb_class(int(name[2:])), n)

    ev = series.Evaluator(terms, gr.COEFFS, N)
    lhs = []
    for eq in spec.get_equations():
        if eq.rhs.func.__name__ == "NOTIMPLEMENTED" if hasattr(eq, "rhs") else False:
            E.fail(f"no equation for {eq.lhs}")
        try:
            series.compare(E, ev, eq, "specification")
        except series.Unsupported as e:
            E.fail(f"{eq} is no equation between series of the classes ({e})")
        if hasattr(eq, "lhs"):
            lhs.append(eq.lhs)
        E.cover("equation")
    for r in spec.rules_dict.values():
        if not isinstance(r, VerificationRule):
            E.cover(type(r).__name__)
            if r.comb_class.extra_parameters:
                E.cover("statistics")


def h_genf(E, N, check=6, **ukw):
    """Closed forms: the universe is made concrete, the counts go to size N."""
    U = Universe(E, **ukw)
    gr.COEFFS.clear()
    css, spec = search(E, U, "base", "basic", options=False)
    if spec is None:
        return
    try:
        genf = spec.get_genf()
    except (IncorrectGeneratingFunctionError, NotImplementedError):
        E.cover("no closed form")
        return
    try:
        got = taylor_expand(genf, N)
    except TaylorExpansionError:
        E.cover("not expanded")  # by sympy, to this order
        return
    for n in range(N + 1):
        e = int(U.project(css.start_class, n).get((), 0))
        same = got[n] == e or abs(sympy.N(got[n] - e, 30)) < 1e-15
        E.check(bool(same), f"{genf}: coefficient {got[n]} of x^{n}, there are {e} objects")
    E.cover("closed form")


def harnesses(tier):
    hs = []

    def add(name, fn, covers=("equation",), weight=1.0, **params):
        hs.append(Harness(name=name, fn=fn, weight=weight, relational=False, covers=covers,
                          bounds={k: str(v) for k, v in params.items()}, params=params))

    B = ("equation", "reverse")
    add("union-plain", h_union, B, count=3, stats=0, cstats=0, val=0, N=3)
    add("union-2", h_union, B, count=2, stats=2, cstats=2, val=1, N=1)
    add("union-3", h_union, B, count=3, stats=1, cstats=1, val=1, N=1)
    add("product-plain", h_product, B, count=3, stats=0, cstats=0, val=0, N=3, mins=(0, 1, 2))
    add("product-2", h_product, B, count=2, stats=2, cstats=2, val=1, N=1, mins=(0, 1))
    add("product-2-sizes", h_product, B, count=2, stats=1, cstats=1, val=2, N=2, mins=(0, 1))
    add("product-3", h_product, B, count=3, stats=1, cstats=1, val=1, N=1, mins=(0, 1))
    for kinds in (("union",), ("union", "product")):
        for length in (1, 2, 3):
            add(f"chain-{length}-{kinds[-1]}", h_chain, length=length, nlat=2, stats=2, val=1, N=1,
                kinds=kinds, weight=0.7)
    for name, w, params in configurations(tier):
        if params["kind"] == "forget":
            continue
        hs.append(Harness(
            name="spec-" + name, fn=h_spec, weight=0.5 * w, relational=False, params=dict(params),
            covers=("equation",), path_limit_s=30,
            bounds={"classes": params["n"], "order": params["N"], "opaque counts": "unbounded",
                    "productions": str(params["kinds"]), "statistics": params.get("nlat", 0)},
        ))
    C = ("closed form",)
    K = ("union", "cons", "opaque", "atom", "eps", "prod", "cons2", "empty", "ueps")
    add("genf", h_genf, C, weight=3, N=14, n=3, kinds=K, hi=2, concrete=True)
    # the start class has no object of a size used to select the solution
    G = {0: ("prod",), 1: ("opaque",)}
    for name, n, rest in (
        ("cubic", 4, {2: ("uatom",), 3: ("square", "cube")}),
        ("quadratic", 4, {2: ("ueps", "uatom"), 3: ("cons2",)}),
        ("rational", 4, {2: ("ueps", "uatom", "union"), 3: ("cons", "cons2", "atom", "opaque")}),
        ("system", 5, {2: ("uatom",), 3: ("square",), 4: ("cons2", "cons", "square")}),
    ):
        add(f"genf-gap-{name}", h_genf, C, weight=6 if name == "cubic" else 2, N=14, n=n, hi=1, concrete=True,
            opaque_mins=(8,), opaque_sizes=1, kinds=(), force={**G, **rest},
            targets=tuple(range(2, n)))
    add("genf-algebraic", h_genf, C, weight=3, N=14, n=4, hi=1, concrete=True, opaque_sizes=1,
        kinds=("union", "cons2", "eps", "atom", "ueps", "prod", "cons"),
        force={0: ("union", "ueps", "cons2"), 1: ("union", "cons2")})
    return hs
