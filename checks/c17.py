"""C17: a pickled or interrupted search resumes faithfully."""
import pickle
import sys

from symex import grammar as gr
from symex.env import CLOCK, RANDOM
from symex.grammar import Universe, build_pack
from symex.run import Harness

from checks.c01 import ASSUMPTIONS as A1
from checks.c01 import check_counts, configurations, expand, make_db, menu, start_class
from checks.c02 import check_spec

from comb_spec_searcher import CombinatorialSpecificationSearcher
from comb_spec_searcher.exception import (
    ExceededMaxtimeError,
    InvalidOperationError,
    NoMoreClassesToExpandError,
    SpecificationNotFound,
)
from comb_spec_searcher.rule_db import RuleDBForest

BUDGET = {"quick": 100, "thorough": 700}

ASSUMPTIONS = A1 + [
    "the clock advances with the number of strategies applied, so a time limit of t interrupts the "
    "search after the packet in which the t+1st strategy is applied; every t up to the end is a "
    "symbolic choice",
    "the work a search does is observed as the sequence of (strategy, class) applications",
]

LOG = []


def _logged(cls, name):
    fn = getattr(cls, name)

    def wrapper(self, comb_class, *args, **kwargs):
        LOG.append((repr(self), comb_class))
        return fn(self, comb_class, *args, **kwargs)

    wrapper.logged = True
    setattr(cls, name, wrapper)


for _cls in list(vars(gr).values()):
    if isinstance(_cls, type) and issubclass(_cls, gr._Base):
        for _n in ("decomposition_function", "verified", "__call__"):
            _f = vars(_cls).get(_n)
            if _f is not None and not hasattr(_f, "logged"):
                _logged(_cls, _n)


class WorkClock:
    """
    Time passes with the applications of strategies; looking for small trees
    among those found takes its time at once.
    """

    def __init__(self):
        self.extra = self.still = 0
        self.last = None

    def __call__(self):
        self.still = self.still + 1 if len(LOG) == self.last else 0
        self.last = len(LOG)
        if self.still >= 200 or sys._getframe(2).f_globals["__name__"].endswith("tree_searcher"):
            self.extra += 1000
            self.still = 0
        return len(LOG) + self.extra


def known_emptiness(classdb, label):
    infos = getattr(classdb, "label_to_info", None)
    return None if infos is None else infos[label].empty


def state(css):
    """Everything the search knows, without changing it (but for caches)."""
    db = css.ruledb
    classdb = css.classdb
    labels = list(classdb)
    res = {
        "classes": [(l, classdb.get_class(l), known_emptiness(classdb, l)) for l in labels],
        "verified": [db.is_verified(l) for l in labels],
        "tried": set(getattr(css, "tried_to_verify", ())),
        "symmetry expanded": set(getattr(css, "symmetry_expanded", ())),
        "inferral expanded": set(getattr(css, "inferral_expanded", ())),
        "start": css.start_label,
    }
    if isinstance(db, RuleDBForest):
        res["rules"] = list(getattr(db.table_method, "_rules", ()))
        res["function"] = dict(db.table_method.function)
    else:
        res["rules"] = set(db.rule_to_strategy)
        res["equivalences"] = set(db.eqv_rule_to_strategy)
        res["equivalent"] = [db.are_equivalent(a, b) for a in labels for b in labels]
    return res


def compare(E, a, b, what):
    for k in a:
        E.check(a[k] == b[k], f"{what}: {k} differ: {str(a[k])[:150]} / {str(b[k])[:150]}")


def build(E, U, kind, menu_name, sym, ver, expand_verified=False, cls=None, pack=None):
    if pack is None:
        vers = [gr.VerFactory() if ver == "factory" else gr.VerifySome(own=True)] if ver else []
        pack = build_pack(
            U, menu(menu_name), ver=vers, symmetries=[gr.CopySymmetry(7)] if sym else [],
            iterative=kind == "default" and E.choose("iterative", (False, True)),
        )
    css = (cls or Timed)(
        start_class(E, U, last=menu_name in ("reverse", "hidden")), pack,
        ruledb=make_db(kind), expand_verified=expand_verified,
    )
    if cls is None:
        css.look = E.choose("time to look for a specification", (0, 2, 5))
    return css


def run_until(css, t):
    """Search until t strategies have been applied; None when interrupted."""
    begin = len(LOG)
    try:
        return css.auto_search(max_expansion_time=t, perc=100)
    except ExceededMaxtimeError:
        return None
    except SpecificationNotFound:
        return "none"


def packets(css, k):
    """Expand k work packets, without a look for a specification."""
    it = iter(css.classqueue)
    for _ in range(k):
        try:
            label, strategies, inferral = next(it)
        except StopIteration:
            return
        if css.expand_verified or not css.ruledb.is_verified(label):
            expand(css, label, strategies, inferral)


CALLS = ("search", "level", "slice", "get")


def do_call(css, call, t):
    """(kind of answer, specification or None)"""
    try:
        if call == "search":
            return "found", css.auto_search()
        if call == "level":
            css.do_level()
            return "level", None
        if call == "slice":
            return "found", css.auto_search(max_expansion_time=t, perc=100)
        if call == "smallest":
            return "found", css.auto_search(smallest=True)
        return "found", css.get_specification()
    except (ExceededMaxtimeError, SpecificationNotFound, NoMoreClassesToExpandError,
            InvalidOperationError) as e:
        return type(e).__name__, None


def h_pickle(E, kind, menu_name, N, sym=False, ver=False, **ukw):
    U = Universe(E, **ukw)
    LOG.clear()
    CLOCK.hook = WorkClock()
    css = build(E, U, kind, menu_name, sym, ver, E.choose("expand_verified", (False, True)))
    k = E.choose("interrupted after", ("p2", 1, None, "p1", 0, "p4", 2, 3, "p8", 5, 8, "p100", 100))
    if k is None:
        E.cover("pickled before any step")
    elif isinstance(k, str):
        packets(css, int(k[1:]))
        E.cover("stopped after some packets")
    else:
        spec = run_until(css, k)
        E.cover({None: "interrupted", "none": "exhausted"}.get(spec if spec in (None, "none") else "", "after the end"))
        if kind != "forget" and len(LOG) > 3:
            E.cover("interrupted later")
    data = pickle.dumps(css)
    other = pickle.loads(data)
    E.check(other == css, "the restored searcher is not equal to the original")
    E.check(css == other, "the original is not equal to the restored searcher")
    compare(E, state(css), state(other), "restored")
    calls = [E.choose("first call", CALLS)]
    if calls[0] in ("level", "slice"):
        calls.append(E.choose("second call", ("search", "smallest", "level", "slice")))
    t = E.choose("slice", (0, 2)) if "slice" in calls else 0
    runs = []
    draws = []
    for x in (css, other):
        hist = []
        RANDOM.calls.clear()
        if draws:
            RANDOM.script = (draws, [])
        try:
            for call in calls:
                LOG.clear()
                ans, spec = do_call(x, call, t)
                hist.append((ans, spec, list(LOG), state(x)))
        finally:
            RANDOM.script = None
        draws = [int(c[2]) for c in RANDOM.calls] or [0]
        runs.append(hist)
    for i, ((a, sa, la, ta), (b, sb, lb, tb)) in enumerate(zip(*runs)):
        what = f"call {i + 1} ({calls[i]}) after restoring"
        E.check(a == b, f"{what}: {b}, the original {a}")
        work = (lambda l: l) if sa is None else (lambda l: [])
        E.check(work(la) == work(lb), f"{what}: other work: {lb[:5]} / {la[:5]}")
        compare(E, ta, tb, what)
        if sb is not None:
            E.cover("answered by both")
            # rules may be picked among equals
            check_counts(E, U, sb, other.start_class, N, "restored search")
            check_spec(E, other, other.strategy_pack, sb)
            if calls[i] == "smallest":
                E.check(sa.number_of_rules() == sb.number_of_rules(), f"{what}: another size")
    # not css == other: the order in which sets are walked through may leave other values for
    # the gaps of classes whose number of terms is settled
    compare(E, state(css), state(other), "after the same calls")


class Timed(CombinatorialSpecificationSearcher):
    """Looking for a specification takes time too: the next round of work is as long."""

    look = 0

    def has_specification(self):
        if CLOCK.hook is not None:
            CLOCK.hook.extra += self.look
        return super().has_specification()


class Blind(CombinatorialSpecificationSearcher):
    """Never looks for a specification: works until nothing is left."""

    def has_specification(self):
        return False


def h_interrupt(E, kind, menu_name, N, sym=False, ver=False, **ukw):
    U = Universe(E, **ukw)
    CLOCK.hook = WorkClock()
    ev = E.choose("expand_verified", (False, True))
    LOG.clear()
    ref = build(E, U, kind, menu_name, sym, ver, ev, Blind)
    before = len(LOG)
    try:
        ref.auto_search()
        E.fail("a specification nobody looked for")
    except SpecificationNotFound:
        full = list(LOG)
    exists = ref.ruledb.has_specification()
    LOG.clear()
    css = build(E, U, kind, menu_name, sym, ver, ev, pack=ref.strategy_pack)
    work = list(LOG)
    pickles = E.choose("pickle between", (False, True))
    spec = None
    for i in range(3):
        t = E.choose(f"limit {i}", (0, 1, 2, 4, 9) if i < 2 else (None, 3))
        if t is None:
            break
        LOG.clear()
        spec = run_until(css, t)
        if spec is not None:
            break
        work += LOG
        E.cover("interrupted")
        if css.look and len(LOG) > 3:
            E.cover("interrupted in a round of work")
        if i:
            E.cover("interrupted twice")
        # what was done is a beginning of what there is to do
        if isinstance(css.ruledb, RuleDBForest) or ev:
            E.check(work == full[: len(work)],
                    f"after {i + 1} interruptions other work was done: "
                    f"{work[len(common(work, full)):][:3]} instead of {full[len(common(work, full)):][:3]}")
        consistent(E, css, work)
        if pickles:
            css = pickle.loads(pickle.dumps(css))
    if spec is None:
        LOG.clear()
        try:
            spec = css.auto_search()
        except SpecificationNotFound:
            spec = "none"
    E.check((spec != "none") == exists,
            f"specification {'not found' if exists else 'found'} after interruptions, "
            f"the universe has {'one' if exists else 'none'}")
    if spec == "none":
        if isinstance(css.ruledb, RuleDBForest) or ev:
            compare(E, state(ref), state(css), "universe in the end")
            E.check(work + LOG == full, "not the same work in the end")
        E.cover("exhausted")
        return
    E.cover("found")
    check_counts(E, U, spec, css.start_class, N)
    check_spec(E, css, css.strategy_pack, spec)


def common(a, b):
    n = 0
    while n < min(len(a), len(b)) and a[n] == b[n]:
        n += 1
    return a[:n]


def consistent(E, css, work):
    """Nothing is recorded of classes without a label, no class twice."""
    labels = list(css.classdb)
    classes = [css.classdb.get_class(l) for l in labels]
    E.check(len(set(classes)) == len(classes), "a class has two labels")
    E.check(labels == list(range(len(labels))), "labels are not consecutive")


def harnesses(tier):
    hs = []
    for name, w, params in configurations(tier):
        for tag, fn, covers in (
            ("pickle", h_pickle, ("answered by both", "stopped after some packets")),
            ("interrupt", h_interrupt, ("found", "interrupted")),
        ):
            p = dict(params)
            p["N"] = min(p["N"], 3)
            hs.append(Harness(
                name=f"{tag}-{name}", fn=fn, weight=w * 0.5, relational=False, params=p,
                covers=covers,
                bounds={"classes": p["n"], "sizes": p["N"], "opaque counts": "unbounded",
                        "productions": str(p["kinds"]), "statistics": p.get("nlat", 0),
                        "interruption points": "after 0..8 strategy applications and at the end"},
            ))
    return hs
