"""C16: DefaultQueue schedules completely, once, in order, and terminates."""
from symex.run import Harness
from symex.toys import ShiftStrategy

from comb_spec_searcher.class_queue import DefaultQueue
from comb_spec_searcher.exception import NoMoreClassesToExpandError
from comb_spec_searcher.strategies.strategy_pack import StrategyPack

ASSUMPTIONS = [
    "labels are arbitrary pairwise distinct integers; they stay symbolic",
    "strategies of a pack are pairwise different",
    "number of operations, labels and strategies bounded as stated",
]


class Log:
    """The reference: what may / must be handed out."""

    def __init__(self, E, q, pack, lab):
        self.E, self.q, self.pack, self.lab = E, q, pack, lab
        self.added, self.stopped, self.noinf = [], set(), set()
        self.never_inferral = set()  # marked not-inferrable before being added
        self.out = []  # (label index, kind, strategy key)
        self.inf = tuple(pack.inferral_strats)
        self.init = tuple(pack.initial_strats)
        self.exp = tuple(tuple(x) for x in pack.expansion_strats)
        self.stage = {}  # label -> last stage handed out

    def index(self, label):
        for i, l in enumerate(self.lab):
            if bool(l == label):
                return i
        self.E.fail(f"handed out an unknown label {label}")

    def packet(self, wp):
        E = self.E
        i = self.index(wp.label)
        E.check(i in self.added, f"label {i} was never added")
        E.check(i not in self.stopped, f"label {i} was told to stop")
        if wp.inferral:
            E.check(tuple(wp.strategies) == self.inf and self.inf, "inferral packet")
            E.check(i not in self.never_inferral, f"label {i} was marked not-inferrable before it was added")
            stage = (0, 0)
            E.cover("inferral")
        else:
            E.check(len(wp.strategies) == 1, "one strategy per packet")
            s = wp.strategies[0]
            if s in self.init:
                stage = (1, self.init.index(s))
            else:
                stage = None
                for k, es in enumerate(self.exp):
                    if s in es:
                        stage = (2 + k, es.index(s))
                E.check(stage is not None, "unknown strategy handed out")
                E.cover("expansion")
        for key in wp.strategies:
            E.check((i, key) not in self.out, f"{key} handed out twice for label {i}")
            self.out.append((i, key))
        E.check(stage[0] >= self.stage.get(i, -1), f"label {i}: {stage} after {self.stage.get(i)}")
        self.stage[i] = stage[0]

    def limit(self):
        return len(self.lab) * (3 + len(self.init) + sum(map(len, self.exp))) + 5

    def complete(self):
        E = self.E
        for i in self.added:
            if i in self.stopped:
                continue
            want = []
            if i not in self.noinf:
                want += list(self.inf)
            want += list(self.init)
            for es in self.exp:
                want += list(es)
            for s in want:
                E.check((i, s) in self.out, f"label {i} never got {s}")


def make_pack(E, shapes):
    ninf, ninit, sets = E.choose("pack", shapes)
    k = iter(range(100))
    mk = lambda: ShiftStrategy((), (), next(k))
    inf = [mk() for _ in range(ninf)]
    init = [mk() for _ in range(ninit)]
    exp = [[mk() for _ in range(n)] for n in sets]
    return StrategyPack(initial_strats=init, inferral_strats=inf, expansion_strats=exp,
                        ver_strats=[], name="toy")


def h_history(E, K, L, shapes, ops):
    pack = make_pack(E, shapes)
    q = DefaultQueue(pack)
    lab = [E.int(f"label{i}") for i in range(L)]
    for i in range(L):
        for j in range(i):
            E.assume(lab[i] != lab[j])
    log = Log(E, q, pack, lab)
    used = 0

    def pick(name):
        nonlocal used
        i = int(E.int(name, 0, min(used, L - 1)))
        used = max(used, i + 1)
        return i

    def do(op, name):
        if op == "add":
            i = pick(name)
            q.add(lab[i])
            if i not in log.added:
                if i in log.noinf:
                    log.never_inferral.add(i)
                log.added.append(i)
        elif op == "stop":
            i = pick(name)
            q.set_stop_yielding(lab[i])
            log.stopped.add(i)
        elif op == "verified":
            i = pick(name)
            q.set_verified(lab[i])
            log.stopped.add(i)
        elif op == "noinf":
            i = pick(name)
            q.set_not_inferrable(lab[i])
            # only binding when nothing was handed out for the label before
            log.noinf.add(i)

    dry = False
    for k in range(K):
        op = E.choose(f"op{k}", ops)
        if k == K // 2:
            q.status()  # only looks
        if op == "next":
            try:
                wp = next(q)
            except StopIteration:
                log.complete()
                dry = True
                E.cover("exhausted early")
            else:
                E.check(not dry, "handed out work after exhaustion without an addition")
                log.packet(wp)
        elif op == "level":
            start = q.levels_completed
            n = 0
            try:
                for wp in q.do_level():
                    E.check(not dry, "handed out work after exhaustion without an addition")
                    log.packet(wp)
                    n += 1
                    E.check(n < log.limit(), "do_level does not terminate")
                    if bool(E.bool(f"mid{k}_{n}")) if n == 1 else False:
                        do(E.choose(f"midop{k}", ("add", "stop")), f"midl{k}")
            except NoMoreClassesToExpandError:
                E.check(q.levels_completed == start, "error although the level advanced")
                log.complete()
                dry = True
                E.cover("level error")
            else:
                E.check(q.levels_completed > start, "do_level ended without a level change")
                E.cover("level")
        else:
            if op == "add":
                dry = False
            do(op, f"l{k}")
    # drain
    n = 0
    while True:
        try:
            wp = next(q)
        except StopIteration:
            break
        E.check(not dry, "handed out work after exhaustion without an addition")
        log.packet(wp)
        n += 1
        E.check(n < log.limit(), "draining does not terminate")
    log.complete()
    for _ in range(2):
        try:
            next(q)
            E.fail("work handed out after exhaustion")
        except StopIteration:
            pass
    try:
        next(q.do_level())
        E.fail("do_level on an empty queue yields")
    except NoMoreClassesToExpandError:
        E.cover("drained")
    E.feasible()


def harnesses(tier):
    n = 0 if tier == "quick" else 1
    small = [(1, 1, (1,)), (0, 1, (1, 1)), (1, 0, (2,)), (0, 0, (1,)), (2, 2, ()), (0, 0, (1, 1)),
             (1, 0, ()), (0, 2, (1,)), (0, 0, ())]
    ops = ("add", "stop", "noinf", "next")
    lv = ("add", "stop", "next", "level")
    return [
        Harness("small", h_history, "4 operations of all kinds, 2 labels, three pack shapes",
                params=dict(K=4, L=2, shapes=[(1, 1, (1,)), (0, 1, (1, 1)), (1, 0, ())],
                            ops=("add", "stop", "verified", "noinf", "next", "level")),
                relational=True, weight=8, replay_every=3),
        Harness("marks", h_history, f"{6+n} add/stop/not-inferrable/next operations, 2 labels, then drain; "
                f"pack shapes (inferral, initial, expansion sets): {small}",
                params=dict(K=6 + n, L=2, shapes=small, ops=ops), relational=True, weight=4,
                covers=("inferral", "expansion", "exhausted early", "drained"), replay_every=3),
        Harness("levels", h_history, f"{5+n} add/stop/next/do_level operations (marks inside a level), 2 labels",
                params=dict(K=5 + n, L=2, shapes=small, ops=lv), relational=True, weight=3,
                covers=("level", "level error", "drained"), replay_every=3),
        Harness("three-labels", h_history, f"{6+n} operations of all kinds, 3 labels, two expansion sets",
                params=dict(K=6 + n, L=3, shapes=[(1, 1, (2, 1)), (0, 1, (1, 1)), (1, 0, (1, 1))],
                            ops=("add", "stop", "verified", "noinf", "next", "level")),
                relational=True, weight=3, replay_every=3, covers=("level", "expansion", "drained")),
        Harness("long", h_history, f"{9+n} add/stop/next operations, 3 labels",
                params=dict(K=9 + n, L=3, shapes=[(1, 1, (1, 1)), (0, 0, (1, 1, 1))],
                            ops=("add", "stop", "next")),
                relational=True, weight=3, replay_every=3),
    ]
