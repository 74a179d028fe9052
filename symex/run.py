"""
Entry point: run the harnesses of one property, in parallel, and report.

    python -m symex.run C03            (tier from VERIF_TIER, seed from VERIF_SEED)
    python -m symex.run replay FILE    (re-run a reported counterexample)
"""
# pylint: disable=all
import faulthandler
import importlib
import json
import multiprocessing
import multiprocessing.connection
import os
import random
import signal
import sys
import time
import traceback

_RNG = random.Random(int(os.environ.get("VERIF_SEED", "1") or 1))
REAL_TIME = time.monotonic

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

from symex import env  # noqa: E402
from symex import engine as eng  # noqa: E402

NPROC = int(os.environ.get("VERIF_JOBS", "0") or 0) or (os.cpu_count() or 4)


class Harness:
    def __init__(
        self,
        name,
        fn,
        bounds,
        weight=1.0,
        relational=False,
        covers=(),
        params=None,
        replay_every=1,
        timeout_ms=20000,
        max_values=64,
        path_limit_s=60,
    ):
        self.name = name
        self.fn = fn
        self.bounds = bounds
        self.weight = weight
        self.relational = relational
        self.covers = covers
        self.params = params or {}
        self.replay_every = replay_every
        self.timeout_ms = timeout_ms
        self.max_values = max_values
        self.path_limit_s = path_limit_s

    def call(self, E):
        env.begin_path()
        return self.fn(E, **self.params)


class PathTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise eng.EngineLimit("path wall-clock limit")


class Eager:
    """Engine wrapper: every integer input is concretised on creation."""

    def __init__(self, e):
        object.__setattr__(self, "_e", e)

    def __getattr__(self, k):
        return getattr(self._e, k)

    def int(self, name, lo=None, hi=None):
        if hi is None:  # cannot be enumerated: a few values
            hi = (0 if lo is None else lo) + 3
        v = self._e.int(name, lo, hi)
        return int(v) if type(v) is eng.SymInt else v

    def choose(self, name, options):
        options = list(options)
        return options[self.int(name, 0, len(options) - 1)]


_HARNESSES = None
_ENGINES = {}


def _run_one(hi, prefix, eager):
    h = _HARNESSES[hi]
    key = (hi, eager)
    if key not in _ENGINES:
        e = eng.SymEngine(
            relational=h.relational and not eager,
            timeout_ms=h.timeout_ms,
            max_values=h.max_values,
        )
        _ENGINES[key] = [e, 0]
    rec = _ENGINES[key]
    e = rec[0]
    rec[1] += 1
    if rec[1] % 400 == 0:  # keep z3's memory in check
        st = e.stats
        e = eng.SymEngine(
            relational=h.relational and not eager,
            timeout_ms=h.timeout_ms,
            max_values=h.max_values,
        )
        e.stats = st
        rec[0] = e
    fn = (lambda E: h.call(Eager(E))) if eager else h.call
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, h.path_limit_s)
    try:
        found, sample = e.run_path(fn, prefix)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return e, found, sample


FUNCS = set()


def _profile(frame, event, arg):
    if event == "call":
        fn = frame.f_code.co_filename
        if fn.startswith(env.REPO + "/comb_spec_searcher/"):
            FUNCS.add(
                fn[len(env.REPO) + 1 :] + ":" + frame.f_code.co_qualname
            )


def replay_model(h, model, profile=False):
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, max(h.path_limit_s, 60))
    if profile:
        sys.setprofile(_profile)
    try:
        return eng.run_concrete(h.call, model)
    finally:
        if profile:
            sys.setprofile(None)
        signal.setitimer(signal.ITIMER_REAL, 0)


SPREAD = float(os.environ.get("VERIF_SPREAD", "0.3"))


def pick(q):
    """An index: half of the time the one with few decisions, of some."""
    k = _RNG.randrange(len(q))
    if _RNG.random() < SPREAD:
        k = min((_RNG.randrange(len(q)) for _ in range(6)), key=lambda i: len(q[i]))
    return k


def worker_task(args):
    hi, prefixes, eager, slice_s, want_funcs = args
    h = _HARNESSES[hi]
    sys.setrecursionlimit(5000)
    stack = list(prefixes)
    found_list = []
    first = True
    t0 = REAL_TIME()
    st = None
    npaths = 0
    while stack and (first or REAL_TIME() - t0 < slice_s):
        first = False
        if len(stack) > 1 and _RNG.random() < SPREAD:
            k = pick(stack)
            stack[k], stack[-1] = stack[-1], stack[k]
        prefix = stack.pop()
        e, found, sample = _run_one(hi, prefix, eager)
        if st is None:
            e.stats = eng.Stats() if e.stats is None else e.stats
        st = e.stats
        stack.extend(e.pending)
        npaths += 1
        if found is not None:
            if found.model is None:
                st.divergent += 1
                continue
            verdict, msg, ce = replay_model(h, found.model)
            if verdict == "violation":
                st.replayed += 1
                found_list.append(
                    dict(message=msg, sym=found.message, model=found.model)
                )
                if len(found_list) >= 8:
                    break
            else:
                st.divergent += 1
                k = f"DIVERGENT {found.message[:200]} | {getattr(found, 'tb', '')[-600:]} -> {verdict} {msg}"
                st.limit_msgs[k] = st.limit_msgs.get(k, 0) + 1
        elif sample is not None:
            if h.replay_every and st.paths % h.replay_every == 0:
                verdict, msg, ce = replay_model(
                    h, sample, profile=want_funcs and len(FUNCS) == 0 or npaths <= 3
                )
                if verdict == "ok":
                    st.replayed += 1
                elif verdict == "violation":
                    # the real code misbehaves on plain integers
                    st.replayed += 1
                    found_list.append(
                        dict(message=msg, sym="(concrete replay only)", model=sample)
                    )
            if len(st.samples) < 2:
                st.samples.append(
                    {
                        "harness": h.name,
                        "inputs": sample,
                        "decisions": len(e.trace),
                    }
                )
    rec = _ENGINES.get((hi, eager))
    stats = rec[0].stats if rec else eng.Stats()
    if rec:
        rec[0].stats = eng.Stats()
    funcs = sorted(FUNCS)
    return hi, found_list, stack, stats, funcs


def worker_guard(args):
    try:
        return worker_task(args)
    except BaseException as e:  # never lose a worker silently
        return (args[0], "ERROR", f"{type(e).__name__}: {e}\n{traceback.format_exc()}")


class HarnessResult:
    def __init__(self):
        self.stats = eng.Stats()
        self.found = []
        self.left = 0
        self.eager = False
        self.wall = 0.0
        self.stuck = 0
        self.errors = []
        self.note = {}


def _worker_loop(conn):
    try:
        while True:
            args = conn.recv()
            if args is None:
                break
            conn.send(worker_guard(args))
    except (EOFError, KeyboardInterrupt, BrokenPipeError):
        pass
    os._exit(0)


class Pool:
    """NPROC forked workers, one pipe each; a stuck or dead one is replaced."""

    def __init__(self, n):
        self.ctx = multiprocessing.get_context("fork")
        self.workers = {}
        self.idle = []
        for _ in range(n):
            self.spawn()

    def spawn(self):
        a, b = self.ctx.Pipe()
        p = self.ctx.Process(target=_worker_loop, args=(b,), daemon=True)
        p.start()
        b.close()
        self.workers[a] = p
        self.idle.append(a)

    def submit(self, args):
        c = self.idle.pop()
        c.send(args)
        return c

    def kill(self, c):
        p = self.workers.pop(c)
        p.kill()
        p.join()
        c.close()

    def close(self):
        for c in list(self.workers):
            self.kill(c)


def explore_all(harnesses, budget, stop_on_found=True):
    """Explore the harnesses in parallel; returns the per-harness results."""
    global _HARNESSES
    _HARNESSES = harnesses
    env.patch_environment()
    results = [HarnessResult() for _ in harnesses]
    queues = [[[]] for _ in harnesses]  # pending prefixes
    inflight = [0] * len(harnesses)
    eager = [False] * len(harnesses)
    spent = [0.0] * len(harnesses)
    funcs = set()
    start = REAL_TIME()
    deadline = start + budget
    pool = Pool(NPROC)
    live = {}  # connection -> (harness, start, eager, number of prefixes)
    stop = False
    try:
        while True:
            now = REAL_TIME()
            timeup = now > deadline
            # hand out work: the harness which used the least of its share
            while pool.idle and not timeup and not stop:
                cands = [i for i in range(len(harnesses)) if queues[i]]
                if not cands:
                    break
                i = min(
                    cands,
                    key=lambda j: (spent[j] + 0.3 * inflight[j]) / harnesses[j].weight,
                )
                q = queues[i]
                # spread the work; take few prefixes when there are few
                n = max(1, min(len(q) // (2 * NPROC), 16))
                batch = []
                for _ in range(n):
                    k = pick(q)
                    q[k], q[-1] = q[-1], q[k]
                    batch.append(q.pop())
                slice_s = 0.1 if len(q) < 4 * NPROC else 1.0
                slice_s = min(slice_s, max(0.01, deadline - now))
                c = pool.submit((i, batch, eager[i], slice_s, True))
                inflight[i] += 1
                live[c] = (i, REAL_TIME(), eager[i], n)
            if not live:
                break
            done = multiprocessing.connection.wait(list(live), timeout=1.0)
            if not done:
                now = REAL_TIME()
                for c, (i, t, eg, n) in list(live.items()):
                    h = harnesses[i]
                    if now - t > 3 * h.path_limit_s + 60 or now > deadline + 60:
                        # a stuck worker: its work counts as unfinished
                        results[i].left += n
                        results[i].stuck += 1
                        inflight[i] -= 1
                        del live[c]
                        pool.kill(c)
                        pool.spawn()
                continue
            for c in done:
                i, t, eg, n = live.pop(c)
                inflight[i] -= 1
                spent[i] += REAL_TIME() - t
                try:
                    out = c.recv()
                except EOFError:
                    results[i].left += n
                    results[i].errors.append("a worker died")
                    pool.kill(c)
                    pool.spawn()
                    continue
                pool.idle.append(c)
                if out[1] == "ERROR":
                    results[i].errors.append(out[2])
                    continue
                _, found, left, stats, fs = out
                if eg != eager[i]:
                    continue
                results[i].stats.merge(stats)
                results[i].wall += REAL_TIME() - t
                funcs.update(fs)
                queues[i].extend(left)
                if found:
                    results[i].found.extend(found)
                    if stop_on_found and any(
                        not is_known(harnesses[i], f) for f in found
                    ):
                        stop = True
                stuck = (
                    stats.limits
                    and not results[i].stats.paths
                    and not queues[i]
                    and not inflight[i]
                )
                if (stats.divergent or stuck) and not eager[i] and not stop:
                    # the proxies got in the way of the code: start again with
                    # every integer input enumerated by the solver up front
                    old = results[i]
                    results[i] = HarnessResult()
                    results[i].eager = True
                    results[i].errors = old.errors
                    results[i].found = old.found
                    results[i].note = dict(old.stats.limit_msgs)
                    eager[i] = True
                    queues[i] = [[]]
        for i in range(len(harnesses)):
            results[i].left += len(queues[i])
    finally:
        pool.close()
    return results, sorted(funcs), REAL_TIME() - start


PROP = None
KNOWN = None


def load_known():
    """known_findings.txt: 'KNOWN-FINDING: property=<id> key=<key> <what>'"""
    res = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        with open(path) as f:
            lines = f.read().splitlines()
        for line in lines:
            line = line.strip()
            if line.startswith("KNOWN-FINDING:"):
                parts = line.split(None, 3)
                prop = parts[1].split("=", 1)[1]
                key = parts[2].split("=", 1)[1]
                res.append((prop, key, parts[3] if len(parts) > 3 else ""))
    return res


def is_known(h, f):
    return any(p == PROP and f"[{k}]" in f["message"] for p, k, _ in KNOWN)


def main(argv):
    global PROP, KNOWN, _HARNESSES
    faulthandler.enable()
    KNOWN = load_known()
    if argv[0] == "replay":
        return replay_file(argv[1])
    PROP = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = importlib.import_module("checks." + PROP.lower())
    harnesses = mod.harnesses(tier)
    if "--only" in argv:
        only = argv[argv.index("--only") + 1]
        harnesses = [h for h in harnesses if only in h.name]
    budget = float(
        os.environ.get("VERIF_BUDGET", 0)
        or getattr(mod, "BUDGET", {}).get(tier, 60 if tier == "quick" else 600)
    )
    t0 = REAL_TIME()
    results, funcs, wall = explore_all(
        harnesses, budget, stop_on_found="--all" not in argv
    )
    code = report(mod, tier, seed, harnesses, results, funcs, REAL_TIME() - t0)
    return code


def report(mod, tier, seed, harnesses, results, funcs, wall):
    known_hits = {}
    violations = []
    total = eng.Stats()
    per = []
    bad = []
    for h, r in zip(harnesses, results):
        total.merge(r.stats)
        for f in r.found:
            hit = [
                (p, k, w) for p, k, w in KNOWN if p == PROP and f"[{k}]" in f["message"]
            ]
            if hit:
                known_hits[hit[0]] = f
            else:
                violations.append((h, f))
        missing = [c for c in h.covers if not r.stats.covers.get(c)]
        per.append(
            {
                "harness": h.name,
                "bounds": h.bounds,
                "exhausted": r.left == 0
                and not r.errors
                and r.stats.limits == 0
                and not r.stats.divergent
                and not r.eager,
                "not_reproduced_paths": r.stats.divergent,
                "unexplored_prefixes": r.left,
                "completed_paths": r.stats.paths,
                "infeasible_paths": r.stats.aborted,
                "inconclusive_paths": r.stats.limits,
                "inconclusive_reasons": dict(list(r.stats.limit_msgs.items())[:5]),
                "forks": r.stats.decisions,
                "solver_queries": r.stats.queries,
                "solver_s": round(r.stats.solver_s, 3),
                "solver_unknown": r.stats.unknown,
                "assertions": r.stats.checks,
                "assertions_decided_by_solver": r.stats.checks_by_solver,
                "models_replayed_on_real_code": r.stats.replayed,
                "reachability_witnesses": {k: v for k, v in sorted(r.stats.covers.items())},
                "eager_fallback": r.eager,
                "eager_reason": dict(list(r.note.items())[:2]),
                "workers_stuck": r.stuck,
            }
        )
        if r.errors:
            bad.append(f"{h.name}: {r.errors[0]}")
        if r.stats.divergent and not r.found:
            print(
                f"NOTE {h.name}: {r.stats.divergent} symbolic paths failed an assertion that "
                "holds on the real code (inconclusive): "
                + "; ".join(k for k in r.stats.limit_msgs if k.startswith("DIV"))[:600]
            )
        if r.stats.paths == 0 and not r.found:
            msg = f"{h.name}: no path completed {r.stats.limit_msgs}"
            if r.left and not r.stats.limit_msgs and total.paths:
                print("NOTE", msg, "(cut by the time budget)")
            else:
                bad.append(msg)
        if missing and not r.found and not violations:
            msg = f"{h.name}: vacuous, never reached {missing}"
            if r.left == 0:
                bad.append(msg)
            else:
                print("NOTE", msg, "(exploration was cut by the time budget)")
    exhausted = all(p["exhausted"] for p in per)
    evidence = {
        "property": PROP,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": total.paths,
            "transitions": total.decisions,
            "traces_validated_against_impl": total.replayed,
            "exhaustive": exhausted,
            "samples": total.samples or ["none"],
            "functions_encoded": funcs,
            "solver": "z3 " + eng.z3.get_version_string(),
            "solver_queries": total.queries,
            "solver_s": round(total.solver_s, 3),
            "solver_unknown": total.unknown,
            "assertions": total.checks,
            "assertions_decided_by_solver": total.checks_by_solver,
            "inconclusive_paths": total.limits,
            "harnesses": per,
            "explanation": (
                "The listed functions of /repo were executed symbolically from the "
                "current working tree. states = path conditions completed, transitions "
                "= symbolic decisions with more than one solver-feasible outcome, traces_validated_against_impl"
                " = solver models of completed paths re-run on the unmodified code "
                "with plain integers (same assertions, same verdict)."
            ),
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{PROP}.json"), "w") as f:
        json.dump(evidence, f, indent=1, default=str)
    for (p, k, w), f in known_hits.items():
        print(f"KNOWN-FINDING: property={p} {k}: {w}")
    print(
        f"{PROP} {tier}: {total.paths} paths, {total.decisions} forks, "
        f"{total.queries} queries ({total.solver_s:.1f}s solver), "
        f"{total.checks} assertions, {total.replayed} replays, "
        f"{total.limits} inconclusive, exhausted={exhausted}, {wall:.1f}s"
    )
    for p in per:
        print(
            f"   {p['harness']}: paths={p['completed_paths']} left={p['unexplored_prefixes']} "
            f"infeasible={p['infeasible_paths']} inconclusive={p['inconclusive_paths']} covers={p['reachability_witnesses']}"
            + (" EAGER" if p["eager_fallback"] else "")
        )
        for k in list(p["eager_reason"]) + list(p["inconclusive_reasons"])[:3]:
            print("      ", k[:300])
    if violations:
        os.makedirs(os.path.join(HERE, "out"), exist_ok=True)
        shown = set()
        names = set()
        firsts = []
        for h, f in violations:
            if (h.name, f["message"][:25]) not in names:
                names.add((h.name, f["message"][:25]))
                firsts.append((h, f))
        for n, (h, f) in enumerate(firsts[:20]):
            path = os.path.join(HERE, "out", f"{PROP}-{len(shown)}.json")
            shown.add(n)
            with open(path, "w") as fh:
                json.dump(
                    {
                        "property": PROP,
                        "tier": tier,
                        "harness": h.name,
                        "message": f["message"],
                        "inputs": f["model"],
                    },
                    fh,
                    indent=1,
                )
            print(f"[{h.name}] {f['message']}")
            print(f"    inputs: {f['model']}"[:1500])
            print(f"VIOLATION property={PROP} replay={path}")
        return 1
    if bad:
        for b in bad:
            print("ERROR", b)
        return 3
    return 0


def replay_file(path):
    global PROP
    data = json.load(open(path))
    PROP = data["property"]
    mod = importlib.import_module("checks." + PROP.lower())
    env.patch_environment()
    for h in mod.harnesses(data["tier"]):
        if h.name == data["harness"]:
            verdict, msg, ce = replay_model(h, data["inputs"])
            print(f"{PROP} {h.name}: {verdict} {msg}")
            print("inputs used:", ce.used)
            if verdict == "violation":
                print(f"VIOLATION property={PROP} replay={path}")
                return 1
            return 0
    print("no such harness")
    return 3


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
