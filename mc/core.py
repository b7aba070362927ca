"""Exhaustive bounded exploration of the real objutils code: shared machinery.

A check is a module in mc/checks with

    ID, LEVEL, RULE           property id, evidence level, what a case is
    spaces(tier)              ordered dict  kind -> callable returning an iterator over JSON-able case parameters
    run_case(kind, params)    executes one case against the real code, raises `Violation` when the property is
                              broken, otherwise returns an outcome (any hashable, used to count distinct outcomes)

`explore` walks every case of every space (no sampling), split over worker processes.  Explicit state searches
(`bfs`) and schedule exploration (`sched.py`) are used from within `run_case`.

Any exception escaping from `run_case` is a violation too: a harness only calls operations which have to succeed,
operations which have to fail are wrapped in `expect_raises`.
"""

import hashlib
import io
import itertools
import json
import multiprocessing
import os
import resource
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("OBJUTILS_REPO", "/repo")
OUT = os.path.join(ROOT, "out")
EVIDENCE = os.path.join(ROOT, "evidence")
KNOWN = os.path.join(ROOT, "known_findings.json")

NWORKERS = int(os.environ.get("MC_WORKERS", "8"))
CASE_TIMEOUT = float(os.environ.get("MC_CASE_TIMEOUT", "60"))


class Violation(Exception):
    pass


class HarnessError(BaseException):
    """Something is wrong with the machinery itself (never reported as a violation)."""


class CaseTimeout(BaseException):
    pass


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def check_eq(got, want, what):
    if got != want:
        raise Violation(f"{what}: got {_short(got)}, expected {_short(want)}")


def _short(x, n=400):
    r = repr(x)
    return r if len(r) <= n else r[: n // 2] + f"...<{len(r)}>..." + r[-n // 2 :]


def expect_raises(exc_types, func, *args, **kws):
    """`func` must raise one of exc_types (a tuple); returns the exception."""
    what = kws.pop("_what", getattr(func, "__name__", "call"))
    try:
        result = func(*args, **kws)
    except exc_types as e:
        return e
    except Exception as e:
        raise Violation(f"{what}: raised {type(e).__name__}: {e}, expected {exc_types}") from e
    raise Violation(f"{what}: accepted, returned {_short(result)}, but an exception of {exc_types} is due")


# ---------------------------------------------------------------------------------------------------------
# Counters shared by a run (per worker, merged by the parent).


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.states = 0
        self.transitions = 0
        self.schedules = 0
        self.traces = 0
        self.fault_points = 0
        self.outcomes = set()
        self.visited = set()
        self.by_kind = {}
        self.samples = {}

    def merge(self, o):
        for k in ("evaluations", "states", "transitions", "schedules", "traces", "fault_points"):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        self.outcomes |= o.outcomes
        self.visited |= o.visited
        for k, v in o.by_kind.items():
            self.by_kind[k] = self.by_kind.get(k, 0) + v
        for k, v in o.samples.items():
            self.samples.setdefault(k, v)


STATS = Stats()


def visit(state, transitions=1):
    """Count a state of a hand-written walk (distinct by value) and the transition which led to it."""
    STATS.visited.add(digest(state))
    STATS.transitions += transitions


def digest(x):
    return hashlib.blake2b(repr(x).encode(), digest_size=8).digest()


# ---------------------------------------------------------------------------------------------------------
# Explicit state search against the real code, used inside a case.


def bfs(make, events, step, canon, depth, max_states=None):
    """Breadth first search. A state is the event history which reaches it, real objects are rebuilt by replaying.

    make()            fresh (implementation, model) pair
    events(model)     enabled events, simplest first
    step(pair, ev)    apply `ev` to both, compare, raise Violation on disagreement
    canon(pair)       hashable canonical state
    Returns (states, transitions).
    """
    pair = make()
    seen = {canon(pair)}
    frontier = [()]
    transitions = 0
    for _ in range(depth):
        nxt = []
        for hist in frontier:
            base = make()
            for ev in hist:
                step(base, ev)
            for ev in events(base):
                pair = make()
                for e in hist:
                    step(pair, e)
                try:
                    step(pair, ev)
                except Violation as e:
                    raise Violation(f"after history {list(hist) + [ev]}: {e}") from e
                transitions += 1
                STATS.traces += 1
                k = canon(pair)
                if k not in seen:
                    seen.add(k)
                    nxt.append(hist + (ev,))
                    if max_states and len(seen) >= max_states:
                        raise HarnessError("state cap hit")
        frontier = nxt
        if not frontier:
            break
    STATS.states += len(seen)
    STATS.transitions += transitions
    return len(seen), transitions


# ---------------------------------------------------------------------------------------------------------


def _setup_process():
    sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    hook = sys.excepthook
    disp = sys.displayhook
    import objutils  # noqa: F401

    sys.excepthook, sys.displayhook = hook, disp
    where = os.path.realpath(objutils.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise HarnessError(f"objutils imported from {where}")


def _silence():
    """Code under test prints and logs: keep that away from our stdout."""
    sys.stdout.flush()
    sys.stderr.flush()
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.dup2(null, 2)
    os.close(null)
    import logging

    logging.disable(logging.CRITICAL)


_grace = 0


def _alarm(signum, frame):
    """The first alarm only grants more time: the whole machine may have been stopped meanwhile."""
    global _grace
    if _grace:
        again, _grace = _grace, 0
        signal.setitimer(signal.ITIMER_REAL, again)
        return
    raise CaseTimeout()


def arm(seconds):
    global _grace
    _grace = min(seconds, 90) if seconds else 0
    signal.setitimer(signal.ITIMER_REAL, seconds)


def run_guarded(module, kind, params):
    """Returns (outcome, None) or (None, message)."""
    arm(getattr(module, "CASE_TIMEOUT", CASE_TIMEOUT))
    try:
        return module.run_case(kind, params), None
    except Violation as e:
        return None, str(e)
    except CaseTimeout:
        return None, "does not terminate (timeout)"
    except HarnessError:
        raise
    except MemoryError:
        return None, "exhausts memory"
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        tb = traceback.extract_tb(e.__traceback__)
        where = "; ".join(f"{os.path.basename(f.filename)}:{f.lineno} {f.name}" for f in tb[-4:])
        return None, f"unexpected {type(e).__name__}: {e} [{where}]"
    finally:
        arm(0)


def _worker(module_name, tier, widx, nworkers, conn, stop, known):
    global STATS
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    signal.signal(signal.SIGALRM, _alarm)
    violations, known_hits, error = [], {}, None
    try:
        module = sys.modules[module_name]
        spaces = module.spaces(tier)
        budget = getattr(module, "MAX_VIOLATIONS", 3)
        for kind, gen in spaces.items():
            n = 0
            chunk = getattr(module, "CHUNK", 1)
            for i, params in enumerate(gen() if callable(gen) else gen):
                if (i // chunk) % nworkers != widx:
                    continue
                if stop.is_set():
                    break
                STATS.evaluations += 1
                n += 1
                outcome, err = run_guarded(module, kind, params)
                if err is not None:
                    hit = match_known(known, module.ID, kind, params, err)
                    if hit is not None:
                        known_hits.setdefault(hit, (kind, params, err))
                        continue
                    violations.append((i, kind, params, err))
                    if len(violations) >= budget:
                        stop.set()
                        break
                else:
                    STATS.outcomes.add(digest((kind, outcome)))
                    if kind not in STATS.samples:
                        STATS.samples[kind] = (i, params, _short(outcome, 200))
            STATS.by_kind[kind] = STATS.by_kind.get(kind, 0) + n
            if stop.is_set():
                break
    except HarnessError as e:
        error = f"HarnessError: {e}"
    except BaseException:
        error = traceback.format_exc()
    conn.send((STATS, violations, known_hits, error))
    conn.close()


def load_known():
    if not os.path.exists(KNOWN):
        return []
    with open(KNOWN) as f:
        return json.load(f).get("known", [])


def match_known(known, pid, kind, params, err):
    """A finding names the specific inputs: the kind and the exact parameters (or a list of them)."""
    for idx, k in enumerate(known):
        if k["property"] != pid or k["kind"] != kind:
            continue
        if jsonable(params) in k["params"] and k.get("error", "") in err:
            return idx
    return None


def jsonable(x):
    return json.loads(json.dumps(x, default=_default))


def _default(x):
    if isinstance(x, (bytes, bytearray)):
        return {"hex": bytes(x).hex()}
    if isinstance(x, (set, frozenset)):
        return sorted(x)
    return repr(x)


def explore(module, tier, seed):
    t0 = time.time()
    known = load_known()
    try:
        _setup_process()
    except HarnessError:
        raise
    except Exception as e:  # the library cannot even be imported
        return report(module, tier, seed, t0, Stats(), [(0, "import", {}, f"cannot import objutils: {e!r}")], {}, known)
    if hasattr(module, "setup"):
        module.setup(tier)
    n = getattr(module, "WORKERS", NWORKERS)
    ctx = multiprocessing.get_context("fork")
    stop = ctx.Event()
    procs = []
    for w in range(n):
        r, s = ctx.Pipe(duplex=False)
        p = ctx.Process(target=_child, args=(module.__name__, tier, w, n, s, stop, known))
        p.start()
        s.close()
        procs.append((p, r))
    total, violations, hits, errors = Stats(), [], {}, []
    for p, r in procs:
        try:
            st, v, h, err = r.recv()
        except EOFError:
            p.join()
            # The process died: code under test crashed the interpreter or exhausted memory.
            violations.append((0, "crash", {}, f"worker process died with exit code {p.exitcode}"))
            continue
        p.join()
        total.merge(st)
        violations.extend(v)
        for k, x in h.items():
            hits.setdefault(k, x)
        if err:
            errors.append(err)
    if errors:
        raise HarnessError("\n".join(errors))
    return report(module, tier, seed, t0, total, violations, hits, known)


def _child(*args):
    _silence()
    _worker(*args)
    os._exit(0)


def report(module, tier, seed, t0, st, violations, hits, known):
    os.makedirs(EVIDENCE, exist_ok=True)
    pid = module.ID
    order = {k: i for i, k in enumerate(module.spaces(tier))}
    violations.sort(key=lambda v: (order.get(v[1], 99), v[0]))
    samples = [{"space": k, "case": jsonable(p), "outcome": o} for k, (i, p, o) in st.samples.items()]
    coverage = {
        "evaluations": st.evaluations,
        "distinct_nontrivial": len(st.outcomes),
        "rule": module.RULE + " Distinct: cases whose observed outcome (space, result) differs.",
        "samples": samples or [{"space": "none"}],
        "cases_by_space": st.by_kind,
        "exhaustive": not violations,
    }
    if st.schedules:
        coverage["schedules"] = st.schedules
    if st.fault_points:
        coverage["fault_points"] = st.fault_points
    states = st.states + len(st.visited)
    if states or module.LEVEL == "model_checking":
        coverage["states"] = states
        coverage["transitions"] = st.transitions
        # Executions of the real code from its initial state which were compared with the model step by step.
        coverage["traces_validated_against_impl"] = st.traces + st.schedules + st.evaluations
    if hasattr(module, "BOUNDS"):
        coverage["bounds"] = module.BOUNDS
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": module.LEVEL,
        "coverage": coverage,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
        "assumptions": getattr(module, "ASSUMPTIONS", []),
    }
    with open(os.path.join(EVIDENCE, f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=_default)
        f.write("\n")
    for idx in sorted(hits):
        print(f"KNOWN-FINDING: property={pid} {known[idx]['what']}")
    for _, kind, params, err in violations[:3]:
        os.makedirs(OUT, exist_ok=True)
        body = json.dumps({"property": pid, "kind": kind, "params": params, "error": err}, default=_default, indent=1)
        path = os.path.join(OUT, f"{pid}-{hashlib.sha1(body.encode()).hexdigest()[:10]}.json")
        with open(path, "w") as f:
            f.write(body + "\n")
        print(f"{pid}: {kind} {_short(params, 300)}: {err[:1500]}")
        print(f"VIOLATION property={pid} replay={path}")
    if not violations:
        sch = f", {st.schedules} schedules" if st.schedules else ""
        sta = f", {states} states / {st.transitions} transitions" if states else ""
        flt = f", {st.fault_points} fault points" if st.fault_points else ""
        print(
            f"{pid}: held on all {st.evaluations} cases ({len(st.outcomes)} distinct outcomes{sta}{sch}{flt}) "
            f"in {ev['wall_s']} s"
        )
    return 1 if violations else 0


def replay(module, path):
    """Re-run the one case of a replay artefact, without the explorer."""
    with open(path) as f:
        data = json.load(f, object_hook=lambda d: bytes.fromhex(d["hex"]) if set(d) == {"hex"} else d)
    _setup_process()
    if hasattr(module, "setup"):
        module.setup("quick")
    signal.signal(signal.SIGALRM, _alarm)
    outcome, err = run_guarded(module, data["kind"], data["params"])
    if err is None:
        print("no violation:", outcome)
        return 0
    print(f"{module.ID}: {data['kind']} {data['params']}: {err}")
    print(f"VIOLATION property={module.ID} replay={path}")
    return 1


# ---------------------------------------------------------------------------------------------------------
# Small helpers for enumerations.


def product_dicts(**axes):
    keys = list(axes)
    for values in itertools.product(*axes.values()):
        yield dict(zip(keys, values))


def pattern(n, seed=0):
    """n deterministic bytes; different seeds differ in every position, every byte value occurs for n >= 256."""
    return bytes((i * 167 + (i >> 8) * 59 + seed * 83 + 11) & 0xFF for i in range(n))


class Sink(io.BytesIO):
    """BytesIO which survives close() (the library closes what it is given)."""

    def close(self):
        self.closed_by_callee = True
