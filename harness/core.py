"""
Driver shared by every check.

A check runs N deterministic cases of one property on 8 worker processes.  Each
case drives the real code in /repo/src through its public API while monitors
watch; a monitor that sees a violation raises Violation, and the driver writes
a replay file and prints the VIOLATION line.  What the monitors observed is
counted (events, distinct signatures) and goes into evidence/<id>.json.
"""
import contextlib
import hashlib
import importlib
import importlib.machinery
import io
import json
import multiprocessing as mp
import os
import queue
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")

CASE_TIMEOUT = 90
WALL_LIMIT = {"quick": 500, "thorough": 3600}
MAX_SAMPLES = 6


# ----------------------------------------------------------------------------
# always execute the source text of the working tree, never a cached .pyc
# ----------------------------------------------------------------------------

class SourceLoader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)


def _hook(path):
    if os.path.abspath(path).startswith(SRC):
        return importlib.machinery.FileFinder(path, (SourceLoader, [".py"]))
    raise ImportError


def install_importer():
    sys.dont_write_bytecode = True
    sys.path_hooks.insert(0, _hook)
    sys.path_importer_cache.clear()
    sys.path.insert(0, SRC)


class Violation(Exception):
    pass


class Skip(Exception):
    """The generated case is outside the domain of the property."""


class Ctx(object):
    def __init__(self, prop, seed, tier, index):
        import numpy as np
        digest = hashlib.sha256("{}:{}:{}".format(prop, seed, index).encode()).digest()
        self.rng = np.random.default_rng(int.from_bytes(digest[:8], "big"))
        self.prop = prop
        self.seed = seed
        self.tier = tier
        self.index = index
        self.events = {}
        self.signatures = set()
        self.sample = None
        self.info = {}

    # what the monitors observed
    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n

    def seen(self, *parts):
        """A distinct non-trivial situation observed by a monitor."""
        self.signatures.add(hashlib.md5(repr(parts).encode()).hexdigest()[:16])

    def note(self, **kw):
        self.info.update(kw)

    def fail(self, msg, **details):
        self.info.update(details)
        raise Violation(msg)

    def expect(self, cond, msg, **details):
        self.event("assertions")
        if not cond:
            self.fail(msg, **details)


def jsonable(x, depth=0):
    import numpy as np
    if depth > 8:
        return repr(x)[:200]
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v, depth + 1) for v in x]
    if isinstance(x, (set, frozenset)):
        return sorted((jsonable(v, depth + 1) for v in x), key=repr)
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, (np.floating, np.integer)):
        return x.item()
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)[:500]


# ----------------------------------------------------------------------------
# running one case
# ----------------------------------------------------------------------------

def _alarm(signum, frame):
    raise Violation("the call did not return within {} s".format(CASE_TIMEOUT))


def run_case(module, seed, tier, index):
    ctx = Ctx(module.ID, seed, tier, index)
    out = io.StringIO()
    verdict = None
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    try:
        with contextlib.redirect_stdout(out):
            module.case(ctx)
    except Skip:
        ctx.event("skipped")
    except Violation as e:
        verdict = str(e)
    except Exception as e:
        verdict = "unexpected {}: {}".format(type(e).__name__, e)
        ctx.note(traceback=traceback.format_exc()[-3000:])
    finally:
        signal.alarm(0)
    return ctx, verdict, out.getvalue()


def _worker(module_name, seed, tier, todo, results, stop, current, slot):
    os.environ["OMP_NUM_THREADS"] = "1"
    module = importlib.import_module(module_name)
    while not stop.is_set():
        try:
            chunk = todo.get_nowait()
        except queue.Empty:
            break
        for index in chunk:
            if stop.is_set():
                break
            current[slot] = index
            ctx, verdict, out = run_case(module, seed, tier, index)
            current[slot] = -1
            results.put((index, verdict, ctx.events, ctx.signatures,
                         jsonable(ctx.sample) if ctx.sample is not None and index < 40 else None,
                         jsonable(ctx.info) if verdict else None,
                         out[-2000:] if verdict else None))
    results.put(None)


def write_replay(prop, seed, tier, index, verdict, info, out):
    folder = os.path.join(VERIF, "replays")
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, "{}-{}-{}-{}.json".format(prop, tier, seed, index))
    with open(path, "w") as f:
        json.dump({"property": prop, "seed": seed, "tier": tier, "index": index,
                   "what": verdict, "details": info, "stdout": out,
                   "how": "/opt/venv/bin/python /verif/check.py {} --replay {}".format(prop, path)},
                  f, indent=1)
    return path


def run(prop, tier, seed, only=None, count=None):
    t0 = time.time()
    module_name = "props." + prop.lower()
    module = importlib.import_module(module_name)

    import compas_cem
    where = os.path.abspath(compas_cem.__file__)
    if not where.startswith(SRC):
        print("ERROR: compas_cem was imported from {} and not from {}".format(where, SRC))
        return 2

    if only is not None:
        ctx, verdict, out = run_case(module, seed, tier, only)
        print(json.dumps(jsonable({"index": only, "verdict": verdict, "events": ctx.events, "info": ctx.info}), indent=1))
        return 1 if verdict else 0

    n = count or (module.QUICK if tier == "quick" else module.THOROUGH)
    procs = min(8, max(2, os.cpu_count() or 2))
    chunk = max(1, min(getattr(module, "CHUNK", 8), n // (procs * 4) or 1))

    todo = mp.Queue()
    results = mp.Queue()
    stop = mp.Event()
    for a in range(0, n, chunk):
        todo.put(list(range(a, min(n, a + chunk))))
    time.sleep(0.05)
    current = mp.Array("l", [-1] * procs, lock=False)
    workers = [mp.Process(target=_worker, args=(module_name, seed, tier, todo, results, stop, current, i), daemon=True)
               for i in range(procs)]
    for w in workers:
        w.start()

    events, signatures, samples, violations = {}, set(), [], []
    done, live = 0, procs
    limit = WALL_LIMIT[tier]
    truncated = False
    last = time.time()
    while live:
        try:
            item = results.get(timeout=5)
            last = time.time()
        except queue.Empty:
            if any(w.exitcode not in (None, 0) for w in workers) or not any(w.is_alive() for w in workers):
                break
            if time.time() - last > CASE_TIMEOUT + 60:
                break
            continue
        if item is None:
            live -= 1
            continue
        index, verdict, ev, sig, sample, info, out = item
        done += 1
        for k, v in ev.items():
            events[k] = events.get(k, 0) + v
        signatures |= sig
        if sample is not None and len(samples) < MAX_SAMPLES:
            samples.append(sample)
        if verdict:
            violations.append((index, verdict, info, out))
            if len(violations) >= 3:
                stop.set()
        if time.time() - t0 > limit and not stop.is_set():
            truncated = True
            stop.set()
    stop.set()
    todo.cancel_join_thread()   # what was not started is not waited for
    lost = 0
    for i, w in enumerate(workers):
        w.join(timeout=2)
        if w.is_alive():
            w.terminate()
            lost += live > 0
        elif w.exitcode in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGFPE, -signal.SIGBUS, -signal.SIGILL):
            violations.append((current[i], "the process crashed with {}".format(signal.Signals(-w.exitcode).name), {}, ""))
        elif w.exitcode:
            lost += 1

    wall = round(time.time() - t0, 2)
    skipped = events.pop("skipped", 0)
    coverage = {"evaluations": done - skipped,
                "distinct_nontrivial": len(signatures),
                "rule": module.RULE,
                "samples": samples[:MAX_SAMPLES],
                "events_observed": dict(sorted(events.items())),
                "cases_planned": n,
                "cases_outside_domain": skipped}
    if truncated:
        coverage["stopped_at_wall_limit"] = limit
    evidence = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
                "coverage": coverage, "wall_s": wall, "violations": len(violations),
                "assumptions": getattr(module, "ASSUMPTIONS", [])}
    if not os.environ.get("VERIF_NOEVIDENCE"):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)

    print("{} {} seed={}: {} cases, {} distinct situations, {} s".format(
        prop, tier, seed, done - skipped, len(signatures), wall))
    print("observed: " + ", ".join("{}={}".format(k, v) for k, v in sorted(events.items())))

    if violations:
        violations.sort()
        for index, verdict, info, out in violations:
            path = write_replay(prop, seed, tier, index, verdict, info, out)
            print("VIOLATION property={} replay={}".format(prop, path))
            print("  case {}: {}".format(index, verdict[:600]))
        return 1

    if lost and not truncated:
        print("ERROR: {} workers were lost and the exploration is incomplete".format(lost))
        return 2

    # a monitor that saw nothing has decided nothing
    missing = [name for name in getattr(module, "MUST_OBSERVE", []) if not events.get(name)]
    if done == 0 or not signatures or missing:
        print("INCONCLUSIVE: the monitors observed nothing of {} ({} cases)".format(missing or "the property", done))
        return 3
    return 0
