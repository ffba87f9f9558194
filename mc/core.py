"""Explorer: runs one property over an exhaustively enumerated, bounded space of
executions of the real code, compares every execution with a reference model,
writes the evidence file and a replayable artefact per violation."""
import hashlib
import importlib
import itertools
import json
import multiprocessing
import os
import re
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAX_REPORT = int(os.environ.get("MC_MAX_REPORT", "8"))
CONFIG_TIMEOUT = 90  # seconds for one execution of the code under test


class Failure(Exception):
    """An observation of the real code differs from the reference model."""


class Run:
    """Book-keeping of one explored configuration (one path of the state space)."""

    def __init__(self):
        self.states = 0  # distinct states observed (configuration x probe / history prefix)
        self.transitions = 0  # calls into the real code
        self.validated = 0  # observations compared with the reference model
        self.failures = []
        self.outcome = ""

    def fail(self, what, **detail):
        self.failures.append({"what": what, "detail": jsonable(detail)})

    def check(self, ok, what, **detail):
        self.validated += 1
        if not ok:
            self.fail(what, **detail)
        return ok


def jsonable(v):
    import numpy as np

    if isinstance(v, dict):
        return {str(k): jsonable(x) for k, x in v.items()}
    if isinstance(v, (list, tuple, set)):
        return [jsonable(x) for x in v]
    if isinstance(v, np.ndarray):
        return jsonable(v.tolist())
    if isinstance(v, (np.floating, np.integer)):
        return jsonable(v.item())
    if isinstance(v, float) and (v != v or v in (float("inf"), float("-inf"))):
        return repr(v)
    if isinstance(v, (int, float, str, bool)) or v is None:
        return v
    return repr(v)[:2000]


# ---------------------------------------------------------------- enumeration
def deviations(dims, bound, keep=None, large=True):
    """All assignments of the dimensions that differ from the default (first value
    of each) in at most `bound` dimensions, fewest deviations first."""
    names = list(dims)
    base = {n: dims[n][0] for n in names}
    for k in range(bound + 1):
        for which in itertools.combinations(names, k):
            for alts in itertools.product(*[dims[n][1:] for n in which]):
                cfg = dict(base)
                cfg.update(zip(which, alts))
                if keep is None or keep(cfg):
                    yield cfg
    if large:  # sizes beyond the menus: one or two at a time, one with each other deviation
        from .build import LARGE

        sizes = {n: LARGE[n] for n in names if n in LARGE and len(dims[n]) > 1}
        some = [dict(zip(which, alts)) for k in (1, 2) for which in itertools.combinations(sizes, k) for alts in itertools.product(*[sizes[n] for n in which])]
        some += [{n: v, m: w} for n in sizes for v in sizes[n] for m in names if m != n and bound > 1 for w in dims[m][1:]]
        for more in some:
            cfg = dict(base, **more)
            if keep is None or keep(cfg):
                yield cfg


def product(dims, keep=None):
    names = list(dims)
    for vals in itertools.product(*[dims[n] for n in names]):
        cfg = dict(zip(names, vals))
        if keep is None or keep(cfg):
            yield cfg


# ------------------------------------------------------------------ execution
class Timeout(Exception):
    pass


def _alarm(*_):
    raise Timeout("execution did not finish within %d s" % CONFIG_TIMEOUT)


_QUIET = None


def quiet_stdio():
    """The code under test prints; keep the check's own output readable."""
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)


def run_one(prop, cfg):
    mod = importlib.import_module("mc.props." + prop.lower())
    run = Run()
    from . import seam

    seam.reset()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(getattr(mod, "CONFIG_TIMEOUT", CONFIG_TIMEOUT))
    try:
        mod.check(cfg, run)
    except Exception as e:  # the real code raised, or returned something unusable
        tb = traceback.extract_tb(e.__traceback__)
        where = ["%s:%s %s" % (os.path.basename(f.filename), f.lineno, f.name) for f in tb][-6:]
        run.fail("raised %s: %s" % (type(e).__name__, str(e)[:500]), trace=where)
    finally:
        signal.alarm(0)
    run.states = max(run.states, 1)
    return cfg, run


def isolated(fn, *args):
    """Result of fn(*args) computed in a process of its own (reference runs that
    nothing else may have influenced)."""
    with multiprocessing.get_context("fork").Pool(1, initializer=_worker_init) as pool:
        return pool.apply(fn, args)


def _worker_init():
    quiet_stdio()
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    from . import seam

    seam.setup()


def _job(args):
    prop, cfgs = args
    out = []
    for cfg in cfgs:
        cfg, run = run_one(prop, cfg)
        out.append((cfg, run.__dict__))
        if len(run.failures) >= MAX_REPORT:
            break
    return out


def load_known():
    """Open findings: lines `open: property=<id> match=<regex> :: <what fails>`."""
    out = []
    path = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"open: property=(\S+) match=(.+?) :: (.*)", line.strip())
            if m:
                out.append((m.group(1), re.compile(m.group(2)), m.group(3)))
    return out


def key_of(cfg, failure):
    return json.dumps(jsonable(cfg), sort_keys=True) + " | " + failure["what"]


def main(argv):
    if argv and argv[0] == "replay":
        return replay(argv[1])
    prop = argv[0].upper()
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = importlib.import_module("mc.props." + prop.lower())
    t0 = time.monotonic()
    budget = {"quick": 600, "thorough": 6 * 3600}[tier]
    configs, seen = [], set()
    for cfg in mod.space(tier):
        k = json.dumps(jsonable(cfg), sort_keys=True)
        if k not in seen:
            seen.add(k)
            configs.append(json.loads(k))
    if hasattr(mod, "prepare"):
        mod.prepare(configs)
    known = [(rx, what) for p, rx, what in load_known() if p == prop]
    tot = {"states": 0, "transitions": 0, "validated": 0}
    outcomes, failures, known_hit, samples = set(), [], {}, []
    done = 0
    nproc = int(os.environ.get("MC_PROCS", "8"))
    ctx = multiprocessing.get_context("fork")
    pool = ctx.Pool(nproc, initializer=_worker_init, maxtasksperchild=getattr(mod, "TASKS_PER_CHILD", 400))
    try:
        size = getattr(mod, "CHUNK", max(1, min(8, len(configs) // (nproc * 4))))
        chunks = [configs[i : i + size] for i in range(0, len(configs), size)]
        it = pool.imap(_job, ((prop, c) for c in chunks))
        for chunk in chunks:
            try:
                results = it.next(timeout=300 + 2 * getattr(mod, "CONFIG_TIMEOUT", CONFIG_TIMEOUT))
            except multiprocessing.TimeoutError:
                failures.append((chunk[0], {"what": "execution hangs or crashes the interpreter", "detail": {}}))
                break
            for cfg, res in results:
                done += 1
                for key in tot:
                    tot[key] += res[key]
                outcomes.add(res["outcome"])
                if len(samples) < 4 or (done % max(1, len(configs) // 8) == 0 and len(samples) < 12):
                    samples.append({"config": jsonable(cfg), "outcome": str(res["outcome"])[:200]})
                for f in res["failures"]:
                    hit = [what for rx, what in known if rx.search(key_of(cfg, f))]
                    if hit:
                        known_hit[hit[0]] = known_hit.get(hit[0], 0) + 1
                    else:
                        failures.append((cfg, f))
            if len(failures) >= MAX_REPORT or time.monotonic() - t0 > budget:
                break
    finally:
        pool.terminate()
        pool.join()
    wall = time.monotonic() - t0
    replays = []
    for cfg, f in failures[:MAX_REPORT]:
        replays.append(write_replay(prop, cfg, f))
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": tot["states"],
            "transitions": tot["transitions"],
            "traces_validated_against_impl": tot["validated"],
            "samples": samples,
            "exhaustive": done == len(configs),
            "executions": done,
            "executions_in_bounded_space": len(configs),
            "distinct_outcomes": len(outcomes),
            "bounds": mod.BOUNDS[tier],
            "oracle": mod.ORACLE,
        },
        "wall_s": round(wall, 2),
        "violations": len(failures),
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as fh:
        json.dump(evidence, fh, indent=1)
    for what in sorted(known_hit):
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    print(
        "%s %s: executions=%d/%d states=%d transitions=%d compared=%d distinct_outcomes=%d wall=%.1fs"
        % (prop, tier, done, len(configs), tot["states"], tot["transitions"], tot["validated"], len(outcomes), wall)
    )
    for (cfg, f), path in zip(failures[:MAX_REPORT], replays):
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("   %s" % f["what"])
    if failures:
        return 1
    if done < len(configs):  # time budget: say what was covered, never claim more
        print("NOTE: time budget reached, %d of %d executions explored (simplest first)" % (done, len(configs)))
    return 0


def write_replay(prop, cfg, failure):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    name = hashlib.sha1(key_of(cfg, failure).encode()).hexdigest()[:12]
    path = os.path.join(d, "%s-%s.json" % (prop, name))
    with open(path, "w") as fh:
        json.dump({"property": prop, "config": jsonable(cfg), "failure": failure}, fh, indent=1)
    return path


def replay(path):
    from . import seam

    rec = json.load(open(path))
    out = os.dup(1)
    quiet_stdio()
    mod = importlib.import_module("mc.props." + rec["property"].lower())
    if hasattr(mod, "prepare"):
        mod.prepare([rec["config"]])
    seam.setup()
    results = []
    for _ in range(2):  # the same execution twice must observe the same failure
        _, run = run_one(rec["property"], rec["config"])
        results.append([f["what"] for f in run.failures])
    os.dup2(out, 1)
    print(json.dumps({"config": rec["config"], "failures": run.failures}, indent=1))
    if results[0] != results[1]:
        print("REPLAY DIVERGED", results)
        return 2
    if run.failures:
        print("VIOLATION property=%s replay=%s" % (rec["property"], path))
        return 1
    return 0
