import numpy as np

from .. import build, seam
from ..core import deviations, product

BOUNDS = {
    "quick": "shipped defaults for all sizes up to 3 states, 3 controls, 2 parameters, 3 phases; every well-formed problem with at most 2 deviations from the default; every single defect (entry by entry) of 18 base problems",
    "thorough": "the same with 3 deviations and single defects of 54 base problems",
}
ORACLE = "documented defaults; a problem is well formed iff callbacks, sizes and bounds agree with the declared dimensions"
INF = float("inf")
PER = {"x00": "nx", "xf0": "nx", "u00": "nu", "uf0": "nu", "a0": "na", "t00": 1, "tf0": 1, "lbx": "nx", "ubx": "nx", "lbu": "nu", "ubu": "nu", "lba": "na", "uba": "na", "lbt0": 1, "ubt0": 1, "lbtf": 1, "ubtf": 1}
DEFAULT = {"x00": 0, "xf0": 0, "u00": 0, "uf0": 0, "a0": 0, "t00": 0, "tf0": 1, "lbx": -INF, "ubx": INF, "lbu": -INF, "ubu": INF, "lba": -INF, "uba": INF, "lbt0": 0, "ubt0": INF, "lbtf": 0, "ubtf": INF}
CALLBACKS = ["dynamics", "running_costs", "terminal_costs", "path_constraints", "terminal_constraints"]


def space(tier):
    for c in product({"kind": ["defaults"], "nx": [1, 2, 3], "nu": [0, 1, 2, 3], "na": [0, 1, 2], "nph": [1, 2, 3]}):
        yield c
    d = build.dims("nph", "nx", "nu", "na", "scale", "path", "term", "cost", "mayer", "bounds", "links", "jump", "diffu", "guess")
    for c in deviations(d, 2 if tier == "quick" else 3, build.sensible):
        yield dict(c, kind="well formed")
    for c in product({"kind": ["defects"], "nx": [2, 1, 3] if tier != "quick" else [2, 1], "nu": [1, 0, 2], "na": [0, 1, 2], "nph": [1, 3] if tier == "quick" else [1, 2, 3],
                      "path": ["all"], "term": ["all"], "bounds": ["box"]}):
        if tier != "quick" or c["nu"] < 2 or c["na"] == 1:
            yield c


def defects(s):
    """Every single ill-formed edit: (name, function that applies it to a problem)."""
    ph = range(s.nph)
    for name in CALLBACKS:
        yield name + " missing for a phase", lambda o, n=name: setattr(o, n, getattr(o, n)[:-1])
        yield name + " for a phase that does not exist", lambda o, n=name: setattr(o, n, list(getattr(o, n)) + [getattr(o, n)[0]])
    for p in ph:
        for extra in (-1, 1):
            def f(o, p=p, extra=extra):
                full = o.dynamics[p]
                o.dynamics[p] = lambda *z: (list(full(*z)) + [0.0])[: s.nx + extra]
            yield "dynamics of phase %d returns %d entries too many" % (p, extra), f
        for name in ("running_costs", "terminal_costs"):
            yield "%s of phase %d returns nothing" % (name, p), lambda o, n=name, p=p: getattr(o, n).__setitem__(p, lambda *z: None)
        for name in ("path_constraints", "terminal_constraints"):
            yield "%s of phase %d returns an empty list" % (name, p), lambda o, n=name, p=p: getattr(o, n).__setitem__(p, lambda *z: [])
    for name, n in (("scale_x", s.nx), ("scale_u", s.nu), ("scale_a", s.na)):
        yield name + " too long", lambda o, m=name: setattr(o, m, np.append(getattr(o, m), 1.0))
        if n:
            yield name + " too short", lambda o, m=name: setattr(o, m, getattr(o, m)[:-1])
    for name in PER:
        yield name + " lacks a phase", lambda o, m=name: setattr(o, m, getattr(o, m)[:-1])
        yield name + " has a phase too many", lambda o, m=name: setattr(o, m, np.concatenate([getattr(o, m), getattr(o, m)[:1]]))
        yield name + " has a column too many", lambda o, m=name: setattr(o, m, np.concatenate([getattr(o, m), np.zeros((o.n_phases, 1))], axis=1))
    for name in ("lbe", "ube"):
        yield name + " has a link too many", lambda o, m=name: setattr(o, m, np.zeros((o.n_phases, o.nx)))
        if s.nph > 1:
            yield name + " lacks a link", lambda o, m=name: setattr(o, m, getattr(o, m)[:-1])
            yield name + " has a column too many", lambda o, m=name: setattr(o, m, np.zeros((o.n_phases - 1, o.nx + 1)))
    for name in ("diff_u", "lbdu", "ubdu", "midu", "du_continuity"):
        yield name + " lacks a phase", lambda o, m=name: setattr(o, m, getattr(o, m)[:-1])
        yield name + " has a phase too many", lambda o, m=name: setattr(o, m, np.append(getattr(o, m), getattr(o, m)[:1]))
    for p in ph:
        def du(o, p=p):
            o.lbdu[p], o.ubdu[p] = 2.0, 1.0
        yield "lbdu above ubdu in phase %d" % p, du
    for lo, hi, n in (("lbx", "ubx", s.nx), ("lbu", "ubu", s.nu), ("lba", "uba", s.na), ("lbt0", "ubt0", 1), ("lbtf", "ubtf", 1)):
        for p in ph:
            for i in range(n):
                def g(o, lo=lo, hi=hi, p=p, i=i):
                    getattr(o, lo)[p, i], getattr(o, hi)[p, i] = 2.0, 1.0
                yield "%s above %s in phase %d, entry %d" % (lo, hi, p, i), g
    for k in range(s.nph - 1):
        for i in range(s.nx):
            def h(o, k=k, i=i):
                o.lbe[k, i], o.ube[k, i] = 2.0, 1.0
            yield "lbe above ube of link %d, entry %d" % (k, i), h
    yield "no phases", lambda o: setattr(o, "n_phases", 0)


def check(c, run):
    mp = seam.mp
    cfg = build.default(**{k: v for k, v in c.items() if k != "kind"})
    if c["kind"] == "well formed":
        s = build.Spec(cfg)
        s.ocp().validate()
        for extra in (1, 2):  # equal lower and upper bounds are well formed
            o = s.ocp()
            for lo, hi in (("lbx", "ubx"), ("lbu", "ubu"), ("lba", "uba"), ("lbt0", "ubt0"), ("lbtf", "ubtf"), ("lbe", "ube")):
                getattr(o, lo)[...] = extra
                getattr(o, hi)[...] = extra
            o.validate()
        run.transitions += 3
        run.validated += 3
        run.outcome = "accepted"
    elif c["kind"] == "defaults":
        o = mp.OCP(n_states=c["nx"], n_controls=c["nu"], n_phases=c["nph"], n_params=c["na"])
        run.transitions += 1
        size = {"nx": c["nx"], "nu": c["nu"], "na": c["na"], 1: 1}
        for name, n in PER.items():
            want = np.full((c["nph"], size[n]), float(DEFAULT[name]))
            if name == "ubt0":
                want[0] = 0.0
            v = np.asarray(getattr(o, name), float)
            run.check(v.shape == want.shape and np.array_equal(v, want), "default of %s" % name, expected=want, observed=v)
        for name, n in (("scale_x", "nx"), ("scale_u", "nu"), ("scale_a", "na")):
            run.check(np.array_equal(np.asarray(getattr(o, name), float), np.ones(size[n])), "default of %s" % name)
        for name in ("lbe", "ube"):
            v = np.asarray(getattr(o, name), float)
            run.check(len(v) == c["nph"] - 1 and not v.any() and (c["nph"] == 1 or v.shape[1] == c["nx"]), "default of %s" % name)
        run.check(o.scale_t == 1.0, "default time scale")
        run.check([tuple(k) for k in o.phase_links] == [(i, i + 1) for i in range(c["nph"] - 1)], "default phase links", observed=o.phase_links)
        run.check([bool(v) for v in o.diff_u] == [False] * c["nph"] and [bool(v) for v in o.du_continuity] == [False] * c["nph"], "slope limits are off by default")
        run.check([bool(v) for v in o.midu] == [True] * c["nph"], "mid-point control bounds are on by default")
        run.check([float(v) for v in o.lbdu] == [-15.0] * c["nph"] and [float(v) for v in o.ubdu] == [15.0] * c["nph"], "default slope limits")
        x, u, a = [1.5] * c["nx"], [0.5] * c["nu"], [2.0] * c["na"]
        tail = (a,) if c["na"] else ()
        for p in range(c["nph"]):
            run.check(list(o.dynamics[p](x, u, 0.3, *tail)) == [0] * c["nx"], "default dynamics")
            run.check(o.running_costs[p](x, u, 0.3, *tail) == 0 and o.terminal_costs[p](x, 1.0, x, 0.0, *tail) == 0, "default costs")
            run.check(o.path_constraints[p](x, u, 0.3, *tail) is None and o.terminal_constraints[p](x, 1.0, x, 0.0, *tail) is None, "default constraints")
            run.check(not o.has_path_constraints(p) and not o.has_terminal_constraints(p), "a default problem reports no constraints")
            run.states += 1
        o.validate()
        run.outcome = "defaults"
    else:
        s = build.Spec(cfg)
        good = s.ocp()
        good.validate()
        for p in range(s.nph):
            run.check(good.has_path_constraints(p) and good.has_terminal_constraints(p), "a constrained problem reports its constraints", phase=p)
        for name, edit in defects(s):
            o = s.ocp()
            edit(o)
            run.states += 1
            run.transitions += 1
            try:
                o.validate()
                rejected = False
            except Exception:
                rejected = True
            run.check(rejected, "ill-formed problem accepted: %s" % name)
        run.outcome = "%d defects rejected" % run.states
