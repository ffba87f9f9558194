import itertools

import numpy as np

from .. import build, ref, resid, seam
from ..core import deviations, product

BOUNDS = {
    "quick": "(a) all meshes, width vectors, grid types and grid sizes with at most 4 deviations from the default; (b) every width vector with entries k/12 for up to 4 segments x every subset-free node lattice j/24 x two reference intervals",
    "thorough": "(a) unbounded product; (b) entries k/16 for up to 5 segments",
}
ORACLE = "exact rational arithmetic for the node-to-segment map; reference nodes for the other grids"


def compositions(total, parts):
    if parts == 1:
        yield [total]
        return
    for k in range(1, total - parts + 2):
        for rest in compositions(total - k, parts - 1):
            yield [k] + rest


def space(tier):
    q = tier == "quick"
    d = build.dims("cls", "nph", "orders", "scheme", "tau", "widths", gtype=["fixed", "mid-points", "spectral"], npts=[20, 5, 1, 40], how=["argument", "default"])
    d["part"] = ["grid"]
    keep = lambda c: build.sensible(c)
    yield from (deviations(d, 4, keep) if q else product(d, keep))
    den = 12 if q else 16
    for parts in range(1, 5 if q else 6):
        for w in compositions(den, parts):
            for tau in ((-1, 1), (0, 1)):
                yield {"part": "map", "w": w, "den": den, "tau": tau}


def check(c, run):
    return check_map(c, run) if c["part"] == "map" else check_grid(c, run)


def check_map(c, run):
    den, w, (a, b) = c["den"], c["w"], c["tau"]
    fn = seam.mp.mpopt.compute_interpolation_taus_corresponding_to_original_grid
    js = np.arange(0, 2 * den + 1)
    nodes = a + (b - a) * js / (2.0 * den)
    got = fn(nodes, np.array(w) / float(den), tau0=a, tau1=b)
    run.transitions += 1
    run.states += len(js)
    edges = np.cumsum([0] + w) * 2
    if not run.check(len(got) == len(w), "one list of points per segment"):
        return
    total = 0
    for s in range(len(w)):
        # the node may be given to either neighbour when it sits on a boundary
        inner = [j for j in js if edges[s] < j < edges[s + 1]]
        t = np.asarray(got[s], float)
        total += len(t)
        pos = edges[s] + (t - a) / (b - a) * (edges[s + 1] - edges[s])
        run.check(all((t >= a - 1e-9) & (t <= b + 1e-9)), "points lie within their segment", segment=s, points=t)
        run.check(all(np.abs(pos - np.round(pos)) < 1e-6), "points map back to requested nodes", segment=s, points=pos)
        have = set(np.round(pos).astype(int))
        run.check(set(inner) <= have and all(edges[s] <= j <= edges[s + 1] for j in have), "requested nodes inside the segment are its points", segment=s, expected=inner, observed=sorted(have))
    allpos = sum(([round(edges[s] + (x - a) / (b - a) * (edges[s + 1] - edges[s])) for x in got[s]] for s in range(len(w))), [])
    run.check(sorted(allpos) == list(range(1, 2 * den + 1)), "every requested node after the start appears exactly once", observed=sorted(allpos))
    run.outcome = str([len(g) for g in got])


def check_grid(c, run):
    s = build.Spec(c)
    opt, sol, z, w = build.solved(s, 0)
    mesh = s.mesh()
    opt._MAX_GRID_POINTS = c["npts"]
    r = mesh.tau1 - mesh.tau0
    for p in range(s.nph):
        if c["how"] == "argument":
            g = opt.get_residual_grid_taus(phase=p, grid_type=c["gtype"])
        else:
            opt.grid_type[p] = c["gtype"]
            g = opt.get_residual_grid_taus(phase=p)
        run.transitions += 1
        run.states += 1
        if not run.check(len(g) == mesh.nseg, "one list of points per segment"):
            continue
        g = [np.asarray(x, float).ravel() for x in g]
        n = sum(len(x) for x in g)
        if c["gtype"] == "fixed":
            edges = np.concatenate([[0.0], np.cumsum(w[p])])
            pos = np.concatenate([edges[i] + w[p][i] * (g[i] - mesh.tau0) / r for i in range(mesh.nseg)])
            want = max(sum(s.c["orders"]), c["npts"])
            run.check(n == want, "the fixed grid has %d points, expected %d" % (n, want), phase=p)
            run.check(np.abs(pos - np.linspace(0, 1, n + 2)[1:-1]).max() < 1e-9, "the fixed grid is equally spaced inside the phase", phase=p, observed=pos)
        else:
            for i, d in enumerate(mesh.orders):
                x = mesh.x[d]
                e = (x[:-1] + x[1:]) / 2 if c["gtype"] == "mid-points" else ref.nodes(s.c["scheme"], c["npts"] + 2, mesh.tau0, mesh.tau1)[1:-1]
                run.check(g[i].shape == e.shape and np.abs(g[i] - e).max() < 1e-9, "%s grid of a segment" % c["gtype"], phase=p, segment=i, expected=e, observed=g[i])
        run.outcome = "%d %.6g" % (n, sum(x.sum() for x in g))
    # the grids follow the widths of the latest solve
    if c["cls"] in ("mpopt", "mpopt_adaptive") and c["gtype"] == "fixed" and mesh.nseg > 1:
        for variant in ("rev", "uneq", "equal"):
            want = s.widths(variant)
            z2 = build.probes(s, 2)[1]
            lay = s.layout()
            for p in range(s.nph):
                if lay.nseg:
                    z2[(p + 1) * lay.per - lay.nseg : (p + 1) * lay.per] = want[p]
            with seam.solver_stub(lambda *a: {"x": z2}):
                sol2 = opt.solve(**({"reinitialize_nlp": True} if s.adaptive else {"mpopt_options": {"nlp_sw_params": list(np.concatenate(want))}}))
            if s.adaptive:
                opt.process_results(sol2, plot=False, residual_dx=False)
            for p in range(s.nph):
                run.transitions += 1
                g = [np.asarray(v, float).ravel() for v in opt.get_residual_grid_taus(phase=p, grid_type="fixed")]
                edges = np.concatenate([[0.0], np.cumsum(want[p])])
                pos = np.concatenate([edges[i] + want[p][i] * (g[i] - mesh.tau0) / r for i in range(mesh.nseg)])
                e = np.linspace(0, 1, max(sum(s.c["orders"]), c["npts"]) + 2)[1:-1]
                run.check(pos.shape == e.shape and np.abs(pos - e).max() < 1e-9, "the fixed grid after a solve with other widths", phase=p, expected=e, observed=pos)
        opt, sol, z, w = build.solved(s, 0)
        opt._MAX_GRID_POINTS = c["npts"]
    if c["how"] == "default":  # every diagnostic uses the grid of its phase
        lay = s.layout()
        kinds = [c["gtype"], "mid-points", "spectral", "fixed"]
        for p in range(s.nph):
            opt.grid_type[p] = kinds[p]
        found = {"dynamics residuals": opt.get_dynamics_residuals(sol)[0]}
        if max(c["orders"]) <= 3 and c["npts"] <= 5:
            found["state residuals"] = opt.get_states_residuals(sol)[2]
        for p in range(s.nph):
            found.setdefault("second derivatives", []).append(opt.get_state_second_derivative_single_phase(sol, phase=p)[0])
        run.transitions += 3
        for p in range(s.nph):
            for gtype in (None, "mid-points", "spectral", "fixed"):  # interpolation at a grid given by name
                taus = resid.points(s, mesh, w, p, gtype or kinds[p], c["npts"])
                X, U, tn, av, t0, tf = build.phase_data(s, z, w, p)
                got = opt.interpolate_single_phase(sol, p, grid_type=gtype)
                run.transitions += 1
                e = mesh.times_at(t0, tf, w[p], taus)
                o = np.ravel(got[2].full() if hasattr(got[2], "full") else np.array(got[2], float))
                run.check(o.shape == e.shape and np.abs(o - e).max() < 1e-9, "times of interpolation", phase=p, grid=gtype, expected=e, observed=o)
                for what, v, data, scale in (("states", got[0], X, s.scale_x), ("controls", got[1], U, s.scale_u)):
                    e = np.array(mesh.value(data * scale, taus), float)
                    o = np.array(v.full(), float)
                    run.check(o.shape == e.shape and (e.size == 0 or np.abs(o - e).max() < 1e-6 * max(1, np.abs(e).max())), "interpolated " + what, phase=p, grid=gtype, expected=e, observed=o)
            taus = resid.points(s, mesh, w, p, kinds[p], c["npts"])
            t0, tf = lay.split(z, p)[2:4]
            e = mesh.times_at(t0 / s.scale_t, tf / s.scale_t, w[p], taus)
            for what, ti in found.items():
                o = np.concatenate([np.zeros(0)] + [np.ravel(t) for t in ti[p] if t is not None and np.size(t)])
                run.check(o.shape == e.shape and np.abs(o - e).max() < 1e-9, "times of the %s" % what, phase=p, expected=e, observed=o)
