import numpy as np

from .. import build
from ..core import deviations

BOUNDS = {
    "quick": "all problems, meshes, scalings and evaluation grids with at most 3 deviations from the default environment x every ordered list of phases",
    "thorough": "the same with at most 4 deviations",
}
ORACLE = "barycentric evaluation of the piecewise interpolant of the solver's answer at the returned times"


def space(tier):
    d = build.dims("cls", "nph", "nx", "nu", "na", "orders", "scheme", "method", "tau", "widths", "scale",
                   grid=["default", "uneven", "uniform", "gaps", "single"], scaling=[False, True], na=[1, 0, 2],
                   scale=["all", "none", "x", "u", "a", "t"],
                   **({} if tier == "thorough" else dict(nx=[2, 1], nu=[2, 1, 0], orders=[[2, 3], [3], [1], [3, 1, 2]], cls=["mpopt", "mpopt_h_adaptive", "mpopt_adaptive"])))
    return deviations(d, 3 if tier == "quick" else 4, lambda c: build.sensible(c) and not (c["grid"] == "gaps" and len(c["orders"]) == 1))


def locate(mesh, t0, tf, w, times):
    """Segment and local coordinate of each time of a phase."""
    f = (np.asarray(times, float) - t0) / (tf - t0)
    edges = np.concatenate([[0.0], np.cumsum(w)])
    seg = np.clip(np.searchsorted(edges, f - 1e-12, side="left") - 1, 0, mesh.nseg - 1)
    return seg, mesh.tau0 + (mesh.tau1 - mesh.tau0) * (f - edges[seg]) / np.asarray(w)[seg]


def check(c, run):
    from .. import ref

    s = build.Spec(c)
    opt, sol, z, w = build.solved(s, 0)
    post = opt.process_results(sol, plot=False, scaling=c["scaling"], residual_dx=False)
    mesh = s.mesh()
    data = [build.phase_data(s, z, w, p) for p in range(s.nph)]
    sx, su, sa = (s.scale_x, s.scale_u, s.scale_a) if c["scaling"] else (1.0, 1.0, 1.0)
    run.transitions += 2
    for d in sorted(set(c["orders"])):
        nodes = np.array(mesh.x[d], float)
        for want in (2, d + 2, 17, 50):
            run.transitions += 2
            got = np.array(post.get_interpolation_taus(want), float)
            run.check(len(got) == want and np.allclose(got, np.linspace(nodes[0], nodes[-1], want)), "uniform interpolation points", n=want, observed=got)
            got = np.array(post.get_interpolation_taus(want, nodes, "other"), float)
            # every gap between nodes is divided evenly, into equally many parts
            parts = (len(got) - 1) // d
            fine = np.concatenate([[nodes[0]]] + [np.linspace(nodes[j], nodes[j + 1], parts + 1)[1:] for j in range(d)])
            run.check(len(got) >= min(want, 32 * d) and np.shape(got) == fine.shape and np.allclose(got, fine), "refined interpolation points", n=want, expected=fine, observed=got)
    taus = None if c["grid"] == "default" else build.tau_patterns(s, c["grid"], mesh)
    for ph in build.phase_lists(s.nph):
        run.states += 1
        run.transitions += 1
        if taus is None:
            x, u, t, a = post.get_data(phases=list(ph), interpolate=True)
        else:
            x, u, t, a = post.get_interpolated_data(list(ph), taus=[np.array(v) for v in taus])
        t = np.asarray(t, float).ravel()
        n = len(t) // len(ph)
        if not run.check(len(t) == n * len(ph) and x.shape == (len(t), s.nx) and u.shape == (len(t), s.nu), "one row of data per time", phases=ph, times=t.shape, states=x.shape):
            continue
        for k, p in enumerate(ph):
            X, U, tn, av, t0, tf = data[p]
            tk = t[k * n : (k + 1) * n]
            if taus is None:
                run.check(abs(tk[0] - t0) < 1e-9 and abs(tk[-1] - tf) < 1e-9 and (np.diff(tk) > 0).all(), "interpolated times run through the whole phase", phase=p)
                edges = t0 + (tf - t0) * np.cumsum(w[p])
                run.check(all(np.abs(tk - e).min() < 1e-9 for e in edges), "segment boundaries are among the interpolated times", phase=p)
                per = np.diff(np.concatenate([[0], [int(np.sum(tk <= e + 1e-9)) for e in edges]]))
                run.check(per.min() >= 20, "every segment is resolved", per_segment=per)
                seg, loc = locate(mesh, t0, tf, w[p], tk)
            else:
                e = mesh.times_at(t0, tf, w[p], taus)
                if not run.check(len(e) == n and np.abs(e - tk).max() < 1e-9, "times of the requested points", expected=e, observed=tk):
                    continue
                seg = np.array([i for i in range(mesh.nseg) for _ in taus[i]])
                loc = np.concatenate(taus)
            rows = np.array([ref.interp(mesh.x[mesh.orders[i]], v) for i, v in zip(seg, loc)], dtype=object)
            ex = np.array([r @ X[mesh.slice(i)] for r, i in zip(rows, seg)], dtype=float) * sx
            eu = np.array([np.asarray(r, float) @ U[mesh.slice(i)] for r, i in zip(rows, seg)], dtype=float).reshape(n, s.nu) * su
            run.check(np.abs(ex - x[k * n : (k + 1) * n]).max() < 1e-6, "interpolated states", phase=p)
            run.check(s.nu == 0 or np.abs(eu - u[k * n : (k + 1) * n]).max() < 1e-6, "interpolated controls", phase=p)
        ea = np.concatenate([data[p][3] * sa for p in ph]).reshape(-1, 1)
        run.check(np.shape(a) == ea.shape and np.allclose(a, ea), "parameters with interpolated data", phases=ph, expected=ea, observed=a)
    # one result is asked for many grids, in any order
    grids = [build.tau_patterns(s, g, mesh) for g in ("uneven", "uniform", "single")]
    mirror = [[(mesh.tau0 + mesh.tau1 - v) for v in reversed(seg)] for seg in grids[0]]
    halves = [[(mesh.tau0 + v) / 2 for v in seg] for seg in grids[0]]
    ask = [grids[0], mirror, None, halves, grids[1], grids[0], None, grids[2], mirror]
    first = {}
    for k, g in enumerate(ask):
        run.transitions += 1
        for p in range(s.nph):
            if g is None:
                x, u, t, a = post.get_data(phases=[p], interpolate=True)
            else:
                x, u, t, a = post.get_interpolated_data([p], taus=[np.array(v) for v in g])
            X, U, tn, av, t0, tf = data[p]
            t = np.asarray(t, float).ravel()
            e = t if g is None else mesh.times_at(t0, tf, w[p], g)
            if not run.check(len(e) == len(t) and np.abs(e - t).max() < 1e-9, "times of request %d" % k, phase=p, expected=e, observed=t):
                continue
            if (p, str(g)) in first:
                ex, eu = first[p, str(g)]
            elif g is None:
                ex, eu = x, u
            else:
                seg = [i for i in range(mesh.nseg) for _ in g[i]]
                rows = [ref.interp(mesh.x[mesh.orders[i]], v) for i, v in zip(seg, np.concatenate(g))]
                ex = np.array([np.asarray(r, float) @ X[mesh.slice(i)] for r, i in zip(rows, seg)]) * sx
                eu = np.array([np.asarray(r, float) @ U[mesh.slice(i)] for r, i in zip(rows, seg)]).reshape(len(t), s.nu) * su
            first[p, str(g)] = np.array(x, float), np.array(u, float)
            run.check(np.shape(x) == np.shape(ex) and np.abs(ex - x).max() < 1e-6, "states of request %d" % k, phase=p)
            run.check(np.shape(u) == np.shape(eu) and (s.nu == 0 or np.abs(eu - u).max() < 1e-6), "controls of request %d" % k, phase=p)
    run.outcome = "%.8g" % (np.abs(x).sum() + t.sum())
