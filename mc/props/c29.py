import numpy as np

from .. import build, hist, ref, seam
from ..core import deviations, product

BOUNDS = {
    "quick": "8 problems with polynomial solutions x all meshes, schemes, optimizers, scalings, start times and widths with at most 2 deviations from the default",
    "thorough": "the same with at most 4 deviations",
}
ORACLE = "closed-form optimal trajectories, costs, times and parameters"
ASSUMPTIONS = ["IPOPT itself is trusted; meshes have the degree of the solution or more"]
CONFIG_TIMEOUT = 60

# name: (nx, nu, na, phases, smallest degree)
PROBLEMS = {"transfer": (2, 1, 0, 1, 3), "time": (1, 1, 0, 1, 1), "drift": (1, 1, 0, 1, 2), "limit": (1, 1, 0, 1, 2), "param": (1, 1, 1, 1, 1), "two": (1, 1, 0, 2, 1), "jump": (1, 1, 1, 2, 1), "three": (2, 1, 0, 3, 3)}


def space(tier):
    d = {"prob": list(PROBLEMS), "orders": [[3, 3], [4], [3, 5, 4], [7], [4, 3, 3, 4]], "low": [False, True], "scheme": ["LGR", "LGL", "CGL"], "cls": ["mpopt", "mpopt_h_adaptive", "mpopt_adaptive", "mpopt_ph_adaptive"],
         "scale": [False, True], "start": [0.0, 0.7], "widths": ["equal", "uneq"], "method": ["symbolic", "numerical"], "tau": [-1, 0], "again": ["once", "warm", "ph"], "slope": [False, True]}

    def keep(c):
        if c["scheme"] != "LGR" and len(c["orders"]) > 1:
            return False  # the slope right of an inner segment border is not collocated
        if c["slope"] and c["cls"] == "mpopt_adaptive":
            return False  # the solver only reaches a rough answer of this nonconvex problem
        if c["again"] == "ph" and c["cls"] != "mpopt_ph_adaptive":
            return False
        if c["widths"] != "equal" and (c["cls"] in ("mpopt_h_adaptive", "mpopt_adaptive") or len(c["orders"]) == 1):
            return False
        return True

    b = 3 if tier == "quick" else 4
    return deviations(d, b, keep, large=False)


def problem(c):
    """OCP, per-phase times and closed-form trajectories, optimal cost, parameters."""
    mp, name, ts = seam.mp, c["prob"], c["start"]
    nx, nu, na, nph, _ = PROBLEMS[name]
    o = mp.OCP(n_states=nx, n_controls=nu, n_phases=nph, n_params=na)
    ends = [ts + (p + 1.0) / nph for p in range(nph)]
    starts = [ts] + ends[:-1]
    for p in range(nph):
        o.lbt0[p], o.ubt0[p] = starts[p], starts[p]
        o.lbtf[p], o.ubtf[p] = ends[p], ends[p]
        o.t00[p], o.tf0[p] = starts[p], ends[p]
    a_opt = [[] for _ in range(nph)]
    if name in ("transfer", "three"):  # least-effort rest-to-rest transfer
        for p in range(nph):
            o.dynamics[p] = lambda x, u, t: [x[1], u[0]]
            o.running_costs[p] = lambda x, u, t: u[0] * u[0]
        o.terminal_constraints[nph - 1] = lambda xf, tf, x0, t0: [xf[0] - 1.0, xf[1]]
        x = lambda p, t: [3 * (t - ts) ** 2 - 2 * (t - ts) ** 3, 6 * (t - ts) - 6 * (t - ts) ** 2]
        u = lambda p, t: [6 - 12 * (t - ts)]
        cost = 12.0
    elif name == "time":  # shortest time at bounded speed
        o.dynamics[0] = lambda x, u, t: [u[0]]
        o.terminal_costs[0] = lambda xf, tf, x0, t0: tf - t0
        o.terminal_constraints[0] = lambda xf, tf, x0, t0: [xf[0] - 1.5]
        o.lbu[0], o.ubu[0] = -1.0, 1.0
        o.lbtf[0], o.ubtf[0], o.tf0[0] = ts + 0.1, ts + 5.0, ts + 2.0
        o.xf0[0] = [1.0]
        x, u, cost, ends = (lambda p, t: [t - ts]), (lambda p, t: [1.0 + 0 * t]), 1.5, [ts + 1.5]
    elif name == "drift":  # explicit time in the dynamics and in the cost
        o.dynamics[0] = lambda x, u, t: [u[0] + 2 * (t - ts)]
        o.running_costs[0] = lambda x, u, t: u[0] * u[0] + 2 * t
        o.terminal_constraints[0] = lambda xf, tf, x0, t0: [xf[0] - 3.0]
        x, u, cost = (lambda p, t: [2 * (t - ts) + (t - ts) ** 2]), (lambda p, t: [2.0 + 0 * t]), 4.0 + 1.0 + 2 * ts
    elif name == "limit":  # a path constraint that is active all along
        o.dynamics[0] = lambda x, u, t: [u[0]]
        o.path_constraints[0] = lambda x, u, t: [u[0] - (t - ts), -1.0 - u[0]]
        o.terminal_costs[0] = lambda xf, tf, x0, t0: -xf[0] + x0[0]
        x, u, cost = (lambda p, t: [0.5 * (t - ts) ** 2]), (lambda p, t: [t - ts]), -0.5
    elif name == "param":  # best constant parameter
        o.dynamics[0] = lambda x, u, t, a: [a[0] + u[0]]
        o.running_costs[0] = lambda x, u, t, a: u[0] * u[0] + a[0] * a[0]
        o.terminal_constraints[0] = lambda xf, tf, x0, t0, a: [xf[0] - 2.0]
        x, u, cost, a_opt = (lambda p, t: [2 * (t - ts)]), (lambda p, t: [1.0 + 0 * t]), 2.0, [[1.0]]
    elif name == "two":  # free switching time between two phases of equal speed
        for p in range(2):
            o.dynamics[p] = lambda x, u, t: [u[0]]
            o.running_costs[p] = lambda x, u, t: u[0] * u[0]
        o.terminal_constraints[1] = lambda xf, tf, x0, t0: [xf[0] - 2.0]
        x, u, cost = (lambda p, t: [2 * (t - ts)]), (lambda p, t: [2.0 + 0 * t]), 4.0
    else:  # a jump of the state between the phases, one parameter per phase
        for p in range(2):
            o.dynamics[p] = lambda x, u, t, a, p=p: [u[0] + (p + 1) * a[0]]
            o.running_costs[p] = lambda x, u, t, a: u[0] * u[0] + a[0] * a[0]
        o.terminal_constraints[1] = lambda xf, tf, x0, t0, a: [xf[0] - 4.0]
        o.lbe[0], o.ube[0] = 0.5, 0.5
        # u + (1 u + 2 a2 + a1) / 2 ... : minimise over u, a1, a2 with u + a1/2 + a2 = 3.5
        lam = 3.5 / (1 + 0.5 + 2.0)
        uo, a1, a2 = lam, lam, 2 * lam
        v1, v2 = uo + a1, uo + 2 * a2
        x = lambda p, t: [v1 * (t - ts)] if p == 0 else [v1 * 0.5 + 0.5 + v2 * (t - ts - 0.5)]
        u, a_opt = (lambda p, t: [uo + 0 * t]), [[a1], [a2]]
        cost = uo**2 + (a1**2 + a2**2) / 2
    if c["slope"]:  # wide limits on the control rate and slope continuity: nothing changes
        for p in range(nph):
            o.diff_u[p], o.lbdu[p], o.ubdu[p] = 1, -60.0, 60.0
            o.du_continuity[p] = 1
    if c["scale"]:
        o.scale_x = np.array([0.5, 3.0])[:nx]
        o.scale_u = np.array([0.4])[:nu]
        o.scale_a = np.array([2.5])[:na]
        o.scale_t = 0.8
    return o, starts, ends, x, u, cost, a_opt


def check(c, run):
    mp = seam.mp
    need = max(2, PROBLEMS[c["prob"]][4])
    orders = list(c["orders"])
    if c["low"]:
        orders = [max(need, d - 2) for d in orders]
    mp.Collocation.D_MATRIX_METHOD = c["method"]
    mp.CollocationRoots._TAU_MIN = c["tau"]
    o, starts, ends, x, u, cost, a_opt = problem(c)
    o.validate()
    opt = getattr(mp, c["cls"])(o, len(orders), list(orders), c["scheme"])
    kw = {"nlp_solver_options": {"ipopt.tol": 1e-9, "ipopt.acceptable_tol": 1e-8}}
    if c["widths"] == "uneq":
        w = np.array([1.0 + 0.7 * i for i in range(len(orders))])
        kw["mpopt_options"] = {"nlp_sw_params": list(w / w.sum()) * o.n_phases}
    if c["again"] == "ph":
        sol = opt.solve_ph(max_iter=2, solve_dict=kw)
    else:
        sol = opt.solve(**kw)
        if c["again"] == "warm":
            sol = opt.solve(initial_solution=sol, **kw)
    run.transitions += 1 + (c["again"] == "warm")
    post = opt.process_results(sol, plot=False, residual_dx=True)
    tol = 1e-3 if c["cls"] == "mpopt_adaptive" else 2e-5
    run.check(abs(float(sol["f"]) - cost) <= tol * max(1, abs(cost)), "optimal cost", expected=cost, observed=float(sol["f"]))
    for p in range(o.n_phases):
        for fine in (False, True):
            X, U, t, a = post.get_data([p], interpolate=fine)
            t = np.asarray(t, float).ravel()
            run.check(abs(t[0] - starts[p]) < tol and abs(t[-1] - ends[p]) < tol, "start and end time", phase=p, expected=(starts[p], ends[p]), observed=(t[0], t[-1]))
            run.check((np.diff(t) > -1e-9).all(), "times increase", phase=p, times=t)
            run.states += len(t)
            ex = np.array([np.asarray(v, float) + 0 * t for v in x(p, t)]).T
            eu = np.array([np.asarray(v, float) + 0 * t for v in u(p, t)]).T
            run.check(np.abs(np.asarray(X) - ex).max() < 20 * tol, "optimal states", phase=p, interpolated=fine, error=np.abs(np.asarray(X) - ex).max())
            run.check(np.abs(np.asarray(U) - eu).max() < (0.3 if c["cls"] == "mpopt_adaptive" else 100 * tol), "optimal controls", phase=p, interpolated=fine, error=np.abs(np.asarray(U) - eu).max())
        if a_opt[p]:
            run.check(np.allclose(np.asarray(a, float).ravel(), a_opt[p], atol=50 * tol), "optimal parameters", phase=p, expected=a_opt[p], observed=a)
    top = max([0.0] + [np.abs(np.asarray(r, float)).max() for q in post.residuals["t_dx"][1] for r in q if r is not None and np.size(r)])
    run.check(top < 100 * tol, "an exact solution has no dynamics residual", observed=top)
    run.outcome = "%s %.6f" % (c["prob"], float(sol["f"]))
