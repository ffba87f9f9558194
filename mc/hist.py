"""Observations of an optimizer at its boundaries, and their comparison: used by
the checks that replay whole histories of calls and compare them with a run of
the same calls by an optimizer of their own."""
import numpy as np

from . import build, seam


def problem(cap, nprobe=2):
    """What was handed to the solver: sizes, options, last call, function values."""
    call = cap.calls[-1]
    out = {"sizes": (cap.nx, cap.np_, cap.ng), "plugin": cap.plugin, "opts": sorted((a, str(b)) for a, b in cap.opts.items())}
    out.update(call)
    for i in range(nprobe):
        p = call["p"] if call["p"].size == cap.np_ else np.zeros(cap.np_)
        f, g = cap.eval(build.probe(cap.nx, i) + 0.05 * np.arange(cap.nx), p)
        out["f%d" % i], out["g%d" % i] = np.array([f]), g
    return out


def flat(v):
    if v is None:
        return np.zeros(0)
    if isinstance(v, (list, tuple)):
        return np.concatenate([flat(e) for e in v]) if len(v) else np.zeros(0)
    if hasattr(v, "full"):
        return np.asarray(v.full(), float).ravel(order="F")
    return np.asarray(v, float).ravel()


def results(opt, sol, phases=None, residuals=True):
    """Everything a user reads from a solution."""
    post = opt.process_results(sol, plot=False, residual_x=False, residual_dx=residuals)
    out = {"x_opt": flat(sol["x"]), "cost": flat(sol["f"])}
    for name, kw in (("data", {}), ("fine", {"interpolate": True})):
        for what, v in zip("xuta", post.get_data(phases or [], **kw)):
            out[name + "." + what] = flat(v)
    if post.residuals:
        for key, v in post.residuals.items():
            out["resid." + key] = flat(v)
    return out


def diagnostics(opt, sol):
    """Grids, residuals and second derivatives of a solution."""
    out = {}
    for p in range(opt._ocp.n_phases):
        for name in ("fixed", "mid-points", "spectral"):
            out["grid.%s.%d" % (name, p)] = flat([flat(v) for v in opt.get_residual_grid_taus(p, name)])
        out["at.%d" % p] = flat([v for v in opt.interpolate_single_phase(sol, p, grid_type="mid-points")[:6]])
    out["mid.dx"] = flat(opt.get_dynamics_residuals(sol, grid_type="mid-points", residual_type="relative"))
    out["mid.ddx"] = flat(opt.get_state_second_derivative(sol, grid_type="mid-points"))
    r = np.linspace(0.05, 1.0, 6)
    nodes = [[opt.tau0 + (opt.tau1 - opt.tau0) * r] * opt.n_segments] * opt._ocp.n_phases
    out["own.x"] = flat(opt.get_states_residuals(sol, nodes=nodes)[2:])
    return out


def equal(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a, float), np.asarray(b, float)
        return a.shape == b.shape and bool(np.allclose(a, b, rtol=1e-9, atol=1e-9, equal_nan=True))
    return a == b


def compare(run, got, want, what):
    """One check per observed quantity."""
    ok = run.check(set(got) == set(want), "%s: observed quantities" % what, expected=sorted(want), observed=sorted(got))
    for key in sorted(set(got) & set(want)):
        ok &= run.check(equal(got[key], want[key]), "%s: %s" % (what, key), expected=want[key], observed=got[key])
    return ok
