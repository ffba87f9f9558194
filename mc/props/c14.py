import numpy as np

from .. import build
from ..core import deviations

BOUNDS = {
    "quick": "all problems, meshes, scalings and retrieval options with at most 3 deviations from the default environment x every ordered list of phases",
    "thorough": "the same with at most 4 deviations",
}
ORACLE = "nodal values read from the solver's answer, unscaled, with node times from the segment widths"


def space(tier):
    d = build.dims("cls", "nph", "nx", "nu", "na", "orders", "scheme", "tau", "widths", "scale",
                   scaling=[False, True], probe=[0, 1], na=[1, 0, 2], scale=["all", "none", "x", "u", "a", "t", "lists"])
    return deviations(d, 3 if tier == "quick" else 4, build.sensible)


def check(c, run):
    s = build.Spec(c)
    opt, sol, z, w = build.solved(s, c["probe"])
    post = opt.process_results(sol, plot=False, scaling=c["scaling"], residual_dx=False)
    run.transitions += 2
    data = [build.phase_data(s, z, w, p) for p in range(s.nph)]
    sx, su, sa = (s.scale_x, s.scale_u, s.scale_a) if c["scaling"] else (1.0, 1.0, 1.0)
    asks = list(build.phase_lists(s.nph)) + [None]
    for phases in asks:
        run.states += 1
        run.transitions += 1
        got = post.get_data() if phases is None else post.get_data(phases=list(phases))
        ph = list(range(s.nph)) if phases is None else phases
        exp = (
            np.vstack([data[p][0] * sx for p in ph]),
            np.vstack([data[p][1] * su for p in ph]),
            np.concatenate([data[p][2] for p in ph]).reshape(-1, 1),
            np.concatenate([data[p][3] * sa for p in ph]).reshape(-1, 1),
        )
        for name, e, o in zip(("states", "controls", "times", "parameters"), exp, got):
            o = np.asarray(o)
            ok = o.shape == e.shape and (e.size == 0 or np.abs(o - e).max() < 1e-9)
            run.check(ok, "retrieved %s" % name, phases=ph, expected=e, observed=o)
    for p in range(s.nph):
        x, u, t, a = post.get_trajectories(p)
        e = data[p]
        ok = np.allclose(x, e[0] * sx, atol=1e-9) and np.allclose(u, e[1] * su, atol=1e-9) and np.allclose(t.ravel(), e[2], atol=1e-9) and np.allclose(np.ravel(a), e[3] * sa, atol=1e-9)
        run.check(ok, "trajectories of a phase", phase=p)
    run.outcome = "%.8g" % sum(np.abs(d[0]).sum() + d[2].sum() for d in data)
