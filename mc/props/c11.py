import numpy as np

from .. import build, ref, seam
from ..core import deviations

BOUNDS = {
    "quick": "all problems, meshes, options and scale menus with at most 2 deviations from the default environment, 4 probe vectors each",
    "thorough": "all problems, meshes, options and scale menus with at most 3 deviations from the default environment, 4 probe vectors each",
}
ORACLE = "differential: the same problem without scaling factors"


def space(tier):
    d = build.dims(
        "cls", "calls", "nph", "nx", "nu", "na", "orders", "scheme", "method", "tau", "widths", "path", "term", "cost", "mayer",
        "bounds", "links", "jump", "diffu", "midu", "ducont", "guess",
        scale=["all", "x", "u", "a", "t", "lists", "tiny"], na=[1, 0, 2], path=["all", "none"], term=["all", "none"],
        diffu=["on", "off"], ducont=["on", "off"], jump=["range", "zero", "fixed"],
    )
    return deviations(d, 2 if tier == "quick" else 3, lambda c: build.sensible(c) or (c["nph"] == 1 and build.sensible(dict(c, jump="zero"))))


def scale_vector(s):
    lay = s.layout()
    one = (np.tile(s.scale_x, (lay.N, 1)), np.tile(s.scale_u, (lay.N, 1)), s.scale_t, s.scale_t, s.scale_a, np.ones(lay.nseg))
    return lay.join([one] * s.nph)


def transcribe(s):
    with seam.solver_stub() as log:
        opt = s.optimizer()
        if s.adaptive:  # its residual tolerance is a bound in solver units by definition
            opt.mid_residuals = False
        kw = {}
        if not s.adaptive and s.c["cls"] != "mpopt_h_adaptive":
            kw["mpopt_options"] = {"nlp_sw_params": list(np.concatenate(s.widths()))}
        opt.solve(**kw)
    return opt, log[-1]


def check(c, run):
    plain = build.Spec(dict(c, scale="none"))
    scaled = build.Spec(c)
    _, a = transcribe(plain)
    _, b = transcribe(scaled)
    run.transitions += 4
    S = scale_vector(scaled)
    pv = np.zeros(0) if plain.adaptive else np.concatenate(plain.widths())
    za = build.probes(plain, 4)
    va = [a.eval(z, pv) for z in za]
    vb = [b.eval(z * S, pv) for z in za]
    run.states += len(za)
    run.transitions += 2 * len(za)
    tol = 1e-8 if c["method"] == "numerical" else 2e-5
    for (fa, _), (fb, _) in zip(va, vb):
        run.check(abs(fa - fb) <= tol * max(1, abs(fa)), "objective changes with the scaling factors", plain=fa, scaled=fb)
    ca_, cb = a.calls[0], b.calls[0]
    for n in ("x0", "lbx", "ubx"):
        x, y = ca_[n], cb[n] / S
        same = np.all((x == y) | (np.abs(x - y) < 1e-10))
        run.check(same, "%s changes with the scaling factors" % {"x0": "initial guess", "lbx": "lower bound", "ubx": "upper bound"}[n])
    rows = lambda cap, call, v: [r for i in range(cap.ng) for r in ref.canon(call["lbg"][i], call["ubg"][i], np.array([w[1][i] for w in v]))]
    ra, rb = rows(a, ca_, va), rows(b, cb, vb)
    T = np.array([z[plain.layout().N * (plain.nx + plain.nu) + 1] for z in za])
    for x, y, what in ((ra, rb, "is lost"), (rb, ra, "appears")):
        m = ref.Matcher(y, 1e-6)
        for kind, w in x:
            run.check(m.take(kind, w), "a constraint %s when scaling factors are set" % what, kind=kind, values=w)
    run.outcome = "%d rows cost %.5g" % (len(ra), va[0][0])
