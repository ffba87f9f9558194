import copy

import numpy as np

from .. import build, hist, seam
from ..core import product

BOUNDS = {
    "quick": "all combinations of mesh given as number or list, 3 schemes, 4 sets of solve options, plot, both residual switches, 2 problems",
    "thorough": "the same for 4 schemes, 7 meshes and 4 problems",
}
ORACLE = "the explicit steps create, solve, process results, made by hand with the same arguments"
MESHES = {"default": {}, "number": {"n_segments": 2, "poly_orders": 3}, "list": {"n_segments": 3, "poly_orders": [2, 1, 3]}, "one": {"n_segments": 1, "poly_orders": 4},
          "segments": {"n_segments": 2}, "order": {"poly_orders": 5}, "ones": {"n_segments": 3, "poly_orders": [1, 1, 1]}}
PROBLEMS = {"one": dict(nph=1, nx=1, nu=1), "two": dict(nph=2, nx=2, nu=1, na=1, scale="all", diffu="on"), "free": dict(nph=2, nx=2, nu=0, links="none"), "three": dict(nph=3, nx=1, nu=2, term="all", path="last")}


def space(tier):
    quick = tier == "quick"
    return product({
        "mesh": list(MESHES)[: 5 if quick else 7],
        "scheme": [None, "LGL", "CGL"] + ([] if quick else ["LGR"]),
        "solve": ["none", "options", "widths", "warm"],
        "plot": [False, True, None],
        "rx": [False, True, None],
        "rdx": [True, False, None],
        "prob": ["one", "two"] if quick else list(PROBLEMS),
    }, lambda c: not (quick and sum(c[n] is None for n in ("plot", "rx", "rdx")) == 1))


def check(c, run):
    import matplotlib.pyplot as plt

    mesh = MESHES[c["mesh"]]
    n = mesh.get("n_segments", 1)
    po = mesh.get("poly_orders", 9)
    orders = [po] * n if isinstance(po, int) else list(po)
    s = build.Spec(build.default(orders=orders, scheme=c["scheme"] or "LGR", **PROBLEMS[c["prob"]]))
    lay = s.layout()
    kw = dict(copy.deepcopy(mesh))
    for name, arg in (("scheme", "scheme"), ("plot", "plot"), ("rx", "residual_x"), ("rdx", "residual_dx")):
        if c[name] is not None:
            kw[arg] = c[name]
    sd = {"none": None, "options": {"nlp_solver_options": {"ipopt.max_iter": 3}, "solver": "ipopt"}, "warm": {"initial_solution": {"x0": list(build.probes(s, 1)[0])}},
          "widths": {"mpopt_options": {"nlp_sw_params": list(np.concatenate(s.widths("uneq")))}}}[c["solve"]]
    if sd is not None:
        kw["solve_dict"] = sd
    answer = lambda cap, rec, i: {"x": build.probes(s, 2)[1]}
    keep = copy.deepcopy(kw)
    plt.close("all")
    with seam.solver_stub(answer) as log:
        mpo, post = seam.mp.solve(s.ocp(), **kw)
    figs = len(plt.get_fignums())
    plt.close("all")
    run.check(keep == kw, "arguments were modified")
    with seam.solver_stub(answer) as own:
        opt = seam.mp.mpopt(s.ocp(), n, orders, c["scheme"] or "LGR")
        sol = opt.solve(**(sd or {}))
    run.transitions += 4
    run.states += lay.total
    run.check(len(log) == len(own) == 1 and len(log[0].calls) == 1, "one problem is solved once")
    hist.compare(run, hist.problem(log[0]), hist.problem(own[0]), "one-call solve")
    pk = {a: b for a, b in (("residual_x", c["rx"]), ("residual_dx", c["rdx"])) if b is not None}
    pk.setdefault("residual_x", False), pk.setdefault("residual_dx", True)
    mine = opt.process_results(sol, plot=False, **pk)
    for inter in (False, True):
        for what, a, b in zip("xuta", post.get_data(interpolate=inter), mine.get_data(interpolate=inter)):
            run.check(hist.equal(hist.flat(a), hist.flat(b)), "retrieved %s" % what, interpolate=inter, expected=b, observed=a)
    r = [sorted(p.residuals) if p.residuals else [] for p in (post, mine)]
    run.check(r[0] == r[1], "residuals in the results", expected=r[1], observed=r[0])
    for key in set(r[0]) & set(r[1]):
        run.check(hist.equal(hist.flat(post.residuals[key]), hist.flat(mine.residuals[key])), "residuals %s" % key)
    run.check(bool(figs) == (c["plot"] is not False), "figures drawn iff requested", figures=figs)
    run.check(type(mpo).__name__ == "mpopt" and mpo.n_segments == n and list(mpo.poly_orders) == orders, "returned optimizer has the requested mesh")
    run.outcome = "%d %s figs %d" % (lay.total, r[0], figs)
