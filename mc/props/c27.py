import itertools

from .. import build, hist, seam

MESHES = {"A": [2, 3], "B": [3], "C": [1, 2, 2], "D": [4, 1]}
SCHEMES = ["LGR", "LGL", "CGL"]
OPS = ["solve", "results"] + ["mesh" + m for m in MESHES] + ["scheme" + s for s in SCHEMES]
BOUNDS = {
    "quick": "every history of up to 3 operations from {solve, process results, 4 mesh changes, 3 scheme changes}, then a solve, on 4 optimizers and 2 problems",
    "thorough": "every history of up to 4 operations on 4 optimizers and 3 problems",
}
ORACLE = "a fresh optimizer built directly on the final mesh and scheme: same problem, bounds, guess, widths, results and diagnostics"


def space(tier):
    depth = 3 if tier == "quick" else 4
    for cls in ("mpopt", "mpopt_h_adaptive", "mpopt_adaptive", "mpopt_ph_adaptive"):
        for prob in ("two", "one") + (("three",) if tier == "thorough" else ()):
            for n in range(1, depth + 1):
                for h in itertools.product(OPS, repeat=n):
                    ops = list(h)
                    if any(a == "results" and "solve" not in ops[:i] for i, a in enumerate(ops)):
                        continue
                    if any(a == "results" and not fresh(ops[:i]) for i, a in enumerate(ops)):
                        continue
                    if n == depth and (prob != "two" and tier == "quick"):
                        continue
                    if sum(o.startswith(("mesh", "scheme")) for o in ops) == 0:
                        continue
                    yield {"cls": cls, "prob": prob, "ops": ops, "re": bool(n % 2)}


def fresh(ops):
    """The last solve happened after the last change of the mesh."""
    for o in reversed(ops):
        if o == "solve":
            return True
        if o != "results":
            return False
    return False


def spec(c, orders, scheme):
    kw = {"two": dict(nph=2, nx=2, nu=1, na=0, diffu="on"), "one": dict(nph=1, nx=1, nu=1, na=1, scale="all", ducont="on"), "three": dict(nph=3, nx=1, nu=2, na=1, path="all", links="branch")}[c["prob"]]
    return build.Spec(build.default(cls=c["cls"], orders=orders, scheme=scheme, **kw))


def answer(c, shape):
    def policy(cap, rec, n):
        z = rec["x0"] + 0.1 * build.probe(cap.nx, 7)
        s = spec(c, *shape())
        lay = s.layout()
        for p in range(s.nph):
            if lay.nseg:  # a solution of the width optimizer has widths that sum to one
                z[(p + 1) * lay.per - lay.nseg : (p + 1) * lay.per] = s.widths("rev")[p]
        return {"x": z}

    return policy


def run_solve(opt, cls, **kw):
    if cls == "mpopt_h_adaptive":
        kw["max_iter"] = 1
    return opt.solve(**kw)


def check(c, run):
    orders, scheme = MESHES["A"], "LGR"
    with seam.solver_stub(answer(c, lambda: (orders, scheme))) as log:
        opt = spec(c, orders, scheme).optimizer()
        sol = None
        for o in c["ops"]:
            run.transitions += 1
            run.states += 1
            if o == "solve":
                sol = run_solve(opt, c["cls"])
            elif o == "results":
                hist.results(opt, sol)
                hist.diagnostics(opt, sol)
            else:
                if o.startswith("mesh"):
                    orders = MESHES[o[4:]]
                    opt.poly_orders, opt.n_segments = list(orders), len(orders)
                else:
                    scheme = o[6:]
                    opt.colloc_scheme = scheme
                opt.reset_mpopt()
        sol = run_solve(opt, c["cls"], **({"reinitialize_nlp": True} if c["re"] else {}))
        got = dict(hist.problem(log[-1]), **hist.results(opt, sol), **hist.diagnostics(opt, sol))
    with seam.solver_stub(answer(c, lambda: (orders, scheme))) as log:
        own = spec(c, orders, scheme).optimizer()
        sol = run_solve(own, c["cls"])
        want = dict(hist.problem(log[-1]), **hist.results(own, sol), **hist.diagnostics(own, sol))
    run.transitions += 4
    hist.compare(run, got, want, "after the mesh changed")
    run.outcome = "%s %s" % (orders, scheme)
