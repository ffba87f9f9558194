import itertools

import numpy as np

from .. import build, hist, seam

CLASSES = ["mpopt", "mpopt_h_adaptive", "mpopt_adaptive", "mpopt_ph_adaptive"]
PROBLEMS = {
    "two": dict(nph=2, nx=2, nu=2, na=1, orders=[2, 3], scale="all"),
    "one": dict(nph=1, nx=1, nu=1, na=0, orders=[1, 2], scheme="LGL"),
}
# Alphabet: everything a user can do with an optimizer that has been solved
OPS = ["solve", "widths", "re", "mesh", "post", "post-scaled", "data", "fine", "plot", "x-res", "dx-res", "ddx", "refine", "edit", "older"]
LIGHT = ["solve", "widths", "mesh", "fine", "edit", "older"]
BOUNDS = {
    "quick": "every history of up to 2 operations from 15 after a solve (3 operations from 6), 4 optimizers, 2 problems",
    "thorough": "every history of up to 3 operations from 15 after a solve (4 operations from 8), 4 optimizers, 2 problems",
}
ORACLE = "what each result said when it was obtained, and an optimizer that made only the solves and looked at each answer at once"


def space(tier):
    d = 2 if tier == "quick" else 3
    words = [h for n in range(1, d + 1) for h in itertools.product(OPS, repeat=n)]
    words += [h for h in itertools.product(LIGHT if tier == "quick" else LIGHT + ["post", "x-res"], repeat=d + 1)]
    for cls in CLASSES:
        for prob in PROBLEMS:
            for h in words:
                if len(h) > d and (prob == "one" and tier == "quick"):
                    continue
                if "widths" in h and cls in ("mpopt_h_adaptive", "mpopt_adaptive"):
                    continue  # take no widths
                if "older" in h and cls != "mpopt_adaptive":
                    continue
                if "refine" in h and cls != "mpopt_h_adaptive":
                    continue
                yield {"cls": cls, "prob": prob, "ops": list(h)}


def spec(c, orders=None):
    kw = dict(PROBLEMS[c["prob"]])
    if orders:
        kw["orders"] = orders
    return build.Spec(build.default(cls=c["cls"], **kw))


class World:
    """One optimizer, what it returned so far, and what that said at the time."""

    def __init__(self, c):
        self.c, self.s = c, spec(c)
        self.opt = self.s.optimizer()
        self.sols, self.posts, self.widths, self.made, self.singles = [], [], [], [], []
        self.stale, self.since = True, 0  # solves since the last change of the mesh

    def answer(self, cap, rec, n):
        z = rec["x0"] + 0.1 * build.probe(cap.nx, 3 + len(self.sols))
        lay = self.s.layout()
        for p in range(self.s.nph):
            if lay.nseg:
                z[(p + 1) * lay.per - lay.nseg : (p + 1) * lay.per] = self.s.widths("rev" if len(self.sols) % 2 else "uneq")[p]
        return {"x": z}

    def solve(self, **kw):
        if self.c["cls"] == "mpopt_h_adaptive":
            kw["max_iter"] = 1
        sol = self.opt.solve(**kw)
        self.sols.append((sol, {k: hist.flat(v) for k, v in sol.items()}))
        self.stale = False
        self.since += 1

    def post(self, back=1, **kw):
        if not kw:
            self.singles.append((len(self.sols) - back, single(self.opt, self.sols[-back][0], self.s.nph - 1)))
        post = self.opt.process_results(self.sols[-back][0], plot=False, residual_x=False, **kw)
        self.posts.append((post, read(post)))
        self.made.append((len(self.sols) - back, bool(kw)))


def single(opt, sol, p):
    """Diagnostics of one phase of a solution."""
    grid = [np.array([opt.tau0 + f * (opt.tau1 - opt.tau0) for f in ((0.3, 0.8), (0.5,), (0.1, 0.6))[i % 3]]) for i in range(opt.n_segments)]
    found = {
        "ddx": opt.get_state_second_derivative_single_phase(sol, p, nodes=grid),
        "dx": opt.get_dynamics_residuals_single_phase(sol, p, target_nodes=grid),
        "at": [v for v in opt.interpolate_single_phase(sol, phase=p, target_nodes=grid)],
        "x": opt.compute_states_from_solution_dynamics(sol, p, nodes=grid),
    }
    return {k: hist.flat(v) for k, v in found.items()}


def read(post):
    out = {}
    for name, kw in (("data", {}), ("fine", {"interpolate": True})):
        for what, v in zip("xuta", post.get_data(**kw)):
            out[name + "." + what] = hist.flat(v)
    for key, v in (post.residuals or {}).items():
        out["resid." + key] = hist.flat(v)
    return out


def apply(w, o):
    """False: the operation makes no sense here (results of a replaced mesh)."""
    if o in ("post", "post-scaled", "x-res", "dx-res", "ddx", "refine") and w.stale:
        return False
    if o == "solve":
        w.solve()
    elif o == "re":
        w.solve(reinitialize_nlp=True)
    elif o == "widths":
        w.widths.append(list(np.concatenate(w.s.widths("uneq" if len(w.widths) % 2 else "rev"))))
        w.solve(mpopt_options={"nlp_sw_params": w.widths[-1]})
    elif o == "mesh":
        new = [3, 1, 1] if len(w.s.c["orders"]) == 2 else [2, 4]
        w.s = spec(w.c, new)
        w.opt.poly_orders[:], w.opt.n_segments = new, len(new)
        w.opt.reset_mpopt()
        w.stale, w.since = True, 0
    elif o == "post":
        w.post()
    elif o == "post-scaled":
        w.post(scaling=True, residual_dx=False)
    elif o == "data":
        for post, _ in w.posts:
            post.get_data()
    elif o == "fine":
        for post, _ in w.posts:
            post.get_data([w.s.nph - 1, 0], interpolate=True)
    elif o == "plot":
        import matplotlib.pyplot as plt

        for post, _ in w.posts:
            post.plot_phases([0])
            post.plot_x()
            post.plot_u()
        plt.close("all")
    elif o == "x-res":
        w.opt.get_states_residuals(w.sols[-1][0])
    elif o == "dx-res":
        w.opt.get_dynamics_residuals(w.sols[-1][0])
    elif o == "ddx":
        w.opt.get_state_second_derivative(w.sols[-1][0])
    elif o == "refine":
        w.opt.get_segment_width_parameters(w.sols[-1][0], options={"method": "residual", "sub_method": "merge_split"})
    elif o == "older":  # only a solution that carries its widths can be processed after the next one
        if len(w.sols) < 2 or w.s.c["cls"] != "mpopt_adaptive" or w.since < 2:
            return False
        w.post(back=2)
        w.opt.get_dynamics_residuals(w.sols[-2][0])
        w.singles.append((len(w.sols) - 1, single(w.opt, w.sols[-1][0], w.s.nph - 1)))
    elif o == "edit":  # the user reuses what belongs to the user
        for lst in w.widths:
            lst[:] = [7.0] * len(lst)
        for post, _ in w.posts:
            for v in post.get_data():
                v[...] = -99.0
    return True


PURE = ("post", "post-scaled", "data", "fine", "plot", "x-res", "dx-res", "ddx", "refine", "edit", "older")


def check(c, run):
    with seam.solver_stub(lambda *a: w.answer(*a)) as log:
        w = World(c)
        w.solve()
        w.post()
        for i, o in enumerate(c["ops"]):
            run.transitions += 1
            if not apply(w, o):
                run.outcome = "not applicable"
                return
            run.states += 1
            for k, (sol, was) in enumerate(w.sols):
                hist.compare(run, {n: hist.flat(v) for n, v in sol.items()}, was, "solution %d after %s" % (k, o))
            for k, (post, was) in enumerate(w.posts):
                hist.compare(run, read(post), was, "result %d after %s" % (k, o))
        if w.stale:
            w.solve()
        w.post()
        problem = hist.problem(log[-1])
    with seam.solver_stub(lambda *a: ref.answer(*a)) as log:
        ref = World(c)
        want = {}
        for o in ["solve"] + [o for o in c["ops"] if o not in PURE] + ["solve"]:
            apply(ref, o)
            if o != "mesh" and len(ref.sols) <= len(w.sols):
                for kw in ({}, {"scaling": True, "residual_dx": False}):
                    ref.post(**kw)
                    want[ref.made[-1]] = ref.posts[-1][1]
                if len(ref.sols) == len(w.sols):
                    hist.compare(run, problem, hist.problem(log[-1]), "last program after looking at results")
                    break
    for made, (post, was) in zip(w.made, w.posts):
        hist.compare(run, was, want[made], "result of solve %d among other results" % made[0])
    fresh = dict(ref.singles)
    for k, was in w.singles:
        hist.compare(run, was, fresh[k], "diagnostics of one phase of solve %d" % k)
    run.outcome = c["cls"] + str(w.made)
