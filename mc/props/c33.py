import functools
import itertools

import numpy as np

from .. import build, hist, seam

BOUNDS = {
    "quick": "every word of up to 3 requests to the collocation object (2 schemes; 2 requests for a third scheme and for symbolic evaluation), to a processed result (2 problems x scaling), and of up to 2 (3 for one optimizer) to a solved optimizer of every kind, from alphabets of 18, 18 and 20 requests and settings",
    "thorough": "every word of up to 3 requests to the collocation object (3 schemes), to results and to a solved optimizer of every kind",
}
ORACLE = "the answer to the same request by an object that was asked nothing before (with the same settings and solves)"


# ---- collocation object -------------------------------------------------
def _pts(k, n):
    # equally many points; 1 begins, 2 ends like 0, 3 has the same mean
    base = [[[0.1, 0.7], [0.5, 0.9]], [[0.1, 0.6], [0.5, 0.7]], [[0.3, 0.7], [0.4, 0.9]], [[0.2, 0.6], [0.55, 0.85]]][k]
    lo, hi = seam.mp.CollocationRoots._TAU_MIN, seam.mp.CollocationRoots._TAU_MAX
    return [np.array([lo + (hi - lo) * v for v in base[i % 2]]) for i in range(n)]


def _custom(col, k):
    lo, hi = seam.mp.CollocationRoots._TAU_MIN, seam.mp.CollocationRoots._TAU_MAX
    grids = [np.array([0.0, 0.2, 0.7, 1.0]), np.array([0.1, 0.5, 0.6, 0.9])]
    col.init_polynomials_with_customized_roots({"grid": lo + (hi - lo) * grids[k]})
    return col.get_quadrature_weights("grid", lo, lo + 0.8 * (hi - lo)), col.get_diff_matrix("grid")


COLLOC = {
    "D": lambda c: c.get_composite_differentiation_matrix(),
    "DD": lambda c: c.get_composite_differentiation_matrix(order=2),
    "D other": lambda c: c.get_composite_differentiation_matrix([3, 1]),
    "I a": lambda c: c.get_composite_interpolation_matrix(_pts(0, 2)),
    "I b": lambda c: c.get_composite_interpolation_matrix(_pts(1, 2)),
    "I c": lambda c: c.get_composite_interpolation_matrix(_pts(2, 2)),
    "I d": lambda c: c.get_composite_interpolation_matrix(_pts(3, 2)),
    "I other": lambda c: c.get_composite_interpolation_matrix(_pts(0, 2), [3, 2]),
    "D a": lambda c: c.get_composite_interpolation_Dmatrix_at(_pts(0, 2), [2, 3]),
    "D b": lambda c: c.get_composite_interpolation_Dmatrix_at(_pts(1, 2), [2, 3]),
    "D c": lambda c: c.get_composite_interpolation_Dmatrix_at(_pts(2, 2), [2, 3]),
    "DD b": lambda c: c.get_composite_interpolation_Dmatrix_at(_pts(1, 2), [2, 3], order=2),
    "Q": lambda c: c.get_composite_quadrature_weights(),
    "Q part": lambda c: c.get_composite_quadrature_weights(tau0=c.tau0, tau1=(c.tau0 + 3 * c.tau1) / 4),
    "Q to": lambda c: c.get_composite_quadrature_weights(tau1=(c.tau0 + 3 * c.tau1) / 4),
    "Q from": lambda c: c.get_quadrature_weights(3, tau0=(c.tau0 + c.tau1) / 2),
    "custom a": lambda c: _custom(c, 0),
    "custom b": lambda c: _custom(c, 1),
}


# ---- processed result ---------------------------------------------------
def _grid(post, k):
    return [np.array(v) for v in _pts(k, post.options["ns"])]


def _ask(post, grid, **kw):
    phases = kw.pop("phases")
    return post.get_interpolated_data(phases, taus=grid)


def _plot(post):
    import matplotlib.pyplot as plt

    post.plot_phases([1, 0])
    fig, axs = post.plot_x()
    out = [l.get_xydata() for l in axs[0].get_lines()] if np.size(axs) > 1 else [l.get_xydata() for l in np.ravel(axs)[0].get_lines()]
    plt.close("all")
    return out


RESULT = {
    "one": lambda p: p.get_data([0]),
    "two": lambda p: p.get_data([1]),
    "both": lambda p: p.get_data(),
    "back": lambda p: p.get_data([1, 0]),
    "fine one": lambda p: p.get_data([0], interpolate=True),
    "fine back": lambda p: p.get_data([1, 0], interpolate=True),
    "at a": lambda p: _ask(p, _grid(p, 0), phases=[0, 1]),
    "at b": lambda p: _ask(p, _grid(p, 1), phases=[0, 1]),
    "at c": lambda p: _ask(p, _grid(p, 2), phases=[0, 1]),
    "at d": lambda p: _ask(p, _grid(p, 3), phases=[0, 1]),
    "at a two": lambda p: _ask(p, _grid(p, 0), phases=[1]),
    "trajectories": lambda p: p.get_trajectories(1),
    "taus": lambda p: [p.get_interpolation_taus(n) for n in (3, 8)],
    "taus between": lambda p: [p.get_interpolation_taus(n, np.array([-1.0, 0.2, 1.0]), "other") for n in (4, 9)],
    "plot": _plot,
    "scaled": lambda p: setattr(p, "scaling", True),
    "unscaled": lambda p: setattr(p, "scaling", False),
    "residuals": lambda p: [p.residuals[k] for k in sorted(p.residuals)],
}


# ---- optimizer ----------------------------------------------------------
def _at(opt, k):
    return [[np.array(v) for v in _pts((k + p) % 4, opt.n_segments)] for p in range(2)]


def _fine(opt, k):
    r = np.linspace(0.05, 0.95, 6) if k == 0 else np.linspace(0.1, 1.0, 6)
    return [[opt.tau0 + (opt.tau1 - opt.tau0) * r] * opt.n_segments] * 2


OPT = {
    "grid": lambda o, s: [o.get_residual_grid_taus(p) for p in (0, 1)],
    "grid fixed": lambda o, s: [o.get_residual_grid_taus(p, "fixed") for p in (1, 0)],
    "dx": lambda o, s: o.get_dynamics_residuals(s[-1]),
    "dx mid": lambda o, s: o.get_dynamics_residuals(s[-1], grid_type="mid-points"),
    "dx a": lambda o, s: o.get_dynamics_residuals(s[-1], nodes=_at(o, 0)),
    "dx c": lambda o, s: o.get_dynamics_residuals(s[-1], nodes=_at(o, 2)),
    "dx b rel": lambda o, s: o.get_dynamics_residuals(s[-1], nodes=_at(o, 1), residual_type="relative"),
    "x a": lambda o, s: o.get_states_residuals(s[-1], nodes=_fine(o, 0), phases=[0]),
    "x b rel": lambda o, s: o.get_states_residuals(s[-1], nodes=_fine(o, 1), residual_type="relative"),
    "ddx": lambda o, s: o.get_state_second_derivative(s[-1]),
    "ddx a": lambda o, s: o.get_state_second_derivative(s[-1], nodes=_at(o, 0)),
    "ddx one": lambda o, s: o.get_state_second_derivative_single_phase(s[-1], 1, grid_type="mid-points"),
    "at": lambda o, s: o.interpolate_single_phase(s[-1], 1, grid_type="mid-points")[:6],
    "at default": lambda o, s: o.interpolate_single_phase(s[-1], 1)[:6],
    "results": lambda o, s: sorted(hist.results(o, s[-1]).items()),
    "older": lambda o, s: o.get_dynamics_residuals(s[0], nodes=_at(o, 0)),
    "refine": lambda o, s: o.get_segment_width_parameters(s[-1], {"method": "residual", "sub_method": "merge_split"})[0],
    # settings, and another solve
    "spectral": lambda o, s: o.grid_type.__setitem__(1, "spectral"),
    "points": lambda o, s: setattr(o, "_MAX_GRID_POINTS", 5),
    "solve": None,
    "scheme": None,
}
SETTINGS = {"spectral", "points", "solve", "scheme", "scaled", "unscaled"}
CLASSES = ["mpopt", "mpopt_h_adaptive", "mpopt_adaptive", "mpopt_ph_adaptive"]


def words(alphabet, n):
    for k in range(1, n + 1):
        for w in itertools.product(alphabet, repeat=k):
            if w[-1] not in SETTINGS:
                yield list(w)


def space(tier):
    more = int(tier == "thorough")
    for scheme in ("LGR", "CGL", "LGL"):
        for method in ("numerical", "symbolic"):
            for w in words(COLLOC, 2 if method == "symbolic" or (scheme == "LGL" and not more) else 3):
                yield {"of": "collocation", "scheme": scheme, "method": method, "word": w}
    for cls in ("mpopt", "mpopt_adaptive"):
        for scaling in (False, True):
            for w in words(RESULT, 3 if (cls == "mpopt" and not scaling) or more else 2):
                if w.count("plot") < 2:
                    yield {"of": "results", "cls": cls, "scaling": scaling, "word": w}
    for cls in CLASSES:
        ops = [o for o in OPT if not (o == "refine" and cls != "mpopt_h_adaptive") and not (o == "older" and cls != "mpopt_adaptive")]
        for w in words(ops, 3 if more or cls == "mpopt_adaptive" else 2):
            yield {"of": "optimizer", "cls": cls, "word": w}


class Optimizer:
    """A solved optimizer of two phases; every solve answers with other widths."""

    def __init__(self, cls):
        self.s = build.Spec(build.default(cls=cls, nph=2, nx=2, nu=1, na=1, orders=[2, 3], scale="all", scheme="LGR"))
        self.sols = []
        with seam.solver_stub(self.answer):
            self.opt = self.s.optimizer()
            self.opt._MAX_GRID_POINTS = 8
            self.solve()

    def answer(self, cap, rec, n):
        z = rec["x0"] + 0.2 * build.probe(cap.nx, 2 + len(self.sols))
        lay = self.s.layout()
        for p in range(self.s.nph):
            if lay.nseg:
                z[(p + 1) * lay.per - lay.nseg : (p + 1) * lay.per] = self.s.widths(("uneq", "rev", "equal")[len(self.sols) % 3])[p]
        return {"x": z}

    def solve(self):
        kw = {}
        if self.s.c["cls"] == "mpopt_h_adaptive":
            kw = {"max_iter": 1}
        elif not self.s.adaptive:
            kw = {"mpopt_options": {"nlp_sw_params": list(np.concatenate(self.s.widths(("uneq", "rev", "equal")[len(self.sols) % 3])))}}
        self.sols.append(self.opt.solve(**kw))

    def do(self, o):
        if o == "solve":
            return self.solve()
        if o == "scheme":  # other nodes, equally many
            self.opt.colloc_scheme = "CGL" if self.opt.colloc_scheme == "LGR" else "LGR"
            self.opt.reset_mpopt()
            self.opt._MAX_GRID_POINTS = 8
            return self.solve()
        return OPT[o](self.opt, self.sols)


class Results:
    def __init__(self, cls, scaling):
        o = Optimizer(cls)
        self.post = o.opt.process_results(o.sols[-1], plot=False, scaling=scaling)

    def do(self, o):
        return RESULT[o](self.post)


class Colloc:
    def __init__(self, scheme, method):
        mp = seam.mp
        mp.Collocation.D_MATRIX_METHOD = method
        self.col = mp.Collocation([2, 3], scheme)

    def do(self, o):
        return COLLOC[o](self.col)


def fresh(c):
    if c["of"] == "collocation":
        return Colloc(c["scheme"], c["method"])
    return Results(c["cls"], c["scaling"]) if c["of"] == "results" else Optimizer(c["cls"])


@functools.lru_cache(maxsize=None)
def answer(key, word):
    obj = fresh(dict(key))
    for o in word[:-1]:
        obj.do(o)
    return flat(obj.do(word[-1]))


def flat(v):
    """Values and, through empty entries, their grouping into segments and phases."""
    if v is None:
        return [None]
    if isinstance(v, dict):
        return flat([v[k] for k in sorted(v)])
    if isinstance(v, (list, tuple)):
        return [x for e in v for x in flat(e)]
    if isinstance(v, str):
        return [v]
    if isinstance(v, np.ndarray) and v.dtype == object:
        return flat(list(v))
    return [hist.flat(v)]


def alike(a, b):
    return len(a) == len(b) and all(hist.equal(x, y) for x, y in zip(a, b))


def check(c, run):
    key = tuple((k, v) for k, v in c.items() if k != "word")
    word = c["word"]
    want = answer(key, tuple([o for o in word[:-1] if o in SETTINGS] + word[-1:]))
    obj = fresh(c)
    for o in word[:-1]:
        obj.do(o)
        run.transitions += 1
    got = flat(obj.do(word[-1]))
    run.transitions += 1
    run.states += 1
    run.check(alike(got, want), "answer to '%s'" % word[-1], after=word[:-1], expected=want, observed=got)
    run.outcome = "%s %d %.6g" % (word[-1], len(got), sum(np.nansum(np.abs(v)) for v in got if isinstance(v, np.ndarray)))
