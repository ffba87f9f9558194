import itertools

import numpy as np

from .. import build, hist, ref, resid, seam
from ..core import product

BOUNDS = {
    "quick": "every sequence of solver answers (residual below / above, curvature kept / doubled, per segment) for 2 refinement rounds, 4 kinds of answer, 1-2 phases; 4 segments and phases for 1 round; order, segment and tolerance limits, grids, warm starts and solve options",
    "thorough": "3 refinement rounds with 6 kinds of answer",
}
ORACLE = "state machine of the mesh (orders, widths per phase): order +3 where the error is too large, then split where the curvature grew, within the limits"
# (error, curvature, extra curvature at the end of the segment) of the first state;
# in capitals the second state has the error and the curvature instead
KINDS = {"a": (0.0, 1, 0), "b": (0.3, 1, 0), "d": (0.3, 2, 0), "e": (0.0, 2, 0), "p": (0.3, 1, 1)}
LIMITS = {
    "shipped": {},
    "segments": {"seg_max": 3},
    "few segments": {"seg_max": 2},
    "orders": {"poly_order_max": 4},
    "min order": {"poly_order_min": 5},
    "tolerance": {"max_residual": 0.9},
    "strict": {"max_residual": 1e-9},
    "smooth": {"non_smooth_threshold": 2.5},
    "mid-points": {"grid_type": "mid-points"},
    "fixed": {"grid_type": "fixed"},
    "few points": {"grid_type": "fixed", "n_grid_points": 3, "poly_order_min": 1},
}


def space(tier):
    quick = tier == "quick"
    base = {"limits": "shipped", "orders": [2, 3], "nph": 1, "scheme": "LGR", "extra": "none"}
    words = ["aa", "bb", "dd", "ad"] if quick else ["aa", "bb", "dd", "ad", "ba", "ea"]

    def seqs(words, rounds):
        """answers A1 B1 A2 B2 ...; a round ends the run when every segment is fine"""
        ok = lambda w: all(KINDS[ch.lower()][0] == 0 for ch in w)
        out = [[]]
        for i in range(2 * rounds):
            out = [s + [w] for s in out for w in words if not (s and ok(s[-1]))] + [s for s in out if s and ok(s[-1])]
        return out

    for s in seqs(words, 2):
        yield dict(base, seq=s, rounds=2)
    for s in seqs(["aa", "bb", "ad"], 2):
        yield dict(base, seq=s, rounds=2, nph=2, orders=[3, 2])
    for lim in LIMITS:
        for s in seqs(["bd", "dd", "aa", "ab"], 1):
            yield dict(base, seq=s, rounds=1, limits=lim)
        for s in seqs(["bb", "dd"], 2):
            yield dict(base, seq=s, rounds=2, limits=lim, nph=2)
    for s in seqs(["bd", "dd", "ad", "aa"], 2):  # segments without residual nodes
        yield dict(base, seq=s, rounds=2, limits="few points", extra="narrow", orders=[2, 2, 2], nph=2)
    for extra in ("widths", "guess", "options", "rest"):
        for s in seqs(["ad", "bb", "da"], 2 if extra == "widths" else 1):
            yield dict(base, seq=s, rounds=2 if extra == "widths" else 1, extra=extra, nph=2)
    for scheme, orders in itertools.product(["LGL", "CGL"], [[3], [2, 2, 4]]):
        for s in seqs(["dab", "bbd", "aaa"], 1):
            yield dict(base, seq=[w[: len(orders)] for w in s], rounds=2, scheme=scheme, orders=orders, nph=2)
    for s in seqs(["d", "b"], 3):
        yield dict(base, seq=s, rounds=3, orders=[2], nph=1, limits="segments")
    for s in seqs(["pa", "bp", "Dp", "BD"], 1):
        yield dict(base, seq=s, rounds=2, nph=1, orders=[3, 3])
        yield dict(base, seq=s, rounds=2, nph=2, orders=[3, 3])
    for letters4 in itertools.product("abd", repeat=4):  # more segments and phases
        w = "".join(letters4)
        for v in ("dddd", w[1:] + w[:1], "daba") if set(w) != {"a"} else ():
            yield dict(base, seq=[w, v], rounds=1, orders=[2, 3, 2, 4], nph=1 if v == "daba" else 4)
    if not quick:
        for s in seqs(["aa", "dd", "ad"], 3):
            yield dict(base, seq=s, rounds=3)
        for s in seqs(words, 2):
            yield dict(base, seq=s, rounds=2, nph=2, limits="segments")


class Curved(build.Spec):
    def dyn(self, p, x, u, t, a):
        return [u[0] + 0.0 * x[0], u[1] + 0.0 * x[1]]


def letters(word, p, n):
    return [word[(i + p) % len(word)] for i in range(n)]


def vector(s, words, widths, rest=False):
    mesh, lay = s.mesh(), s.layout()
    parts = []
    for p in range(s.nph):
        t0, tf = 0.5 * p, 0.5 * p + 2.0
        half = mesh.half(t0, tf, widths[p])
        X, U = np.zeros((mesh.N, 2)), np.zeros((mesh.N, 2))
        for i, ch in enumerate(words[p]):
            sl = mesh.slice(i)
            r = mesh.tau1 - mesh.tau0
            x = (mesh.x[mesh.orders[i]] - mesh.tau0) / r
            for q in range(2):
                level, curve, peak = KINDS[ch.lower()] if (q == 0) == ch.islower() else (0.0, 1, 0)
                X[sl, q] = 1.0 + 0.7 * q + 0.05 * curve * x * (1 - x) + 0.1 * peak * (x**3 - x)
                if q == 1 and rest:  # a state which is zero throughout
                    X[sl, q] = 0
                    continue
                U[sl, q] = ((0.05 * curve * (1 - 2 * x) + 0.1 * peak * (3 * x * x - 1)) / r + level * (1 + 0.1 * i)) / half[i]
        parts.append((X, U, t0, tf, [], []))
    return lay.join(parts)


def errors(s, z, widths, p, npts, grid):
    """Largest relative state residual of every segment."""
    mesh = s.mesh()
    exp = resid.states(s, z, widths, p, resid.points(s, mesh, widths, p, grid, npts))
    top = np.max([np.abs(e[2]).max(axis=0) for e in exp if len(e[2])], axis=0)
    top[top == 0] = 1  # nothing to be relative to
    return [(np.abs(e[1]) / top).max() if len(e[1]) else 0.0 for e in exp]


def rougher(coarse, zc, fine, zf, p, thr):
    """Per segment: did the curvature of a state grow somewhere by more than the
    factor? None where this hangs on the choice of points or on rounding."""
    out = []
    for i in range(len(fine.orders)):
        v = []
        for extra in (0, 3):  # nodes of the new mesh, or of a finer one
            taus = [ref.nodes(fine.scheme, d + extra, fine.tau0, fine.tau1) for d in fine.orders]
            dc = np.split(coarse.deriv(zc[p], taus, 2), np.cumsum([len(t) for t in taus])[:-1])[i]
            df = np.split(fine.deriv(zf[p], taus, 2), np.cumsum([len(t) for t in taus])[:-1])[i]
            top = np.abs(dc).max(axis=0)
            v.append((np.abs(df).max(axis=0)[top > 0] / top[top > 0]).max() / thr)
        out.append(None if min(v) < 1.0001 and max(v) > 0.9999 else v[0] > 1)
    return out


def check(c, run):
    lim = LIMITS[c["limits"]]
    n0 = len(c["orders"])
    base = build.default(cls="mpopt_ph_adaptive", nph=c["nph"], nx=2, nu=2, orders=c["orders"], scheme=c["scheme"], cost="const", mayer="last", midu="off", bounds="none")
    spec = lambda orders: Curved(dict(base, orders=list(orders)))
    trace = []

    def answer(cap, rec, i):
        orders = list(opt.poly_orders)
        s = spec(orders)
        w = [rec["p"][p * len(orders) : (p + 1) * len(orders)] for p in range(s.nph)]
        word = c["seq"][min(len(trace), len(c["seq"]) - 1)]
        z = vector(s, [letters(word, p, len(orders)) for p in range(s.nph)], w, c["extra"] == "rest")
        trace.append({"orders": orders, "w": w, "z": z, "call": rec, "word": word, "opts": cap.opts, "n": cap.nx})
        return {"x": z, "lam_x": build.probe(cap.nx, i)}

    sd = {"none": {}, "options": {"nlp_solver_options": {"ipopt.max_iter": 5}}}.get(c["extra"], {})
    s0 = spec(c["orders"])
    start = [np.full(n0, 1.0 / n0)] * s0.nph
    if c["extra"] in ("widths", "narrow"):
        start = s0.widths("uneq") if c["extra"] == "widths" else [np.array([0.04, 0.92, 0.04])] * s0.nph
        sd = {"mpopt_options": {"nlp_sw_params": list(np.concatenate(start))}}
    elif c["extra"] == "guess":
        sd = {"initial_solution": {"x0": build.probes(s0, 1)[0]}}
    keys = sorted(sd)
    with seam.solver_stub(answer) as log:
        seam.mp.Collocation.D_MATRIX_METHOD = "numerical"
        opt = seam.mp.mpopt_ph_adaptive(s0.ocp(), n0, list(c["orders"]), c["scheme"], **lim)
        sol = opt.solve_ph(max_iter=c["rounds"], solve_dict=sd)
    run.transitions += len(trace) + 1
    run.states += len(trace)
    run.check(sorted(sd) == keys and ("mpopt_options" not in sd or np.array_equal(sd["mpopt_options"]["nlp_sw_params"], np.concatenate(start))), "the user's solve options were modified")
    tol, thr = lim.get("max_residual", 1e-4), lim.get("non_smooth_threshold", 1.05)
    omin = min([lim.get("poly_order_min", 3)] + c["orders"])
    omax = max([lim.get("poly_order_max", 16)] + c["orders"])
    smax = max(lim.get("seg_max", 20), n0)
    grid = lim.get("grid_type", "spectral")
    orders, widths, k, final = list(c["orders"]), start, 0, None

    def expect(orders, widths):
        """Check solve k against the model; per phase and segment, too large an error?"""
        nonlocal k
        if not run.check(k < len(trace), "solving stops although the error is too large", solves=len(trace), orders=orders):
            return None
        t = trace[k]
        s = spec(orders)
        if not run.check(t["orders"] == orders and t["n"] == s.layout().total, "polynomial orders of solve %d" % k, expected=orders, observed=t["orders"]):
            return None
        for p in range(s.nph):
            if not run.check(np.allclose(t["w"][p], widths[p], atol=1e-12), "segment widths of solve %d" % k, phase=p, expected=widths[p], observed=t["w"][p]):
                return None
        if k == 0 and c["extra"] == "guess":
            run.check(np.array_equal(t["call"]["x0"], sd["initial_solution"]["x0"]), "first solve starts from the given guess")
        if c["extra"] == "options":
            run.check(t["opts"].get("ipopt.max_iter") == 5, "solver options reach every solve")
        k += 1
        return [[e > tol for e in errors(s, t["z"], widths, p, lim.get("n_grid_points", 20), grid)] for p in range(s.nph)]

    for rnd in range(c["rounds"]):
        bad = expect(orders, widths)
        if bad is None:
            return
        final = trace[k - 1]
        if not np.any(bad):
            break
        sparse = (spec(orders).mesh(), [spec(orders).layout().split(final["z"], p)[0] for p in range(c["nph"])])
        orders = [min(max(omin, d + 3 * any(b[i] for b in bad)), omax) for i, d in enumerate(orders)]
        bad = expect(orders, widths)
        if bad is None:
            return
        final = trace[k - 1]
        if not np.any(bad):
            break
        fine = (spec(orders).mesh(), [spec(orders).layout().split(final["z"], p)[0] for p in range(c["nph"])])
        n = len(orders)
        grown = [rougher(*sparse, *fine, p, thr) for p in range(c["nph"])]
        if any(g is None for p in range(c["nph"]) for b, g in zip(bad[p], grown[p]) if b):
            run.outcome = "roughness at the threshold, next mesh not compared"
            return
        split = [any(bad[p][i] and grown[p][i] for p in range(c["nph"])) for i in range(n)]
        free, new, neww = smax - n, [], [[] for _ in range(c["nph"])]
        for i in range(n):
            m = 2 if split[i] and free > 0 else 1
            free -= m - 1
            new += [orders[i]] * m
            for p in range(c["nph"]):
                neww[p] += [widths[p][i] / m] * m
        if rnd < c["rounds"] - 1:
            orders, widths = new, neww
    if not run.check(k == len(trace), "number of solves", expected=k, observed=len(trace)):
        return
    run.check(np.array_equal(hist.flat(sol["x"]), final["z"]), "the last solution is returned")
    s = spec(orders)
    run.check(list(opt.poly_orders) == orders and opt.n_segments == len(orders), "the optimizer holds the mesh of the returned solution", expected=orders, observed=opt.poly_orders)
    post = opt.process_results(sol, plot=False, residual_dx=False)
    run.transitions += 1
    for p in range(s.nph):
        X, U, t, a, t0, tf = build.phase_data(s, final["z"], widths, p)
        got = post.get_data([p])
        for what, e, o in zip(("states", "controls", "times"), (X, U, t), got):
            run.check(hist.flat(o).size == np.size(e) and np.allclose(hist.flat(o), np.asarray(e).ravel(), atol=1e-9), "%s of the returned solution" % what, phase=p, expected=e, observed=o)
    run.outcome = "%d solves, %s" % (k, orders)
