import itertools

import numpy as np

from .. import build, direct, seam

OPTIONS = {
    "default": {},
    "residual": {"method": "residual"},
    "area": {"method": "residual", "sub_method": "equal_area"},
    "merge": {"method": "residual", "sub_method": "merge_split"},
    "slope": {"method": "control_slope"},
    "unknown": {"method": "something else"},
    "unknown sub": {"method": "residual", "sub_method": "something else"},
    "neither": {"sub_method": "merge_split"},
}
MAIN = ["merge", "area", "slope"]
BOUNDS = {
    "quick": "every sequence of up to 2 answers over per-segment residual levels {zero, below, above the tolerance} on 3 segments (and single answers on 1, 2, 4, 5, 6 segments), 3 refinement methods, 1-4 phases, user limits and tolerances; all option dictionaries",
    "thorough": "sequences of up to 3 answers on 3 segments, 2 answers on 4 segments, 4 residual levels",
}
ORACLE = "reference refinement: split by groups, by equal residual area or at the steepest nodes, computed from reference residuals of the same answer"


def space(tier):
    quick = tier == "quick"
    base = {"limits": "shipped", "nph": 2, "scale": "none", "scheme": "LGR"}
    alph = "0lh"
    for m in OPTIONS:
        for orders in ([3], [2, 3], [3, 2, 3], [2, 2, 2]):
            for w in direct.words(len(orders), alph):
                yield dict(base, method=m, orders=orders, seq=[w])
    for m in MAIN:
        for limits in ("narrow", "tolerances"):
            for w in direct.words(3, "0lhH"):
                yield dict(base, method=m, orders=[3, 2, 3], seq=[w], limits=limits)
        for w in direct.words(4, alph if quick else "0lhH"):
            yield dict(base, method=m, orders=[2, 3, 2, 3], seq=[w])
        for scheme, scale, nph in itertools.product(["LGR", "LGL", "CGL"], ["none", "all"], [1, 3]):
            for w in direct.words(3, "0h"):
                yield dict(base, method=m, orders=[2, 3, 4], seq=[w], scheme=scheme, scale=scale, nph=nph)
        for a, b in itertools.product(direct.words(3, alph), repeat=2):
            yield dict(base, method=m, orders=[3, 2, 3], seq=[a, b])
        for a, b in itertools.product(direct.words(4, "lh"), repeat=2):
            yield dict(base, method=m, orders=[2, 2, 3, 2], seq=[a, b], nph=1)
        for w in direct.words(6, "lh"):
            yield dict(base, method=m, orders=[2, 3, 2, 1, 3, 2], seq=[w], nph=1)
        for w in direct.words(5, "0h"):
            yield dict(base, method=m, orders=[3, 1, 2, 3, 2], seq=[w], nph=4)
        if not quick:
            for seq in itertools.product(direct.words(3, alph), repeat=3):
                yield dict(base, method=m, orders=[3, 2, 3], seq=list(seq), nph=1)
            for a, b in itertools.product(direct.words(4, alph), repeat=2):
                yield dict(base, method=m, orders=[2, 3, 2, 3], seq=[a, b])
    for a, b in itertools.product(["area", "merge", "slope"], repeat=2):
        for w in direct.words(3, "lh"):
            yield dict(base, method=a, then=b, orders=[3, 3, 2], seq=[w, w[::-1]])


def edges(w):
    return np.concatenate([[0.0], np.cumsum(w)])


def merge_ok(old, new, r, tol):
    """'' or what is wrong with the merged and split widths."""
    ok = [m < tol for m in r]
    groups = [(k, [i for i, _ in g]) for k, g in itertools.groupby(enumerate(ok), key=lambda x: x[1])]
    if len(groups) == len(old):
        return "" if np.allclose(old, new, atol=1e-12) else "nothing to merge, yet the widths changed"
    e, f = edges(old), edges(new)
    bad = [g for k, g in groups if not k]
    free = len(old) - len(groups)
    for k, g in groups:
        a, b = e[g[0]], e[g[-1] + 1]
        if np.abs(f - a).min() > 1e-9 or np.abs(f - b).min() > 1e-9:
            return "the border between resolved and unresolved segments moved"
        inner = f[(f > a + 1e-9) & (f < b - 1e-9)]
        if k and len(inner):
            return "a resolved group keeps more than one segment"
        if not k:
            if len(inner) + 1 < 1 + free // len(bad):
                return "an unresolved group gets too few of the freed segments"
            if not np.allclose(inner, np.linspace(a, b, len(inner) + 2)[1:-1], atol=1e-9):
                return "an unresolved group is not split equally"
    return ""


def area_ok(old, new, res):
    if any(len(r) == 0 for r in res):
        return ""
    r = np.concatenate([np.linalg.norm(q, axis=1) for q in res])
    c = np.concatenate([[0.0], np.cumsum(0.5 * (r[1:] + r[:-1]))])
    b = edges((np.asarray(new) - 0.6 * np.asarray(old)) / 0.4)
    if np.any(np.diff(b) < -1e-9) or b[-1] > 1 + 1e-9:
        return "equal-area borders are not ordered"
    got = np.interp(b, np.linspace(0, 1, len(r)), c / c[-1])
    return "" if np.allclose(got, np.linspace(0, 1, len(old) + 1), atol=1e-6) else "segments do not share the residual area equally"


def slope_ok(s, z, widths, p, new, lim):
    mesh, lay = s.mesh(), s.layout()
    _, U, t0, tf, _, _ = lay.split(z, p)
    d = mesh.deriv(U)
    pos = mesh.times(0.0, 1.0, widths[p])
    half = mesh.half(t0 / s.scale_t, tf / s.scale_t, widths[p])
    why = ""
    n = mesh.nseg
    for factor in (np.ones(mesh.N), np.array([1 / half[mesh.owner[i]] for i in range(mesh.N)])):
        g = np.linalg.norm(d, axis=1) * factor
        steep = [i for i in range(1, mesh.N - 1) if g[i] >= 0.1]
        steep.sort(key=lambda i: -g[i])
        if not steep:
            want = np.array(widths[p])
        elif len(steep) >= n - 1:
            w = np.diff(np.concatenate([[0.0], np.sort(pos[steep[: n - 1]]), [1.0]]))
            w = np.clip(w, *lim)
            want = w / w.sum()
        else:  # fewer steep nodes than borders: all of them are borders
            f = edges(new)
            if lim == (1e-5, 1) and any(np.abs(f - pos[i]).min() > 1e-9 for i in steep):
                why = "a steep node is no segment border"
                continue
            return ""
        if np.allclose(new, want, atol=1e-9):
            return ""
        why = "segment borders are not the steepest nodes"
    return why


def check(c, run):
    s = direct.spec(c["orders"], nph=c["nph"], scale=c["scale"], scheme=c["scheme"])
    n = len(c["orders"])
    tol, lim = [1e-2] * s.nph, [(1e-5, 1)] * s.nph
    with seam.solver_stub() as log:
        opt = s.optimizer()
        if c["limits"] == "narrow":
            lim = [(0.15, 0.5), (0.27, 0.42), (0.05, 0.6), (0.1, 0.7)][: s.nph]
            for p in range(s.nph):
                opt.lbh[p], opt.ubh[p] = lim[p]
        elif c["limits"] == "tolerances":
            tol = [0.2, 0.01, 0.05][: s.nph]
            for p in range(s.nph):
                opt.tol_residual[p] = tol[p]
        widths = [np.full(n, 1.0 / n)] * s.nph
        for step, word in enumerate(c["seq"]):
            method = c["method"] if step == 0 else c.get("then", c["method"])
            words = [direct.levels(word, p) for p in range(s.nph)]
            z = direct.vector(s, words, widths)
            res = [direct.residuals(s, z, widths, p) for p in range(s.nph)]
            top = [max([0.0] + [r.max() for r in q if r.size]) for q in res]
            before = sum(len(x.calls) for x in log)
            sol = opt.solve(initial_solution={"x": z}, max_iter=1, mpopt_options=OPTIONS[method])
            run.transitions += 1
            run.states += s.nph
            calls = [x for y in log for x in y.calls]
            refined = n > 1 and method not in ("unknown", "neither")
            if refined and max(top) < min(tol):
                run.check(len(calls) == before, "an answer below the tolerance is returned as it is", residual=max(top))
                continue
            if not run.check(len(calls) == before + 1, "one more solve with the refined widths"):
                return
            p_all = calls[-1]["p"]
            new = [p_all[p * n : (p + 1) * n] for p in range(s.nph)]
            for p in range(s.nph):
                run.check((new[p] > 0).all() and abs(new[p].sum() - 1) < 1e-9, "widths are a partition of the phase", phase=p, widths=new[p])
                if not refined:
                    run.check(np.allclose(new[p], 1.0 / n), "unknown method: equal widths", widths=new[p])
                elif top[p] < tol[p]:
                    run.check(np.allclose(new[p], widths[p], atol=1e-12), "a resolved phase keeps its widths", phase=p, old=widths[p], new=new[p])
                else:
                    r = [q.max() if q.size else 0.0 for q in res[p]]
                    if method == "merge":
                        why = merge_ok(widths[p], new[p], r, tol[p])
                    elif method in ("area", "residual", "default"):
                        why = area_ok(widths[p], new[p], res[p])
                    elif method == "slope":
                        why = slope_ok(s, z, widths, p, new[p], lim[p])
                    else:
                        why = "" if np.allclose(new[p], widths[p], atol=1e-12) else "unknown sub-method: widths changed"
                    run.check(not why, "%s: %s" % (method, why), phase=p, old=widths[p], new=new[p], residual=r)
            # the refinement is also available without a solve, and says the same
            widths = new
    run.outcome = str([np.round(w, 3).tolist() for w in widths])
