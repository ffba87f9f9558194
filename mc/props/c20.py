import itertools

import numpy as np

from .. import build, direct, hist, seam
from . import c19

OPT = {"default": {}, "area": c19.OPTIONS["area"], "merge": c19.OPTIONS["merge"], "slope": c19.OPTIONS["slope"]}
BOUNDS = {
    "quick": "every sequence of solver answers: 4 answers x 5 kinds (below tolerance, error in one or all segments), 7 answers x 2 kinds, for 4 refinement settings, iteration limits 1-8, with and without a first guess, and after another loop of the same optimizer",
    "thorough": "5 answers x 5 kinds, 8 answers x 3 kinds",
}
ORACLE = "state machine of the refinement loop over (iteration, widths, error), with the error of every answer from the reference residuals"


def space(tier):
    quick = tier == "quick"
    kinds = ["lll", "hll", "llh", "HHH", "hlH"]
    for m in OPT:
        for limits in ("shipped", "tolerances"):
            for init in ("none", "resolved", "rough", "guess"):
                for n in range(1, (4 if quick else 5) + 1):
                    if quick and n == 4 and (limits, init) != ("shipped", "none"):
                        continue
                    if not quick and n == 5 and init in ("resolved", "guess"):
                        continue
                    for seq in itertools.product(kinds, repeat=n):
                        if "lll" in seq[:-1]:
                            continue
                        yield {"method": m, "limits": limits, "init": init, "seq": list(seq), "max_iter": n, "nph": 2}
        for seq in itertools.product(["HlH", "HHh"] if quick else ["HlH", "HHh", "hlh"], repeat=7 if quick else 8):
            yield {"method": m, "limits": "shipped", "init": "none", "seq": list(seq), "max_iter": len(seq), "nph": 1}
        for w in kinds + ["HlH", "hhh"]:  # the same answer all along, alternating answers
            for v in kinds:
                yield {"method": m, "limits": "shipped", "init": "none", "seq": [w, v] * 5, "max_iter": 10, "nph": 2}
                yield {"method": m, "limits": "shipped", "init": "rough", "seq": [w, v] * 5, "max_iter": 9, "nph": 1}
        for w in ["HHH", "HlH", "hll"]:  # a second loop of the same optimizer, after a long or a short one
            for v in ["HHH", "HHh", "llh"]:
                for before in (["HlH", "HHh"] * 5, ["hhh", "llh"] * 5, ["HHH", "lll"]):
                    for nph in (1, 2) if quick else (1, 2, 3):
                        yield {"method": m, "limits": "shipped", "init": "none", "seq": [w, v] * 4, "max_iter": 8, "nph": nph, "before": before}
    for w in kinds:
        yield {"method": "default", "limits": "shipped", "init": "none", "seq": [w] * 12, "max_iter": None, "nph": 2}


def error(s, z, widths):
    return max([0.0] + [r.max() for p in range(s.nph) for r in direct.residuals(s, z, widths, p) if r.size])


def check(c, run):
    s = direct.spec([3, 2, 3], nph=c["nph"])
    n = 3
    unpack = lambda v: [np.asarray(v[p * n : (p + 1) * n], float) for p in range(s.nph)]
    equal = [np.full(n, 1.0 / n)] * s.nph
    tol = [1e-2] * s.nph

    words = c["seq"]

    def answer(cap, rec, i):
        word = words[min(i, len(words) - 1)]
        z = direct.vector(s, [direct.levels(word, p) for p in range(s.nph)], unpack(rec["p"]))
        return {"x": z, "lam_x": build.probe(cap.nx, i), "lam_g": build.probe(cap.ng, i + 5)}

    init = None
    if c["init"] in ("resolved", "rough"):
        init = {"x": direct.vector(s, [direct.levels("lll" if c["init"] == "resolved" else "hlh", p) for p in range(s.nph)], equal)}
    elif c["init"] == "guess":
        init = {"x0": direct.vector(s, [direct.levels("lll", p) for p in range(s.nph)], equal)}
    kw = {} if init is None else {"initial_solution": init}
    if c["max_iter"] is not None:
        kw["max_iter"] = c["max_iter"]
    if OPT[c["method"]]:
        kw["mpopt_options"] = OPT[c["method"]]
    limit = 10 if c["max_iter"] is None else c["max_iter"]
    with seam.solver_stub(answer) as log:
        opt = s.optimizer()
        if c["limits"] == "tolerances":
            tol = [0.2, 0.02][: s.nph]
            for p in range(s.nph):
                opt.tol_residual[p] = tol[p]
        if "before" in c:
            words = c["before"]
            opt.solve(**dict(kw, max_iter=len(words)))
            words = c["seq"]
            log[0].calls.clear()
        sol = opt.solve(**kw)
        run.transitions += 1
        calls = [x for y in log for x in y.calls]
        run.transitions += len(calls)
        run.states += len(calls) + 1
        e0 = error(s, init["x"], equal) if init and "x" in init else None
        if e0 is not None and e0 < min(tol):
            run.check(not calls, "a first solution below the tolerance needs no solve", calls=len(calls))
            run.check(sol is init or np.array_equal(hist.flat(sol["x"]), init["x"]), "the first solution is returned")
            run.outcome = "given solution accepted"
            return
        if not run.check(1 <= len(calls) <= limit, "number of solves", limit=limit, observed=len(calls)):
            return
        errs, ans = [], []
        for i, call in enumerate(calls):
            w = unpack(call["p"])
            for p in range(s.nph):
                run.check((w[p] > 0).all() and abs(w[p].sum() - 1) < 1e-9, "widths of solve %d are a partition" % i, phase=p, widths=w[p])
            a = answer(log[0], call, i)
            if i == 0:
                if init is None or "x" not in init:
                    run.check(np.allclose(call["p"], np.concatenate(equal)), "first solve uses equal widths", observed=call["p"])
                if init is not None:
                    run.check(np.array_equal(call["x0"], init.get("x", init.get("x0"))), "first solve starts from the given trajectory")
            else:
                for key, src in (("x0", "x"), ("lam_x0", "lam_x"), ("lam_g0", "lam_g")):
                    run.check(key in call and np.array_equal(call[key], ans[-1][src]), "solve %d starts from the previous answer (%s)" % (i, key))
            ans.append(a)
            errs.append(error(s, a["x"], w))
            last = i == len(calls) - 1
            if not last:
                run.check(errs[-1] >= min(tol), "solving goes on below the tolerance", iteration=i, error=errs[-1])
                w2 = unpack(calls[i + 1]["p"])
                moved = any((np.abs(x - y) / x > 0.05).any() for x, y in zip(w2, w))
                run.check(moved, "solving goes on although no width changes by more than 5%", old=w, new=w2)
                run.check(not stuck(errs), "solving goes on although the error stagnates", errors=errs)
        w = unpack(calls[-1]["p"])
        for key in ("x", "lam_x", "lam_g"):
            run.check(np.array_equal(hist.flat(sol[key]), ans[-1][key]), "the last answer is returned (%s)" % key)
        why = "limit" if len(calls) == limit else ""
        if errs[-1] < min(tol):
            why = "tolerance"
        elif not why:
            new, err = opt.get_segment_width_parameters(sol, OPT[c["method"]] or OPT["area"])
            still = (np.abs(np.asarray(new) - calls[-1]["p"]) / np.asarray(new) <= 0.05 + 1e-9).all()
            run.check(abs(err - errs[-1]) < 1e-9, "error of the last answer", expected=errs[-1], observed=err)
            why = "widths settled" if still else "error settled" if stuck(errs) else ""
            run.check(why, "solving stops before the limit without reason", errors=errs, widths=w, proposed=new)
        post = opt.process_results(sol, plot=False, residual_dx=True)
    for p in range(s.nph):
        X, U, t, a, t0, tf = build.phase_data(s, ans[-1]["x"], w, p)
        got = post.get_data([p])
        run.check(np.allclose(hist.flat(got[2]), t, atol=1e-9), "times of the result use the widths it was solved with", phase=p, expected=t, observed=got[2])
        run.check(np.allclose(hist.flat(got[1]), U.ravel(), atol=1e-9), "controls of the result", phase=p)
    top = max([0.0] + [np.abs(np.asarray(r, float)).max() for q in post.residuals["t_dx"][1] for r in q if r is not None and np.size(r)])
    run.check(abs(top - errs[-1]) < 1e-7, "residual of the result", expected=errs[-1], observed=top)
    run.outcome = "%s after %d" % (why, len(calls))


def stuck(errs):
    """After more than four solves, the error is within 5% of its recent mean."""
    return len(errs) > 4 and abs(errs[-1] - np.mean(errs[-4:])) < 0.05 * abs(errs[-1])
