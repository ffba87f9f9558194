import itertools

import casadi as ca
import numpy as np

from .. import build, seam
from ..core import product

KEYS = {"x": "x0", "x0": "x0", "lam_x": "lam_x0", "lam_x0": "lam_x0", "lam_g": "lam_g0", "lam_g0": "lam_g0"}
IGNORED = ["f", "g", "p", "lam_p"]
BOUNDS = {
    "quick": "every subset of the six warm-start entries x other entries present or not x 4 value types (one all zeros) x 4 optimizers x {first solve, later solve, reinitialised}, 1-2 phases",
    "thorough": "the same for 1-3 phases, 3 meshes and 2 problems",
}
ORACLE = "what reaches the solver: the given entries unchanged, the default guess when no trajectory is given, the same bounds as a cold start"


def space(tier):
    subsets = [list(s) for n in range(7) for s in itertools.combinations(list(KEYS), n)]
    d = {
        "cls": ["mpopt", "mpopt_h_adaptive", "mpopt_adaptive", "mpopt_ph_adaptive"],
        "keys": subsets,
        "extra": [False, True],
        "type": ["DM", "array", "list", "zeros"],
        "when": ["first", "later", "reinit"],
        "nph": [1, 2] if tier == "quick" else [1, 2, 3],
        "orders": [[2, 1]] if tier == "quick" else [[2, 1], [3], [1, 2, 2]],
        "na": [1] if tier == "quick" else [1, 0],
    }
    # a trajectory of zeros has no residuals: nothing is left to refine or solve
    few = lambda c: not (c["type"] == "zeros" and c["cls"] == "mpopt_h_adaptive") and some(c)
    some = lambda c: tier != "quick" or c["type"] in ("DM", "zeros") or (not c["extra"] and c["when"] == "first") or len(c["keys"]) in (1, 6)
    return product(d, few)


def check(c, run):
    s = build.Spec(build.default(cls=c["cls"], nph=c["nph"], nx=1, nu=1, na=c["na"], orders=c["orders"], scale="all"))
    with seam.solver_stub() as log:
        opt = s.optimizer()
        kw = {"max_iter": 1} if c["cls"] == "mpopt_h_adaptive" else {}
        if c["when"] != "first":
            opt.solve(**kw)
            if c["when"] == "reinit":
                kw["reinitialize_nlp"] = True
        with seam.solver_stub() as cold:
            s.optimizer().solve(**({"max_iter": 1} if "max_iter" in kw else {}))
        cold = cold[-1]
        n = {"x": cold.nx, "lam_x": cold.nx, "lam_g": cold.ng, "f": 1, "g": cold.ng, "p": cold.np_, "lam_p": cold.np_}
        given, vals = {}, {}
        for i, key in enumerate(c["keys"] + (IGNORED if c["extra"] else [])):
            size = n[key] if key in n else n[key[:-1]]
            v = build.probes(s, 2 + i)[1 + i] if key in ("x", "x0") else build.probe(size, 3 + i)
            v = 0 * v if c["type"] == "zeros" else v
            vals[key] = v
            given[key] = {"DM": ca.DM(v), "array": v.copy(), "zeros": ca.DM(v), "list": [float(e) for e in v]}[c["type"]]
        before = {k: seam.col(v) for k, v in given.items()}
        opt.solve(given, **kw)
        run.transitions += 3
    call, ref = log[-1].calls[-1], cold.calls[-1]
    for target in ("x0", "lam_x0", "lam_g0"):
        want = [vals[k] for k in c["keys"] if KEYS[k] == target]
        if not want and target == "x0":
            want = [ref["x0"]]
        run.states += 1
        if want:
            ok = target in call and any(call[target].shape == w.shape and np.array_equal(call[target], w) for w in want)
            run.check(ok, "%s handed to the solver" % target, expected=want, observed=call.get(target))
        else:
            run.check(target not in call, "%s handed to the solver although none was given" % target, observed=call.get(target))
    for b in ("lbx", "ubx", "lbg", "ubg"):
        run.check(np.array_equal(call[b], ref[b]), "%s differs from a cold start" % b)
    unknown = set(call) - {"x0", "lam_x0", "lam_g0", "lbx", "ubx", "lbg", "ubg", "p"}
    run.check(not unknown, "unexpected solver inputs", keys=sorted(unknown))
    if c["cls"] in ("mpopt", "mpopt_ph_adaptive"):  # h-adaptive may refine the widths on the given solution
        run.check(np.allclose(call["p"], ref["p"]), "segment widths differ from a cold start", expected=ref["p"], observed=call["p"])
    run.check(set(given) == set(before) and all(np.array_equal(seam.col(given[k]), before[k]) for k in before), "the given solution was modified")
    run.outcome = ",".join(sorted(set(call)))
