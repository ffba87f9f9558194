import copy
import itertools

import numpy as np

from .. import build, seam

# Alphabet: one call of solve() each
CALLS = {
    "plain": {},
    "widths": {"w": "uneq"},
    "widths2": {"w": "rev"},
    "opts": {"o": {"ipopt.max_iter": 7, "ipopt.tol": 1e-9}},
    "other": {"s": "sqpmethod"},
    "other+opts": {"s": "sqpmethod", "o": {"max_iter": 3}},
    "re": {"r": True},
    "re+opts": {"r": True, "o": {"ipopt.print_level": 4, "print_time": False, "ipopt.max_iter": 0}},
    "re+other": {"r": True, "s": "sqpmethod"},
    "re+other+opts": {"r": True, "s": "sqpmethod", "o": {"hessian_approximation": "limited-memory"}},
    "re+widths": {"r": True, "w": "uneq"},
    "warm": {"i": True},
    "warm+widths": {"i": True, "w": "uneq"},
    "reset": None,  # the optimizer is reset before the next call
}
IPOPT = {"ipopt.max_iter": 2000, "ipopt.acceptable_tol": 1e-4, "ipopt.print_level": 0, "ipopt.sb": "yes", "print_time": 0}
BOUNDS = {
    "quick": "every history of up to 3 solve() calls from an alphabet of 14 (options, solver names, re-creation, segment widths, given start, reset) on 4 optimizers; every subset of arguments in one dictionary given repeatedly to the one-call interface and the ph loop",
    "thorough": "every history of up to 4 calls on 4 optimizers",
}
ORACLE = "state machine: (solver alive?, its plugin, its options) and the widths of each call"


def space(tier):
    for cls in ("mpopt", "mpopt_h_adaptive", "mpopt_adaptive", "mpopt_ph_adaptive"):
        for n in range(1, (3 if tier == "quick" else 4) + 1):
            for h in itertools.product(CALLS, repeat=n):
                if h[-1] != "reset" and not (cls == "mpopt_h_adaptive" and set(h) & {"warm", "warm+widths"}) and (n < 4 or cls == "mpopt"):
                    yield {"cls": cls, "calls": list(h)}
    for entry in ("one call", "solve_ph"):
        for n in range(len(SOLVE) + 1):
            for keys in itertools.combinations(SOLVE, n):
                for more in (False, True):
                    if entry == "one call" or "reinitialize_nlp" not in keys:
                        yield {"entry": entry, "keys": list(keys), "more": more}


# one dictionary of arguments of solve(), handed to the other ways to solve
SOLVE = ["initial_solution", "reinitialize_nlp", "solver", "nlp_solver_options", "mpopt_options"]


def entry(c, run):
    s = build.Spec(build.default(cls="mpopt_ph_adaptive" if c["entry"] == "solve_ph" else "mpopt", nph=2, nx=1, nu=1, orders=[3, 3], widths="equal"))
    w = list(np.concatenate(s.widths("uneq")))
    full = {"initial_solution": {"x": build.probes(s, 1)[0]}, "reinitialize_nlp": True, "solver": "sqpmethod", "nlp_solver_options": {"max_iter": 3}, "mpopt_options": {"nlp_sw_params": w}}
    args = {k: full[k] for k in c["keys"]}
    keep, seen = copy.deepcopy(args), []
    answer = lambda cap, rec, i: {"x": build.probe(cap.nx, 4)}
    for i in range(3):  # the same dictionary again and again
        with seam.solver_stub(answer) as log:
            if c["entry"] == "one call":
                seam.mp.solve(s.ocp(), 2, [3, 3], s.c["scheme"], False, args, residual_dx=c["more"])
            else:
                opt = seam.mp.mpopt_ph_adaptive(s.ocp(), 2, [3, 3], s.c["scheme"], max_residual=1e-9 if c["more"] else 1e9, n_grid_points=4)
                opt.solve_ph(max_iter=1, solve_dict=args)
        run.transitions += 1
        run.states += len(log)
        run.check(all(k in args for k in keep) and len(args) == len(keep), "arguments of %s were modified" % c["entry"], before=keep, after=args)
        run.check(all(same(args.get(k), keep[k]) for k in keep), "values of the arguments of %s were modified" % c["entry"], before=keep, after=args)
        first = log[0]
        plugin = "sqpmethod" if "solver" in keep else "ipopt"
        run.check(all(x.plugin == plugin for x in log), "solver plugin", expected=plugin)
        run.check(all(x.opts == dict(IPOPT if plugin == "ipopt" else {}, **keep.get("nlp_solver_options", {})) for x in log), "solver options", observed=first.opts)
        want = w if "mpopt_options" in keep else np.concatenate(s.widths("equal"))
        run.check(np.allclose(first.calls[0]["p"], want, rtol=0, atol=1e-14), "segment widths", expected=want, observed=first.calls[0]["p"])
        if "initial_solution" in keep:
            run.check(np.array_equal(first.calls[0]["x0"], keep["initial_solution"]["x"]), "the given solution reaches the solver")
        seen.append([{k: v.tolist() for k, v in call.items()} for x in log for call in x.calls])
        run.check(seen[i] == seen[0], "call %d with the same dictionary differs from the first" % i)
    run.outcome = "%s %d calls" % (c["entry"], len(seen[0]))


def same(a, b):
    if isinstance(b, dict):
        return isinstance(a, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in b)
    return np.array_equal(a, b) if isinstance(b, np.ndarray) else a == b


def check(c, run):
    if "entry" in c:
        return entry(c, run)
    s = build.Spec(build.default(cls=c["cls"], nph=2, nx=1, nu=1, orders=[1, 2], widths="equal"))
    live, made, guess = None, 0, None
    start = build.probe(build.Spec(s.c).layout().total, 6)
    with seam.solver_stub(lambda cap, rec, n: {"x": rec["x0"] + 0.1 * build.probe(cap.nx, n)}) as log:
        opt = s.optimizer()
        for i, name in enumerate(c["calls"]):
            call = CALLS[name]
            if call is None:
                opt.reset_mpopt()
                live = None
                continue
            kw = {}
            if "o" in call:
                kw["nlp_solver_options"] = dict(call["o"])
            if "s" in call:
                kw["solver"] = call["s"]
            if "r" in call:
                kw["reinitialize_nlp"] = True
            if "w" in call:
                w = list(np.concatenate(s.widths(call["w"])))
                kw["mpopt_options"] = {"nlp_sw_params": w}
            if "i" in call:
                kw["initial_solution"] = {"x": start.copy()}
            if c["cls"] == "mpopt_h_adaptive":
                kw["max_iter"] = 1
            keep = copy.deepcopy(kw)
            ncalls = sum(len(x.calls) for x in log)
            opt.solve(**kw)
            run.transitions += 1
            if live is None or "r" in call:
                plugin = call.get("s", "ipopt")
                live = {"plugin": plugin, "opts": dict(IPOPT if plugin == "ipopt" else {}, **call.get("o", {}))}
                made += 1
            run.states += 1
            if not run.check(len(log) == made, "number of solver objects after call %d" % i, expected=made, observed=len(log)):
                return
            cap = log[-1]
            run.check(sum(len(x.calls) for x in log) == ncalls + 1 and len(cap.calls) >= 1, "the live solver is called once by call %d" % i)
            run.check(cap.plugin == live["plugin"], "solver plugin of call %d" % i, expected=live["plugin"], observed=cap.plugin)
            run.check(cap.opts == live["opts"], "solver options of call %d" % i, expected=live["opts"], observed=cap.opts)
            run.check(same(kw, keep), "option dictionaries of call %d were modified" % i, before=keep, after=kw)
            x0 = cap.calls[-1]["x0"]
            if "i" in call:
                run.check(np.array_equal(x0, start), "start of call %d is the given one" % i)
            else:
                guess = x0 if guess is None else guess
                run.check(np.array_equal(x0, guess), "start of call %d is the guess" % i, expected=guess, observed=x0)
            p = cap.calls[-1]["p"]
            if c["cls"] == "mpopt_adaptive":
                run.check(cap.np_ == 0 and p.size == 0, "width optimizer takes no width parameter")
            else:
                use = call.get("w") if c["cls"] != "mpopt_h_adaptive" else None
                want = np.concatenate(s.widths(use or "equal"))
                run.check(np.allclose(p, want, rtol=0, atol=1e-14), "segment widths of call %d" % i, expected=want, observed=p)
    run.outcome = "%d solvers, %s %s" % (made, live["plugin"], sorted(live["opts"].items()))
