import contextlib

import numpy as np

from .. import build, hist, seam

CLASSES = ["mpopt", "mpopt_h_adaptive", "mpopt_adaptive", "mpopt_ph_adaptive"]
PROBLEMS = {
    "two": dict(nph=2, nx=2, nu=1, na=1, orders=[2, 2], path="all", scale="all"),
    "one": dict(nph=1, nx=1, nu=1, na=0, orders=[1, 2], scheme="CGL", term="all", ducont="on"),
}
# what happened before, the call that fails, and what the user does next
BEFORE = {"nothing": [], "solved": ["solve"], "looked at": ["solve", "results"], "new mesh": ["solve", "mesh"], "widths": ["widths"]}
FAILS = ["solve", "re", "widths", "loop", "results", "x-res", "dx-mid", "x-one", "ddx", "onecall"]
LOOKS = ("results", "x-res", "dx-mid", "x-one", "ddx")
AFTER = {"retry": ["again", "results"], "retry anew": ["re", "results"], "go on": ["results"], "solve": ["solve", "results"]}
BOUNDS = {
    "quick": "first and last crash point of every kind (creation of the solver, call of the solver, every user callback of every phase) in 10 calls x 5 histories before x 4 continuations x 4 optimizers x 2 problems",
    "thorough": "every crash point in the same calls and histories",
}
ORACLE = "the same history without the failed call"


SOLVER = ("solvers created", "plugin", "opts")


class Injected(Exception):
    pass


class Interrupt(KeyboardInterrupt):
    pass


def space(tier):
    for cls in CLASSES:
        for prob in PROBLEMS:
            for before in BEFORE:
                for fails in FAILS:
                    for after in AFTER:
                        if fails == "loop" and cls not in ("mpopt_h_adaptive", "mpopt_ph_adaptive"):
                            continue
                        if "widths" in (before, fails) and cls in ("mpopt_h_adaptive", "mpopt_adaptive"):
                            continue
                        if fails in LOOKS and before in ("nothing", "new mesh"):
                            continue
                        if after == "go on" and (before in ("nothing", "new mesh") or fails == "onecall"):
                            continue
                        if fails == "onecall" and (before != "nothing" or after != "retry"):
                            continue
                        if fails in LOOKS and after == "retry anew":
                            continue
                        if tier == "quick" and prob == "one" and (before not in ("nothing", "solved") or cls == "mpopt_ph_adaptive"):
                            continue
                        if tier == "quick" and before == "looked at" and after != "go on":
                            continue
                        yield {"cls": cls, "prob": prob, "before": before, "fails": fails, "after": after, "all": tier == "thorough"}


class Faults:
    """Counts the events at which a call into the environment may fail; raises at one of them."""

    def __init__(self):
        self.events, self.at, self.error = [], None, Injected

    def hit(self, what):
        self.events.append(what)
        if self.at is not None and len(self.events) - 1 == self.at:
            self.at = None
            raise self.error("injected at " + what)


class World:
    def __init__(self, c):
        self.c, self.faults, self.log = c, Faults(), []
        self.s = build.Spec(build.default(cls=c["cls"], **PROBLEMS[c["prob"]]))
        self.ocp = self.s.ocp()
        for name in ("dynamics", "path_constraints", "terminal_constraints", "running_costs", "terminal_costs"):
            fns = getattr(self.ocp, name)
            for p in range(self.s.nph):
                if fns[p] is not None:
                    fns[p] = self.watch(fns[p], "%s of phase %d" % (name, p))
        self.new()
        self.sol = self.ncalls = None

    def new(self):
        n = len(self.s.c["orders"])
        kw = dict(n_grid_points=3, max_residual=1e-9, seg_max=6) if self.c["cls"] == "mpopt_ph_adaptive" else {}
        self.opt = getattr(seam.mp, self.c["cls"])(self.ocp, n, list(self.s.c["orders"]), self.s.c["scheme"], **kw)

    def watch(self, fn, what):
        def watched(*a):
            self.faults.hit(what)
            return fn(*a)

        return watched

    def answer(self, cap, rec, n):
        self.ncalls += 1
        self.live = cap
        self.faults.hit("call of the solver")
        z = rec["x0"] + 0.1 * build.probe(cap.nx, 3 + self.ncalls)
        lay = self.s.layout()
        for p in range(self.s.nph):
            if lay.nseg:
                z[(p + 1) * lay.per - lay.nseg : (p + 1) * lay.per] = self.s.widths("rev" if self.ncalls % 2 else "uneq")[p]
        return {"x": z}

    @contextlib.contextmanager
    def solver(self):
        import casadi as ca

        with seam.solver_stub(self.answer, self.log):
            stub = ca.nlpsol

            def create(*a, **kw):
                self.faults.hit("creation of the solver")
                return stub(*a, **kw)

            ca.nlpsol = create
            yield

    def do(self, o):
        """One call by the user; what was observed."""
        self.ncalls = 0
        kw = {"max_iter": 1} if self.c["cls"] == "mpopt_h_adaptive" else {}
        if o == "again":
            o = self.c["fails"] if self.c["fails"] in ("solve", "re", "widths", "loop") else "solve"
        first = len(self.log)
        with self.solver():
            if o == "solve":
                self.sol = self.opt.solve(**kw)
            elif o == "re":
                self.sol = self.opt.solve(reinitialize_nlp=True, nlp_solver_options={"ipopt.max_iter": 5}, **kw)
            elif o == "widths":
                self.sol = self.opt.solve(mpopt_options={"nlp_sw_params": list(np.concatenate(self.s.widths("uneq")))})
            elif o == "loop":
                self.sol = self.opt.solve(max_iter=3) if self.c["cls"] == "mpopt_h_adaptive" else self.opt.solve_ph(max_iter=2)
            elif o == "onecall":
                self.opt, self.post = seam.mp.solve(self.ocp, len(self.s.c["orders"]), list(self.s.c["orders"]), self.s.c["scheme"], plot=False)
                return {}
            elif o == "mesh":
                self.s = build.Spec(dict(self.s.c, orders=[3, 1, 1]))
                self.opt.poly_orders, self.opt.n_segments = [3, 1, 1], 3
                self.opt.reset_mpopt()
                return {}
            elif o == "dx-mid":  # not the grid the optimizer is set to use
                return {"dx-mid": hist.flat(self.opt.get_dynamics_residuals(self.sol, grid_type="mid-points"))}
            elif o == "x-one":
                grid = [[np.linspace(self.opt.tau0, self.opt.tau1, 4)[1:]] * self.opt.n_segments] * self.s.nph
                return {"x-one": hist.flat(self.opt.get_states_residuals(self.sol, nodes=grid, phases=[0])[3])}
            elif o == "ddx":
                return {"ddx": hist.flat(self.opt.get_state_second_derivative(self.sol, grid_type="spectral"))}
            elif o == "x-res":
                out = self.opt.get_states_residuals(self.sol)
                return {"x-res": hist.flat([v for v in out[3]])}
            elif o == "results":
                return dict(hist.results(self.opt, self.sol), mesh=(self.opt.n_segments, tuple(self.opt.poly_orders)))
        out = {"solvers created": len(self.log) - first, "calls": self.ncalls, "solution": hist.flat(self.sol["x"])}
        out.update(hist.problem(self.live))
        return out


def settings():
    """Everything global the code under test could leave changed."""
    import casadi as ca

    m = seam.mp
    out = {}
    for cls in (m.mpopt, m.mpopt_h_adaptive, m.mpopt_adaptive, m.mpopt_ph_adaptive, m.post_process, m.Collocation, m.CollocationRoots, m.OCP):
        for n, v in vars(cls).items():
            if isinstance(v, (int, float, str, list, tuple, dict, bool)) and not n.startswith("__"):
                out[cls.__name__ + "." + n] = repr(v)
    out["nlpsol"] = repr(ca.nlpsol)
    out["numpy"] = repr(np.geterr()) + repr(np.get_printoptions())
    return out


def points(events, all_):
    """Crash points: every event, or the first and last of every kind."""
    if all_:
        return list(range(len(events)))
    keep = set()
    for kind in set(events):
        at = [i for i, e in enumerate(events) if e == kind]
        keep |= {at[0], at[-1]}
    return sorted(keep)


def check(c, run):
    from .c22 import same, snapshot

    if c["fails"] == "onecall" and c["cls"] != "mpopt":
        run.outcome = "one-call interface uses the plain optimizer"
        return

    def start():
        w = World(c)
        for o in BEFORE[c["before"]]:
            w.do(o)
        return w

    after = AFTER[c["after"]]
    ref = start()
    want = [ref.do(o) for o in after]
    dry = start()
    dry.faults.events = []
    dry.do(c["fails"])
    events = list(dry.faults.events)
    # the solver object of the failed call may be kept (with its options) or made again
    kept = [] if c["fails"] == "onecall" else [dry.do(o) for o in after]
    run.transitions += 3 + len(events)
    if not events:
        run.outcome = "no crash point"
        return
    for at in points(events, c["all"]):
        w = start()
        users, glob = snapshot(w.ocp), settings()
        w.faults.events, w.faults.at = [], at
        w.faults.error = Interrupt if (at % 2 and events[at] == "call of the solver") else Injected
        where = "%s number %d in %s" % (events[at], at, c["fails"])
        try:
            w.do(c["fails"])
            run.check(False, "the failure reaches the user: " + where)
        except (Injected, Interrupt):
            run.check(True, "the failure reaches the user")
        w.faults.at = None
        run.states += 1
        run.check(same(users, snapshot(w.ocp)), "the user's problem after a failure: " + where)
        now = settings()
        run.check(now == glob, "global settings after a failure: " + where, changed=[k for k in glob if now.get(k) != glob[k]])
        if c["fails"] == "onecall":
            w.new()
        for i, (o, e) in enumerate(zip(after, want)):
            run.transitions += 1
            try:
                got = w.do(o)
            except Exception as err:
                run.check(False, "%s raised %s after failure of %s" % (o, str(err)[:200], where))
                break
            if kept and "creation of the solver" in events[:at]:
                e = dict(e)
                for n in SOLVER:
                    if n in e and hist.equal(got[n], kept[i][n]):
                        e[n] = got[n]
            hist.compare(run, got, e, "%s after failure of %s" % (o, where))
    run.outcome = "%s %d crash points" % (c["fails"], len(events))
