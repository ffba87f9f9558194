import numpy as np

from .. import build, hist, seam
from ..core import isolated

SETTINGS = {"lbh": 0.21, "ubh": 0.77, "tol_residual": 1e6, "grid_type": "mid-points", "max_grid_points": 4}
CLASSES = ["mpopt", "mpopt_h_adaptive", "mpopt_adaptive", "mpopt_ph_adaptive"]
MESHES = {"scheme": (([2, 3], "LGR"), ([2, 3], "LGL")), "orders": (([2, 3], "LGR"), ([3, 1], "LGR")), "same": (([1, 2], "CGL"), ([1, 2], "CGL"))}
VERSIONS = [dict(), dict(scale="all", bounds="tight", guess="sametime", diffu="on", jump="fixed", path="all", cost="const", mayer="last", ducont="on")]
OPTS = {"A": {"ipopt.max_iter": 7, "ipopt.tol": 1e-9}, "B": {"ipopt.acceptable_tol": 1e-3}}
PROGRAM = ["new", "solve", "results"]
BOUNDS = {
    "quick": "every interleaving of two optimizers' create/solve/process calls with one in-place change of the shared problem object and the lists of orders, 16 pairs of optimizer kinds, 2 mesh pairs; every interleaving of the settings made on one optimizer with the calls of another",
    "thorough": "every interleaving with two changes of the problem object and a second solve, 16 pairs of optimizer kinds, 3 mesh pairs",
}
ORACLE = "the same calls made by one optimizer alone in a process of its own"


def merges(*seqs):
    if all(not s for s in seqs):
        yield []
        return
    for i, s in enumerate(seqs):
        if s:
            rest = [t[1:] if i == j else t for j, t in enumerate(seqs)]
            for m in merges(*rest):
                yield [s[0]] + m


def space(tier):
    quick = tier == "quick"
    a = ["A." + s for s in PROGRAM]
    b = ["B." + s for s in PROGRAM + ([] if quick else ["solve"])]
    u = ["change"] * (1 if quick else 2)
    for ops in merges(a, b, u):
        for ca in CLASSES:
            for cb in CLASSES:
                for mesh in list(MESHES)[: 2 if quick else 3]:
                    if quick and CLASSES.index(cb) < CLASSES.index(ca) and mesh == "scheme":
                        continue  # the same pair with the names exchanged
                    if quick and mesh == "orders" and ca != cb:
                        continue
                    yield {"ops": ops, "A": ca, "B": cb, "mesh": mesh}
    # settings made on one optimizer are those of that optimizer
    for ops in merges(["A.new", "A.set"], b):
        for ca in CLASSES:
            for cb in CLASSES:
                for mesh in ["same"] if quick else list(MESHES):
                    yield {"ops": ops, "A": ca, "B": cb, "mesh": mesh}


def spec(cls, version, mesh):
    kw = dict(VERSIONS[version])
    return build.Spec(build.default(cls=cls, nph=2, nx=2, nu=1, na=1, orders=list(mesh[0]), scheme=mesh[1], **kw))


def answer(s):
    def policy(cap, rec, n):
        z = rec["x0"] + 0.1 * build.probe(cap.nx, 7)
        lay = s.layout()
        for p in range(s.nph):
            if lay.nseg:
                z[(p + 1) * lay.per - lay.nseg : (p + 1) * lay.per] = s.widths("rev")[p]
        return {"x": z}

    return policy


class Actor:
    def __init__(self, s):
        self.s, self.log = s, []

    def new(self, ocp, orders):
        self.opt = getattr(seam.mp, self.s.c["cls"])(ocp, len(orders), orders, self.s.c["scheme"])

    def set(self):
        """Settings the user makes on this optimizer only."""
        for p in range(self.s.nph):
            for name, v in SETTINGS.items():
                if hasattr(self.opt, name):
                    getattr(self.opt, name)[p] = v
        for name in ("mid_residuals", "plot_residual_evolution"):
            if hasattr(self.opt, name):
                setattr(self.opt, name, False)
        for name in ("_MAX_GRID_POINTS", "max_residual", "non_smooth_threshold"):
            if hasattr(self.opt, name):
                setattr(self.opt, name, 3)
        return {}

    def settings(self):
        names = list(SETTINGS) + ["mid_residuals", "plot_residual_evolution", "max_residual", "non_smooth_threshold", "_MAX_GRID_POINTS", "_MUTE_"]
        return {n: str(getattr(self.opt, n, None)) for n in names}

    def solve(self, opts):
        with seam.solver_stub(answer(self.s), self.log):
            kw = {"max_iter": 2} if self.s.c["cls"] == "mpopt_h_adaptive" else {}
            self.sol = self.opt.solve(nlp_solver_options=opts, **kw)
        return hist.problem(self.log[-1])

    def results(self):
        before = {k: hist.flat(v) for k, v in self.sol.items()}
        out = hist.results(self.opt, self.sol)
        out["solution kept"] = float(all(np.array_equal(before[k], hist.flat(v)) for k, v in self.sol.items()))
        return out


def alone(cls, version, mesh, who):
    s = spec(cls, version, mesh)
    a = Actor(s)
    a.new(s.ocp(), list(mesh[0]))
    return {"settings": a.settings(), "solve": a.solve(dict(OPTS[who])), "results": a.results()}


REF = {}


def prepare(configs):
    need = {(c[who], v, c["mesh"], who) for c in configs for who in "AB" for v in range(len(VERSIONS))}
    for cls, v, name, who in sorted(need):
        mesh = MESHES[name]["AB".index(who)]
        key = (cls, v, str(mesh), who)
        if key not in REF:
            REF[key] = isolated(alone, cls, v, mesh, who)


ARRAYS = ("x00", "xf0", "u00", "uf0", "t00", "tf0", "a0", "lbx", "ubx", "lbu", "ubu", "lba", "uba", "lbt0", "ubt0", "lbtf", "ubtf", "lbe", "ube", "scale_x", "scale_u", "scale_a", "diff_u", "lbdu", "ubdu", "midu", "du_continuity")
LISTS = ("dynamics", "path_constraints", "terminal_constraints", "running_costs", "terminal_costs", "phase_links")


def change(ocp, version):
    """Turn the user's problem object, in place, into another problem."""
    other = spec("mpopt", version, MESHES["scheme"][0]).ocp()
    for n in ARRAYS:
        v = getattr(ocp, n)
        v[...] = getattr(other, n)
    for n in LISTS:
        getattr(ocp, n)[:] = getattr(other, n)
    ocp.scale_t = other.scale_t


def snapshot(ocp):
    out = {n: np.array(getattr(ocp, n)) for n in ARRAYS}
    out.update({n: list(getattr(ocp, n)) for n in LISTS})
    out["rest"] = (ocp.scale_t, ocp.nx, ocp.nu, ocp.na, ocp.n_phases, str(ocp.phases_to_plot))
    return out


def same(a, b):
    return all(np.array_equal(a[n], b[n]) for n in ARRAYS) and all(a[n] == b[n] for n in LISTS) and a["rest"] == b["rest"]


def check(c, run):
    meshes = MESHES[c["mesh"]]
    orders = [list(m[0]) for m in meshes]
    if orders[0] == orders[1]:
        orders[1] = orders[0]  # the user passes one list object to both
    now = [list(o) for o in orders]
    version, ocp = 0, spec(c["A"], 0, meshes[0]).ocp()
    actors, built, opts = {}, {}, {n: dict(o) for n, o in OPTS.items()}
    for op in c["ops"]:
        run.states += 1
        run.transitions += 1
        if op == "change":
            version = 1 - version
            change(ocp, version)
            for lst in orders:  # the user reuses the list of orders as well
                lst[:] = [1, 4] if version else [2, 5]
            now = [list(o) for o in orders]
            continue
        who, what = op.split(".")
        i = "AB".index(who)
        before = snapshot(ocp)
        if what == "new":
            actors[who] = Actor(spec(c[who], version, meshes[i]))
            built[who] = version
            orders[i][:] = now[i] = list(meshes[i][0])
            if orders[0] is orders[1]:
                now[1 - i] = now[i]
            actors[who].new(ocp, orders[i])
        elif what == "set":
            actors[who].set()
        else:
            run.check(actors[who].settings() == REF[(c[who], built[who], str(meshes[i]), who)]["settings"], "settings of %s are those of another optimizer" % who, observed=actors[who].settings())
            got = actors[who].solve(opts[who]) if what == "solve" else actors[who].results()
            want = REF[(c[who], built[who], str(meshes[i]), who)][what]
            hist.compare(run, got, want, "%s.%s among other optimizers" % (who, what))
        run.check(same(before, snapshot(ocp)), "the user's problem object was modified by %s" % what)
        run.check(orders == now and opts == OPTS, "the user's mesh or option objects were modified by %s" % what)
    run.outcome = "%s %s %s" % (c["A"], c["B"], built)
