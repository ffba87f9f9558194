"""Alphabet of optimal control problems: every configuration names one problem,
mesh and set of options; the same polynomial callbacks drive the real code
(symbolically) and the reference model (numerically)."""
import functools

import numpy as np

from . import ref, seam

INF = float("inf")


@functools.lru_cache(None)
def k(*key):
    """Deterministic coefficient in [-1.5, 1.5] away from zero, distinct per key."""
    h = 1
    for c in str(key):
        h = (h * 131 + ord(c)) % 1000003
    v = (h / 1000003.0) * 1.2 + 0.3
    return v if h % 2 else -v


def probe(n, i):
    """i-th probe vector of the fixed data alphabet (values in [-1.3, 1.3])."""
    j = np.arange(n)
    return 1.3 * np.sin(1.7 * (i + 1) + 0.9371 * (j + 1) * (1.31 + 0.17 * i))


# dimension defaults (first value = default environment)
DIMS = {
    "cls": ["mpopt", "mpopt_h_adaptive", "mpopt_adaptive", "mpopt_ph_adaptive"],
    "nph": [2, 1, 3],
    "nx": [2, 1, 3],
    "nu": [2, 1, 3, 0],
    "na": [0, 1, 2],
    "orders": [[2, 3], [3], [1], [1, 1], [2, 2, 2], [3, 1, 2], [4, 2]],
    "scheme": ["LGR", "LGL", "CGL", "LG"],
    "method": ["numerical", "symbolic"],
    "tau": [-1, 0],
    "widths": ["equal", "uneq", "single"],
    "scale": ["none", "x", "u", "a", "t", "all", "lists", "tiny"],
    "path": ["none", "all", "last", "two"],
    "term": ["none", "all", "last", "two"],
    "cost": ["generic", "default", "last", "const"],
    "mayer": ["generic", "default", "last"],
    "bounds": ["box", "none", "partial", "flip", "tight", "ints"],
    "links": ["chain", "branch", "none", "reverse", "shuffled", "skip", "few"],
    "jump": ["zero", "fixed", "range", "free", "half"],
    "diffu": ["off", "on", "last"],
    "slopes": ["two", "lower", "upper", "open", "equal"],
    "midu": ["on", "off", "last"],
    "ducont": ["off", "on", "last"],
    "guess": ["default", "generic", "sametime"],
    "calls": ["own", "shared", "vanish", "plain"],
}

# larger sizes, added to every space of deviations
LARGE = {"nph": [4], "nx": [4], "nu": [5], "na": [3], "orders": [[1] * 11, [2, 3, 1, 2], [6]]}


def default(**kw):
    c = {n: v[0] for n, v in DIMS.items()}
    c.update(kw)
    return c


def dims(*vary, **override):
    """The named dimensions vary over their menus, all others keep their default."""
    out = {}
    for n, v in DIMS.items():
        v = override.get(n, v)
        out[n] = list(v) if (n in vary or n in override) else [v[0]]
    for n, v in override.items():
        if n not in out:
            out[n] = list(v)
    return out


def sensible(c):
    """Skip configurations that only rename another one."""
    if c["nph"] == 1 and (c["links"] != "chain" or c["jump"] != "zero"):
        return False
    if c["nph"] < 3 and c["links"] in ("branch", "shuffled", "skip", "few"):
        return False
    if c["nph"] == 1 and c["calls"] == "shared":
        return False
    if len(c["orders"]) == 1 and c["widths"] != "equal":
        return False
    if c["na"] == 0 and c["scale"] == "a":
        return False
    if c["slopes"] != "two" and c["diffu"] == "off":
        return False
    if c["nu"] == 0 and (c["scale"] == "u" or c["diffu"] != "off" or c["ducont"] != "off" or c["midu"] != "on"):
        return False
    return True


class Spec:
    """Numerical description of the problem a configuration names."""

    def __init__(self, c):
        self.c = c
        nph, nx, nu, na = c["nph"], c["nx"], c["nu"], c["na"]
        self.nph, self.nx, self.nu, self.na = nph, nx, nu, na
        s = c["scale"]
        pick = lambda on, vals, n: np.array(vals[:n]) if on else np.ones(n)
        alls = s in ("all", "lists")
        self.scale_x = pick(alls or s == "x", [2.0, 0.25, 5.0, 0.6, 3.0], nx)
        self.scale_u = pick(alls or s == "u", [0.5, 3.0, 0.2, 1.5, 4.0], nu)
        self.scale_a = pick(alls or s == "a", [4.0, 0.5, 1.5, 0.3], na)
        if s == "tiny":  # very small and very large factors side by side
            small = lambda n, off: np.array([[2e-5, 3e4][(i + off) % 2] for i in range(n)])
            self.scale_x, self.scale_u, self.scale_a = small(nx, 0), small(nu, 1), small(na, 0)
        self.scale_t = 2e-4 if s == "tiny" else 0.4 if (alls or s == "t") else 1.0
        r = range(nph)
        g = c["guess"]
        arr = lambda tag, n, off=0.0: np.array([[off + k(tag, p, i) for i in range(n)] for p in r]).reshape(nph, n)
        if g == "default":
            self.x00 = np.array([[0.7 * k("x00", p, i) for i in range(nx)] for p in r])
            self.xf0, self.u00, self.uf0 = np.zeros((nph, nx)), np.zeros((nph, nu)), np.zeros((nph, nu))
            self.t00, self.tf0, self.a0 = np.zeros((nph, 1)), np.ones((nph, 1)), np.zeros((nph, na))
        else:
            self.x00, self.xf0 = arr("x00", nx), arr("xf0", nx)
            self.u00, self.uf0 = arr("u00", nu), arr("uf0", nu)
            self.t00 = np.array([[0.5 + 1.5 * p] for p in r])
            self.tf0 = self.t00 + (0.0 if g == "sametime" else 1.25)
            self.a0 = arr("a0", na)
            if g == "backwards":  # every second phase ends before it starts
                self.tf0[nph % 2 :: 2] = self.t00[nph % 2 :: 2] - 0.75
            if g == "partial":  # every second phase starts at zero, some others end there
                for v in (self.x00, self.u00, self.t00, self.a0):
                    v[1::2] = 0.0
                for v in (self.xf0, self.uf0):
                    v[2::2] = 0.0
            if g == "ints":  # whole arrays of integers
                for n in ("x00", "xf0", "u00", "uf0", "a0"):
                    setattr(self, n, np.round(4 * getattr(self, n)).astype(int))
                self.t00 = np.array([[2 * p] for p in r])
                self.tf0 = self.t00 + 3
        full = lambda v, n: np.full((nph, n), v, dtype=float)
        b = c["bounds"]
        self.lbx, self.ubx = full(-INF, nx), full(INF, nx)
        self.lbu, self.ubu = full(-INF, nu), full(INF, nu)
        self.lba, self.uba = full(-INF, na), full(INF, na)
        self.lbt0, self.ubt0 = full(0, 1), full(INF, 1)
        self.ubt0[0] = 0
        self.lbtf, self.ubtf = full(0, 1), full(INF, 1)
        if b in ("box", "tight", "ints"):
            self.lbx, self.ubx = arr("lbx", nx, -3), arr("ubx", nx, 3)
            self.lbu, self.ubu = arr("lbu", nu, -4), arr("ubu", nu, 4)
            self.lba, self.uba = arr("lba", na, -2), arr("uba", na, 2)
            self.lbt0 = np.array([[0.1 * p] for p in r])
            self.ubt0 = np.array([[0.3 * p] for p in r])
            self.lbtf = np.array([[1.0 + p] for p in r])
            self.ubtf = np.array([[2.0 + 1.1 * p] for p in r])
        if b == "partial":  # one component, one side, last phase
            if nx:
                self.ubx[-1, 0] = 1.75
            if nu:
                self.lbu[-1, nu - 1] = -0.6
            if na:
                self.uba[-1, 0] = 2.2
            self.ubtf[0, 0] = 7.0
        if b == "flip":  # the other component and side, first phase
            if nx:
                self.lbx[0, nx - 1] = -1.25
            if nu:
                self.ubu[0, 0] = 0.9
            if na:
                self.lba[0, na - 1] = -2.4
            self.lbtf[-1, 0] = 0.2
            self.lbt0[-1, 0] = 0.15 * (nph > 1)
        if b == "ints":
            for n in ("lbx", "ubx", "lbu", "ubu", "lba", "uba", "lbt0", "ubt0", "lbtf", "ubtf"):
                setattr(self, n, np.round(getattr(self, n)).astype(int))
        if b == "tight":
            self.ubx, self.ubu, self.uba, self.ubtf = self.lbx.copy(), self.lbu.copy(), self.lba.copy(), self.lbtf.copy()
        self.links = {
            "chain": [(i, i + 1) for i in range(nph - 1)],
            "branch": [(0, i) for i in range(1, nph)],
            "none": [],
            "reverse": [(i + 1, i) for i in range(nph - 1)],
            "shuffled": [(i, i + 1) for i in range(nph - 2, -1, -1)],
            "skip": [(0, nph - 1)],
            "few": [(nph - 2, nph - 1)],
        }[c["links"]] if isinstance(c["links"], str) else [tuple(v) for v in c["links"]]
        nl = max(nph - 1, 0)
        e = lambda tag, sg: np.array([[sg * abs(k(tag, p, i)) for i in range(nx)] for p in range(nl)]).reshape(nl, nx)
        self.lbe, self.ube = np.zeros((nl, nx)), np.zeros((nl, nx))
        if c["jump"] == "fixed":
            self.lbe = self.ube = np.array([[k("jump", p, i) for i in range(nx)] for p in range(nl)]).reshape(nl, nx)
        elif c["jump"] == "range":
            self.lbe, self.ube = e("lbe", -1), e("ube", 1)
        elif c["jump"] == "free":  # nothing is asked of the states
            self.lbe, self.ube = np.full((nl, nx), -INF), np.full((nl, nx), INF)
        elif c["jump"] == "half":  # one side only, the sides alternate
            self.lbe, self.ube = e("lbe", -1), e("ube", 1)
            odd = np.add.outer(np.arange(nl), np.arange(nx)) % 2 == 1
            self.lbe[odd], self.ube[~odd] = -INF, INF
        flag = lambda v: [int(v == "on" or (v == "last" and p == nph - 1)) for p in r]
        self.diff_u, self.midu, self.du_cont = flag(c["diffu"]), flag(c["midu"]), flag(c["ducont"])
        self.lbdu = [-0.8 - 0.3 * p for p in r]
        self.ubdu = [0.6 + 0.2 * p for p in r]
        if c["slopes"] in ("upper", "open"):
            self.lbdu = [-INF for p in r]
        if c["slopes"] in ("lower", "open"):
            self.ubdu = [INF for p in r]
        if c["slopes"] == "equal":  # a prescribed slope
            self.ubdu = list(self.lbdu)
        on = lambda v: [v in ("all", "generic", "const", "two") or (v == "last" and p == nph - 1) for p in r]
        self.has_path, self.has_term = on(c["path"]), on(c["term"])
        self.has_cost, self.has_mayer = on(c["cost"]), on(c["mayer"])
        self.n_path = 2 if c["path"] == "two" else 1
        self.n_term = 2 if c["term"] == "two" else 1

    # ---- callbacks (polynomials with generic coefficients) ----
    # "shared": the very same functions serve every phase; "vanish": they are zero
    # at both ends of the initial guess; "rest": the last state stays at zero;
    # "plain": tuples, whose last entry is a plain number
    def owner(self, p):
        return 0 if self.c["calls"] == "shared" else p

    def ending(self, out, number):
        return tuple(out[:-1]) + (number,) if self.c["calls"] == "plain" else out

    def factor(self, p, x, t):
        if self.c["calls"] != "vanish":
            return 1.0
        s0 = (x[0] - self.x00[p, 0]) + 0.3 * (t - self.t00[p, 0])
        return s0 * ((x[0] - self.xf0[p, 0]) + 0.7 * (t - self.tf0[p, 0]))

    def factor_ends(self, p, xf, tf, x0):
        if self.c["calls"] != "vanish":
            return 1.0
        return (xf[0] - self.xf0[p, 0]) + 0.7 * (tf - self.tf0[p, 0]) + 0.2 * (x0[0] - self.x00[p, 0])

    def dyn(self, p, x, u, t, a):
        p, out = self.owner(p), []
        f = self.factor(p, x, t)
        for i in range(self.nx):
            e = k("d0", p, i) + k("d1", p, i) * x[0] * x[self.nx - 1] + k("d2", p, i) * x[i] * t + k("d3", p, i) * t * t
            for j in range(self.nu):
                e = e + k("du", p, i, j) * u[j] * (1 + 0.3 * x[i])
            for m in range(self.na):
                e = e + k("da", p, i, m) * a[m] * (1 + 0.2 * x[0])
            if self.c["calls"] == "rest" and i == self.nx - 1:
                e = 0.0 * x[i]
            out.append(e * f)
        return self.ending(out, p + 2)

    def path(self, p, x, u, t, a):
        p, out = self.owner(p), []
        f = self.factor(p, x, t)
        for q in range(self.n_path):
            e = k("p0", p, q) + k("p1", p, q) * x[0] * x[0] + k("p2", p, q) * x[self.nx - 1] * t + k("p3", p, q) * t
            for j in range(self.nu):
                e = e + k("pu", p, q, j) * u[j] * (1 + x[0])
            for m in range(self.na):
                e = e + k("pa", p, q, m) * a[m]
            out.append(e * f)
        return self.ending(out, -1)

    def term(self, p, xf, tf, x0, t0, a):
        p, out = self.owner(p), []
        f = self.factor_ends(p, xf, tf, x0)
        for q in range(self.n_term):
            e = k("t0", p, q) + k("t1", p, q) * xf[0] * x0[self.nx - 1] + k("t2", p, q) * tf * tf + k("t3", p, q) * t0 * xf[self.nx - 1] + k("t4", p, q) * x0[0]
            for m in range(self.na):
                e = e + k("ta", p, q, m) * a[m]
            out.append(e * f)
        return self.ending(out, 0.5)

    def run_cost(self, p, x, u, t, a):
        p = self.owner(p)
        if self.c["cost"] == "const":
            return 1.0 + 0.5 * p
        if self.c["calls"] == "plain":
            return 2 - p
        e = k("r0", p) + k("r1", p) * x[0] * x[self.nx - 1] + k("r2", p) * t * t + k("r3", p) * t * x[0]
        for j in range(self.nu):
            e = e + k("ru", p, j) * u[j] * u[j]
        for m in range(self.na):
            e = e + k("ra", p, m) * a[m] * x[0]
        return e * self.factor(p, x, t)

    def mayer(self, p, xf, tf, x0, t0, a):
        p = self.owner(p)
        if self.c["calls"] == "plain":
            return 3 + p
        e = k("m0", p) + k("m1", p) * xf[0] * tf + k("m2", p) * x0[self.nx - 1] * t0 + k("m3", p) * tf * tf + k("m4", p) * xf[self.nx - 1] + k("m5", p) * x0[0]
        for m in range(self.na):
            e = e + k("ma", p, m) * a[m] * a[m]
        return e * self.factor_ends(p, xf, tf, x0)

    # ---- the real problem object ----
    def ocp(self, mp=None):
        mp = mp or seam.mp
        o = mp.OCP(n_states=self.nx, n_controls=self.nu, n_phases=self.nph, n_params=self.na)
        made = {}

        def wrap(f, p):
            key = (f.__name__, self.owner(p))
            if key not in made:
                made[key] = (lambda *z: f(p, *z)) if self.na else (lambda *z: f(p, *z, None))
            return made[key]

        for p in range(self.nph):
            o.dynamics[p] = wrap(self.dyn, p)
            if self.has_path[p]:
                o.path_constraints[p] = wrap(self.path, p)
            if self.has_term[p]:
                o.terminal_constraints[p] = wrap(self.term, p)
            if self.has_cost[p]:
                o.running_costs[p] = wrap(self.run_cost, p)
            if self.has_mayer[p]:
                o.terminal_costs[p] = wrap(self.mayer, p)
        lists = self.c["scale"] == "lists"
        if self.c["scale"] != "none":
            o.scale_x = list(self.scale_x) if lists else self.scale_x.copy()
            if self.nu:
                o.scale_u = list(self.scale_u) if lists else self.scale_u.copy()
            if self.na:
                o.scale_a = list(self.scale_a) if lists else self.scale_a.copy()
            o.scale_t = self.scale_t
        o.phase_links = list(self.links)
        for n in ("x00", "xf0", "u00", "uf0", "t00", "tf0", "a0", "lbx", "ubx", "lbu", "ubu", "lba", "uba", "lbt0", "ubt0", "lbtf", "ubtf", "lbe", "ube"):
            if np.size(getattr(self, n)):
                if getattr(self, n).dtype == int:
                    setattr(o, n, getattr(self, n).copy())
                else:
                    getattr(o, n)[...] = getattr(self, n)
        for p in range(self.nph):
            o.diff_u[p], o.midu[p], o.du_continuity[p] = self.diff_u[p], self.midu[p], self.du_cont[p]
            o.lbdu[p], o.ubdu[p] = self.lbdu[p], self.ubdu[p]
        return o

    def mesh(self):
        return ref.Mesh(self.c["orders"], self.c["scheme"], float(self.c["tau"]), 1.0)

    def widths(self, variant=None):
        """Segment width fractions per phase."""
        n = len(self.c["orders"])
        out = []
        for p in range(self.nph):
            w = np.ones(n)
            v = variant or self.c["widths"]
            if v == "uneq":
                w = np.array([1.0 + 0.6 * i + 0.35 * p * (i % 2) for i in range(n)])
            elif v == "single" and p == self.nph - 1:  # only the last phase is refined
                w = np.array([1.0 + 0.9 * i for i in range(n)])
            elif v == "rev":
                w = np.array([2.0 - 1.0 * i / n + 0.2 * p for i in range(n)])
            out.append(w / w.sum())
        return out

    @property
    def adaptive(self):
        return self.c["cls"] == "mpopt_adaptive"

    def layout(self):
        nseg = len(self.c["orders"])
        return ref.Layout(self.nph, sum(self.c["orders"]) + 1, self.nx, self.nu, self.na, nseg if self.adaptive else 0)

    def optimizer(self, mp=None):
        mp = mp or seam.mp
        mp.Collocation.D_MATRIX_METHOD = self.c["method"]
        mp.CollocationRoots._TAU_MIN = self.c["tau"]
        orders = list(self.c["orders"])
        opt = getattr(mp, self.c["cls"])(self.ocp(mp), len(orders), orders, self.c["scheme"])
        if self.adaptive and self.c.get("sw", "shipped") != "shipped":
            for p in range(self.nph):
                lo, hi, tol = self.width_settings(p)
                opt.lbh[p], opt.ubh[p] = lo, hi
                if tol is None:
                    opt.mid_residuals = False
                else:
                    opt.tol_residual[p] = tol
        return opt

    def scaled_bounds(self):
        """Reference bounds on the decision vector, phase by phase."""
        N = sum(self.c["orders"]) + 1
        lo, hi = [], []
        for p in range(self.nph):
            for dst, bx, bu, bt0, btf, ba, bh in (
                (lo, self.lbx, self.lbu, self.lbt0, self.lbtf, self.lba, 0),
                (hi, self.ubx, self.ubu, self.ubt0, self.ubtf, self.uba, 1),
            ):
                X = np.tile(bx[p] * self.scale_x, (N, 1))
                if p == 0:
                    X[0] = self.x00[0] * self.scale_x
                U = np.tile(bu[p] * self.scale_u, (N, 1))
                dst.append((X, U, bt0[p, 0] * self.scale_t, btf[p, 0] * self.scale_t, ba[p] * self.scale_a, []))
        lay = ref.Layout(self.nph, N, self.nx, self.nu, self.na, 0)
        return lay.join(lo), lay.join(hi)

    # ---- reference transcription ----
    def reference(self, z, widths, mesh=None):
        """(objective, {group: [(lb, ub, value, *factors), ...]}) at decision vector z;
        factors are positive quantities the row may be multiplied or divided by."""
        mesh = mesh or self.mesh()
        lay = self.layout()
        J, G = 0.0, {n: [] for n in ("dyn", "path", "term", "diffu", "midu", "ducont", "link", "adaptive")}
        parts = []
        for p in range(self.nph):
            Xs, Us, t0s, tfs, As, hs = lay.split(z, p)
            w = hs if self.adaptive else widths[p]
            X, U, a = Xs / self.scale_x, Us / self.scale_u, As / self.scale_a
            t0, tf = t0s / self.scale_t, tfs / self.scale_t
            parts.append((Xs, Us, t0s, tfs))
            t = mesh.times(t0, tf, w)
            half = mesh.half(t0, tf, w)
            av = a if self.na else None
            F = np.array([self.dyn(p, X[i], U[i], t[i], av) for i in range(mesh.N)], dtype=float).reshape(mesh.N, self.nx)
            DX = mesh.deriv(X)
            for i in range(mesh.N):
                for q in range(self.nx):
                    G["dyn"].append((0.0, 0.0, self.scale_x[q] * (DX[i, q] - half[mesh.owner[i]] * F[i, q]), tf - t0, half[mesh.owner[i]]))
            if self.has_path[p]:
                for i in range(mesh.N):
                    for v in self.path(p, X[i], U[i], t[i], av):
                        G["path"].append((-INF, 0.0, v))
            if self.has_term[p]:
                for v in self.term(p, X[-1], tf, X[0], t0, av):
                    G["term"].append((0.0, 0.0, v))
            if self.has_mayer[p]:
                J += self.mayer(p, X[-1], tf, X[0], t0, av)
            if self.has_cost[p]:
                Lv = np.array([self.run_cost(p, X[i], U[i], t[i], av) for i in range(mesh.N)], dtype=float)
                for s in range(mesh.nseg):
                    wq = ref.quad(mesh.x[mesh.orders[s]], mesh.tau0, mesh.tau1)
                    J += half[s] * wq @ Lv[mesh.slice(s)]
            if self.nu:
                if self.diff_u[p]:
                    DU = mesh.deriv(U)
                    for i in range(mesh.N):
                        for q in range(self.nu):
                            G["diffu"].append((self.lbdu[p], self.ubdu[p], DU[i, q] / half[mesh.owner[i]], tf - t0, half[mesh.owner[i]]))
                if self.midu[p] and not self.adaptive:
                    UM = mesh.value(U, mesh.mid_taus())
                    for row in UM:
                        for q in range(self.nu):
                            G["midu"].append((self.lbu[p, q], self.ubu[p, q], row[q]))
                if self.du_cont[p]:
                    ends = mesh.deriv(U, [[mesh.tau0, mesh.tau1]] * mesh.nseg)
                    for s in range(mesh.nseg - 1):
                        for q in range(self.nu):
                            G["ducont"].append((0.0, 0.0, ends[2 * s + 1, q] / half[s] - ends[2 * s + 2, q] / half[s + 1], half[s], half[s + 1], tf - t0))
            if self.adaptive:
                G["adaptive"] += self._adaptive_rows(p, mesh, X, U, a, t0, tf, w)
        for n, (i, j) in enumerate(self.links):
            for q in range(self.nx):
                G["link"].append((self.lbe[n, q], self.ube[n, q], (parts[j][0][0, q] - parts[i][0][-1, q]) / self.scale_x[q]))
            for q in range(self.nu):
                G["link"].append((0.0, 0.0, parts[j][1][0, q] - parts[i][1][-1, q]))
            G["link"].append((0.0, 0.0, parts[j][2] - parts[i][3]))
        return J, G

    # segment-width optimizer: settings the user makes on the optimizer object
    WIDTH_SETTINGS = ["shipped", "bounds", "tolerance", "no residuals", "all"]

    def width_settings(self, p):
        """(smallest width, largest width, residual tolerance or None) of phase p"""
        v = self.c.get("sw", "shipped")
        lo, hi, tol = 1e-4, 1.0, 1e-3
        if v in ("bounds", "all"):
            lo, hi = 0.01 + 0.02 * p, 0.9 - 0.1 * p
        if v in ("tolerance", "all"):
            tol = 0.02 * (p + 1)
        return lo, hi, None if v == "no residuals" else tol

    def _adaptive_rows(self, p, mesh, X, U, a, t0, tf, w):
        rows = [(0.0, 0.0, np.sum(w) - 1.0)]
        tol = self.width_settings(p)[2]
        mid = mesh.mid_taus()
        XM, UM, DM = mesh.value(X, mid), mesh.value(U, mid), mesh.deriv(X, mid)
        t = mesh.times_at(t0, tf, w, mid)
        half = mesh.half(t0, tf, w)
        owner = [s for s in range(mesh.nseg) for _ in mid[s]]
        for n in range(len(owner)):
            for q in range(self.nu):
                rows.append((self.lbu[p, q], self.ubu[p, q], UM[n, q]))
            for q in range(self.nx):
                rows.append((self.lbx[p, q], self.ubx[p, q], XM[n, q]))
            f = self.dyn(p, XM[n], UM[n], t[n], a if self.na else None)
            for q in range(self.nx):
                res = w[owner[n]] * self.scale_x[q] * (DM[n, q] - half[owner[n]] * f[q])
                if tol is not None:
                    rows.append((-tol, tol, res))
        return rows


class Captured:
    pass


def capture(spec, nprobe=5, solve_kw=None):
    """Transcribe with the real code, recording the problem at the solver boundary."""
    with seam.solver_stub() as log:
        opt = spec.optimizer()
        kw = dict(solve_kw or {})
        if not spec.adaptive and spec.c["widths"] != "equal" and spec.c["cls"] != "mpopt_h_adaptive":
            kw["mpopt_options"] = {"nlp_sw_params": list(np.concatenate(spec.widths()))}
        sol = opt.solve(**kw)
    return opt, log, sol


def probes(spec, n):
    """Decision vectors of the fixed probe alphabet; final time after start time,
    widths positive with a sum different from one."""
    lay = spec.layout()
    out = []
    for i in range(n):
        z = probe(lay.total, i)
        for p in range(spec.nph):
            b = p * lay.per + lay.N * (lay.nx + lay.nu)
            z[b] = 0.3 + 0.4 * i + 0.21 * p - (1.9 if (i + p) % 3 == 1 else 0)  # also before zero
            z[b + 1] = z[b] + 0.9 + 0.37 * ((i + p) % 3)
            m = b + 2 + lay.na
            for s in range(lay.nseg):
                z[m + s] = 0.2 + 0.11 * ((s + i + p) % 4)
        out.append(z)
    return out


def compare_transcription(spec, run, groups=None, objective=False, nprobe=5, tol=None):
    """Drive the real transcription and compare rows of `groups` with the
    reference; unexplained extra rows are reported when nothing else differs."""
    import numpy as np

    tol = tol or (1e-7 if spec.c["method"] == "numerical" else 1e-6)
    opt, log, sol = capture(spec)
    run.transitions += 2
    if not run.check(len(log) == 1, "one solver object is created", n=len(log)):
        return None
    cap = log[-1]
    call = cap.calls[0]
    lay = spec.layout()
    if not run.check(cap.nx == lay.total, "decision vector has %d unknowns, expected %d" % (cap.nx, lay.total)):
        return cap
    widths = spec.widths()
    zs = probes(spec, nprobe)
    mesh = spec.mesh()
    pv = np.zeros(0) if spec.adaptive else np.concatenate(widths)
    refs = [spec.reference(z, widths, mesh) for z in zs]
    vals = [cap.eval(z, pv) for z in zs]
    run.transitions += len(zs)
    run.states += len(zs)
    if objective:
        for (J, _), (f, _), i in zip(refs, vals, range(len(zs))):
            ok = abs(J - f) <= (2e-5 if spec.c["method"] == "symbolic" else 1e-8) * max(1.0, abs(J))
            run.check(ok, "objective", probe=i, expected=J, observed=f)
    if groups is not None:
        lbg, ubg = call["lbg"], call["ubg"]
        g = np.array([v[1] for v in vals])
        rows = [r for i in range(cap.ng) for r in ref.canon(lbg[i], ubg[i], g[:, i])]
        m = ref.Matcher(rows, tol * 10)
        missing_other = 0
        for name in refs[0][1]:
            n = len(refs[0][1][name])
            for i in range(n):
                lb, ub = refs[0][1][name][i][:2]
                v = [r[1][name][i][2] for r in refs]
                nf = len(refs[0][1][name][i]) - 3
                facs = [np.array([r[1][name][i][3 + j] for r in refs]) for j in range(nf)]
                facs = [f for f in facs if (f > 0).all() and np.ptp(f) > 1e-12]
                for kind, w in ref.canon(lb, ub, v):
                    ok = m.take(kind, w) or any(m.take(kind, ref.unit(kind, w * g)) for f in facs for g in (f, 1 / f))
                    if name in groups:
                        run.check(ok, "missing %s constraint" % name, index=i, lb=lb, ub=ub, values=v)
                    elif not ok:
                        missing_other += 1
        if not run.failures and not missing_other:
            run.check(m.leftover() == 0, "constraints nobody asked for", count=m.leftover())
    run.outcome = "%d rows, cost %.6g" % (cap.ng, vals[0][0])
    return cap


def solved(spec, i=0):
    """Solve through the stub, which answers with probe i (segment widths of the
    width optimizer normalised to one). Returns optimizer, solution, decision
    vector and the widths the solver saw, phase by phase."""
    lay = spec.layout()
    z = probes(spec, i + 1)[i]
    want = spec.widths()
    for p in range(spec.nph):
        if lay.nseg:
            z[(p + 1) * lay.per - lay.nseg : (p + 1) * lay.per] = want[p]
    if spec.c["calls"] == "rest":
        parts = [list(lay.split(z, p)) for p in range(spec.nph)]
        for part in parts:
            part[0] = part[0] * (np.arange(spec.nx) < spec.nx - 1)
        z = lay.join(parts)
    with seam.solver_stub(lambda cap, rec, n: {"x": z}) as log:
        opt = spec.optimizer()
        kw = {}
        if spec.c["cls"] == "mpopt_h_adaptive":
            kw = {"max_iter": 1}
        elif not spec.adaptive and spec.c["widths"] != "equal":
            kw["mpopt_options"] = {"nlp_sw_params": list(np.concatenate(want))}
        sol = opt.solve(**kw)
    if not spec.adaptive:
        pv = log[-1].calls[-1]["p"]
        want = [pv[p * len(spec.c["orders"]) : (p + 1) * len(spec.c["orders"])] for p in range(spec.nph)]
    return opt, sol, z, want


def phase_data(spec, z, widths, p):
    """Unscaled nodal data of a phase: X, U, t, a, t0, tf."""
    lay, mesh = spec.layout(), spec.mesh()
    X, U, t0, tf, a, _ = lay.split(z, p)
    t0, tf = t0 / spec.scale_t, tf / spec.scale_t
    return X / spec.scale_x, U / spec.scale_u, mesh.times(t0, tf, widths[p]), a / spec.scale_a, t0, tf


def phase_lists(nph):
    import itertools

    for n in range(1, nph + 1):
        for p in itertools.permutations(range(nph), n):
            yield list(p)
    if nph > 1:
        yield [0, 0]


def tau_patterns(spec, name, mesh, p=0):
    """Evaluation nodes per segment for a named pattern (may leave segments empty);
    other points in every segment and in every phase."""
    r = mesh.tau1 - mesh.tau0
    lists = {
        "uniform": [np.linspace(0.04, 0.97, 9)],
        "uneven": [np.array([0.1, 0.55, 0.8]), np.array([0.5]), np.array([0.2, 1.0])],
        "gaps": [np.array([]), np.array([0.3, 0.9])],
        "single": [np.array([0.5])],
        "unsorted": [np.array([0.8, 0.15, 0.55]), np.array([0.9, 0.3])],
    }[name]
    return [mesh.tau0 + r * (lists[(s + p) % len(lists)] * (1 - 0.011 * ((s + 2 * p) % 4))) for s in range(mesh.nseg)]
