"""Reference model: collocation quantities and the transcription of an optimal
control problem, written from the definitions with plain numpy and independent
of the implementation (no symbolic algebra, barycentric formulas)."""
import functools

import numpy as np
from numpy.polynomial import legendre as L


# --------------------------------------------------------------- collocation
def _polish(c, r):
    d = L.legder(c)
    for _ in range(4):
        r = r - L.legval(r, c) / L.legval(r, d)
    return np.sort(r)


@functools.lru_cache(None)
def _nodes11(scheme, deg):
    """deg + 1 increasing nodes on [-1, 1], both ends included."""
    e = np.eye(deg + 2)
    if deg == 1:
        return np.array([-1.0, 1.0])
    if scheme == "LGR":  # flipped Radau: roots of P_{deg-1} - P_deg, which include +1
        r = _polish(e[deg - 1] - e[deg], L.legroots((e[deg - 1] - e[deg])[: deg + 1]).real)
        return np.concatenate([[-1.0], r[:-1], [1.0]])
    if scheme == "LGL":  # extrema of P_deg
        c = L.legder(e[deg])
        return np.concatenate([[-1.0], _polish(c, L.legroots(c[:deg]).real), [1.0]])
    if scheme == "LG":
        c = e[deg - 1]
        return np.concatenate([[-1.0], _polish(c, L.legroots(c[:deg]).real), [1.0]])
    if scheme == "CGL":
        return -np.cos(np.pi * np.arange(deg + 1) / deg)
    return np.linspace(-1, 1, deg + 1)


def nodes(scheme, deg, tau0=-1.0, tau1=1.0):
    return tau0 + (tau1 - tau0) * (_nodes11(scheme, deg) + 1) / 2


_BARY = {}


def bary(x):
    key = np.asarray(x, float).tobytes()
    if key not in _BARY:
        _BARY[key] = _bary(x)
    return _BARY[key]


def _bary(x):
    w = np.array([1.0 / np.prod([(a - b) for k, b in enumerate(x) if k != j]) for j, a in enumerate(x)])
    return w / np.abs(w).max()


def interp(x, t):
    """Row of Lagrange basis values at t for nodes x."""
    x = np.asarray(x, float)
    d = t - x
    hit = np.where(np.abs(d) < 1e-15)[0]
    if len(hit):
        r = np.zeros(len(x))
        r[hit[0]] = 1
        return r
    w = bary(x) / d
    return w / w.sum()


def dmat(x):
    x = np.asarray(x, float)
    w = bary(x)
    n = len(x)
    D = np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            if i != j:
                D[i, j] = w[j] / w[i] / (x[i] - x[j])
        D[i, i] = -D[i].sum()
    return D


def interpd(x, t, order=1):
    """Row of derivatives of the Lagrange basis at t."""
    D = np.linalg.matrix_power(dmat(x), order)
    return interp(x, t) @ D


@functools.lru_cache(None)
def _gauss(n):
    return L.leggauss(n)


def quad(x, a, b):
    """Weights integrating the interpolant through nodes x over [a, b]."""
    g, w = _gauss(len(x) + 2)
    t = a + (b - a) * (g + 1) / 2
    return (b - a) / 2 * sum(wi * interp(x, ti) for wi, ti in zip(w, t))


# ------------------------------------------------------------------- problem
class Layout:
    """Where each unknown of a phase sits in the solver's decision vector."""

    def __init__(self, nph, N, nx, nu, na, nseg=0):
        self.nph, self.N, self.nx, self.nu, self.na, self.nseg = nph, N, nx, nu, na, nseg
        self.per = N * (nx + nu) + 2 + na + nseg
        self.total = self.per * nph

    def split(self, z, ph):
        """(X[N,nx], U[N,nu], t0, tf, a[na], widths[nseg]) of phase ph, scaled."""
        z = np.asarray(z, float)[ph * self.per : (ph + 1) * self.per]
        k = self.N * self.nx
        m = k + self.N * self.nu
        X = z[:k].reshape(self.nx, self.N).T
        U = z[k:m].reshape(self.nu, self.N).T
        return X, U, z[m], z[m + 1], z[m + 2 : m + 2 + self.na], z[m + 2 + self.na :]

    def join(self, parts):
        out = []
        for X, U, t0, tf, a, h in parts:
            out += [np.asarray(X, float).T.ravel(), np.asarray(U, float).T.ravel(), [t0, tf], np.asarray(a, float).ravel(), np.asarray(h, float).ravel()]
        return np.concatenate(out)


class Mesh:
    def __init__(self, orders, scheme, tau0=-1.0, tau1=1.0):
        self.orders, self.scheme, self.tau0, self.tau1 = list(orders), scheme, tau0, tau1
        self.nseg = len(self.orders)
        self.N = sum(self.orders) + 1
        self.x = {d: nodes(scheme, d, tau0, tau1) for d in set(self.orders)}
        self.start = [sum(self.orders[:i]) for i in range(self.nseg)]
        self.owner = [0] + [s for s, d in enumerate(self.orders) for _ in range(d)]  # segment of a node's derivative

    def slice(self, s):
        return slice(self.start[s], self.start[s] + self.orders[s] + 1)

    def local(self, i):
        """local coordinate in [0,1] of node i within its owner segment."""
        s = self.owner[i]
        return (self.x[self.orders[s]][i - self.start[s]] - self.tau0) / (self.tau1 - self.tau0)

    def deriv(self, Y, taus=None, order=1):
        """d/dtau of the piecewise interpolant of nodal data Y at every node
        (taus None: owner segment) or at the given local taus per segment."""
        Y = np.asarray(Y, float)
        Y = Y.reshape(self.N, 1 if Y.ndim == 1 else Y.shape[1])
        rows = []
        if taus is None:
            for i in range(self.N):
                s = self.owner[i]
                x = self.x[self.orders[s]]
                rows.append(interpd(x, x[i - self.start[s]], order) @ Y[self.slice(s)])
        else:
            for s in range(self.nseg):
                for t in taus[s]:
                    rows.append(interpd(self.x[self.orders[s]], t, order) @ Y[self.slice(s)])
        return np.array(rows).reshape(len(rows), Y.shape[1])

    def value(self, Y, taus):
        Y = np.asarray(Y, float)
        Y = Y.reshape(self.N, 1 if Y.ndim == 1 else Y.shape[1])
        return np.array(
            [interp(self.x[self.orders[s]], t) @ Y[self.slice(s)] for s in range(self.nseg) for t in taus[s]]
        ).reshape(sum(len(t) for t in taus), Y.shape[1])

    def mid_taus(self):
        return [[(a + b) / 2 for a, b in zip(self.x[d][:-1], self.x[d][1:])] for d in self.orders]

    def times(self, t0, tf, widths):
        cum = np.concatenate([[0.0], np.cumsum(widths)])
        return np.array([t0 + (tf - t0) * (cum[self.owner[i]] + widths[self.owner[i]] * self.local(i)) for i in range(self.N)])

    def times_at(self, t0, tf, widths, taus):
        cum = np.concatenate([[0.0], np.cumsum(widths)])
        return np.array(
            [
                t0 + (tf - t0) * (cum[s] + widths[s] * (t - self.tau0) / (self.tau1 - self.tau0))
                for s in range(self.nseg)
                for t in taus[s]
            ]
        )

    def half(self, t0, tf, widths):
        """duration of each segment per unit of the local coordinate."""
        return (tf - t0) * np.asarray(widths, float) / (self.tau1 - self.tau0)


# ------------------------------------------------- canonical constraint rows
def canon(lb, ub, v, tol=1e-12):
    """Canonical forms of lb <= v <= ub over the probes: an equality up to any
    factor, an inequality up to a positive factor; vacuous rows disappear.
    Reformulations that keep the feasible set (order, sign, scale, bounds moved
    into the expression) have the same canonical form."""
    out = []
    v = np.asarray(v, float)
    if np.isfinite(lb) and lb == ub:
        w = v - lb
        m = np.abs(w).max() if w.size else 0
        if m > tol:
            w = w / w[int(np.abs(w).argmax())]
            out.append(("eq", w))
        return out
    if np.isfinite(ub):
        w = v - ub
        m = np.abs(w).max()
        if not (m <= tol):
            out.append(("le", w / m))
    if np.isfinite(lb):
        w = lb - v
        m = np.abs(w).max()
        if not (m <= tol):
            out.append(("le", w / m))
    return out


def unit(kind, w):
    return w / w[int(np.abs(w).argmax())] if kind == "eq" else w / np.abs(w).max()


class Matcher:
    """Set comparison of canonical rows with a numerical tolerance."""

    def __init__(self, rows, tol):
        self.tol = tol
        self.rows = {"eq": [], "le": []}
        for kind, w in rows:
            self.rows[kind].append(w)
        self.arr = {k: np.array(v) if v else np.zeros((0, 1)) for k, v in self.rows.items()}
        self.used = {k: np.zeros(len(v), bool) for k, v in self.rows.items()}

    def take(self, kind, w):
        a = self.arr[kind]
        if len(a) == 0:
            return False
        d = np.abs(a - w).max(axis=1)
        if kind == "eq":  # the pivot probe can differ when two probes tie
            d = np.minimum(d, np.abs(a / a[:, [int(np.abs(w).argmax())]] - w).max(axis=1))
        hit = d < self.tol
        self.used[kind] |= hit
        return bool(hit.any())

    def leftover(self):
        return sum(int((~u).sum()) for u in self.used.values())
