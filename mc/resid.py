"""Reference model of the residual diagnostics on an explicit set of points."""
import numpy as np

from . import build, ref


def dynamics(s, z, w, p, taus):
    """Per segment: (times, residual, scaled dynamics) at the given points."""
    mesh, lay = s.mesh(), s.layout()
    Xs, Us, t0, tf, a, _ = lay.split(z, p)
    t0, tf, a = t0 / s.scale_t, tf / s.scale_t, a / s.scale_a
    half = mesh.half(t0, tf, w[p])
    X, U, D = mesh.value(Xs, taus), mesh.value(Us, taus), mesh.deriv(Xs, taus)
    t = mesh.times_at(t0, tf, w[p], taus)
    out, k = [], 0
    for i in range(mesh.nseg):
        n = len(taus[i])
        F = np.array([s.dyn(p, X[j] / s.scale_x, U[j] / s.scale_u, t[j], a) for j in range(k, k + n)], float).reshape(n, s.nx)
        F = half[i] * F * s.scale_x
        out.append((t[k : k + n], D[k : k + n] - F, F))
        k += n
    return out


def states(s, z, w, p, taus, npts=40):
    """Per segment: (times, state minus state integrated from the segment start,
    integrated state, control); exact integration of the dynamics along the interpolants."""
    mesh, lay = s.mesh(), s.layout()
    Xs, Us, t0, tf, a, _ = lay.split(z, p)
    t0, tf, a = t0 / s.scale_t, tf / s.scale_t, a / s.scale_a
    half = mesh.half(t0, tf, w[p])
    g, wg = np.polynomial.legendre.leggauss(16)
    out = []
    cum = np.concatenate([[0.0], np.cumsum(w[p])])
    for i in range(mesh.nseg):
        x, sl = mesh.x[mesh.orders[i]], mesh.slice(i)
        T, XI, R, UU = [], [], [], []
        for tau in taus[i]:
            q = mesh.tau0 + (tau - mesh.tau0) * (g + 1) / 2
            acc = np.zeros(s.nx)
            for qq, ww in zip(q, wg):
                L = ref.interp(x, qq)
                t = t0 + (tf - t0) * (cum[i] + w[p][i] * (qq - mesh.tau0) / (mesh.tau1 - mesh.tau0))
                acc += ww * np.array(s.dyn(p, L @ Xs[sl] / s.scale_x, L @ Us[sl] / s.scale_u, t, a), float)
            xi = Xs[sl][0] + half[i] * acc * (tau - mesh.tau0) / 2 * s.scale_x
            L = ref.interp(x, tau)
            T.append(t0 + (tf - t0) * (cum[i] + w[p][i] * (tau - mesh.tau0) / (mesh.tau1 - mesh.tau0)))
            XI.append(xi)
            R.append(L @ Xs[sl] - xi)
            UU.append(L @ Us[sl])
        out.append((np.array(T), np.array(R).reshape(len(T), s.nx), np.array(XI).reshape(len(T), s.nx), np.array(UU).reshape(len(T), s.nu)))
    return out


def empty(v):
    return v is None or np.size(v) == 0


def same(obs, exp, tol):
    if np.size(exp) == 0:
        return empty(obs)
    if obs is None:
        return False
    o = np.asarray(obs, float)
    e = np.asarray(exp, float)
    if o.size != e.size:
        return False
    return np.abs(o.reshape(e.shape) - e).max() <= tol * max(1.0, np.abs(e).max())


def points(s, mesh, w, p, name, npts):
    """Explicit points of a named grid, independent of the implementation."""
    if name == "fixed":
        n = max(sum(mesh.orders), npts)
        pos = np.linspace(0, 1, n + 2)[1:-1]
        edges = np.concatenate([[0.0], np.cumsum(w[p])])
        edges[-1] = 1
        r = mesh.tau1 - mesh.tau0
        return [mesh.tau0 + r * (pos[(pos > edges[i]) & (pos <= edges[i + 1])] - edges[i]) / w[p][i] for i in range(mesh.nseg)]
    if name == "mid-points":
        return [np.array(v) for v in mesh.mid_taus()]
    if name == "spectral":
        return [ref.nodes(mesh.scheme, npts + 2, mesh.tau0, mesh.tau1)[1:-1]] * mesh.nseg
    return build.tau_patterns(s, name, mesh, p)
