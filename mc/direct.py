"""A problem whose residuals the explorer chooses: the states follow the controls
(dx/dt = u), so an answer with zero states has exactly the residual the control
values spell out, segment by segment."""
import itertools

import numpy as np

from . import build, ref, resid

LEVELS = {"0": 0.0, "l": 0.004, "h": 0.06, "H": 0.5}


class Direct(build.Spec):
    def dyn(self, p, x, u, t, a):
        return [u[0] + 0.0 * x[0], 0.5 * u[1] + 0.0 * x[1]]


def spec(orders, nph=2, cls="mpopt_h_adaptive", **kw):
    return Direct(build.default(cls=cls, nph=nph, nx=2, nu=2, na=0, orders=list(orders), cost="const", mayer="last", midu="off", bounds="none", **kw))


def levels(word, p):
    """Phase p sees the word rotated by p letters."""
    p %= len(word)
    return word[p:] + word[:p]


def vector(s, words, widths):
    """Decision vector whose residual level in segment i of phase p is words[p][i]."""
    mesh, lay = s.mesh(), s.layout()
    parts = []
    for p in range(s.nph):
        t0, tf = 0.5 * p, 0.5 * p + 2.0
        half = mesh.half(t0, tf, widths[p])
        U = np.zeros((mesh.N, 2))
        for i, ch in enumerate(words[p]):
            sl = mesh.slice(i)
            n = mesh.orders[i] + 1
            bump = np.zeros((n, 2))
            j = np.arange(1, n - 1)
            bump[1:-1, 0] = 1.0 + 0.13 * i + 0.21 * (j % 2) + 0.053 * j + 0.017 * p
            bump[1:-1, 1] = 0.4 + 0.07 * i - 0.11 * (j % 2) + 0.031 * j
            U[sl] += bump * LEVELS[ch] / half[i]
        parts.append((np.zeros((mesh.N, 2)), U * s.scale_u, t0 * s.scale_t, tf * s.scale_t, [], widths[p] if lay.nseg else []))
    return lay.join(parts)


def residuals(s, z, widths, p, npts=15, grid="fixed"):
    mesh = s.mesh()
    taus = resid.points(s, mesh, widths, p, grid, npts)
    return [np.abs(r) for _, r, _ in resid.dynamics(s, z, widths, p, taus)]


def words(n, alphabet):
    return ["".join(w) for w in itertools.product(alphabet, repeat=n)]
