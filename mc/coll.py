"""Shared driver for the collocation layer: meshes, evaluation points and ways of
obtaining the same matrix through the public API."""
import itertools

import numpy as np

from . import ref, seam

SCHEMES = ["LGR", "LGL", "CGL", "LG", "other"]


def order_lists(maxdeg, maxlen):
    for n in range(1, maxlen + 1):
        for o in itertools.product(range(1, maxdeg + 1), repeat=n):
            yield list(o)


def tau_menu(name, n, tau0, tau1):
    """Evaluation points of segment n (of any mesh) for a named pattern."""
    r = tau1 - tau0
    pat = {
        "ends": [[0.0, 1.0]],
        "mid": [[0.5]],
        "mixed": [[0.1, 0.55, 0.8], [0.0], [0.25, 1.0]],
        "gaps": [[], [0.3, 0.9], [1.0]],
        "many": [np.linspace(0, 1, 7)],
        "shift": [[0.1, 0.6], [0.3, 0.85], [0.2, 0.45]],
        "outer": [[0.0, 0.37, 1.0, 0.62]],
        "repeat": [[0.2, 0.2, 0.7, 1.0, 1.0], [0.6, 0.3, 0.6]],
        "beyond": [[-0.02, 0.4, 1.03]],
    }[name]
    return np.array([tau0 + r * t for t in pat[n % len(pat)]])


def near_nodes(m, s):
    """Points next to the nodes of segment s, from 1e-2 down to 1e-7 away."""
    x, r = m.x[m.orders[s]], m.tau1 - m.tau0
    out = [v + r * d for v in x[:-1] for d in (1e-2, 1e-4, 1e-7)] + [v - r * d for v in x[1:] for d in (1e-3, 1e-5, 1e-6)]
    return np.array(out[s % 2 :])


def make(c):
    """(collocation object, argument to pass as poly_orders) for the named entry."""
    mp = seam.mp
    mp.Collocation.D_MATRIX_METHOD = c["method"]
    mp.CollocationRoots._TAU_MIN = c["tau"]
    mp.CollocationRoots._TAU_MAX = c.get("tau1", 1)
    o = list(c["orders"])
    if c["entry"] == "own":
        return mp.Collocation(o, c["scheme"]), None
    if c["entry"] == "explicit":
        return mp.Collocation(o, c["scheme"]), list(o)
    if c["entry"] == "lazy":
        return mp.Collocation([], c["scheme"]), list(o)
    if c["entry"] == "other":
        return mp.Collocation([d + 1 for d in o] + [1], c["scheme"]), list(o)
    if c["entry"] == "used":  # the object has served other requests before
        col = mp.Collocation(o, c["scheme"])
        col.get_composite_differentiation_matrix([d + 1 for d in o], order=2)
        col.get_composite_interpolation_matrix([[0.2]] * len(o))
        col.get_composite_quadrature_weights([d + 1 for d in o])
        return col, None
    raise KeyError(c["entry"])


ENTRIES = ["own", "explicit", "lazy", "other", "used"]


def mesh(c):
    return ref.Mesh(c["orders"], c["scheme"], float(c["tau"]), float(c.get("tau1", 1)))


def custom_nodes(c):
    """A grid of the user's own: unevenly spaced, inside the reference interval."""
    t = np.array([0.0, 0.2, 0.35, 0.9, 1.0])[: 2 + len(c["orders"]) % 4]
    return c["tau"] + (c.get("tau1", 1) - c["tau"]) * t


def dense(m):
    import casadi as ca

    return np.array(ca.DM(m).full())


def tol(c, order=0):
    d = max(c["orders"])
    # a few hundred times the rounding of the power basis / of the product form
    if c["method"] == "symbolic":
        return (1e-11 + 3e-17 * 4.0**d) * (d * d + 1) ** order
    return (1e-12 + 2e-15 * 7.0**d) * 10**order


def matrix_space(tier, extra, keep=None):
    """Meshes x schemes x evaluation methods x entry points, simplest first."""
    big = tier == "thorough"
    meshes = list(order_lists(3 if big else 2, 4 if big else 3)) + [[d] for d in (*range(3, 11), 12, 15)]
    meshes += [[5, 1], [1, 5], [4, 2, 4], [3, 1, 1, 2], [6, 3], [2, 7, 3]]
    if big:
        meshes += [[a, b] for a in range(1, 8) for b in range(1, 8)]
    seen = set()
    for o in meshes:
        if tuple(o) in seen:
            continue
        seen.add(tuple(o))
        for scheme in SCHEMES:
            for method in ("numerical", "symbolic"):
                for tau, tau1 in ((-1, 1), (0, 1)) + (((-0.5, 2),) if big else ()):
                    for entry in ENTRIES:
                        for e in extra:
                            c = dict(orders=o, scheme=scheme, method=method, tau=tau, tau1=tau1, entry=entry, **e)
                            if keep is None or keep(c):
                                yield c
