import numpy as np

from .. import coll, ref

BOUNDS = {
    "quick": "same meshes, schemes, methods and entry points as C02 x 10 evaluation patterns (nodes, next to nodes, ends, empty segments, uneven counts, repeated points, points outside of the segment)",
    "thorough": "same meshes as the thorough tier of C02 x 10 evaluation patterns",
}
ORACLE = "barycentric interpolation of the nodal basis"
TAUS = ["nodes", "ends", "mixed", "gaps", "many", "outer", "shift", "near", "repeat", "beyond"]


def space(tier):
    return coll.matrix_space(tier, [{}])


def check(c, run):
    col, arg = coll.make(c)
    m = coll.mesh(c)
    Y = np.eye(m.N)
    for t in TAUS:
        if t == "nodes":
            taus = [m.x[d] for d in m.orders]
        elif t == "near":
            taus = [coll.near_nodes(m, s) for s in range(m.nseg)]
        else:
            taus = [coll.tau_menu(t, s, m.tau0, m.tau1) for s in range(m.nseg)]
        obs = coll.dense(col.get_composite_interpolation_matrix(taus, arg))
        exp = m.value(Y, taus)
        run.transitions += 1
        run.states += 1
        if run.check(obs.shape == exp.shape, "interpolation matrix at %s has shape %s" % (t, obs.shape)):
            lim = coll.tol(c)
            if exp.size == 0:
                continue
            run.check(np.abs(obs - exp).max() <= lim, "interpolation matrix at %s" % t, error=np.abs(obs - exp).max(), allowed=lim)
            run.check(np.abs(obs.sum(axis=1) - 1).max() <= lim, "interpolating a constant at %s" % t)
    custom = coll.custom_nodes(c)
    col.init_polynomials_with_customized_roots({"grid": custom})
    ts = np.linspace(m.tau0, m.tau1, 6)
    obs = coll.dense(col.get_interpolation_matrix(ts, "grid"))
    exp = np.array([ref.interp(custom, t) for t in ts])
    run.check(obs.shape == exp.shape and np.abs(obs - exp).max() <= coll.tol(c), "interpolation matrix of user-given nodes")
    run.outcome = "%d %.8g" % (m.N, np.abs(exp).sum())
