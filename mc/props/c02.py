import numpy as np

from .. import coll, ref

BOUNDS = {
    "quick": "meshes of <=3 segments with degrees <=2, single segments up to degree 10, of degrees 12 and 15, and six mixed meshes x 5 schemes x both evaluation methods x 2 reference intervals x 5 ways to obtain the matrix x orders 1,2 x 9 evaluation patterns",
    "thorough": "adds <=4 segments with degrees <=3, all two-segment meshes with degrees <=7, a third reference interval",
}
ORACLE = "barycentric differentiation applied to the nodal basis"
TAUS = ["nodes", "ends", "mixed", "gaps", "many", "shift", "near", "repeat", "beyond"]


def space(tier):
    return coll.matrix_space(tier, [dict(order=1), dict(order=2)])


def check(c, run):
    col, arg = coll.make(c)
    m = coll.mesh(c)
    Y = np.eye(m.N)
    for t in TAUS:
        if t == "nodes":
            obs = coll.dense(col.get_composite_differentiation_matrix(arg, order=c["order"]))
            exp = m.deriv(Y, order=c["order"])
        else:
            taus = [coll.near_nodes(m, s) if t == "near" else coll.tau_menu(t, s, m.tau0, m.tau1) for s in range(m.nseg)]
            obs = coll.dense(col.get_composite_interpolation_Dmatrix_at(taus, arg, order=c["order"]))
            exp = m.deriv(Y, taus, order=c["order"])
        run.transitions += 1
        run.states += 1
        if run.check(obs.shape == exp.shape, "differentiation matrix at %s has shape %s" % (t, obs.shape)):
            err = np.abs(obs - exp).max() if exp.size else 0
            lim = coll.tol(c, c["order"])
            run.check(err <= lim, "differentiation matrix of order %d at %s" % (c["order"], t), error=err, allowed=lim, where=np.argwhere(np.abs(obs - exp) > lim)[:4])
    D = coll.dense(col.get_composite_differentiation_matrix(arg))
    run.check(D.shape == (m.N, m.N) and np.abs(D - m.deriv(Y)).max() <= coll.tol(c, 1), "first-order differentiation matrix")
    custom = coll.custom_nodes(c)
    col.init_polynomials_with_customized_roots({"grid": custom})
    obs = coll.dense(col.get_diff_matrix("grid", order=c["order"]))
    exp = np.linalg.matrix_power(ref.dmat(custom), c["order"])
    run.check(obs.shape == exp.shape and np.abs(obs - exp).max() <= coll.tol(c, c["order"]), "differentiation matrix of user-given nodes")
    run.outcome = "%d %.8g" % (m.N, np.abs(exp).sum())
