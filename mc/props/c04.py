import numpy as np

from .. import coll, ref

BOUNDS = {
    "quick": "same meshes, schemes, methods and entry points as C02 x whole segment and three sub-intervals",
    "thorough": "same meshes as the thorough tier of C02 x whole segment and three sub-intervals",
}
ORACLE = "Gauss-Legendre integration of the barycentric interpolant, exact for the degree"
PARTS = [None, (0.0, 0.5), (0.25, 1.0), (0.3, 0.3)]


def space(tier):
    return coll.matrix_space(tier, [{}])


def check(c, run):
    col, arg = coll.make(c)
    m = coll.mesh(c)
    lim = 5e-5 if c["method"] == "symbolic" else coll.tol(c)
    r = m.tau1 - m.tau0
    for part in PARTS:
        if part is None:
            a, b, kw = m.tau0, m.tau1, {}
        else:
            a, b = m.tau0 + r * part[0], m.tau0 + r * part[1]
            kw = dict(tau0=a, tau1=b)
        exp = np.zeros(m.N)
        for s, d in enumerate(m.orders):
            exp[m.slice(s)] += ref.quad(m.x[d], a, b)
        if part is not None and part[0] == 0.0:  # limits not given are those of the segment
            kw.pop("tau0")
        if part is not None and part[1] == 1.0:
            kw.pop("tau1")
        obs = coll.dense(col.get_composite_quadrature_weights(arg, **kw)).ravel()
        run.transitions += 1
        run.states += 1
        if run.check(obs.shape == exp.shape, "quadrature weights: %d for %d nodes" % (obs.size, m.N)):
            run.check(np.abs(obs - exp).max() <= lim, "composite quadrature weights over %s" % (part or "the segment",), expected=exp, observed=obs)
        per = col.get_quad_weight_matrices(arg, **kw)
        for d in set(m.orders):
            w = coll.dense(per[d]).ravel()
            e = ref.quad(m.x[d], a, b)
            run.check(w.shape == e.shape and np.abs(w - e).max() <= lim, "quadrature weights of degree %d over %s" % (d, part or "the segment"), expected=e, observed=w)
    for part in PARTS[1:3]:  # one degree, one limit given
        a, b = m.tau0 + r * part[0], m.tau0 + r * part[1]
        d = m.orders[0]
        obs = coll.dense(col.get_quadrature_weights(d, **({"tau1": b} if part[0] == 0.0 else {"tau0": a}))).ravel()
        exp = ref.quad(m.x[d], a, b)
        run.transitions += 1
        run.check(obs.shape == exp.shape and np.abs(obs - exp).max() <= lim, "quadrature weights with one limit given", expected=exp, observed=obs)
    custom = coll.custom_nodes(c)
    col.init_polynomials_with_customized_roots({"grid": custom})
    a, b = m.tau0, m.tau0 + 0.8 * r
    obs = coll.dense(col.get_quadrature_weights("grid", a, b)).ravel()
    exp = ref.quad(custom, a, b)
    run.check(obs.shape == exp.shape and np.abs(obs - exp).max() <= lim, "quadrature weights of user-given nodes", expected=exp, observed=obs)
    run.outcome = "%d %.8g" % (m.N, np.abs(exp).sum())
