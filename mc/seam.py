"""The environment boundary: the NLP solver.

`casadi.nlpsol` is replaced by an object that records what the optimizer hands to
the solver (problem, options, every call) and answers with what the explorer
chooses, so that solver behaviour is an enumerated input and not a source of
nondeterminism."""
import contextlib

import casadi as ca
import numpy as np

mp = None
REAL_NLPSOL = ca.nlpsol


def setup():
    global mp
    import warnings

    warnings.simplefilter("ignore")
    from mpopt import mp as _mp

    assert _mp.__file__.startswith("/repo/"), _mp.__file__
    mp = _mp
    import mpopt.mpopt as modul

    for cls in (mp.mpopt, mp.mpopt_h_adaptive, mp.mpopt_adaptive, mp.mpopt_ph_adaptive):
        cls._MUTE_ = True
    reset()


def reset():
    """Class-level settings back to their shipped values before each execution
    (only the ones the explorer itself changes)."""
    mp.Collocation.D_MATRIX_METHOD = "symbolic"
    mp.CollocationRoots._TAU_MIN = -1
    mp.CollocationRoots._TAU_MAX = 1
    ca.nlpsol = REAL_NLPSOL


def col(v):
    """numpy vector of anything the optimizer passes (DM, list, array)."""
    if isinstance(v, (list, tuple)):
        v = [float(np.asarray(x, dtype=float).ravel()[0]) if not isinstance(x, (int, float)) else x for x in v]
    return np.array(ca.DM(v).full() if not isinstance(v, np.ndarray) else v, dtype=float).flatten(order="F")


class Captured:
    """One solver object the optimizer created, with the calls made on it."""

    def __init__(self, name, plugin, prob, opts):
        self.plugin, self.prob, self.opts = plugin, dict(prob), dict(opts)
        x, p = prob["x"], prob.get("p")
        p = ca.SX(0, 1) if p is None else p
        self.nx, self.np_ = ca.SX(x).numel(), ca.SX(p).numel()
        self.ng = ca.SX(prob["g"]).numel() if "g" in prob else 0
        self.fn = ca.Function("nlp", [ca.vec(x), ca.vec(p)], [prob["f"], ca.vec(prob["g"])])
        self.calls = []
        self.answer = None  # policy: callable(call dict, index) -> dict
        self.owner = None

    def eval(self, z, p):
        f, g = self.fn(z, p)
        return float(f), g.full().ravel()

    def __call__(self, **kw):
        rec = {k: col(v) for k, v in kw.items()}
        rec["p"] = rec.get("p", np.zeros(0))
        if rec["p"].size != self.np_:
            raise ValueError("solver called with %d parameters, problem has %d" % (rec["p"].size, self.np_))
        for k, n in (("x0", self.nx), ("lbx", self.nx), ("ubx", self.nx), ("lbg", self.ng), ("ubg", self.ng)):
            if k in rec and rec[k].size not in (n, 1):
                raise ValueError("solver input %s has size %d, expected %d" % (k, rec[k].size, n))
            if k in rec and rec[k].size != n:  # one value for all entries
                rec[k] = np.full(n, rec[k][0])
        rec.setdefault("x0", np.zeros(self.nx))
        self.calls.append(rec)
        x = rec["x0"]
        ans = {"x": x}
        if self.answer is not None:
            ans.update(self.answer(self, rec, len(self.calls) - 1))
        f, g = self.eval(ans["x"], rec["p"])
        out = {"f": f, "g": g, "lam_x": np.zeros(self.nx), "lam_g": np.zeros(self.ng), "lam_p": np.zeros(self.np_)}
        out.update(ans)
        return {k: ca.DM(v) for k, v in out.items()}

    def call(self, args):
        return self(**args)

    def stats(self):
        return {"success": True, "return_status": "stub", "iter_count": len(self.calls)}


@contextlib.contextmanager
def solver_stub(answer=None, log=None):
    """Within the context every nlpsol() call yields a recording stub."""
    created = [] if log is None else log

    def fake(name, plugin, prob, opts={}):
        c = Captured(name, plugin, prob, opts)
        c.answer = answer
        created.append(c)
        return c

    old = ca.nlpsol
    ca.nlpsol = fake
    try:
        yield created
    finally:
        ca.nlpsol = old
