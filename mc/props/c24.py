import numpy as np

from .. import build
from ..core import deviations

BOUNDS = {
    "quick": "all plot entry points x problems, meshes, scalings, phase lists, component lists and residual grids with at most 2 deviations",
    "thorough": "the same with at most 3 deviations",
}
ORACLE = "the curves on the axes, compared with the data the results object returns for the same request"


def space(tier):
    d = build.dims("cls", "nx", "nu", "na", "scheme", "tau", "widths", "scale",
                   orders=[[2, 3], [3], [1], [3, 1, 2]], nph=[2, 1, 3],
                   call=["x", "u", "phases", "phase", "results", "resid", "direct x", "direct dx", "over", "evolution"], over=["x", "u", "phases", "resid"], interpolate=[True, False], phases=["default", "last", "all", "reversed"],
                   dims=["all", "one", "nested", "rev"], scaling=[False, True], residual=["dx", "x", "both", "none"], grid=["spectral", "fixed", "mid-points"], npts=[4, 2],
                   axis=[1, 0], nu=[2, 1, 3])

    def keep(c):
        if not build.sensible(c):
            return False
        if c["call"] in ("phase", "results", "resid", "direct x", "direct dx", "over", "evolution") and c["dims"] != "all":
            return False
        if c["over"] != "x" and c["call"] != "over":
            return False
        if c["call"] == "evolution" and (c["cls"] != "mpopt_h_adaptive" or len(c["orders"]) < 2):
            return False
        if c["call"] == "phase" and (c["phases"] in ("all", "reversed")):
            return False
        return True

    return deviations(d, 2 if tier == "quick" else 3, keep)


def curves(ax):
    return [(np.asarray(l.get_xdata(), float).ravel(), np.asarray(l.get_ydata(), float).ravel()) for l in ax.get_lines()]


def shown(ax, t, y):
    t, y = np.ravel(t), np.ravel(y)
    return any(a.shape == t.shape and b.shape == y.shape and np.allclose(a, t, atol=1e-9) and np.allclose(b, y, atol=1e-9) for a, b in curves(ax))


def check(c, run):
    import matplotlib.pyplot as plt

    plt.close("all")
    s = build.Spec(c)
    with_res = c["call"] in ("phases", "phase", "results")
    s_opt, sol, z, w = build.solved(s, 0)
    s_opt._MAX_GRID_POINTS = c["npts"]
    for p in range(s.nph):
        s_opt.grid_type[p] = c["grid"]
    res = dict(residual_x=c["residual"] in ("x", "both"), residual_dx=c["residual"] in ("dx", "both")) if with_res else dict(residual_x=False, residual_dx=False)
    show = c["call"] == "results"
    figs0 = set(plt.get_fignums())
    if show:
        s_opt._ocp.phases_to_plot = {"default": [list(range(s.nph))], "last": [[s.nph - 1]], "all": [[p] for p in range(s.nph)], "reversed": [list(range(s.nph))[::-1]]}[c["phases"]]
    post = s_opt.process_results(sol, plot=show, scaling=c["scaling"], **res)
    run.transitions += 3
    ph = {"default": None, "last": [s.nph - 1], "all": list(range(s.nph)), "reversed": list(range(s.nph))[::-1]}[c["phases"]]
    eff = list(range(s.nph)) if ph is None else ph
    dims = lambda n: {"all": None, "one": [n - 1], "nested": [[i] for i in range(n)][::-1], "rev": list(range(n))[::-1]}[c["dims"]]

    def panel(ax, which, phases, interpolate, comps):
        got = post.get_data(phases=list(phases), interpolate=interpolate)
        for i in comps:
            run.states += 1
            run.check(shown(ax, got[2], got[which][:, i]), "curve of %s %d" % (("state", "control")[which], i), phases=phases, interpolate=interpolate)

    def labels(ax, n):
        names = [l.get_label() for l in ax.get_lines() if not l.get_label().startswith("_")]
        run.check(len(set(names)) == len(names), "curves of different variables have different names", names=names)

    def residual_panels(axes, phases):
        lines = 0
        r = post.residuals
        if r is None:
            return
        for key in ("t_x", "t_dx"):
            if key not in r:
                continue
            t = np.concatenate([np.ravel(x) for p in phases for x in r[key][0][p] if x is not None and np.size(x)])
            y = np.concatenate([np.asarray(x, float).reshape(-1, s.nx) for p in phases for x in r[key][1][p] if x is not None and np.size(x)])
            lines += s.nx
            for i in range(s.nx):
                run.states += 1
                run.check(any(shown(ax, t, y[:, i]) for ax in axes), "curve of the residual of state %d" % i, kind=key, phases=phases)
        run.check(sum(len(curves(ax)) for ax in axes) == lines, "no other curve in the residual panels", phases=phases)

    def norm(ax, ti, r, phases):
        t = np.concatenate([np.ravel(x) for p in phases for x in ti[p] if x is not None and np.size(x)])
        y = np.concatenate([np.linalg.norm(np.asarray(x, float).reshape(-1, s.nx), axis=1) for p in phases for x in r[p] if x is not None and np.size(x)])
        run.states += 1
        run.check(shown(ax, t, y), "curve of the residual norm", phases=phases)

    if c["call"] in ("x", "u"):
        k, n = (0, s.nx) if c["call"] == "x" else (1, s.nu)
        f = post.plot_x if k == 0 else post.plot_u
        d = dims(n)
        fig, axs = f(dims=d, phases=None if ph is None else list(ph), interpolate=c["interpolate"], axis=c["axis"])
        groups = [list(range(n))] if d is None else ([d] if not isinstance(d[0], list) else d)
        axl = list(np.ravel(np.asarray(axs, dtype=object)))
        if run.check(len(axl) == len(groups), "one panel per requested group", panels=len(axl)):
            for ax, g in zip(axl, groups):
                panel(ax, k, eff, c["interpolate"], g)
                if c["call"] == "u":  # markers at the nodes come with the curve
                    panel(ax, k, eff, False, g)
                lines = len(curves(ax))
                per = 2 if c["call"] == "u" else 1
                if c["call"] == "u" and not c["interpolate"]:
                    per = 1
                labels(ax, len(g))
                run.check(lines == per * len(g), "no other curve in the panel", lines=lines, expected=per * len(g))
    elif c["call"] in ("phases", "phase"):
        if c["call"] == "phase":
            p0 = 0 if ph is None else ph[0]
            post.plot_phase(p0, c["interpolate"])
            axs, eff = plt.gcf().axes, [p0]
        else:
            fig, axs = post.plot_phases(None if ph is None else list(ph), c["interpolate"], residuals=c["residual"] != "none")
        axl = list(np.ravel(np.asarray(axs, dtype=object)))
        for k, n in ((0, s.nx), (1, s.nu)):
            panel(axl[k], k, eff, False, range(n))
            if c["interpolate"]:
                panel(axl[k], k, eff, True, range(n))
            run.check(len(curves(axl[k])) == n * (1 + bool(c["interpolate"])), "no other curve in the panel", lines=len(curves(axl[k])))
            labels(axl[k], n)
        residual_panels(axl[2:], eff)
    elif c["call"] == "results":
        figs = [plt.figure(i) for i in plt.get_fignums() if i not in figs0]
        lists = s_opt._ocp.phases_to_plot
        if run.check(len(figs) == len(lists), "one figure per group of phases", figures=len(figs), groups=len(lists)):
            for fig, phl in zip(figs, lists):
                axs = fig.axes
                for k, n in ((0, s.nx), (1, s.nu)):
                    panel(axs[k], k, phl, False, range(n))
                    panel(axs[k], k, phl, True, range(n))
                    run.check(len(curves(axs[k])) == 2 * n, "no other curve in the panel", lines=len(curves(axs[k])))
                residual_panels(axs[2:], phl)
    elif c["call"] == "over":  # one plot on top of another, as the examples do to compare phases and meshes
        figs1 = set(plt.get_fignums())
        fig, axs, before = None, None, None
        for q in ([0], eff):
            if c["over"] == "resid":
                ti, r = s_opt.get_dynamics_residuals(sol)
                fig, axs = post.plot_residuals(ti, r, phases=q, fig=fig, axs=axs)
            elif c["over"] == "phases":
                fig, axs = post.plot_phases(list(q), c["interpolate"], residuals=False, fig=fig, axs=axs)
            else:
                fig, axs = (post.plot_x if c["over"] == "x" else post.plot_u)(phases=list(q), interpolate=c["interpolate"], fig=fig, axs=axs)
            run.check(before is None or before is axs or list(np.ravel(np.asarray(before, dtype=object))) == list(np.ravel(np.asarray(axs, dtype=object))), "the given axes are used")
            before = axs
        run.check(len(set(plt.get_fignums()) - figs1) == 1, "the given figure is used", figures=len(set(plt.get_fignums()) - figs1))
        axl = list(np.ravel(np.asarray(axs, dtype=object)))
        for q in ([0], eff):
            if c["over"] == "phases":
                for k, n in ((0, s.nx), (1, s.nu)):
                    panel(axl[k], k, q, c["interpolate"], range(n))
            elif c["over"] != "resid":
                k, n = (0, s.nx) if c["over"] == "x" else (1, s.nu)
                panel(axl[0], k, q, c["interpolate"], range(n))
            else:
                norm(axl[0], ti, r, q)
    elif c["call"].startswith("direct"):  # plots made by the diagnostics themselves
        fig, ax = plt.subplots()
        if c["call"] == "direct x":
            _, _, ti, r = s_opt.get_states_residuals(sol, phases=None if ph is None else list(ph), plot=True, fig=fig, axs=ax)
            shown_phases = list(range(s.nph)) if ph is None else ph
        else:
            ti, r = s_opt.get_dynamics_residuals(sol, plot=True, fig=fig, axs=ax)
            shown_phases = list(range(s.nph))
        norm(ax, ti, r, shown_phases)
    elif c["call"] == "evolution":
        s_opt.plot_residual_evolution = True
        s_opt._ocp.phases_to_plot = [list(eff)]
        figs1 = set(plt.get_fignums())
        for method in ("residual", "control_slope"):
            s_opt.iter_count = 0
            s_opt.get_segment_width_parameters(sol, options={"method": method})
        run.check(len(set(plt.get_fignums()) - figs1) == 1, "the evolution of the residuals is drawn in one figure", figures=len(set(plt.get_fignums()) - figs1))
        ti, r = s_opt.get_dynamics_residuals(sol)
        norm(s_opt.axs, ti, r, eff)
    else:
        ti, r = s_opt.get_dynamics_residuals(sol)
        fig, ax = post.plot_residuals(ti, r, phases=eff)
        norm(ax, ti, r, eff)
    plt.close("all")
    run.outcome = "%s %d %.5g" % (c["call"], run.states, np.abs(z).sum())

