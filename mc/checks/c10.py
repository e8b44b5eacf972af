"""C10 explicit optimisation: complete grids against an independent quadratic program solved by exhaustive active-set enumeration."""
import itertools

import numpy as np

from mc import rigs, zoo
from mc.checks.c05 import configured
from mc.ref import Sys
from mc.rigs import CSpec, DI, DSpec, LIN2, LIN3, LIN5, NL2, SI1, SI2

BOUNDS = ("toy systems with 1-5 inputs, linear and nonlinear: product grid of states (inside, on, outside the safe set) and desired controls x bound forms x all enabled "
          "subsets of barriers and direct inequalities x strengtheners / recovery strengtheners / biases; the same in units 2^-12 .. 2^15; supplied integrator, docking 2d/3d, single- and multi-spacecraft (1, 2, 3, 5) inspection filters, default and 1-8 other configurations each: product "
          "grids of states and controls; reference = minimum over all active sets (enumerated completely)")
ASSUMPTIONS = ["a case is undecided (counted) only if shifting the reference rows by 2e-5 (toy) / 1e-4 (supplied), relative to their size, changes the optimum by more than the tolerance (and by at least a tenth of the deviation seen) "
               "or changes feasibility: single-precision rows cannot decide those"]

FORMS = {1: {"none": (None, None), "num": (-1., 1.), "low": ([-0.5], None)},
         2: {"none": (None, None), "num": (-1., 1.), "list": ([-1., -0.5], [1., 0.75]), "low": ([-0.5, -0.25], None), "high": (None, 0.5)},
         3: {"none": (None, None), "list": ([-0.5, -1., -0.25], [0.75, 0.5, 2.])},
         5: {"none": (None, None), "list": ([-0.5, -1., -0.25, -2., -0.75], [0.75, 0.5, 2., 0.25, 1.]), "low": (-1., None)}}


def configs(name):
    if name == "si1":
        return SI1, [CSpec("a", "max", 1., idx=0, alpha=(0., 1., 0., 0.5)), CSpec("b", "min", -1., idx=0, bias=-0.25, alpha_neg=(0., 4.), bias_neg=-0.125)], []
    if name == "di":
        return DI, [CSpec("brake", "brake", 4., alpha=(0., 0.5, 0., 0.25), bias=-0.25), CSpec("v", "mag", 2., idx=1, alpha=(0., 1.), alpha_neg=(0., 2., 0., 1.), bias_neg=0.)], []
    if name == "si2":
        return SI2, [CSpec("a", "max", 1., idx=0), CSpec("b", "aff", 0.5, vec=[-0.5, 1.], bias=-0.125), CSpec("c", "bowl", 0.5, vec=[0., 0.], alpha=(0., 2.))], [DSpec("d", [1., -1.], -0.75)]
    if name == "lin2":
        return LIN2, [CSpec("a", "max", 1., idx=0, alpha=(0., 1.)), CSpec("b", "aff", 1., vec=[0.5, 1.], alpha=(0., 0.5, 0., 0.25), bias=-0.125, bias_neg=-0.25),
                      CSpec("c", "ball", 2., vec=[0., 0.], alpha=(0., 1.), alpha_neg=(0., 3.))], [DSpec("d", [1., 1.], -0.75), DSpec("e", [-1., 0.5], -1.)]
    if name == "lin3":
        return LIN3, [CSpec("a", "max", 1., idx=0), CSpec("b", "min", -1., idx=1, alpha=(0., 2., 0., 1.)), CSpec("c", "mag", 1., idx=2, bias=-0.125)], [DSpec("d", [1., 1., 1.], -1.)]
    if name == "lin5":
        return LIN5, [CSpec("a", "max", 1., idx=0), CSpec("b", "min", -1., idx=3, alpha=(0., 2., 0., 1.)), CSpec("c", "mag", 1., idx=4, bias=-0.125), CSpec("e", "aff", 1.5, vec=[0., 1., 1., 0., 0.5], alpha=(0., 0.5, 0., 0.25, 0., 0.125)),
                      CSpec("f", "ball", 2.5, vec=[0., 0., 0., 0., 0.], alpha=(0., 1.), alpha_neg=(0., 3.))], [DSpec("d", [1., 1., 0., 0., 1.], -1.), DSpec("g", [0., 0., -1., 1., -1.], -1.5)]
    if name == "nl2":
        return NL2, [CSpec("a", "ball", 1.5, vec=[0.25, 0.], alpha=(0., 1.)), CSpec("b", "max", 1., idx=1, alpha=(0., 0.5, 0., 1.))], [DSpec("d", [0.5, 1.], -1.)]
    raise ValueError(name)


def sensitive(C, b, d, w, u, tol, eps, got):
    """the optimum is not determined at single precision, and the control got is no farther from it than that explains"""
    size = np.abs(np.asarray(C)).sum(axis=1) + np.abs(b)
    delta = 0.
    for sgn in (1., -1.):
        r = rigs.solve_qp(d, C, np.asarray(b) + sgn * eps * (1e-2 + size), w)
        if (r is None) != (u is None):
            return True
        if r is not None:
            delta = max(delta, np.max(np.abs(r[0] - u)))
    if delta <= 0.5 * tol:
        return False
    return got is None or np.max(np.abs(np.asarray(got, float) - u[:len(got)])) <= 10 * delta


def grid_of(plant, deep):
    g = {1: [-1.25, -1., -0.75, 0., 0.5, 0.75, 1., 1.0009765625, 1.125], 2: [-1.5, -0.75, 0., 0.25, 0.75, 1., 1.0009765625, 1.75], 3: [-1.25, 0., 0.75, 1.125], 5: [-0.625, 1.0625]}[plant.n]
    us = {1: [-4., -1., -0.5, 0.25, 1., 3.], 2: [-2., 0., 0.5, 1., 3.], 3: [-2., 0.25, 1.5], 5: [-1.75, 0.75]}[plant.m]
    if deep:
        g = {1: list(np.arange(-1.5, 1.51, 0.125)) + [1.0009765625, -1.0009765625, 0.9990234375], 2: list(np.arange(-2, 2.01, 0.25)) + [1.0009765625], 3: [-1.25, -1., -0.5, 0., 0.5, 0.75, 1., 1.125], 5: [-0.625, 0.25, 1.0625]}[plant.n]
        us = {1: list(np.arange(-4, 4.01, 0.25)), 2: [-4., -2., -1., -0.25, 0., 0.5, 0.75, 1., 3.], 3: [-2., -0.5, 0.25, 1.5], 5: [-1.75, 0.75]}[plant.m]
    return g, us


def toy(rep, cfg, form, deep, part=0, parts=1):
    plant, specs, direct = configs(cfg)
    low, high = FORMS[plant.m][form]
    sysm = Sys("easif", plant, specs, direct=direct, low=low, high=high, exact=False)
    rta = sysm.build()
    g, us = grid_of(plant, deep)
    subsets = list(itertools.product([True, False], repeat=len(specs) + len(direct)))
    full = [s for s in subsets if sum(not e for e in s) <= (len(s) if plant.n < 5 and deep or plant.n < 2 else 1)]
    for k, en in enumerate(full):
        if k % parts != part:
            continue
        m = sysm.init()._replace(en=en[:len(specs)], den=en[len(specs):])
        sysm.apply_config(rta, m)
        gg, uu = (g, us) if all(en) or deep and plant.n < 5 else (g[::2], us[::2]) if plant.n < 5 else (g, us[-1:])
        for x in itertools.product(gg, repeat=plant.n):
            for u in itertools.product(uu, repeat=plant.m):
                check(rep, sysm, rta, m, np.array(x), 0.5, np.array(u), dict(cfg=cfg, form=form, enabled=en))
    rep.trace()


def check(rep, sysm, rta, m, x, dt, u, info):
    _, out = sysm.step(m, x, dt, u)
    got = rta.filter_control(x, dt, u)
    rep.count_states()
    rep.step(out.status)
    msg = sysm.compare(out, rta, got, atol=1e-4)
    if msg:
        C, b, _ = sysm.rows(m, x, dt)
        if sensitive(C, b, np.concatenate((u, np.zeros(len(sysm.slack)))), sysm.weights(), None if out.qp is None else rigs.solve_qp(
                np.concatenate((u, np.zeros(len(sysm.slack)))), C, b, sysm.weights())[0], 1e-4, 2e-5, got):
            rep.skip()
            return
        rep.violation(msg, state=x, desired=u, **info)
    elif out.status == "opt":
        rep.sample(dict(state=x, desired=u, got=got, binding=out.causing, **info), limit=1)


def scaled(rep, cfg, k):
    """units: states, limits, bounds, direct constants and desired controls multiplied by 2^k (linear plants and barriers: the answer scales along)"""
    S = 2.**k
    plant = {"si2": SI2, "lin2": LIN2, "lin3": LIN3}[cfg]
    n = plant.n
    specs = [CSpec("a", "max", S, idx=0, alpha_neg=(0., 10.), bias_neg=-0.125 * S), CSpec("b", "aff", S, vec=[0.5, 1.], alpha=(0., 0.5), bias=-0.125 * S, bias_neg=-0.25 * S), CSpec("c", "min", -1.5 * S, idx=n - 1, alpha=(0., 2.))]
    direct = [DSpec("d", [1.] * n, -0.75 * S), DSpec("e", [-1., 0.5, 0.25][:n], -1. * S)]
    for low, high in ((None, None), (-1. * S, 1. * S), ([-0.5 * S] * n, [2. * S, 1. * S, 0.25 * S][:n])):
        sysm = Sys("easif", plant, specs, direct=direct, low=low, high=high, exact=False)
        rta = sysm.build()
        m = sysm.init()
        g, us = ([-1.5, -0.5, 0.25, 1., 1.25], [-2., 0.25, 1.]) if n == 2 else ([-1.25, 0.25, 1.125], [-2., 0.75])
        for x in itertools.product(g, repeat=n):
            for u in itertools.product(us, repeat=plant.m):
                x_, u_ = S * np.array(x), S * np.array(u)
                _, out = sysm.step(m, x_, 0.5, u_)
                got = np.asarray(rta.filter_control(x_, 0.5, u_), float)
                rep.count_states()
                rep.step(f"scaled {out.status}")
                if np.allclose(got / S, out.u / S, atol=2e-4):
                    if out.margin > 1e-4 * max(S, 1.):
                        rep.check(bool(rta.intervening) == out.interv, "intervening flag wrong", cfg=cfg, unit=S, state=x_, desired=u_, got=got)
                    continue
                C, b, _ = sysm.rows(m, x_, 0.5)
                r = rigs.solve_qp(u_ / S, C, np.asarray(b) / S)
                if sensitive(C, np.asarray(b) / S, u_ / S, None, None if r is None else r[0], 2e-4, 2e-5, got / S):
                    rep.skip()
                    continue
                rep.violation(f"control {got.tolist()} expected {out.u.tolist()} ({out.status})", cfg=cfg, unit=S, state=x_, desired=u_, low=low, high=high)
    rep.trace()


# -------------------------------------------------------------------------------------------------------- supplied filters
def inspection_states(k, ps, azs, suns):
    """own state around the chief and close to each other spacecraft; the others at fixed places"""
    others = [np.array([40., -30., 20., 0.1, 0.2, -0.1]), np.array([-300., 100., 5., 0., -0.3, 0.2]), np.array([30., 250., -60., -0.2, 0., 0.3]), np.array([-70., -90., 200., 0.3, -0.1, 0.])][:k - 1]
    xs = []
    for p, az, el in itertools.product(ps, azs, (-0.6, 0.3)):
        d = np.array([np.cos(az) * np.cos(el), np.sin(az) * np.cos(el), np.sin(el)])
        t = np.array([-np.sin(az), np.cos(az), 0.])
        for vr, vt in ((-0.15, 0.02), (0.1, 0.15), (0.18, 0.), (-0.02, 0.3)):
            for sun in suns:
                xs.append(np.concatenate([p * d, vr * d + vt * t] + others + [[sun]]))
    for o in others:
        for r, az, vr in itertools.product((10.5, 14., 30.), azs, (-0.2, 0.1)):
            d = np.array([np.cos(az) * .8, np.sin(az) * .8, .6])
            xs.append(np.concatenate([o[:3] + r * d, o[3:] + vr * d] + others + [[suns[0]]]))
    return xs


def supplied_case(which, cfg=None):
    """(filter, A, B (state x control, full state), constraints, states, controls)"""
    from run_time_assurance.zoo.cwh import docking_2d, docking_3d, inspection_1v1
    from run_time_assurance.zoo.integrators import integrator_1d
    if which.startswith("insp3"):
        from run_time_assurance.zoo.cwh.inspection_3d import InspectionRTA
        from mc.checks import c19
        k, kw = int(which[5:]), c19.CONF[cfg or "default"]
        za = c19._zargs(kw)
        rta = InspectionRTA(num_deputies=k, **kw)
        A, B = zoo.cwh(3, za.get("m", zoo.M), za.get("n", zoo.N))
        f = lambda x: np.concatenate([A @ x[6 * i:6 * i + 6] for i in range(k)] + [[za["sun"]]])  # noqa
        Bk = np.vstack((B, np.zeros((6 * k - 5, 3))))
        us = [np.array(u) for u in ((0.2, -0.1, 0.3), (1., 1., 1.), (-1., 0.5, -3.))]
        return rta, f, lambda x: Bk, zoo.inspection3(k, **za), inspection_states(k, (11.5, 60., 400., za.get("rmax", 1000.) - 10.), (0.4, 2., 4.4), (0.2, 3.6)), us
    kw, pa, za, _, _, _ = configured(which, cfg) if which in ("int", "d2", "d3") else ({}, {}, {}, 0, 0, 0)
    if which == "int":
        rta = integrator_1d.Integrator1dDockingExplicitOptimizationRTA(**kw)
        A, B = zoo.integ(**pa)
        xs = [np.array([p, v]) for p in (-3., -2., -1.13, -0.52, -0.11, 0.02) for v in (-0.7, 0.03, 0.4, 0.6, 0.97, 1.4, 2.1)]
        us = [np.array([u]) for u in (-3., -1., -0.4, 0., 0.7, 1., 5.)]
        return rta, lambda x: A @ x, lambda x: B, zoo.integrator_explicit(), xs, us
    if which == "d2":
        rta = docking_2d.Docking2dExplicitOptimizationRTA(**kw)
        A, B = zoo.cwh(2, **pa)
        xs = [np.array([p * np.cos(t), p * np.sin(t), v * np.cos(t + w), v * np.sin(t + w)])
              for p in (1., 80., 900.) for t in (0.3, 2.5) for v in (0.1, 0.19, 0.21, 0.34, 0.37, 1.9, 2.1) for w in (0., 2., 3.3)]
        us = [np.array([a, b]) for a in (-4., -1., 0.3, 1.) for b in (-1., 0., 1.)]
        return rta, lambda x: A @ x, lambda x: B, zoo.docking(2, **za), xs, us
    if which == "d3":
        rta = docking_3d.Docking3dExplicitOptimizationRTA(**kw)
        A, B = zoo.cwh(3, **pa)
        xs = [np.array([p * np.cos(t), p * np.sin(t) * .6, p * np.sin(t) * .8, v * np.cos(t + w) * .6, v * np.sin(t + w), v * np.cos(t + w) * .8])
              for p in (1., 80., 900.) for t in (0.3, 2.5) for v in (0.1, 0.19, 0.21, 0.5, 3.7) for w in (0., 2., 3.3)]
        us = [np.array([a, b, c]) for a in (-4., 1.) for b in (-1., 0.) for c in (-1., 1., 2.)]
        return rta, lambda x: A @ x, lambda x: B, zoo.docking(3, **za), xs, us
    if which in ("insp1", "insp1h"):
        from mc.checks import c19
        hocbf = which == "insp1h"
        kw = c19.CONF[cfg or "default"]
        za = c19._zargs(kw)
        rta = inspection_1v1.Inspection1v1RTA(use_hocbf=hocbf, **kw)
        A, B = zoo.cwh(3, za.get("m", zoo.M), za.get("n", zoo.N))
        f = lambda x: np.concatenate((A @ x[:6], [za["sun"], 0.]))  # noqa
        B8 = np.vstack((B, np.zeros((2, 3))))
        xs = []
        for p, az, el in itertools.product((11.5, 60., 400., za.get("rmax", 1000.) - 10.), (0.4, 2., 4.4), (-0.6, 0.3)):
            d = np.array([np.cos(az) * np.cos(el), np.sin(az) * np.cos(el), np.sin(el)])
            t = np.array([-np.sin(az), np.cos(az), 0.])
            for vr, vt in ((-0.15, 0.02), (0.1, 0.15), (0.18, 0.), (-0.02, 0.3)):
                for sun in (0.2, 3.6):
                    xs.append(np.concatenate((p * d, vr * d + vt * t, [sun, 1.])))
        us = [np.array(u) for u in ((0.2, -0.1, 0.3), (1., 1., 1.), (-1., 0.5, -3.), (0.9, -1., 0.))]
        return rta, f, lambda x: B8, zoo.inspection1(hocbf=hocbf, sys=f, **za), xs, us
    raise ValueError(which)


def supplied(rep, which, deep, part=0, parts=1, cfg=None):
    rta, f, g, cons, xs, us = supplied_case(which, cfg)
    if not deep and which in ("insp1", "insp1h"):
        us = us[:3]
    for x in xs[part::parts]:
        fx, gx = f(x), g(x)
        m = gx.shape[1]
        C, b, names = rigs.bound_rows(m, -1., 1.)
        for c in cons:
            gr = c.grad(x)
            C.append(gr @ gx)
            b.append(-gr @ fx - c.strength(c.hb(x)))
            names.append(c.name)
        # a constraint within single precision of its own boundary may take either strengthening branch
        edge = any(abs(c.hb(x)) < 2e-6 * c.scale for c in cons)
        for u in us:
            r = rigs.solve_qp(u, C, b)
            got = rta.filter_control(x, 1., u)
            rep.count_states()
            rep.step(f"{which}:{'infeasible' if r is None else 'same' if np.allclose(r[0], u) else 'opt'}")
            exp = rigs.clip(u, -1, 1) if r is None else r[0]
            if not np.allclose(got, exp, atol=2e-3):
                if edge or sensitive(C, b, u, None, None if r is None else r[0], 2e-3, 1e-4, got):
                    rep.skip()
                    continue
                rep.violation("supplied filter does not return the closest admissible control", filter=which, config=cfg, state=x, desired=u, got=got, expected=exp,
                              binding=None if r is None else [n for n, l in zip(names, r[1]) if l > 1e-9])
            elif r is not None:
                rep.sample(dict(filter=which, state=x, desired=u, got=got), limit=1)
    rep.trace()


def shards(tier):
    deep = tier == "thorough"
    out = []
    for p in range(3):
        out.append(("supplied", dict(which="insp1", deep=deep, part=p, parts=3)))
    out.append(("supplied", dict(which="insp1h", deep=deep, part=0, parts=1 if deep else 3)))
    for w in ("d3", "d2", "int"):
        out.append(("supplied", dict(which=w, deep=deep)))
    for w in ("insp31", "insp32", "insp33", "insp35"):
        out.append(("supplied", dict(which=w, deep=deep, part=0, parts=1 if deep else 2)))
    for cfg in ("heavy", "slow", "radii", "speed", "range", "fov", "vlim", "sun"):
        out.append(("supplied", dict(which="insp1", deep=deep, part=1, parts=1 if deep else 6, cfg=cfg)))
        out.append(("supplied", dict(which="insp32", deep=deep, part=1, parts=1 if deep else 6, cfg=cfg)))
    for w, cfg in (("d3", "heavy"), ("d3", "fast"), ("d2", "heavy"), ("d2", "fast"), ("int", "heavy")):
        out.append(("supplied", dict(which=w, deep=deep, cfg=cfg, part=0, parts=1 if deep else 2)))
    for cfg in ("lin5", "lin2", "si2", "lin3", "nl2", "di", "si1"):
        plant = configs(cfg)[0]
        for form in FORMS[plant.m]:
            parts = 4 if deep and plant.n >= 2 else 1
            for p in range(parts):
                out.append(("toy", dict(cfg=cfg, form=form, deep=deep, part=p, parts=parts)))
    for k in (-12, -6, 5, 10, 15) if not deep else range(-16, 18):
        for cfg in ("si2", "lin2", "lin3"):
            out.append(("scaled", dict(cfg=cfg, k=k)))
    return out
