"""C13 implicit optimisation: complete grids against the reference flow, sensitivity and exhaustive active-set enumeration."""
import itertools

import numpy as np

from mc import fleet, rigs, zoo
from mc.checks.c05 import DCONF, ICONF, configured
from mc.checks.c10 import sensitive
from mc.ref import Sys
from mc.rigs import CSpec, DI, DSpec, LIN2, LIN3, LinearBackup, NL2, NLDI, SI1

BOUNDS = ("7 toy closed loops (linear, nonlinear, controller with memory; 1-3 inputs) x windows (multiples of the step, inexact quotients, non-multiples, shorter than a step) x bound forms x "
          "slack x direct inequalities x enabled subsets: product grids of states and desired controls; all subsampling configurations num_check_all{-1,0,1,3} x skip{1,2,3} x "
          "least{none,1,2} x keep_first x keep_last; windows of up to 150 (thorough 256) points whose binding point is the last or any one; supplied integrator, docking 2d / 3d filters, default and 3-4 other configurations (also with the user's own backup controller), on product grids")
ASSUMPTIONS = ["states whose backup control saturates the bounds along the window are undecided (counted): the flow is not differentiable there",
               "optima that move by more than the tolerance under a 2e-5 (toy) / 1e-4 (supplied) relative shift of the reference rows, and ties in the least-safe selection, are undecided (counted)"]
WINDOWS = ((1., .5), (1., .25), (0.3, .1), (0.7, .1), (0.6, .2), (1., .3), (0.25, .5), (1.5, .5), (3 / 256., 1 / 256.), (2.97, 1.))


def config(name):
    if name == "lin2":
        return dict(plant=LIN2, specs=[CSpec("a", "max", 1., idx=0), CSpec("b", "aff", 1., vec=[0.5, 1.], alpha=(0., 0.5, 0., 0.25), bias=-0.125)],
                    direct=[DSpec("d", [1., 1.], -0.75)], ctl=lambda: LinearBackup([[0.25, -0.125], [0.25, 0.125]]))
    if name == "lin3":
        return dict(plant=LIN3, specs=[CSpec("a", "max", 1., idx=0), CSpec("b", "min", -1., idx=1, alpha=(0., 2., 0., 1.)), CSpec("c", "mag", 1., idx=2, bias=-0.125)],
                    ctl=lambda: LinearBackup(0.25 * np.eye(3) + 0.125 * np.eye(3)[::-1]))
    if name == "di":
        return dict(plant=DI, specs=[CSpec("p", "max", 1., idx=0, alpha=(0., 1., 0., 0.5)), CSpec("v", "mag", 1., idx=1, alpha=(0., 1.))], ctl=lambda: LinearBackup([[0., 0.5]], [-0.125]))
    if name == "nl2":
        return dict(plant=NL2, specs=[CSpec("a", "ball", 1.25, vec=[0.25, 0.], alpha=(0., 1.)), CSpec("b", "max", .75, idx=1, alpha=(0., 0.5, 0., 1.))], direct=[DSpec("d", [0.5, 1.], -1.)],
                    ctl=lambda: LinearBackup([[0.25, 0.], [0.125, 0.5]]))
    if name == "nldi":
        return dict(plant=NLDI, specs=[CSpec("p", "max", 1., idx=0), CSpec("brake", "brake", 2., bias=-0.125)], ctl=lambda: LinearBackup([[0.25, 0.5]]))
    if name == "count":
        return dict(plant=DI, specs=[CSpec("p", "max", 1., idx=0, alpha=(0., 1.)), CSpec("v", "mag", 1., idx=1)], ctl=fleet.counter("array", slope=-0.125, c0=0.25, start=1.))
    if name == "countd":
        return dict(plant=DI, specs=[CSpec("p", "max", 1., idx=0, alpha=(0., 1.)), CSpec("v", "mag", 1., idx=1)], ctl=fleet.counter("inplace", slope=-0.25, c0=0.25))
    raise ValueError(name)


FORMS = {1: {"num": (-1., 1.), "none": (None, None), "low": ([-0.75], None)}, 2: {"list": ([-1., -0.5], [1., 0.75]), "none": (None, None), "high": (None, 0.75)},
         3: {"list": ([-0.5, -1., -0.75], [0.75, 0.5, 2.]), "none": (None, None)}}


def saturates(sysm, m, x, dt):
    xs, _ = sysm.flow(m, np.asarray(x, float), dt)
    mem = m.mem
    for xx in xs:
        raw, mem = sysm.refctl.ref(xx, dt, mem)
        if not np.allclose(raw, sysm.bc(raw), atol=1e-9):
            return True
    return False


def tie(sysm, m, x, dt):
    xs, _ = sysm.flow(m, np.asarray(x, float), dt)
    for s, lim in zip(sysm.specs, m.lims):
        k = s.sub.get("subsample_constraints_num_least")
        if k is None:
            continue
        na, sk = max(s.sub.get("num_check_all", -1), 0), s.sub.get("skip_length", 1)
        idx = list(range(min(na, len(xs)))) + list(range(na, len(xs), sk))
        v = sorted(s.hb(xs[i], lim) for i in idx)
        if k < len(v) and v[k] - v[k - 1] < 1e-5:
            return True
    return False


def judge(rep, sysm, rta, m, x, dt, u, info):
    x, u = np.array(x, float), np.array(u, float)
    _, out = sysm.step(m, x, dt, u)
    got = rta.filter_control(x, dt, u)
    rep.count_states()
    if saturates(sysm, m, x, dt):
        rep.skip()
        return
    rep.step(out.status + ":" + "+".join(out.causing or ()))
    msg = sysm.compare(out, rta, got, atol=2e-4)
    if not msg:
        return
    C, b, _ = sysm.rows(m, x, dt)
    d = np.concatenate((u, np.zeros(len(sysm.slack))))
    r = rigs.solve_qp(d, C, b, sysm.weights())
    if sensitive(C, b, d, sysm.weights(), None if r is None else r[0], 2e-4, 2e-5, got) or tie(sysm, m, x, dt):
        rep.skip()
        return
    rep.violation(msg, state=x, step=dt, desired=u, **info)


def grids(plant, deep):
    g = {2: [-0.75, 0., 0.5, 0.875, 1.125], 3: [-1.125, 0.25, 0.875]}[plant.n]
    us = {1: [-3., -0.5, 0.25, 1.], 2: [-2., 0.25, 1.], 3: [-1., 0.75]}[plant.m]
    if deep:
        g = {2: list(np.arange(-1.25, 1.26, 0.25)), 3: [-1.125, -0.5, 0.25, 0.875, 1.25]}[plant.n]
        us = {1: list(np.arange(-3., 3.1, 0.5)), 2: [-2., -0.5, 0.25, 1., 3.], 3: [-1., 0.25, 0.75]}[plant.m]
    return g, us


def window(rep, cfg, form, win, jit, deep, slack=False):
    c = config(cfg)
    low, high = FORMS[c["plant"].m][form]
    if slack:
        c["specs"][0].slack = 4.
    W, dt = win
    sysm = Sys("iasif", low=low, high=high, window=W, exact=False, jit_enable=jit, **c)
    rta = sysm.build()
    m = sysm.init()
    g, us = grids(sysm.plant, deep)
    for x in itertools.product(g, repeat=sysm.plant.n):
        for u in itertools.product(us, repeat=sysm.plant.m):
            judge(rep, sysm, rta, m, x, dt, u, dict(cfg=cfg, form=form, window=W, jit=jit))
    # enabled subsets and changing step sizes on the same filter
    n, k = len(sysm.specs), len(sysm.direct)
    for en in itertools.product([True, False], repeat=n + k):
        m2 = m._replace(en=en[:n], den=en[n:])
        sysm.apply_config(rta, m2)
        for x in itertools.product(g[1::2], repeat=sysm.plant.n):
            u = us[-1] * np.ones(sysm.plant.m)
            judge(rep, sysm, rta, m2, x, dt, u, dict(cfg=cfg, form=form, window=W, enabled=en, jit=jit))
    sysm.apply_config(rta, m)
    for d2 in (dt / 2, dt, dt * 2):
        for x in itertools.product(g[1::3], repeat=sysm.plant.n):
            judge(rep, sysm, rta, m, x, d2, us[-1] * np.ones(sysm.plant.m), dict(cfg=cfg, form=form, window=W, jit=jit))
    rep.trace()


SUBCFGS = [dict(num_check_all=a, skip_length=s, subsample_constraints_num_least=l, keep_first=f, keep_last=k)
           for a in (-1, 0, 1, 3) for s in (1, 2, 3) for l in (None, 1, 2) for f in (False, True) for k in (False, True)]


DEFAULTS = dict(num_check_all=-1, skip_length=1, subsample_constraints_num_least=None, keep_first=False, keep_last=False)


def subsample(rep, part, parts, jit, deep):
    """every subsampling configuration, two constraints with different ones"""
    for i in range(part, len(SUBCFGS), parts):
        sa, sb = SUBCFGS[i], SUBCFGS[(i * 7 + 5) % len(SUBCFGS)]
        clean = lambda d: {k: v for k, v in d.items() if v is not None}  # noqa
        brief = lambda d: {k: v for k, v in d.items() if v != DEFAULTS[k]}  # noqa: settings left at their documented default are not given
        specs = [CSpec("a", "max", 1., idx=0, sub=brief(sa), alpha=(0., 0.5)), CSpec("b", "min", -1., idx=1, sub=clean(sb), alpha=(0., 0.25, 0., 0.25))]
        sysm = Sys("iasif", DI, specs, ctl=lambda: LinearBackup([[3., 0.25]], [0.125]), window=2., exact=False, jit_enable=jit)
        rta = sysm.build()
        m = sysm.init()
        for x in ((0.25, 1.25), (0.75, 0.5), (0.75, -0.875), (1.25, -1.25), (-1., 1.5), (0.25, -1.25), (1.25, 0.25)) if deep else ((0.25, 1.25), (1.125, -0.25), (-1., -1.25), (-0.5, 1.5)):
            for u in (-3., 2.):
                judge(rep, sysm, rta, m, x, 0.25, [u], dict(sub=[sa, sb], jit=jit))
    rep.trace()


def long(rep, window, dt, jit):
    """long windows: the binding trajectory point is the last one, or the nearest to a keep-out placed along the trajectory"""
    n = int(round(window / dt))
    for specs in ([CSpec("end", "max", 512., idx=0, alpha=(0., 0.03125))], [CSpec("far", "min", -8192., idx=0), CSpec("mid", "bowl", 0.25 * dt, vec=[512.], alpha=(0., 0.5))],
                  [CSpec("mid", "bowl", 0.25 * dt, vec=[512.], alpha=(0., 0.5), sub=dict(num_check_all=n // 2, skip_length=2)), CSpec("end", "max", 516., idx=0, alpha=(0., 0.03125))]):
        sysm = Sys("iasif", SI1, specs, ctl=lambda: LinearBackup([[0.]], [1.]), low=-1., high=1., window=window, exact=False, jit_enable=jit)
        rta = sysm.build()
        for k in sorted({-8, -1, 0, 1, 2, n // 3, n // 2, n - 2, n - 1, n, n + 1, n + 2, n + 6, n + 12, n + 40}):
            for u in (1., -1.):
                judge(rep, sysm, rta, sysm.init(), [512. - (k + 0.4375) * dt], dt, [u], dict(window=window, k=k, cons=[s.name for s in specs]))
    rep.trace()


def supplied(rep, which, deep, cfg=None):
    """supplied implicit filters: exact flow of the plant under the filter's own (linear) backup controller"""
    from run_time_assurance.zoo.cwh import docking_2d, docking_3d
    from run_time_assurance.zoo.integrators import integrator_1d
    kw, pa, za, own, low, high = configured(which, cfg)
    if which == "int":
        mk, A, B, cons = integrator_1d.Integrator1dDockingImplicitOptimizationRTA, *zoo.integ(**pa), zoo.integrator_implicit()
        ctl = integrator_1d.Integrator1dDockingBackupController()
        xs = [np.array([p, v]) for p in (-3., -1.13, -0.52, -0.31, -0.11) for v in (-0.7, 0.03, 0.4, 0.97, 1.4)]
        us = [np.array([u]) for u in (-3., -0.4, 0.7, 1.)]
        wins = ((2., 1.), (2., .5), (0.3, .1), (1., .25))
    elif which == "d2":
        mk, A, B, cons = docking_2d.Docking2dImplicitOptimizationRTA, *zoo.cwh(2, **pa), zoo.docking(2, **za)
        ctl = docking_2d.Docking2dStopLQRBackupController(**pa)
        xs = [np.array([p * np.cos(t), p * np.sin(t), v * np.cos(t + w), v * np.sin(t + w)]) for p in (5., 90., 900.) for t in (0.3, 2.5) for v in (0.1, 0.19, 0.34, 1.9) for w in (0., 2.)]
        us = [np.array([a, b]) for a in (-4., 0.3, 1.) for b in (-1., 1.)]
        wins = ((5, 1.), (3., .5)) if not deep else ((5, 1.), (3., .5), (10., 2.), (1., 3.))
    else:
        mk, A, B, cons = docking_3d.Docking3dImplicitOptimizationRTA, *zoo.cwh(3, **pa), zoo.docking(3, **za)
        ctl = docking_3d.Docking3dStopLQRBackupController(**pa)
        xs = [np.array([p * np.cos(t), p * np.sin(t) * .6, p * np.sin(t) * .8, v * np.cos(t + w) * .6, v * np.sin(t + w), v * np.cos(t + w) * .8])
              for p in (5., 90., 900.) for t in (0.3, 2.5) for v in (0.19, 0.5, 3.7) for w in (0., 2.)]
        us = [np.array([a, b, 1.]) for a in (-4., 1.) for b in (-1., 0.)]
        wins = ((5, 1.),) if not deep else ((5, 1.), (3., .5))
    n, m = B.shape
    ctl = own or ctl
    if cfg and not deep:
        xs, wins = xs[1::2], wins[:1]
    for meth in ("RK45", "Euler"):
        for W, dt in wins:
            rta = mk(backup_window=W, integration_method=meth, **kw)
            K0 = np.array(ctl.generate_control(np.zeros(n), dt), float)
            K = np.array([np.array(ctl.generate_control(e, dt), float) - K0 for e in np.eye(n)]).T
            F = A + B @ K
            N = int(np.floor(W / dt + 1e-6))
            for x in xs if deep else xs[::2]:
                tr, S, sat = [x], [np.eye(n)], False
                for _ in range(N):
                    ub = K0 + K @ tr[-1]
                    sat = sat or np.any(ub > high) or np.any(ub < low)
                    tr.append(zoo.zoh(A, B, tr[-1], dt, ub) if meth == "RK45" else zoo.euler(A, B, tr[-1], dt, ub))
                    S.append(S[-1] + dt * F @ S[-1])
                C, b, names = rigs.bound_rows(m, low, high)
                for c in cons:
                    sel = list(zip(tr, S))
                    if which == "int":  # documented configuration of that filter: only the least safe point
                        vals = [c.hb(y) for y in tr]
                        o = np.argsort(vals, kind="stable")
                        if vals[o[1]] - vals[o[0]] < 1e-5:
                            sat = True
                        sel = [sel[o[0]]]
                    for y, s in sel:
                        gr = c.grad(y)
                        C.append(gr @ s @ B)
                        b.append(-gr @ s @ (A @ x) - rigs.poly(c.alpha, c.hb(y)))
                        names.append(c.name)
                for u in us:
                    rep.count_states()
                    got = rta.filter_control(x, dt, u)
                    if sat:
                        rep.skip()
                        continue
                    r = rigs.solve_qp(u, C, b)
                    exp = rigs.clip(u, low, high) if r is None else r[0]
                    rep.step(f"{which}:{'infeasible' if r is None else 'same' if np.allclose(exp, u) else 'opt'}")
                    if not np.allclose(got, exp, atol=3e-3):
                        if sensitive(C, b, u, None, None if r is None else r[0], 3e-3, 1e-4, got):
                            rep.skip()
                            continue
                        rep.violation("supplied implicit filter does not return the closest admissible control", filter=which, config=cfg, method=meth, window=W, step=dt, state=x, desired=u, got=got, expected=exp)
    rep.trace()


def shards(tier):
    deep = tier == "thorough"
    out = []
    for w in ("d3", "d2", "int"):
        out.append(("supplied", dict(which=w, deep=deep)))
        for c in ICONF if w == "int" else DCONF:
            if c != "ownbounds" or w == "d2":  # (the others' own controller saturates those bounds everywhere)
                out.append(("supplied", dict(which=w, deep=deep, cfg=c)))
    for w, dt in ((20., .5), (75., .5), (150., 1.)) + (((260., 1.), (64., .25)) if deep else ()):
        out.append(("long", dict(window=w, dt=dt, jit=True)))
    parts = 8
    for p in range(parts):
        out.append(("subsample", dict(part=p, parts=parts, jit=deep, deep=deep)))
    if deep:
        for p in range(parts):
            out.append(("subsample", dict(part=p, parts=parts, jit=False, deep=deep)))
    i = 0
    for cfg in ("lin3", "lin2", "nl2", "di", "nldi", "count", "countd"):
        for form in FORMS[config(cfg)["plant"].m]:
            for wi, w in enumerate(WINDOWS):
                i += 1
                if not deep and i % 5 and not (form != "none" and wi == 1):
                    continue
                out.append(("window", dict(cfg=cfg, form=form, win=w, jit=not cfg.startswith("count"), deep=deep, slack=i % 3 == 0)))
    return out
