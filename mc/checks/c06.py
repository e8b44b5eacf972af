"""C06 implicit switching: complete lattice x windows x step sizes x constraint subsets x controllers against the trajectory reference."""
import itertools

import numpy as np

from mc import fleet, rigs, zoo
from mc.checks.c05 import DCONF, ICONF, configured
from mc.ref import Sys
from mc.rigs import CSpec, DI, LIN2, SI1, LinearBackup

BOUNDS = ("toy plants: every (p,v,u) of the lattice x (window, step) pairs {(0,.5) (.5,.5) (1,.5) (2,1) (2.5,1) (1.25,.5)} plus floating-point-inexact quotients "
          "{(.3,.1) (.6,.2) (.7,.1) (1.2,.4) (.9,.3)} x enabled subsets x bound forms x {memoryless, array, dict, in-place memory} controllers with every memory "
          "value 0..3; windows of up to 260 (thorough 600) steps with a keep-out hit at one predicted step only, every step in turn; step sizes 2^-10 .. 2^7 with windows at and around multiples; the last predicted value 2^-22 .. 2^-2 of the limit on either side of zero; supplied implicit switching filters: product grid of states, controls, windows and 3-4 non-default configurations (mass, mean motion, speed law, limits, bounds, own backup controller)")
ASSUMPTIONS = ["boundary cases closer than 1e-5 (toy, inexact steps) or 5e-4 (supplied) to zero are not decided; dyadic cases are decided exactly"]


def specs():
    return [CSpec("pmax", "max", 2., idx=0), CSpec("vmin", "min", -2., idx=1), CSpec("brake", "brake", 4., bias=-0.5)]


CTLS = {"linear": lambda: LinearBackup([[0., 1.]], [0.]), "push": lambda: LinearBackup([[0., 0.]], [0.5]), "array": fleet.counter("array", slope=0.25, c0=-0.5),
        "dict": fleet.counter("dict", slope=-0.5, c0=1.), "inplace": fleet.counter("inplace", slope=0.5, c0=-1.)}


def toy(rep, ctl, window, dt, low, high, deep, jit=True, opts=None):
    sysm = Sys("isimplex", DI, specs(), ctl=CTLS[ctl], low=low, high=high, window=window, jit_enable=jit, **({"jit_compile_dict": opts} if opts else {}))
    rta = sysm.build()
    exact = dt in (0.25, 0.5, 1., 2.)
    ps = [-2., -1., 0., 0.5, 1., 1.5, 2., 2.25]
    vs = [-2., -1., 0., 0.5, 1., 1.5]
    us = [-4., -0.5, 0.5, 1.]
    if deep:
        ps, vs, us = list(np.arange(-2, 2.51, 0.25)), list(np.arange(-2.5, 2.01, 0.25)), [-4., -1., -0.5, 0., 0.25, 0.5, 1., 4.]
    if not exact:
        ps, vs = [p + 0.013 for p in ps], [v + 0.007 for v in vs]
        ps += [1.7, 1.62, 1.83, 1.55]
    mems = [0] if ctl in ("linear", "push") else ([0, 2] if not deep else [0, 1, 2, 3])
    subsets = [(1, 1, 1), (1, 0, 0), (0, 1, 0), (0, 0, 1)] if not deep else list(itertools.product([1, 0], repeat=3))
    for en in subsets:
        m0 = sysm.init()._replace(en=tuple(bool(e) for e in en))
        sysm.apply_config(rta, m0)
        for mem in mems:
            for p, v, u in itertools.product(ps, vs, us):
                if mems != [0]:
                    rta.reset()
                for _ in range(mem):  # advance the controller the way an application of its control does
                    rta.backup_controller.generate_control(np.zeros(2), dt)
                m = m0._replace(mem=None if ctl in ("linear", "push") else sysm.mem0() + mem)
                _, out = sysm.step(m, [p, v], dt, [u])
                rep.count_states()
                if not exact and out.margin < 1e-5:
                    rep.skip()
                    continue
                got = rta.filter_control(np.array([p, v]), dt, np.array([u]))
                rep.step(out.status)
                msg = sysm.compare(out, rta, got)
                if msg:
                    rep.violation(msg, controller=ctl, window=window, dt=dt, low=low, high=high, enabled=en, memory=mem, state=[p, v], desired=u)
                elif out.status == "backup":
                    rep.sample(dict(window=window, dt=dt, x=[p, v], u=u, out=got), limit=1)
    rep.trace()


def two(rep, window, dt):
    """two inputs: exact lattice on the coupled linear plant"""
    sysm = Sys("isimplex", LIN2, [CSpec("a", "max", 1., idx=0), CSpec("b", "mag", 1., idx=1), CSpec("c", "ball", 2., vec=[0., 0.])],
               ctl=lambda: LinearBackup([[1., 0.], [0., 0.5]]), low=[-1., -0.5], high=[0.5, 2.], window=window, exact=False)
    rta = sysm.build()
    g, us = [-1.25, -0.5, 0., 0.5, 0.75, 1.], [-2., 0., 0.5, 3.]
    for x, u in itertools.product(itertools.product(g, g), itertools.product(us, us)):
        _, out = sysm.step(sysm.init(), x, dt, u)
        rep.count_states()
        if out.margin < 1e-5:
            rep.skip()
            continue
        got = rta.filter_control(np.array(x), dt, np.array(u))
        rep.step(out.status)
        msg = sysm.compare(out, rta, got)
        if not msg and bool(rta.intervening) != out.interv:
            msg = "intervening flag wrong"
        rep.check(not msg, msg or "", state=x, desired=u, window=window, dt=dt)
    rep.trace()


def supplied(rep, which, method, window, deep, cfg=None):
    from run_time_assurance.zoo.cwh import docking_2d, docking_3d
    from run_time_assurance.zoo.integrators import integrator_1d
    kw, pa, za, own, low, high = configured(which, cfg)
    if window is not None:
        kw["backup_window"] = window
    if which == "int":
        rta = integrator_1d.Integrator1dDockingImplicitSwitchingRTA(integration_method=method, **kw)
        A, B = zoo.integ(**pa)
        cons = zoo.integrator_implicit()
        ctl = integrator_1d.Integrator1dDockingBackupController()
        xs = [np.array([p, v]) for p in (-3., -2.02, -1.13, -0.52, -0.11) for v in (-0.7, 0.03, 0.6, 0.97, 1.4, 1.83, 2.1)]
        us = [np.array([u]) for u in (-3., -0.4, 0.7, 5.)]
        dts = [0.5, 1.]
    elif which == "d2":
        rta = docking_2d.Docking2dImplicitSwitchingRTA(integration_method=method, **kw)
        A, B = zoo.cwh(2, **pa)
        cons = zoo.docking(2, **za)
        ctl = docking_2d.Docking2dStopLQRBackupController(**pa)
        xs = [np.array([p * np.cos(t), p * np.sin(t), v * np.cos(t + w), v * np.sin(t + w)])
              for p in (2., 80., 600.) for t in (0.3, ) for v in (0.13, 0.19, 0.31, 0.36, 1.38, 1.45) for w in (0., 2., 3.1)]
        us = [np.array([a, b]) for a in (-4., 1.) for b in (-1., 0.3)]
        dts = [1.]
    else:
        rta = docking_3d.Docking3dImplicitSwitchingRTA(integration_method=method, **kw)
        A, B = zoo.cwh(3, **pa)
        cons = zoo.docking(3, **za)
        ctl = docking_3d.Docking3dStopLQRBackupController(**pa)
        xs = [np.array([p * np.cos(t), p * np.sin(t) * .6, p * np.sin(t) * .8, v * np.cos(t + w) * .6, v * np.sin(t + w), v * np.cos(t + w) * .8])
              for p in (2., 80., 600.) for t in (0.3, ) for v in (0.1, 0.19, 0.5, 2.6) for w in (0., 2., 3.1)]
        us = [np.array([a, b, c]) for a in (-4., 1.) for b in (0., ) for c in (-1., 2.)]
        dts = [1.]
    if deep:
        dts = dts + [0.25, 2.]
    W = rta.backup_window
    ctl = own or ctl
    import jax
    gen = jax.jit(lambda s: ctl.generate_control(s, 1.))
    for dt in dts:
        Ad, Bd = zoo.zoh_mats(A, B, dt) if method == "RK45" else (np.eye(len(A)) + dt * A, dt * B)
        for x, u in itertools.product(xs, us):
            x1 = Ad @ x + Bd @ rigs.clip(u, low, high)
            hv = [c.hb(x1) for c in cons]
            for _ in range(int(np.floor(W / dt + 1e-6))):
                ub = rigs.clip(np.asarray(gen(x1.astype(np.float32)), float), low, high)
                x1 = Ad @ x1 + Bd @ ub
                hv += [c.hb(x1) for c in cons]
            rep.count_states()
            bad = min(hv) < 0
            # undecided when the worst point is on the boundary
            if abs(min(hv)) < 5e-4:
                rep.skip()
                continue
            exp = rigs.clip(np.asarray(gen(x.astype(np.float32)), float), low, high) if bad else rigs.clip(u, low, high)
            got = rta.filter_control(x, dt, u)
            rep.step(f"{which}:{'backup' if bad else 'pass'}{':late' if bad and min(hv[:len(cons)]) >= 0 else ''}")
            rep.check(np.allclose(got, exp, atol=5e-5) and bool(rta.intervening) == bad, "wrong implicit switching decision", filter=which, config=cfg, method=method,
                      window=W, dt=dt, state=x, desired=u, got=got, expected=exp, worst=min(hv), intervening=rta.intervening)
    rep.trace()


def long(rep, window, dt, n, jit):
    """long windows: a keep-out of less than a step's width is placed at every predicted step in turn (before, at every point of, and after the window)"""
    at = [-40., 40., 3.]  # the constraint that is hit moves from first to last; the others stay far away
    for which in range(3):
        cs = [CSpec("k%d" % i, "bowl", 0.375 * dt, vec=[2048. if i == which else 1e6 * a]) for i, a in enumerate(at)]
        sysm = Sys("isimplex", SI1, cs, ctl=lambda: LinearBackup([[0.]], [1.]), low=-1., high=1., window=window, jit_enable=jit)
        rta = sysm.build()
        ks = range(-3, n + 5) if n <= 64 and which == 2 or n <= 12 else [-2, -1, 0, 1, n // 3, n // 2, n - 2, n - 1, n, n + 1, n + 2] + ([9, 10, 15, 16, 31, 32, 49, 50, 63, 64, 99, 100, 127, 128, 199, 200, 255, 256] if which == 2 else [])
        for k in ks:
            x0 = 2048. - (k + 1) * dt   # after the desired control 1 and k backup steps the state is the keep-out's centre
            for u in (1., 0.):
                got = rta.filter_control(np.array([x0]), dt, np.array([u]))
                j = k if u else k + 1   # a zero desired control arrives one step later
                exp = 0 <= j <= n
                rep.count_states()
                rep.step("hit" if exp else "missed")
                rep.check(bool(rta.intervening) == exp and abs(float(got[0]) - (1. if exp else u)) < 1e-6 or (u == 1. and not exp and not rta.intervening),
                          "wrong implicit switching decision: keep-out hit only at one predicted step", window=window, dt=dt, steps=n, hit_step=j, constraint=which, desired=u, got=got,
                          intervening=rta.intervening, expected_backup=exp)
    rep.trace()


def scale(rep, k):
    """step sizes 2^k from tiny to huge, windows at, just below and just above multiples of the step; everything on an exact lattice"""
    dt = 2.**k
    for w in (0., 0.5, 1., 1.75, 2.9375, 3., 3.0625, 5.99):
        sysm = Sys("isimplex", SI1, [CSpec("top", "max", 2., idx=0), CSpec("bottom", "min", -2., idx=0)], ctl=lambda: LinearBackup([[0.]], [-0.5 / dt]), low=-2. / dt, high=1. / dt, window=w * dt)
        rta = sysm.build()
        for x, u in itertools.product(np.arange(-2., 2.76, 0.25), (-3., -1., 0.25, 1., 4.)):
            _, out = sysm.step(sysm.init(), [x], dt, [u / dt])
            got = rta.filter_control(np.array([x]), dt, np.array([u / dt]))
            rep.count_states()
            rep.step(out.status)
            ok = np.allclose(np.asarray(got, float) * dt, np.asarray(out.u) * dt, atol=1e-6) and bool(rta.intervening) == out.interv
            rep.check(ok, "wrong implicit switching decision", dt=dt, window=w * dt, state=x, desired=u / dt, got=got, expected=out.u, intervening=rta.intervening)
    rep.trace()


def margins(rep, deep):
    from mc.checks import c05
    c05.margins(rep, "isimplex", deep)


def shards(tier):
    deep = tier == "thorough"
    out = []
    for w, dt, n in ((5., .5, 10), (20., .5, 40), (64., 1., 64), (75., .5, 150), (260., 1., 260)) + (((600., 1., 600), (32., .25, 128), (100., 1., 100)) if deep else ()):
        out.append(("long", dict(window=w, dt=dt, n=n, jit=True)))
    for which, method, w in (("d3", "RK45", None), ("d2", "RK45", None), ("int", "RK45", None), ("d2", "Euler", 20.), ("int", "Euler", 3.), ("d3", "Euler", 10.), ("int", "RK45", 1.)):
        out.append(("supplied", dict(which=which, method=method, window=w, deep=deep)))
    for which in ("d3", "d2", "int"):
        for cfg in ICONF if which == "int" else DCONF:
            out.append(("supplied", dict(which=which, method="RK45", window=3. if which == "int" else 8., deep=deep, cfg=cfg)))
    for w, dt in ((0., .5), (.5, .5), (1., .5), (2., 1.), (2.5, 1.), (1.25, .5)):
        out.append(("toy", dict(ctl="linear", window=w, dt=dt, low=-1., high=1., deep=deep)))
    for w, dt in ((.3, .1), (.6, .2), (.7, .1), (1.2, .4), (.9, .3)):
        out.append(("toy", dict(ctl="push", window=w, dt=dt, low=-1., high=1., deep=deep)))
    for c in ("array", "dict", "inplace"):
        for w, dt in ((1., .5), (2., 1.)) if not deep else ((1., .5), (2., 1.), (3., 1.), (2., .5), (0.75, .25)):
            out.append(("toy", dict(ctl=c, window=w, dt=dt, low=-0.75, high=1., deep=deep)))
    out.append(("toy", dict(ctl="push", window=1., dt=.5, low=None, high=None, deep=deep)))
    out.append(("toy", dict(ctl="push", window=1., dt=.5, low=None, high=[0.25], deep=False)))
    out.append(("toy", dict(ctl="linear", window=1., dt=.5, low=[-0.5], high=None, deep=False, opts={"integrate": True, "pred_state": True})))
    for k in (-10, -5, 3, 7) if not deep else range(-12, 11):
        out.append(("scale", dict(k=k)))
    for w, dt in ((1., .5), (2., 1.)):
        out.append(("two", dict(window=w, dt=dt)))
    out.append(("margins", dict(deep=deep)))
    return out
