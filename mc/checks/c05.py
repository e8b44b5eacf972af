"""C05 explicit switching: complete enumeration of an exact lattice against the one-step reference decision."""
import itertools

import numpy as np

from mc import rigs, zoo
from mc.ref import Sys
from mc.rigs import CSpec, DI, LIN2, LinearBackup, SI1

BOUNDS = ("toy plants: every (p,v,u,dt) of the lattice x all subsets of enabled constraints x 6 bound forms; step sizes 2^-12 .. 2^10; predicted values 2^-22 .. 2^-2 of the limit (2^-10, 0, 1, 2^12) on either side; "
          "supplied filters: full product grid of states, controls, step sizes, both integration methods and 3-4 non-default configurations (mass, mean motion, speed law, limits, bounds, own backup controller)")
ASSUMPTIONS = ["supplied filters: cases whose predicted constraint value is within 2e-4 of zero are not decided (float32)",
               "toy plants use dyadic numbers so that boundary cases are exact"]

FORMS = {"none": (None, None), "scalar": (-1., 1.), "int": (-1, 1), "low": (-1., None), "high": (None, 1.), "list": ([-0.5], [1.]),
         "array": (np.array([-1.]), np.array([0.5]))}


def di_specs():
    return [CSpec("pmax", "max", 2., idx=0), CSpec("vmin", "min", -2., idx=1), CSpec("brake", "brake", 4., bias=-0.5)]


def toy(rep, form, jit, deep):
    low, high = FORMS[form]
    specs = di_specs()
    ctl = LinearBackup([[0., 2.]], [0.25])
    rta = rigs.make("esimplex", DI, specs, ctl, control_bounds_low=low, control_bounds_high=high, jit_enable=jit)
    ps = [-1., 0., 0.5, 1., 1.5, 2., 2.5]
    vs = [-2.5, -2., -1., 0., 0.5, 1., 1.5, 2.]
    us = [-4., -1., 0., 0.5, 1., 4.]
    if deep:
        ps = list(np.arange(-1.5, 3.01, 0.25))
        vs = list(np.arange(-3, 3.01, 0.25))
        us = [-4., -2., -1., -0.75, -0.5, -0.25, 0., 0.25, 0.5, 0.75, 1., 2., 4.]
    dts = [0.5, 1.] if not deep else [0.25, 0.5, 1., 2.]
    for en in itertools.product([True, False], repeat=3):
        for s, e in zip(specs, en):
            rta.constraints[s.name].enabled = e
        for dt, p, v, u in itertools.product(dts, ps, vs, us):
            x = np.array([p, v])
            uc = rigs.clip([u], low, high)
            pred = DI.step(np, x, dt, uc)
            bad = any(e and s.hb(pred) < 0 for s, e in zip(specs, en))
            exp = rigs.clip(ctl.ref(x, dt, None)[0], low, high) if bad else uc
            out = rta.filter_control(x, dt, np.array([u]))
            rep.step("backup" if bad else ("pass" if u == uc[0] else "pass-clipped"))
            rep.count_states()
            if not np.array_equal(out, exp.astype(np.float32)) or bool(rta.intervening) != bad:
                rep.violation("wrong switching decision or control", enabled=en, dt=dt, state=x, desired=u, got=out,
                              expected=exp, intervening=rta.intervening, expected_intervening=bad)
            if bad and any(s.hb(pred) == 0 for s, e in zip(specs, en) if e):
                rep.sample(dict(x=x, u=u, dt=dt, out=out))
    rep.trace(1)


def toy2d(rep, order):
    """two inputs, two constraints of different order in the dictionary, per-element bounds"""
    low, high = [-1., -0.5], [0.5, 2.]
    specs = [CSpec("a", "max", 1., idx=0), CSpec("b", "mag", 1., idx=1), CSpec("c", "ball", 2., vec=[0., 0.])]
    specs = [specs[i] for i in order]
    ctl = LinearBackup([[1., 0.], [0., 1.]])
    rta = rigs.make("esimplex", LIN2, specs, ctl, control_bounds_low=low, control_bounds_high=high)
    g = [-1.5, -1., 0., 0.5, 1., 1.25]
    us = [-2., 0., 0.5, 3.]
    for dt, p, v, u1, u2 in itertools.product([0.5, 1.], g, g, us, us):
        x = np.array([p, v])
        uc = rigs.clip([u1, u2], low, high)
        pred = LIN2.step(np, x, dt, uc)
        bad = any(s.hb(pred) < 0 for s in specs)
        exp = rigs.clip(ctl.ref(x, dt, None)[0], low, high) if bad else uc
        out = rta.filter_control(x, dt, np.array([u1, u2]))
        rep.step("backup" if bad else "pass")
        rep.count_states()
        rep.check(np.array_equal(out, exp.astype(np.float32)) and bool(rta.intervening) == bad, "wrong switching decision or control", dt=dt,
                  state=x, desired=[u1, u2], got=out, expected=exp, intervening=rta.intervening)
    rep.trace(1)


# non-default configurations: constructor arguments, the matching reference arguments, a controller of the user's own (gain, offset)
DCONF = {"heavy": dict(kw=dict(m=6., v0=0.4, v1_coef=3., v0_distance=30.), za=dict(v0=0.4, v1_coef=3., v0d=30.)),
         "fast": dict(kw=dict(n=0.002, x_vel_limit=1.5, y_vel_limit=2.5), za=dict(n=0.002, lims=(1.5, 2.5, 10))),
         "own": dict(kw=dict(), za=dict(), own=(2.5, 0.125)),
         "ownbounds": dict(kw=dict(), za=dict(), own=(2.5, -0.25), low=-0.5, high=0.25)}
ICONF = {"heavy": dict(kw=dict(m=2.), za={}), "own": dict(kw={}, za={}, own=(1.5, -0.25)), "ownbounds": dict(kw=dict(m=0.5), za={}, own=(1.5, -0.25), low=-0.75, high=0.5)}


def configured(which, cfg):
    """constructor arguments, plant matrices' arguments, reference-constraint arguments, controller, bounds"""
    if cfg is None:
        return {}, {}, {}, None, -1., 1.
    c = (ICONF if which == "int" else DCONF)[cfg]
    kw, ctl = dict(c["kw"]), None
    dim = {"int": 1, "d2": 2, "d3": 3}[which]
    if "own" in c:
        k, o = c["own"]
        ctl = rigs.LinearBackup(np.hstack([0.001 * np.eye(dim), k * np.eye(dim)]), [o * (i + 1) / dim for i in range(dim)])
        kw["backup_controller"] = rigs.LinearBackup(ctl.K, ctl.k0)
    low, high = c.get("low", -1.), c.get("high", 1.)
    if "low" in c:
        kw.update(control_bounds_low=low, control_bounds_high=high)
    return kw, {a: c["kw"][a] for a in ("m", "n") if a in c["kw"]}, c["za"], ctl, low, high


def supplied(rep, which, method, deep, cfg=None):
    from run_time_assurance.zoo.cwh import docking_2d, docking_3d
    from run_time_assurance.zoo.integrators import integrator_1d
    kw, pa, za, own, low, high = configured(which, cfg)
    if which == "int":
        mk = integrator_1d.Integrator1dDockingExplicitSwitchingRTA
        A, B = zoo.integ(**pa)
        cons = zoo.integrator_explicit()
        ctl = integrator_1d.Integrator1dDockingBackupController()
        xs = [np.array([p, v]) for p in (-3., -2., -1.13, -0.52, -0.11, 0.02) for v in (-0.7, 0.03, 0.6, 0.97, 1.4, 2.1, 2.6)]
        us = [np.array([u]) for u in (-3., -1., -0.4, 0., 0.7, 1., 5.)]
        dts = [0.1, 0.5, 1.]
    elif which == "d2":
        mk = docking_2d.Docking2dExplicitSwitchingRTA
        A, B = zoo.cwh(2, **pa)
        cons = zoo.docking(2, **za)
        ctl = docking_2d.Docking2dStopLQRBackupController(**pa)
        xs = [np.array([p * np.cos(t), p * np.sin(t), v * np.cos(t + w), v * np.sin(t + w)])
              for p in (1., 80., 900.) for t in (0.3, 2.5) for v in (0.1, 0.19, 0.36, 1.9, 2.1, 9.99, 10.2) for w in (0., 2., 3.3)]
        us = [np.array([a, b]) for a in (-4., -1., 0.3, 1.) for b in (-1., 0., 1.)]
        dts = [1., 10.]
    else:
        mk = docking_3d.Docking3dExplicitSwitchingRTA
        A, B = zoo.cwh(3, **pa)
        cons = zoo.docking(3, **za)
        ctl = docking_3d.Docking3dStopLQRBackupController(**pa)
        xs = [np.array([p * np.cos(t), p * np.sin(t) * .6, p * np.sin(t) * .8, v * np.cos(t + w) * .6, v * np.sin(t + w), v * np.cos(t + w) * .8])
              for p in (1., 80., 900.) for t in (0.3, 2.5) for v in (0.1, 0.19, 0.5, 3.7, 10.2) for w in (0., 2., 3.3)]
        us = [np.array([a, b, c]) for a in (-4., 1.) for b in (-1., 0.) for c in (-1., 1., 2.)]
        dts = [1., 10.]
    rta = mk(integration_method=method, **kw)
    ctl = own or ctl
    stepf = zoo.zoh if method == "RK45" else zoo.euler
    if which == "d2" and not deep:
        xs = xs[::2]
    for dt in dts:
        if method == "RK45":
            Ad, Bd = zoo.zoh_mats(A, B, dt)
        else:
            Ad, Bd = np.eye(len(A)) + dt * A, dt * B
        for x, u in itertools.product(xs, us):
            uc = rigs.clip(u, low, high)
            pred = Ad @ x + Bd @ uc
            hv = [c.hb(pred) for c in cons]
            rep.count_states()
            if any(abs(h) < 2e-4 for h in hv):
                rep.skip()
                continue
            bad = min(hv) < 0
            exp = rigs.clip(np.asarray(ctl.generate_control(x.astype(np.float32), dt)), low, high) if bad else uc
            out = rta.filter_control(x, dt, u)
            rep.step(f"{which}:{'backup' if bad else 'pass'}")
            rep.check(np.allclose(out, exp, atol=2e-5) and bool(rta.intervening) == bad, "wrong switching decision or control",
                      filter=which, config=cfg, method=method, dt=dt, state=x, desired=u, got=out, expected=exp, intervening=rta.intervening, h_pred=hv)
            rep.sample(dict(filter=which, x=x, u=u, dt=dt, backup=bad), limit=2)
    rep.trace(1)


def scale(rep, k):
    """step sizes 2^k from tiny to huge; controls scale with 1/step so that every case stays on the exact lattice"""
    dt = 2.**k
    ctl = LinearBackup([[0.]], [-1. / dt])
    for low, high in ((None, None), (-2. / dt, 1. / dt)):
        specs = [CSpec("top", "max", 2., idx=0), CSpec("bottom", "min", -2., idx=0)]
        rta = rigs.make("esimplex", SI1, specs, ctl, control_bounds_low=low, control_bounds_high=high)
        for x, u in itertools.product(np.arange(-3., 3.01, 0.25), np.arange(-4., 4.01, 0.5)):
            uc = rigs.clip([u / dt], low, high)
            pred = SI1.step(np, np.array([x]), dt, uc)
            bad = any(s.hb(pred) < 0 for s in specs)
            exp = rigs.clip([-1. / dt], low, high) if bad else uc
            out = rta.filter_control(np.array([x]), dt, np.array([u / dt]))
            rep.step("backup" if bad else "pass")
            rep.count_states()
            rep.check(np.array_equal(out, exp.astype(np.float32)) and bool(rta.intervening) == bad, "wrong switching decision or control", dt=dt, state=x, desired=u / dt, got=out,
                      expected=exp, intervening=rta.intervening)
    rep.trace()


def margins(rep, kind, deep):
    """predicted values 2^-k above and below zero: the sign alone decides, however narrow (or wide) the margin; every case exact in single precision"""
    for L in (2.**-10, 0., 1., 2.**12):
        S = L or 1.
        dt, w = 0.5, 0.5 * S
        for name in ("max", "min") + (("mag",) if L else ()):
            sgn = -1. if name == "min" else 1.
            spec = CSpec("c", name, sgn * L, idx=0)
            far = CSpec("far", "max", 64. * S, idx=0)
            for order in (0, 1):
                sysm = Sys(kind, SI1, [spec, far] if order else [far, spec], ctl=lambda: LinearBackup([[0.]], [sgn * 0.25 * S if kind == "isimplex" else -sgn * S]), window=1.)
                rta = sysm.build()
                for k in range(0, (21 if not deep else 23) if L else 40):
                    for side in (1., -1., 0.):
                        # in one step (or, looking ahead, after one step and two backup steps) the state is 2^-k beyond / before / at the limit
                        tgt = sgn * (L + side * 2.**-k * S / 4)
                        x = tgt - dt * sgn * w - (2 * dt * sgn * 0.25 * S if kind == "isimplex" else 0.)
                        if not L:
                            x, w = tgt, 0.
                            if kind == "isimplex":
                                continue
                        _, out = sysm.step(sysm.init(), [x], dt, [sgn * w])
                        got = rta.filter_control(np.array([x]), dt, np.array([sgn * w]))
                        rep.count_states()
                        rep.step(f"margin {out.status}")
                        rep.check(np.allclose(np.asarray(got, float) / S, np.asarray(out.u) / S, atol=1e-6) and bool(rta.intervening) == out.interv, "the sign of a predicted constraint value does not decide",
                                  kind=name, limit=L, beyond=side * 2.**-k * S / 4, state=x, got=got, expected=out.u, intervening=rta.intervening)
    rep.trace()


def shards(tier):
    deep = tier == "thorough"
    out = []
    for which, method in (("d3", "RK45"), ("d2", "RK45"), ("d3", "Euler"), ("int", "RK45"), ("d2", "Euler"), ("int", "Euler")):
        out.append(("supplied", dict(which=which, method=method, deep=deep)))
    for which in ("d3", "d2", "int"):
        for cfg in ICONF if which == "int" else DCONF:
            out.append(("supplied", dict(which=which, method="RK45", deep=deep, cfg=cfg)))
    for f in FORMS:
        out.append(("toy", dict(form=f, jit=True, deep=deep)))
    out.append(("toy", dict(form="scalar", jit=False, deep=False)))
    for k in (-12, -8, -5, 2, 4, 7, 10) if not deep else range(-14, 13):
        out.append(("scale", dict(k=k)))
    for o in ((0, 1, 2), (2, 0, 1), (1, 2, 0)):
        out.append(("toy2d", dict(order=o)))
    out.append(("margins", dict(kind="esimplex", deep=deep)))
    return out
