"""C01 actuator bounds: complete grid over algorithms x bound forms x states x desired controls x step sizes, plus latched histories."""
import itertools

import numpy as np

from mc import fleet, rigs, zoofleet
from mc.rigs import CSpec, DI, LIN2, LIN3, LinearBackup
from mc.ref import Sys

BOUNDS = ("16 bound forms per algorithm (number, int, list, float64/float32/int array, one-sided, infinite, zero, away from zero, none) x product grids of states, desired controls and "
          "step sizes for 6 algorithms and 17 supplied filters; integer, single-precision and jax desired controls; the calls run in one history per filter, so histories up to thousands of calls")
ASSUMPTIONS = ["bounds are compared with a tolerance of 1e-6 (outputs are single precision)"]

FORMS1 = {"none": (None, None), "num": (-1., 1.), "int": (-1, 1), "list": ([-0.5], [0.75]), "arr": (np.array([-0.5]), np.array([1.])),
          "low": (-0.5, None), "high": (None, 0.5), "f32": (np.array([-0.25], np.float32), np.array([0.5], np.float32)), "frac": (-0.1, 0.3), "zerolow": (0, 1.), "zerohigh": (-1., 0), "onlyzero": (None, 0.), "pos": ([0.25], 0.75), "intarr": (np.array([-2]), np.array([1]))}
FORMS2 = {"none": (None, None), "num": (-1., 1.), "int": (-1, 1), "list": ([-0.5, -1.], [0.75, 0.25]),
          "arr": (np.array([-0.5, -0.125]), np.array([1., 0.25])), "low": ([-0.5, -0.25], None), "high": (None, [0.5, 0.125]),
          "lownum": (-0.5, None), "f32": (np.array([-0.25, -1.], np.float32), np.array([0.5, 2.], np.float32)), "mixed": (-0.5, [0.25, 1.]),
          "zerolow": ([0., -1.], 0.5), "zeronum": (0, None), "zerohigh": (-1, [0, 0.5]), "pos": ([0.25, -0.75], [0.75, -0.25]), "intlist": ([-1, -2], np.array([2, 1])),
          "infmix": ([-np.inf, -0.25], [0.5, np.inf]), "infnum": (-np.inf, 0.5)}
FORMS3 = {"none": (None, None), "num": (-1., 1.), "list": ([-0.5, -1., -0.125], [0.75, 0.25, 2.]), "low": ([-0.5, -0.25, -1.], None), "high": (None, 0.5)}


def inb(u, low, high, tol=1e-6):
    u = np.asarray(u, float)
    ok = np.all(np.isfinite(u))
    if low is not None:
        ok = ok and np.all(u >= np.asarray(low, float) - tol)
    if high is not None:
        ok = ok and np.all(u <= np.asarray(high, float) + tol)
    return bool(ok)


def systems(kind, dim, form):
    low, high = {1: FORMS1, 2: FORMS2, 3: FORMS3}[dim][form]
    if dim == 1:
        specs = [CSpec("pmax", "max", 2., idx=0), CSpec("vlim", "mag", 2., idx=1)]
        plant, ctl = DI, (lambda: LinearBackup([[0., 2.]], [0.25]))
        if "asif" in kind:
            specs = [CSpec("brake", "brake", 4.), CSpec("vlim", "mag", 2., idx=1)]
    elif dim == 2:
        plant, ctl = LIN2, (lambda: LinearBackup([[3., 0.5], [0., 2.]], [0.5, -0.25]))
        specs = [CSpec("a", "max", 1., idx=0), CSpec("b", "aff", 1., vec=[0.5, 1.])]
    else:
        plant, ctl = LIN3, (lambda: LinearBackup(np.array([[3., 0.5, 0.], [0., 2., 1.], [1., 0., 1.]])))
        specs = [CSpec("a", "max", 1., idx=0), CSpec("b", "min", -1., idx=1), CSpec("c", "mag", 1., idx=2)]
    if kind.startswith("dasif"):
        specs = [s for s in specs if s.kind in ("max", "min", "aff")] or [CSpec("a", "aff", 2., vec=[1., 1.])]
    kw = {}
    if kind == "dasif" and dim == 1:
        specs = [CSpec("a", "max", 2., idx=1)]
    return Sys(kind, plant, specs, ctl=ctl if kind in ("esimplex", "isimplex", "iasif") else None, low=low, high=high, window=1.,
               exact=False, **kw)


def toy(rep, kind, dim, form, latch=0., deep=False):
    sysm = systems(kind, dim, form)
    sysm.latch = latch
    rta = sysm.build()
    low, high = sysm.low, sysm.high
    g = {1: [-1., 0., 1., 1.5, 2.5], 2: [-1., 0., 0.75, 1.25, 3.], 3: [-1.25, 0., 0.75, 2.]}[sysm.plant.n if dim == 3 else 2 if dim == 2 else 1]
    us = {1: [-9., -1., -0.25, 0., 0.2, 0.5, 1., 7.], 2: [-5., -0.25, 0., 0.125, 0.5, 4.], 3: [-4., 0., 0.25, 3.]}[dim]
    dts = [0.5, 1.] if not deep else [0.1, 0.25, 0.5, 1., 2.]
    slow = kind in ("iasif", "dasifint", "dasif")
    if slow and not deep:
        g, us = g[::2], us[::2] if dim < 3 else us[::3]
        dts = [0.5]
    m = sysm.init()
    for dt, x, u in itertools.product(dts, itertools.product(g, repeat=sysm.plant.n), itertools.product(us, repeat=dim)):
        x, u = np.array(x), np.array(u)
        got = rta.filter_control(x, dt, u)
        rep.count_states()
        want = inb(u, low, high, 0.)
        rep.step(f"{kind}:{'in' if want else 'out'}:{'int' if rta.intervening else 'pass'}")
        if not inb(got, low, high):
            rep.violation("control outside its bounds", kind=kind, form=form, low=low, high=high, state=x, dt=dt, desired=u, got=got)
        if got.shape != (dim, ):
            rep.violation("control has the wrong shape", kind=kind, got=got)
        # unchanged when admissible and safe; unclipped when unbounded
        m, out = sysm.step(m, x, dt, u)
        if kind == "dasifint":
            continue
        if out.status == "latched" or (out.margin < 1e-4 and "simplex" in kind):
            m = m._replace(interv=bool(rta.intervening))
            if out.status != "latched":
                rep.skip()
                continue
        ok = np.allclose(got, out.u, atol=sysm.tol if kind != "dasif" else 5e-3, rtol=1e-5)
        if out.status in ("pass", "same") and want and not np.allclose(got, u, atol=1e-6 if kind != "dasif" else 2e-3):
            rep.violation("admissible safe desired control was changed", kind=kind, form=form, state=x, dt=dt, desired=u, got=got)
        elif kind != "dasif" and not ok:
            rep.violation("control differs from the specified one", kind=kind, form=form, state=x, dt=dt, desired=u, got=got, expected=out.u,
                          status=out.status)
    rep.trace()


def supplied(rep, name, forms, deep=False):
    mk, calls = zoofleet.FLEET[name]
    dim = len(next(iter(calls.values()))[2])
    for low, high in forms:
        kw = {}
        if low is not None:
            kw["control_bounds_low"] = low
        if high is not None:
            kw["control_bounds_high"] = high
        rta = mk(**kw)
        lo, hi = (-1. if low is None else low), (1. if high is None else high)
        if name == "casc":  # without bounds of its own the cascade's last member bounds the control
            lo, hi = -1., 1.
        us = [np.zeros(dim), np.full(dim, 0.1), np.full(dim, 9.), np.full(dim, -9.), np.where(np.arange(dim) % 2, 5., -0.3),
              np.where(np.arange(dim) % 3, -4., 0.9)]
        dts = [1.] if not deep else [0.5, 1., 5.]
        for dt, (cn, (x, _, _)), scale, u in itertools.product(dts, calls.items(), (1., 0.7, 2.5), us):
            got = rta.filter_control(x * scale, dt, u)
            rep.count_states()
            rep.step(f"{name}:{'int' if rta.intervening else 'pass'}")
            rep.check(got.shape == (dim, ) and inb(got, lo, hi), "control outside its bounds", filter=name, low=lo, high=hi, state=x * scale,
                      dt=dt, desired=u, got=got)
        rep.trace()


def types(rep, name):
    """integer, single-precision and jax desired controls, integer step: same result as double precision"""
    import jax.numpy as jnp
    if name in fleet.ALL:
        sysm = fleet.ALL[name]()
        rta = sysm.build()
        calls, lo, hi = list(fleet.calls(sysm).values()), sysm.low, sysm.high
    elif name == "dv":
        rta, lo, hi = zoofleet._dv(n_steps=5), -1., 1.
        x = np.array([300., -100., 50., 0.05, 0.1, 0., 0.5, 1.])
        calls = [(x, 1., np.zeros(3)), (x + np.eye(8)[7] * 25., 1., np.zeros(3))]
    else:
        mk, cs = zoofleet.FLEET[name]
        rta, calls, lo, hi = mk(), list(cs.values()), -1., 1.
    m = len(calls[0][2])
    us = [np.where(np.arange(m) % 2, a, b) for a, b in ((0, 0), (1, 0), (0, -1), (1, -1), (-3, 2), (4, 5))]
    for x, _, _ in calls:
        x = np.array(x, float)
        for u in us:
            if name == "dv" and np.any(np.abs(u) > 1):
                continue
            ref = np.array(rta.filter_control(x, 1., u.astype(float)), float)
            for form, v, dt in (("int64", u.astype(np.int64), 1.), ("int32", u.astype(np.int32), 1), ("float32", u.astype(np.float32), 1.), ("jax", jnp.array(u.astype(float)), 1.)):
                if name in ("dv", "casc"):
                    rta.reset()
                    ref = np.array(rta.filter_control(x, 1., u.astype(float)), float)
                    rta.reset()
                got = np.array(rta.filter_control(x, dt, v), float)
                rep.count_states()
                rep.step(f"{name}:{form}")
                rep.check(inb(got, lo, hi), "control outside its bounds", filter=name, form=form, state=x, desired=u, got=got)
                rep.check(np.allclose(got, ref, atol=1e-4), "result depends on the number type of the desired control", filter=name, form=form, state=x, desired=u, got=got, double=ref)
    rep.trace()


def shards(tier):
    deep = tier == "thorough"
    out = []
    el = [([-0.25, -0.5, -0.125], [0.5, 0.25, 0.75])]
    for name, forms in (("insp1", [(None, None)] + el), ("insp1d", el), ("comb3", [(None, None)]), ("insp3", [(-0.5, 0.25)]), ("casc", [(None, None)]),
                        ("d3_es", [(None, None)] + el), ("d3_is", el), ("d3_ea", el + [(None, None)]), ("d3_ia", el),
                        ("d2_es", [([-0.25, -0.5], [0.5, 0.25])]), ("d2_is", [(None, None)]), ("d2_ea", [([-0.25, -0.5], [0.5, 0.25])]),
                        ("d2_ia", [(-0.5, 0.25)]), ("int_es", [(None, None), (-0.5, 0.25)]), ("int_is", [([-0.5], [0.25])]),
                        ("int_ea", [([-0.5], [0.25])]), ("int_ia", [(None, None)])):
        out.append(("supplied", dict(name=name, forms=forms, deep=deep)))
    for n in [*zoofleet.FLEET, "dv", *fleet.ALL]:
        out.append(("types", dict(name=n)))
    for kind in ("iasif", "dasif", "isimplex", "easif", "esimplex"):
        for f in FORMS2:
            out.append(("toy", dict(kind=kind, dim=2, form=f, deep=deep)))
    for kind in ("esimplex", "isimplex", "easif"):
        for f in FORMS1:
            out.append(("toy", dict(kind=kind, dim=1, form=f, deep=deep)))
    for f in ("num", "list", "none", "high"):
        out.append(("toy", dict(kind="dasifint", dim=2, form=f, deep=False)))
        out.append(("toy", dict(kind="easif", dim=3, form=f, deep=deep)))
        out.append(("toy", dict(kind="esimplex", dim=3, form=f, deep=deep)))
        out.append(("toy", dict(kind="dasif", dim=3, form=f, deep=False)))
    for f in ("list", "high"):
        out.append(("toy", dict(kind="esimplex", dim=2, form=f, latch=1., deep=deep)))
    return out
