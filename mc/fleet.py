"""Catalogue of toy configurations (one per algorithm) used by the history checks.  Numbers are dyadic."""
from mc.ref import Sys
from mc.rigs import DI, LIN2, CounterBackup, CSpec, DSpec, LinearBackup


def es(low=-1., high=1., latch=0., ctl=None, **kw):
    return Sys("esimplex", DI, [CSpec("pmax", "max", 2., idx=0), CSpec("vlim", "mag", 2., idx=1), CSpec("brake", "brake", 4., bias=-0.5)],
               ctl=ctl or (lambda: LinearBackup([[0., 2.]], [0.25])), low=low, high=high, latch=latch, **kw)


def isx(low=-1., high=1., latch=0., window=1., ctl=None, **kw):
    return Sys("isimplex", DI, [CSpec("pmax", "max", 2., idx=0), CSpec("vmin", "min", -2., idx=1)],
               ctl=ctl or (lambda: LinearBackup([[0., 1.]], [0.])), low=low, high=high, latch=latch, window=window, **kw)


def counter(kind="array", slope=-0.5, c0=0.25, m=1, start=0.):
    return lambda: CounterBackup(m=m, c0=c0, slope=slope, kind=kind, start=start)


def ea(low=(-1., -0.5), high=(1., 0.75), direct=True, specs=None, **kw):
    specs = specs or [CSpec("a", "max", 1., idx=0, alpha=(0., 1.)), CSpec("b", "aff", 1., vec=[0.5, 1.], alpha=(0., 0.5, 0., 0.25), bias=-0.125),
                      CSpec("c", "ball", 2., vec=[0., 0.], alpha=(0., 1.))]
    d = [DSpec("d", [1., 1.], -0.75)] if direct else []
    return Sys("easif", LIN2, specs, direct=d, low=low if low is None or not isinstance(low, tuple) else list(low),
               high=high if high is None or not isinstance(high, tuple) else list(high), exact=False, **kw)


def ia(low=(-1., -0.5), high=(1., 0.75), direct=True, specs=None, window=1., ctl=None, **kw):
    specs = specs or [CSpec("a", "max", 1., idx=0, alpha=(0., 1.)), CSpec("b", "aff", 1., vec=[0.5, 1.], alpha=(0., 0.5, 0., 0.25), bias=-0.125)]
    d = [DSpec("d", [1., 1.], -0.75)] if direct else []
    return Sys("iasif", LIN2, specs, direct=d, ctl=ctl or (lambda: LinearBackup([[0.25, 0.], [0., 0.25]])),
               low=low if low is None or not isinstance(low, tuple) else list(low),
               high=high if high is None or not isinstance(high, tuple) else list(high), window=window, exact=False, **kw)


def da(low=(-1., -0.5), high=(1., 0.75), specs=None, **kw):
    specs = specs or [CSpec("a", "max", 1., idx=0, alpha=(0., 1.)), CSpec("b", "aff", 1., vec=[0.5, 1.], alpha=(0., 0.5, 0., 0.25), bias=-0.125)]
    return Sys("dasif", LIN2, specs, low=low if low is None or not isinstance(low, tuple) else list(low),
               high=high if high is None or not isinstance(high, tuple) else list(high), exact=False, tol=2e-3, **kw)


ALL = {"esimplex": es, "isimplex": isx, "easif": ea, "iasif": ia, "dasif": da}


# calls that make every algorithm pass, clip, intervene and (ASIF) fail: (state, dt, control)
CALLS1 = {"safe": ([0., 0.], .5, [0.25]), "clip": ([0., 0.], .5, [3.]), "unsafe": ([1.5, 1.5], .5, [1.]), "out": ([3., 1.], .5, [0.5])}
CALLS2 = {"safe": ([0., 0.], .5, [0.25, 0.125]), "clip": ([-0.5, 0.25], .5, [3., -2.]), "unsafe": ([0.75, 0.25], .5, [1., 0.5]),
          "out": ([0.5, 0.5], .5, [1., 0.75]), "infeas": ([4., 4.], .5, [1., 0.])}


def calls(sysm):
    return CALLS1 if sysm.plant.m == 1 else CALLS2
