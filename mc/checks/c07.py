"""C07 latch time: explicit-state exploration of every operation history against the latch reference model."""
import numpy as np

from mc import fleet, snap
from mc.ref import observe

BOUNDS = ("all sequences of {safe call, unsafe call} x step sizes {0.5, 1} (plus disable/enable/reset) explored to depth 12 (quick) / 16-20 (thorough) with state merging (the state space closes well before) and depth 7/10 with memory, "
          "plus every sequence of length 4-5 (quick) / 5-7 (thorough) without merging, "
          "long latches (up to 64, thorough 1000) with constant and alternating steps over several trigger / hold / release rounds, steps and latches scaled by 2^-12 .. 2^8, "
          "latch times {0, 0.5, 0.75, 1, 1.5, 2, 2.3, 2.5}, explicit and implicit switching, controllers with and without memory")
ASSUMPTIONS = ["states are merged when the complete data of the real filter and of the model coincide"]


def latch(rep, kind, latch, ctl, depth, steps, toggles, flat, jit=True):
    sysm = fleet.ALL[kind](latch=latch, ctl=None if ctl is None else fleet.counter(ctl), jit_enable=jit)
    rta = sysm.build()
    ops = []

    def mk(name, x, dt, u):
        def spec(m):
            m2, out = sysm.step(m, x, dt, u)
            return m2, (lambda obs: judge(obs, out))
        return name, (lambda r: observe(r, x, dt, u)), spec

    def judge(obs, out):
        got, interv = obs
        rep.outcomes[f"{kind}:{out.status}"] += 1
        if not np.allclose(got, out.u, atol=sysm.tol):
            return f"control {got.tolist()} expected {out.u.tolist()} ({out.status})"
        if interv != out.interv:
            return f"intervening {interv} expected {out.interv} ({out.status})"
        return None

    for dt in steps:
        ops.append(mk(f"safe({dt})", [0., 0.25], dt, [0.5]))
        ops.append(mk(f"unsafe({dt})", [1.5, 1.5], dt, [1.]))
    if toggles:
        ops.append(("disable", lambda r: setattr(r, "enable", False), lambda m: None if not m.enable else (m._replace(enable=False), lambda o: None)))
        ops.append(("enable", lambda r: setattr(r, "enable", True), lambda m: None if m.enable else (m._replace(enable=True), lambda o: None)))
        ops.append(("reset", lambda r: r.reset(), lambda m: (sysm.fresh(m), lambda o: None)))
    snap.explore(rep, rta, sysm.init(), ops, depth, replays=40, label=f"{kind} latch={latch} ctl={ctl}", flat=flat)


def longlatch(rep, kind, latch, ctl):
    """long latches with constant and alternating steps; every phase (trigger, hold, release or renewed trigger) several times in one history"""
    sysm = fleet.ALL[kind](latch=latch, ctl=None if ctl is None else fleet.counter(ctl, slope=-1 / 64.))
    rta = sysm.build()
    calls = {"safe": ([0., 0.25], [0.5]), "unsafe": ([1.5, 1.5], [1.])}
    for steps in ((0.5,), (1.,), (0.25, 2.), (8.,), (0.125, 0.125, 4.)):
        n = int(latch / np.mean(steps)) + 3
        for blocks in (("unsafe", "safe"), ("unsafe", "unsafe", "safe"), ("safe", "unsafe", "safe", "safe", "unsafe")):
            rta.reset()
            m, hist, k = sysm.init(), [], 0
            for rnd in range(2):
                for b in blocks:
                    for i in range(n if b == "safe" else 1 if blocks[1] == "safe" or rnd else n):
                        x, u = calls[b]
                        dt = steps[k % len(steps)]
                        k += 1
                        m, out = sysm.step(m, x, dt, u)
                        got, interv = observe(rta, x, dt, u)
                        hist.append(f"{b}({dt})")
                        rep.step(f"long:{out.status}")
                        rep.count_states()
                        if not (np.allclose(got, out.u, atol=sysm.tol) and interv == out.interv):
                            rep.violation(f"control {got.tolist()} / intervening {interv}, expected {out.u.tolist()} / {out.interv} ({out.status})", latch=latch, calls=len(hist), history=hist[-12:])
                            return
            rep.trace()


def scale(rep, kind, k):
    """tiny and huge steps: latch time and steps scale together"""
    s = 2.**k
    for lt in (1., 1.5, 3., 8.):
        sysm = fleet.ALL[kind](latch=lt * s, ctl=None)
        rta = sysm.build()
        calls = {"safe": ([0., 0.], [0.]), "unsafe": ([3., 0.], [0.5 / s])}
        for steps in ((0.5,), (1., 0.25), (2.,)):
            rta.reset()
            m, hist = sysm.init(), []
            n = int(lt / np.mean(steps)) + 3
            for i, b in enumerate(["safe"] + (["unsafe"] + ["safe"] * n) * 2 + ["unsafe"] * n + ["safe"] * n):
                x, u = calls[b]
                dt = steps[i % len(steps)] * s
                m, out = sysm.step(m, x, dt, u)
                got, interv = observe(rta, x, dt, u)
                hist.append(f"{b}({dt})")
                rep.step(f"scale:{out.status}")
                rep.count_states()
                if not (np.allclose(got, out.u, atol=sysm.tol) and interv == out.interv):
                    rep.violation(f"control {got.tolist()} / intervening {interv}, expected {out.u.tolist()} / {out.interv} ({out.status})", latch=lt * s, calls=len(hist), history=hist[-12:])
                    return
        rep.trace()


def shards(tier):
    deep = tier == "thorough"
    d, d2, f, f2 = (16, 10, 7, 6) if deep else (12, 7, 5, 4)
    out = []
    for lt in (0., 0.5, 0.75, 1., 1.5, 2., 2.3, 2.5):
        out.append(("latch", dict(kind="esimplex", latch=lt, ctl=None, depth=d, steps=[0.5, 1.], toggles=False, flat=f)))
    for lt in (1., 1.5):
        out.append(("latch", dict(kind="isimplex", latch=lt, ctl=None, depth=d, steps=[0.5, 1.], toggles=False, flat=f)))
        out.append(("latch", dict(kind="isimplex", latch=lt, ctl="dict", depth=d2, steps=[0.5], toggles=True, flat=f2)))
        out.append(("latch", dict(kind="esimplex", latch=lt, ctl="array", depth=d2, steps=[0.5, 1.], toggles=True, flat=f2)))
    out.append(("latch", dict(kind="esimplex", latch=1., ctl=None, depth=d2, steps=[0.5], toggles=True, flat=f2, jit=False)))
    for lt in (4., 10., 31.25, 64.) if not deep else (4., 10., 31.25, 64., 200., 1000.):
        out.append(("longlatch", dict(kind="esimplex", latch=lt, ctl=None)))
        out.append(("longlatch", dict(kind="isimplex", latch=lt, ctl="array" if lt < 30 else None)))
    for k in (-12, -8, -4, 4, 8) if not deep else range(-14, 13):
        out.append(("scale", dict(kind="esimplex", k=k)))
        if -5 < k < 5:  # the lookahead window stays as it is: a tiny step would make it tens of thousands of points
            out.append(("scale", dict(kind="isimplex", k=k)))
    if deep:
        for lt in (0.25, 1.25, 3., 3.7):
            out.append(("latch", dict(kind="esimplex", latch=lt, ctl=None, depth=20, steps=[0.25, 0.5, 1.5], toggles=False, flat=5)))
    return out
