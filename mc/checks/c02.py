"""C02 disabled filter: every interleaving of enable / disable / reset / filter calls against the reference model."""
import numpy as np

from mc import fleet, snap, zoofleet
from mc.ref import observe

BOUNDS = ("toy filters of all 5 algorithms (switching also with latch time and a controller with memory): every interleaving of "
          "{safe, out-of-bounds, unsafe, deep-unsafe, infeasible call, enable, disable, reset} to depth 5 (quick) / 7 (thorough) with state merging "
          "and every sequence of length 3 (quick) / 4 (thorough) without; 17 supplied filters, cascade, combined and delta-v filter: "
          "every sequence of {call kinds, enable, disable, reset} of length 3 (quick) / 4 (thorough) against the results of fresh filters; "
          "every filter, disabled, with desired controls of 5 number types, extreme, subnormal and non-finite values")
ASSUMPTIONS = ["supplied filters are memoryless when never latched, so a call after re-enabling must equal the same call on a fresh filter",
               "the delta-v filter latches until reset: its enabled calls are compared only while it has not switched"]


def bits(a, b):
    """returned control is exactly the desired one"""
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.array_equal(a.astype(float), b.astype(float))


def toy(rep, kind, depth, flat, **kw):
    ctl = kw.pop("ctl", None)
    if ctl:
        kw["ctl"] = fleet.counter(ctl)
    sysm = fleet.ALL[kind](**kw)
    rta = sysm.build()
    ops = []

    def mk(name, x, dt, u):
        def spec(m):
            if name == "precise" and m.enable:
                return None
            m2, out = sysm.step(m, x, dt, u)

            def judge(obs):
                got, interv = obs
                rep.outcomes[f"{kind}:{out.status}"] += 1
                if out.status == "disabled":
                    if not bits(got, u):
                        return f"disabled filter returned {got.tolist()} for {u}"
                    return "disabled filter reports intervening" if interv else None
                return sysm.compare(out, rta, got)
            return m2, judge
        return name, (lambda r: observe(r, x, dt, u)), spec

    for n, (x, dt, u) in fleet.calls(sysm).items():
        ops.append(mk(n, x, dt, u))
    # (only while disabled) desired controls that single precision cannot hold
    x, dt, u = fleet.calls(sysm)["out"]
    ops.append(mk("precise", x, dt, [1e9 + 0.1 * i + 1 / 3. for i in range(len(u))]))
    ops.append(("disable", lambda r: setattr(r, "enable", False), lambda m: None if not m.enable else (m._replace(enable=False), lambda o: None)))
    ops.append(("enable", lambda r: setattr(r, "enable", True), lambda m: None if m.enable else (m._replace(enable=True), lambda o: None)))
    ops.append(("reset", lambda r: r.reset(), lambda m: (sysm.fresh(m), lambda o: None)))
    snap.explore(rep, rta, sysm.init(), ops, depth, replays=60, label=f"{kind} {kw}", flat=flat)


def supplied(rep, name, flat, latched=None):
    mk, calls = zoofleet.FLEET[name]
    kw = {"latch_time": latched} if latched else {}
    rta = mk(**kw)
    s0 = snap.snapshot(rta)
    calls = {k: c for k, c in calls.items() if k != "coll"}
    table = {}
    for k, (x, dt, u) in calls.items():
        snap.restore(s0)
        table[k] = observe(rta, x, dt, u)
    snap.restore(s0)

    def mkop(k):
        x, dt, u = calls[k]

        def spec(m):
            en, det = m
            exp = table[k]

            def judge(obs):
                got, interv = obs
                if not en:
                    rep.outcomes[f"{name}:disabled"] += 1
                    if not bits(got, u):
                        return f"disabled filter returned {got.tolist()} for {u.tolist()}"
                    return "disabled filter reports intervening" if interv else None
                if not det:  # latched: the control is the backup control; bounds only
                    return None
                rep.outcomes[f"{name}:{'int' if exp[1] else 'pass'}"] += 1
                if not np.allclose(got, exp[0], atol=1e-5) or interv != exp[1]:
                    return f"call {k} gives {got.tolist()}/{interv}, a fresh filter gives {exp[0].tolist()}/{exp[1]}"
                return None
            return (en, False if (latched and en and (exp[1] or not det)) else True if not en else det), judge
        return k, (lambda r: observe(r, x, dt, u)), spec

    ops = [mkop(k) for k in calls]
    ops.append(("disable", lambda r: setattr(r, "enable", False), lambda m: None if not m[0] else ((False, m[1]), lambda o: None)))
    ops.append(("enable", lambda r: setattr(r, "enable", True), lambda m: None if m[0] else ((True, m[1]), lambda o: None)))
    ops.append(("reset", lambda r: r.reset(), lambda m: ((True, True), lambda o: None)))
    snap.explore(rep, rta, (True, True), ops, flat, replays=0, label=name + (f" latch={latched}" if latched else ""), flat=flat)


def forms(rep, name):
    """disabled: desired controls of every number type, extreme and non-finite, come back exactly; enabling again is not affected"""
    import jax.numpy as jnp
    if name in fleet.ALL:
        sysm = fleet.ALL[name]()
        rta = sysm.build()
        calls = list(fleet.calls(sysm).values())
    elif name == "dv":
        rta = zoofleet._dv(n_steps=5)
        calls = [(np.array([300., -100., 50., 0.05, 0.1, 0., 0.5, 1.]), 1., np.zeros(3))]
    else:
        mk, cs = zoofleet.FLEET[name]
        rta, calls = mk(), list(cs.values())
    calls = [(np.array(x, float), dt, np.array(u, float)) for x, dt, u in calls]
    ref = [np.array(rta.filter_control(x, dt, u), float) for x, dt, u in calls[:1]]
    m = len(calls[0][2])
    vals = [np.full(m, v) for v in (0., -0., 1e-300, 1e-40, 1e300, -1e39, np.inf, -np.inf, np.nan, 1. + 2**-50, 16777217.)]
    vals += [np.arange(m) * s + o for s, o in ((1, 7), (-3, 2))]
    vals += [np.where(np.arange(m) == i, np.inf, 0.5) for i in range(m)]
    vals += [v.astype(np.float32) for v in vals[:3]] + [np.arange(m, dtype=np.int32) + 16777217, jnp.arange(m) * 0.5 + 3.]
    for x, dt, _ in calls:
        rta.enable = False
        for u in vals:
            got = rta.filter_control(x, dt, u)
            rep.count_states()
            rep.step(f"{name}:form")
            a, b = np.asarray(got), np.asarray(u)
            rep.check(a.shape == b.shape and np.array_equal(a.astype(float), b.astype(float), equal_nan=True), "disabled filter does not return exactly the desired control",
                      filter=name, desired=[repr(float(v)) for v in b], got=[repr(float(v)) for v in a])
            rep.check(not rta.intervening, "disabled filter reports intervening", filter=name, desired=[repr(float(v)) for v in b])
        rta.enable = True
        if name not in ("dv", "casc"):
            x0, dt0, u0 = calls[0]
            rta.reset()
            rep.check(np.array_equal(np.array(rta.filter_control(x0, dt0, u0), float), ref[0]), "call after re-enabling differs from a fresh filter's", filter=name)
    rep.trace()


def shards(tier):
    deep = tier == "thorough"
    d, f = (7, 5) if deep else (5, 3)
    out = []
    for n in zoofleet.FLEET:
        slow = n not in ("int_es", "int_is", "d3_es", "int_ea")
        out.append(("supplied", dict(name=n, flat=(4 if deep else 3) + (0 if slow else 1))))
    for n in ("d2_es", "d3_is", "int_es", "int_is"):
        out.append(("supplied", dict(name=n, flat=4 if deep else 3, latched=3.)))
    for n in [*zoofleet.FLEET, "dv", *fleet.ALL]:
        out.append(("forms", dict(name=n)))
    for lt in (0., 1., 1.25):
        for c in (None, "array", "inplace"):
            out.append(("toy", dict(kind="esimplex", depth=d, flat=f, latch=lt, ctl=c)))
    for lt in (0., 1.):
        out.append(("toy", dict(kind="isimplex", depth=d, flat=f, latch=lt, ctl="dict")))
    out.append(("toy", dict(kind="easif", depth=d, flat=f)))
    out.append(("toy", dict(kind="iasif", depth=d - 1, flat=f - (0 if deep else 1))))
    out.append(("toy", dict(kind="dasif", depth=d - 1, flat=f)))
    out.append(("toy", dict(kind="easif", depth=d - 1, flat=f - 1, low=None, high=None, jit_enable=False)))
    return out
