"""C24 delta-v switching: all call histories and threshold grids against an independent fuel prediction."""
import itertools

import numpy as np

from mc import snap, zoo, zoofleet

BOUNDS = ("single calls: positions x velocities x desired controls x horizons {1,2,5,25} x steps {0.5,1,2} x limits x masses x mean motions, each at fuel levels just below and above every "
          "switching threshold (whole horizon, one step less, one more); all histories up to depth 4 (quick) / 5 (thorough) over passing and switching calls, reset, disable and enable; "
          "closed loops: all sequences of blocks of extreme controls on an independent Euler plant")
ASSUMPTIONS = ["desired controls within the actuator bounds", "fuel levels within 1e-4 of a threshold are not distinguished",
               "the Riccati solver is replaced by a fixed stabilising solution, because the default gains cannot be computed (known finding C24-care)"]


def fuel_euler(A, B, n, mass, x, dt, u):
    xd = A @ x[:6] + B @ u
    return np.concatenate((x[:6] + dt * xd, [x[6] - n * dt, x[7] + dt * np.sum(np.abs(u)) / mass]))


class Ref:
    """reference filter: its own plant and bookkeeping, the filter's backup law as a pure function of (state, step, memory)"""

    def __init__(self, rta, mass, n, limit, steps):
        self.law = rta.backup_control
        self.A, self.B = zoo.cwh(3, mass, n)
        self.mass, self.n, self.limit, self.steps = mass, n, limit, steps

    def init(self):
        return (False, tuple(np.zeros(6)), True)

    def horizon(self, err, x, dt, u, steps=None):
        """fuel after the desired control and the backup manoeuvre"""
        y = fuel_euler(self.A, self.B, self.n, self.mass, np.asarray(x, float), dt, np.asarray(u, float))
        err = np.array(err)
        for _ in range(self.steps if steps is None else steps):
            ub, err = self.law(y, dt, np.array(err))
            y = fuel_euler(self.A, self.B, self.n, self.mass, y, dt, np.asarray(ub, float))
        return float(y[7])

    def call(self, m, x, dt, u):
        latched, err, enabled = m
        if not enabled:
            return m, np.array(u, float), False
        if not latched and self.horizon(err, x, dt, u) <= self.limit:
            return m, np.array(u, float), False
        ub, e = self.law(np.array(x, float), dt, np.array(err))
        return (True, tuple(np.asarray(e, float)), True), np.clip(np.asarray(ub, float), -1, 1), True


STATES = [np.array(s) for s in ((100., 40., 10., 0.05, -0.3, 0.02), (-300., 900., 0., 0.4, 0.61, 0.1), (20., -30., 5., -0.6, 0.2, 0.), (0., 0., 50., 0., 0., 0.), (500., 0., 0., 0., 0.9, -0.3))]
US = [np.array(u) for u in ((0., 0., 0.), (1., -1., 1.), (0.25, 0., -0.5), (0., 0.875, 0.))]


def grid(rep, cfg, steps, dt, deep):
    kw = dict(cfg)
    limit = kw.get("delta_v_limit", 20.)
    mass, n = kw.get("m", zoo.M), kw.get("n", zoo.N)
    rta = zoofleet._dv(n_steps=steps, **kw)
    ref = Ref(rta, mass, n, limit, steps)
    base = snap.snapshot(rta)
    for s in STATES:
        for u in US:
            zero = np.concatenate((s, [0.7, 0.]))
            m0 = ref.init()
            use = [ref.horizon(m0[1], zero, dt, u, k) for k in sorted({0, 1, max(steps - 1, 0), steps, steps + 1})]
            levels = sorted({0., limit * 0.5, limit * 2} | {limit - f + d for f in use for d in (-2e-4, 2e-4)})
            for f in levels:
                if f < 0:
                    continue
                snap.restore(base)
                x = np.concatenate((s, [0.7, f]))
                tot = ref.horizon(m0[1], x, dt, u)
                rep.count_states()
                if abs(tot - limit) < 1e-4:
                    rep.skip()
                    continue
                _, exp, iv = ref.call(m0, x, dt, u)
                got = rta.filter_control(x.copy(), dt, u.copy())
                rep.step("switch" if iv else "pass")
                rep.check(np.allclose(got, exp, atol=1e-5) and bool(rta.intervening) == iv, "wrong decision: the desired control passes exactly when it and the whole backup manoeuvre stay within the limit",
                          config=cfg, n_steps=steps, step=dt, state=x, desired=u, got=got, expected=exp, intervening=rta.intervening, predicted=tot, limit=limit)
                # latched from now on / still free
                x2 = np.concatenate((s, [0.7, 0.]))
                got2 = rta.filter_control(x2, dt, US[2])
                m1, _, _ = ref.call(m0, x, dt, u)
                if not m1[0] and abs(ref.horizon(m1[1], x2, dt, US[2]) - limit) < 1e-4:
                    continue
                _, e2, i2 = ref.call(m1, x2, dt, US[2])
                rep.step("latched" if m1[0] else "free")
                rep.check(np.allclose(got2, e2, atol=1e-5) and bool(rta.intervening) == i2, "the following call is wrong: a switch lasts, a passed call leaves no trace", config=cfg, n_steps=steps, step=dt,
                          first=[x, u], second=[x2, US[2]], got=got2, expected=e2)
    snap.restore(base)
    rep.trace()


def histories(rep, depth, part, parts, steps, dt2):
    rta = zoofleet._dv(n_steps=steps)
    ref = Ref(rta, zoo.M, zoo.N, 20., steps)
    z = lambda s, f: np.concatenate((s, [0.1, f]))  # noqa
    f1 = 20. - ref.horizon(np.zeros(6), z(STATES[0], 0.), 1., US[1]) + 1e-3   # full thrust switches, no thrust passes
    f2 = 20. - ref.horizon(np.zeros(6), z(STATES[1], 0.), 1., US[2]) - 1e-3   # just within the limit
    calls = {"low": (z(STATES[1], 1.), 1., US[1]), "edge-full": (z(STATES[0], f1), 1., US[1]), "edge-zero": (z(STATES[0], f1), 1., US[0]), "within": (z(STATES[1], f2), 1., US[2]),
             "empty": (z(STATES[2], 25.), dt2, US[3])}
    alphabet = list(calls) + ["reset", "disable", "enable"]
    base = snap.snapshot(rta)
    seqs = [s for s in itertools.product(alphabet, repeat=depth) if s[-1] in calls][part::parts]
    for seq in seqs:
        snap.restore(base)
        m = ref.init()
        for i, k in enumerate(seq):
            if k == "reset":
                rta.reset()
                m = ref.init()
            elif k in ("disable", "enable"):
                rta.enable = k == "enable"
                m = (m[0], m[1], rta.enable)
            else:
                x, dt, u = calls[k]
                m, exp, iv = ref.call(m, x, dt, u)
                got = rta.filter_control(x.copy(), dt, u.copy())
                rep.step(f"{'off' if not m[2] else 'latched' if m[0] else 'free'}:{k}")
                if not rep.check(np.allclose(got, exp, atol=1e-5) and bool(rta.intervening) == iv, "wrong control or flag in this history", history=seq[:i + 1], got=got, expected=exp,
                                 intervening=rta.intervening, expected_intervening=iv):
                    break
        rep.count_states()
        rep.trace()
    snap.restore(base)


def closed(rep, steps, blocks, blen, dt, cfg):
    """plant in the loop: as long as the filter started free, the limit is respected over the whole horizon after the last passed control"""
    kw = dict(cfg)
    limit = kw.get("delta_v_limit", 20.)
    mass, n = kw.get("m", zoo.M), kw.get("n", zoo.N)
    rta = zoofleet._dv(n_steps=steps, **kw)
    A, B = zoo.cwh(3, mass, n)
    base = snap.snapshot(rta)
    for s in STATES[:3]:
        for seq in itertools.product(US, repeat=blocks):
            snap.restore(base)
            x = np.concatenate((s, [0., limit - 1.2 * blocks * blen * dt / mass]))
            passed, switched = False, False
            left = steps + 1
            for k in range(blocks * blen + steps):
                u = seq[min(k // blen, blocks - 1)]
                got = rta.filter_control(x.copy(), dt, u.copy())
                if not rta.intervening:
                    rep.check(not switched, "released without a reset", start=s, sequence=seq, k=k)
                    rep.check(np.allclose(got, u, atol=1e-6), "not intervening, but the control is not the desired one", start=s, sequence=seq, k=k, got=got)
                    passed, left = True, steps + 1
                else:
                    switched = True
                    left -= 1
                x = fuel_euler(A, B, n, mass, x, dt, np.asarray(got, float))
                rep.step("free" if not switched else "backup")
                if passed and left > 0:
                    if not rep.check(x[7] <= limit + 1e-6, "accumulated delta-v exceeds the limit within the horizon the filter looked ahead", start=s, sequence=seq, k=k, delta_v=x[7]):
                        break
                if left <= 0:
                    break
            rep.count_states()
            rep.trace()
    snap.restore(base)


def law(rep, cfg):
    """the backup manoeuvre: nothing to do on the documented elliptical orbit, opposes the deviation, integrates its error, never exceeds full thrust"""
    rta = zoofleet._dv(n_steps=3, **cfg)
    n = cfg.get("n", zoo.N)
    for s in STATES:
        for ex, ey in itertools.product((-3., -0.2, -1e-3, 0., 1e-3, 0.2, 3.), repeat=2):
            x = np.concatenate((s, [0., 0.]))
            x[3] = n / 2 * x[1] + ex
            x[4] = -2 * n * x[0] + ey
            e = np.array([0., 0., 0., ex, ey, 0.])
            for e0 in (np.zeros(6), np.array([0., 0., 0., 1., -2., 0.])):
                for dt in (0.5, 2.):
                    u, e1 = rta.backup_control(x.copy(), dt, e0.copy())
                    rep.count_states()
                    rep.step("law")
                    rep.check(np.allclose(e1, e0 + dt * e, atol=1e-9), "error memory is not the integral of the deviation from the closed orbit", state=x, step=dt, memory=e0, got=e1)
                    rep.check(np.all(np.abs(u) <= 1 + 1e-9), "backup thrust above the maximum", got=u)
                    if not e0.any():
                        if ex == 0 and ey == 0:
                            rep.check(np.allclose(u, 0, atol=1e-9), "thrust on the closed orbit", state=x, got=u)
                        else:
                            rep.check(float(np.dot(u[:2], [ex, ey])) < 0, "thrust does not oppose the deviation", state=x, got=u, deviation=[ex, ey])
    rep.trace()


def construction(rep):
    from run_time_assurance.zoo.cwh import inspection_1v1 as m
    try:
        rta = m.SwitchingDeltaVLimitRTA()
    except Exception as e:  # noqa
        if not zoofleet.from_care(e):
            raise
        rep.known_finding("C24-care")
        rep.step("default gains unsolvable")
    else:
        rep.step("constructed")
        rep.check(np.array_equal(rta.filter_control(np.zeros(8), 1., np.zeros(3)), np.zeros(3)), "default filter does not let zero thrust pass")
    # documented defaults
    rta = zoofleet._dv()
    ref = Ref(rta, zoo.M, zoo.N, 20., 500)
    base = snap.snapshot(rta)
    for s in STATES[:2]:
        for d in (-1e-3, 1e-3):
            snap.restore(base)
            x = np.concatenate((s, [0., 0.]))
            x[7] = 20. - ref.horizon(np.zeros(6), x, 1., US[1]) + d
            got = rta.filter_control(x.copy(), 1., US[1])
            rep.step("default horizon")
            rep.count_states()
            rep.check(bool(rta.intervening) == (d > 0), "default filter does not look 500 steps ahead for a limit of 20 m/s", state=x, excess=d, got=got)
    rep.trace()


def shards(tier):
    deep = tier == "thorough"
    cfgs = [{}, {"delta_v_limit": 5., "m": 6.}, {"n": 0.002, "m": 24., "delta_v_limit": 2.}]
    out = [("construction", {})]
    out += [("histories", dict(depth=d, part=p, parts=8, steps=s, dt2=t)) for d, s, t in (((4, 4, 1.), (4, 9, .5), (5, 4, 1.)) if deep else ((4, 4, .5),)) for p in range(8)]
    out += [("grid", dict(cfg=c, steps=s, dt=t, deep=deep)) for c in cfgs for s in ((1, 2, 5, 25, 100) if deep else (1, 2, 5, 25)) for t in (0.5, 1., 2.)]
    out += [("closed", dict(steps=30, blocks=4 if deep else 3, blen=5, dt=1., cfg=c)) for c in cfgs]
    out += [("law", dict(cfg=c)) for c in ({}, {"n": 0.002, "m": 24.})]
    return out
