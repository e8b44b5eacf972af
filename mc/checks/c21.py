"""C21 closed loop: the complete tree of desired-control block sequences is flown through the real filter and an independent exact plant."""
import itertools
import warnings

import numpy as np

from mc import zoo, zoofleet

BOUNDS = ("supplied docking, integrator and inspection filters; start states: product grid of distance x bearing x velocity direction, each velocity scaled to fractions up to 0.999 of the largest speed that "
          "still satisfies every constraint (found by bisection); for each start the complete tree of block-constant extreme desired controls (depth 2-4 blocks), flown with the exact "
          "solution of the documented dynamics; recovery: start states up to 0.05 beyond the speed-limit boundary")
ASSUMPTIONS = ["switching filters: the plant is the exact zero-order-hold solution, tolerance only for rounding (2e-6)",
               "optimisation filters: discretisation tolerance on each constraint value as tabulated per step size in the check, about twice the largest excursion of the complete thorough enumeration",
               "a branch ends (counted undecided) where the optimisation reports infeasibility while some constraint is within the tolerance of its boundary; infeasibility elsewhere is a violation",
               "discrete inspection filter: a branch also ends (counted undecided) where the nonlinear solver reports failure; whether it may is C14's question"]


class Loop:
    """filter + exact plant + reference constraints"""

    def __init__(self, name, dt, cfg=None):
        self.name, self.dt = name, dt
        self.rta = zoofleet.FLEET[name][0](**dict({"num_deputies": 2} if name == "insp3" else {}, **(cfg or {})))
        kind = name.split("_")[0]
        self.kind = kind
        if kind == "int":
            A, B = zoo.integ()
            self.cons = zoo.integrator_implicit() if name[-2:] in ("is", "ia") else zoo.integrator_explicit()
            self.us = [np.array([u]) for u in (-1., 0., 1.)]
        elif kind in ("d2", "d3"):
            k = int(kind[1])
            A, B = zoo.cwh(k)
            self.cons = zoo.docking(k)
            self.us = [np.array(u, float) for u in ([(0, 0), (1, 1), (1, -1), (-1, 1), (-1, -1)] if k == 2 else [(0, 0, 0), (1, 1, 1), (-1, -1, 1), (1, -1, -1), (-1, 1, -1)])]
        else:
            A, B = zoo.cwh(3)
            self.cons = {"insp1": zoo.inspection1, "insp1d": zoo.inspection_discrete, "insp3": lambda: zoo.inspection3(2)}[kind]()
            self.us = [np.array(u, float) for u in [(0, 0, 0), (1, 1, 1), (-1, -1, 1), (1, -1, -1), (-1, 1, -1)]]
        self.A, self.B = A, B
        self.M = zoo.zoh_mats(A, B, dt)
        self.M0 = self.M[0]

    def step(self, x, u):
        Ad, Bd = self.M
        n = len(Ad)
        y = Ad @ x[:n] + Bd @ u
        if self.kind in ("insp1", "insp1d"):
            return np.concatenate((y, [x[6] - zoo.N * self.dt, x[7] + np.sum(np.abs(u)) / zoo.M * self.dt]))
        if self.kind == "insp3":   # the other deputy coasts
            return np.concatenate((y, Ad @ x[6:12], [x[12] - zoo.N * self.dt]))
        return y

    def filt(self, x, u):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            out = np.asarray(self.rta.filter_control(x.copy(), self.dt, u.copy()), float)
        return out, any("olver" in str(a.category) + str(a.message) for a in w)

    def margin(self, x):
        return {c.name: float(c.h(x)) for c in self.cons}

    def safe(self, x):
        return min(c.hb(x) for c in self.cons) >= 0


def scaled(loop, make, fracs, top=12.):
    """largest factor s such that make(t) is safe for all t <= s (bisection on a fine scan), times each fraction"""
    ts = np.linspace(0., top, 241)
    ok = [loop.safe(make(t)) for t in ts]
    if not ok[0]:
        return []
    i = next((j for j, o in enumerate(ok) if not o), len(ok)) - 1
    lo, hi = ts[i], ts[min(i + 1, len(ts) - 1)]
    for _ in range(30):
        m = (lo + hi) / 2
        lo, hi = (m, hi) if loop.safe(make(m)) else (lo, m)
    return [make(f * lo) for f in fracs]


def brakes(loop, x):
    """implicit integrator filter: full braking from x reaches standstill inside the backup window without passing the target"""
    return loop.name != "int_is" or (x[1] <= 1.75 and x[1] * x[1] / 2 + 1e-6 <= -x[0])


def starts(loop, radii, bearings, dirs, fracs):
    out = []
    if loop.kind == "int":
        for p in radii:
            for f in fracs:
                out.append(np.array([-p, f * np.sqrt(2 * p)]))
            out.append(np.array([-p, -1.]))
        return [x for x in out if loop.safe(x) and brakes(loop, x)]
    k = len(loop.us[0])
    for r, t in itertools.product(radii, bearings):
        if k == 2:
            d = np.array([np.cos(t), np.sin(t)])
            e = np.array([-d[1], d[0]])
            vs = [d, -d, e, -e, (d + e) / np.sqrt(2), (e - d) / np.sqrt(2)]
        else:
            el = 0.9 * np.sin(3 * t)
            d = np.array([np.cos(t) * np.cos(el), np.sin(t) * np.cos(el), np.sin(el)])
            e = np.cross(d, [0.6, 0., 0.8])
            e /= np.linalg.norm(e)
            f = np.cross(d, e)
            vs = [d, -d, e, -e, f, (e - d) / np.sqrt(2)]
        for i in dirs:
            v = vs[i]
            tail = {"insp1": [0.5, 0.], "insp1d": [0.5, 0.], "insp3": list(r * d + 14. * vs[(i + 2) % 6]) + [0., 0., 0., 0.5]}.get(loop.kind, [])
            out += scaled(loop, lambda s, v=v, d=d, r=r, tail=tail: np.concatenate((r * d, s * v, tail)), fracs, top=1.5 if loop.kind[0] == "i" else 12.)
    return out


def fly(rep, loop, x0, blocks, blen, tol):
    """the complete tree of block sequences below x0"""
    worst = {}

    def rec(x, depth, hist):
        if depth == blocks:
            rep.trace()
            return
        for i, u in enumerate(loop.us):
            y = x
            dead = False
            for j in range(blen):
                out, infeasible = loop.filt(y, u)
                rep.step(f"{loop.name}:{'intervening' if loop.rta.intervening else 'pass'}")
                if infeasible and loop.kind == "insp1d":
                    rep.skip()
                    rep.trace()
                    dead = True
                    break
                if infeasible:
                    m = loop.margin(y)
                    low = min((m[c.name] + c.bias - tol.get(c.name, tol[None]), c.name) for c in loop.cons)
                    rep.check(low[0] <= 0, "the optimisation is infeasible well inside the safe set", filter=loop.name, step=loop.dt, start=x0, controls=hist + [i], at=j, state=y, margins=m)
                    rep.skip()
                    rep.trace()
                    dead = True
                    break
                y = loop.step(y, out)
                rep.count_states()
                for c in loop.cons:
                    h = c.h(y)
                    if h < worst.get(c.name, (np.inf,))[0]:
                        worst[c.name] = (float(h), hist + [i], j)
                    if h < -tol.get(c.name, tol[None]):
                        rep.violation(f"{loop.name}: constraint {c.name} violated in closed loop", value=float(h), tolerance=tol.get(c.name, tol[None]), step_size=loop.dt, start=x0,
                                      blocks=hist + [i], block_length=blen, at=j, state=y, applied=out)
            if not dead:
                rec(y, depth + 1, hist + [i])
    rec(x0, 0, [])
    return worst


def closed(rep, name, dt, radii, bearings, dirs, fracs, blocks, blen, tol, part=0, parts=1, cfg=None):
    loop = Loop(name, dt, cfg)
    tol = {(None if k == "*" else k): v for k, v in tol.items()}
    ss = starts(loop, radii, bearings, dirs, fracs)[part::parts]
    worst = {}
    for x0 in ss:
        for k, v in fly(rep, loop, x0, blocks, blen, tol).items():
            if v[0] < worst.get(k, (np.inf,))[0]:
                worst[k] = v + (x0,)
    rep.sample({"filter": name, "step_size": dt, "starts": len(ss), "least margin": {k: round(v[0], 6) for k, v in worst.items()}})


def recover(rep, name, dt, radii, bearings, dirs, blocks, blen, rate, slop, over):
    """from beyond the speed limit: the constraint value grows at no less than `rate` per second (up to slop) while it is negative, and ends up safe"""
    loop = Loop(name, dt)
    c = next(c for c in loop.cons if c.name == "rel_vel")
    others = [o for o in loop.cons if o is not c]
    for x in starts(loop, radii, bearings, dirs, [1.]):
        k = len(loop.us[0])
        for ex in over:
            x0 = x.copy()
            x0[k:2 * k] *= 1 + ex / np.linalg.norm(x[k:2 * k])
            if not c.h(x0) < -ex / 2 or min(o.hb(x0) for o in others) < 1e-2:
                continue
            h0 = c.hb(x0)

            def rec(y, depth, t, hist):
                if depth == blocks:
                    rep.trace()
                    return
                for i, u in enumerate(loop.us):
                    z, tt = y, t
                    for j in range(blen):
                        out, bad = loop.filt(z, u)
                        rep.check(not bad, f"{name}: no recovery control found slightly outside the speed limit", start=x0, state=z, desired=u)
                        h1 = c.hb(z)
                        z = loop.step(z, out)
                        tt += dt
                        rep.step(f"{name}:{'recovering' if h1 < 0 else 'recovered'}")
                        rep.count_states()
                        h2 = c.hb(z)
                        if h1 < 0:
                            rep.check(h2 >= min(0., h1 + rate * dt) - slop, f"{name}: no return towards the safe set", start=x0, step_size=dt, blocks=hist + [i], at=j, before=h1, after=h2, applied=out)
                        rep.check(h2 >= min(0., h0 + rate * tt) - slop * (2 + tt / dt), f"{name}: not back in the safe set in time", start=x0, step_size=dt, blocks=hist + [i], at=j, elapsed=tt, value=h2)
                    rec(z, depth + 1, tt, hist + [i])
            rec(x0, 0, 0., [])


def shards(tier):
    deep = tier == "thorough"
    out = []
    RD, RI = (1., 10., 100., 1000.), (10.5, 12., 20., 60., 300., 990.)
    B = (0., 1., 2.5, 4.)
    D = [0, 1, 2, 4, 5]
    F = (0.5, 0.95, 0.999)
    big = lambda **k: [dict(k, part=p, parts=k["parts"]) for p in range(k["parts"])]  # noqa
    jobs = []
    # switching filters: exact
    for n, dt, bl in (("d2_es", 1., 4), ("d2_es", 0.25, 8), ("d2_is", 1., 4), ("d3_es", 1., 4), ("d3_is", 1., 3)):
        jobs += big(name=n, dt=dt, radii=RD, bearings=B if deep else B[1:3], dirs=D if deep else D[:4], fracs=F, blocks=3 if deep and n[-2:] == "es" else 2, blen=bl, tol={"*": 2e-6}, parts=8 if deep else 2)
    for n in ("int_es", "int_is"):
        for dt in (1., 0.25, 0.1) if n == "int_es" else (0.5, 0.25, 0.1):
            jobs += big(name=n, dt=dt, radii=(0.05, 0.1, 0.5, 1., 1.5, 2., 4.), bearings=[], dirs=[], fracs=(0., 0.25, 0.5, 0.9, 0.999), blocks=(6 if deep else 4) if n == "int_es" else (4 if deep else 3), blen=4, tol={"*": 2e-6},
                        parts=8 if deep else 2 if n == "int_is" else 1, cfg={"integration_method": "RK45"})
    # optimisation filters: discretisation tolerance
    for n, dt, bl, rv in (("d2_ea", 1., 6, 0.08), ("d2_ea", 0.25, 8, 0.005), ("d2_ea", 0.1, 10, 8e-4), ("d3_ea", 1., 6, 0.1), ("d3_ea", 0.25, 8, 0.007), ("d3_ea", 0.1, 10, 9e-4),
                          ("insp1", 1., 6, 0.09), ("insp1", 0.25, 8, 0.005), ("insp1", 0.1, 10, 1e-3), ("insp3", 1., 6, 0.09), ("insp3", 0.25, 8, 0.005)):
        docking = n[0] == "d"
        jobs += big(name=n, dt=dt, radii=RD if docking else RI, bearings=B if deep or docking else B[1:3], dirs=D, fracs=F if deep or docking else F[1:],
                    blocks=3 if deep and docking else 2, blen=bl, tol={"*": 1e-4, "rel_vel": rv, "deputy_sun_1": 0.02 * dt}, parts=8 if deep else 2)
    for n, dt, rv in (("d2_ia", 1., 0.2), ("d2_ia", 0.25, 0.02), ("d3_ia", 1., 0.25)):
        if deep or dt == 1.:
            jobs += big(name=n, dt=dt, radii=RD if deep else RD[::2], bearings=B if deep else B[1:3], dirs=D if deep else D[2:], fracs=F[1:], blocks=1, blen=6, tol={"*": 1e-4, "rel_vel": rv}, parts=8 if deep else 2)
    for dt in (1., 0.25):
        if deep or dt == 1.:
            jobs += big(name="insp1d", dt=dt, radii=RI if deep else RI[::2], bearings=B if deep else B[1:2], dirs=D, fracs=F[1:], blocks=1, blen=6, tol={"*": 1e-4, "rel_vel": 1e-3}, parts=8 if deep else 2)
    out += [("closed", j) for j in jobs]
    for n, dt, slop in (("d2_ea", 0.1, 3e-4), ("d2_ea", 0.25, 2e-3), ("d3_ea", 0.1, 3e-4), ("d3_ea", 0.25, 2e-3), ("insp1", 0.1, 3e-4)):
        out.append(("recover", dict(name=n, dt=dt, radii=RD[1:] if n[0] == "d" else RI[2:5], bearings=B, dirs=D if deep else D[:3], blocks=2 if deep else 1, blen=20, rate=0.009, slop=slop, over=(0.005, 0.02, 0.05))))
    return out
