"""C14 discrete optimisation: complete grids; the answer is compared with every control of a dense control grid and with an independent active-set optimum."""
import itertools
import warnings

import numpy as np

from mc import rigs, zoo
from mc.ref import Sys
from mc.rigs import CSpec, LIN2, NL2, NLDI, SI1, poly

BOUNDS = ("toy systems (linear and nonlinear, 1-2 inputs; user-supplied next state and integrated state derivative) x step sizes {1/16, 1/4, 1/2, 1} x bound forms x enabled subsets: product "
          "grids of states and desired controls, each answer compared with every point of a dense control grid (601 points / 41x41 points); supplied discrete inspection filter on a product "
          "grid of states x controls x step sizes against an independent sequential active-set optimum")
ASSUMPTIONS = ["a case is judged when some control satisfies every barrier with a margin of 1e-2 (5e-4 supplied): otherwise feasibility is numerically open (counted)",
               "a miss announced by the solver-failure warning is the known finding (single-precision SLSQP) and counted undecided, up to 2 % of the cases",
               "solver tolerance: barriers to 2e-3, distance to 1e-2 (5e-2 for the integrated system whose step map is strongly nonlinear in the control)"]
FORMS = {1: {"none": (None, None), "num": (-1., 1.), "low": ([-0.5], None)}, 2: {"none": (None, None), "list": ([-1., -0.5], [1., 0.75]), "num": (-0.75, 0.75), "high": (None, [0.5, 1.])}}


def config(name):
    if name == "si1":
        return SI1, [CSpec("a", "max", 1., idx=0, alpha=(0., 1., 0., 0.5)), CSpec("b", "min", -1., idx=0, bias=-0.25)]
    if name == "lin2":
        return LIN2, [CSpec("a", "max", 1., idx=0, alpha=(0., 1.)), CSpec("b", "aff", 1., vec=[0.5, 1.], alpha=(0., 0.5, 0., 0.25), bias=-0.125), CSpec("c", "ball", 2., vec=[0., 0.], alpha=(0., 1.))]
    if name == "nl2":
        return NL2, [CSpec("a", "ball", 1.5, vec=[0.25, 0.], alpha=(0., 1.)), CSpec("b", "max", 1., idx=1, alpha=(0., 0.5, 0., 1.))]
    if name == "nldi":
        return NLDI, [CSpec("v", "mag", 1., idx=1, alpha=(0., 0.5)), CSpec("brake", "brake", 2., bias=-0.125, alpha=(0., 0.5))]
    raise ValueError(name)


def nexts(kind, plant, x, dt, U):
    """next states for all controls U (k x m)"""
    if kind == "dasif":
        return x + dt * (plant.f(np, x) + U @ plant.g(np, x).T)
    if plant is LIN2:
        A = np.array([[0., 0.5], [-0.25, 0.125]])
        Ad, Bd = zoo.zoh_mats(A, plant.g(np, x), dt)
        return x @ Ad.T + U @ Bd.T
    if plant is NLDI:
        def rhs(X):  # noqa
            return np.stack([X[:, 1], -1.5 * np.sin(X[:, 0]) - 0.2 * X[:, 1] + U[:, 0]], axis=1)
    elif plant is NL2:
        def rhs(X):  # noqa
            return np.stack([X[:, 1] - 0.1 * X[:, 0] ** 2 + (1. + 0.25 * X[:, 0] ** 2) * U[:, 0], -0.5 * X[:, 0] * X[:, 1] + 0.5 * X[:, 1] * U[:, 0] + U[:, 1]], axis=1)
    X = np.repeat(x[None, :], len(U), axis=0)
    n = 16
    h = dt / n
    for _ in range(n):
        k1 = rhs(X)
        k2 = rhs(X + h / 2 * k1)
        k3 = rhs(X + h / 2 * k2)
        k4 = rhs(X + h * k3)
        X = X + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
    return X


def hvec(s, X):
    if s.kind == "max":
        return s.lim - X[:, s.idx] + s.bias
    if s.kind == "min":
        return X[:, s.idx] - s.lim + s.bias
    if s.kind == "mag":
        return s.lim ** 2 - X[:, s.idx] ** 2 + s.bias
    if s.kind == "aff":
        return s.lim - X @ np.asarray(s.vec) + s.bias
    if s.kind == "ball":
        return s.lim ** 2 - np.sum((X - np.asarray(s.vec)) ** 2, axis=1) + s.bias
    if s.kind == "brake":
        return s.lim - 2 * X[:, 0] - X[:, 1] ** 2 + s.bias
    raise ValueError(s.kind)


def barriers(kind, plant, specs, x, dt, U):
    X = nexts(kind, plant, x, dt, U)
    if not specs:
        return np.full((len(U), 1), 1.)
    return np.stack([(hvec(s, X) - s.hb(x)) / dt + poly(s.alpha, s.hb(x)) for s in specs], axis=1)


def candidates(m, low, high, deep):
    lo = np.broadcast_to(-4. if low is None else np.asarray(low, float), (m,))
    hi = np.broadcast_to(4. if high is None else np.asarray(high, float), (m,))
    n = 601 if m == 1 else (81 if deep else 41)
    return np.array(list(itertools.product(*[np.linspace(a, b, n) for a, b in zip(lo, hi)])))


def judge(kind, plant, specs, x, dt, u, got, low, high, cand):
    """(message or None, decided)"""
    if not np.all(np.isfinite(got)):
        return f"control {got.tolist()}", True
    if not np.allclose(got, rigs.clip(got, low, high), atol=1e-6):
        return f"control {got.tolist()} outside the bounds", True
    B = barriers(kind, plant, specs, x, dt, cand)
    ok = np.all(B >= 1e-2, axis=1)
    if not ok.any():
        return None, False
    mine = barriers(kind, plant, specs, x, dt, got[None, :])[0]
    if mine.min() < -2e-3:
        return f"barrier of {specs[int(np.argmin(mine))].name} violated by {mine.min():.4g} at {got.tolist()}", True
    dist = np.linalg.norm(cand[ok] - u, axis=1)
    best = float(dist.min())
    d = float(np.linalg.norm(got - u))
    if d > best + (5e-2 if kind == "dasifint" and plant is NL2 else 1e-2):
        return f"control {got.tolist()} at distance {d:.4f}, but {cand[ok][int(dist.argmin())].tolist()} at {best:.4f} is admissible", True
    return None, True


def toy(rep, kind, cfg, form, dts, deep):
    plant, specs = config(cfg)
    low, high = FORMS[plant.m][form]
    sysm = Sys(kind, plant, specs, low=low, high=high, exact=False)
    rta = sysm.build()
    g = {1: [-1.25, -0.75, 0., 0.75, 1., 1.125], 2: [-1.25, 0., 0.75, 1.25]}[plant.n]
    us = {1: [-3., -0.5, 0.25, 1., 3.], 2: [-2., 0.25, 1.5]}[plant.m]
    if deep:
        g = {1: list(np.arange(-1.25, 1.26, 0.25)), 2: list(np.arange(-1.5, 1.6, 0.375))}[plant.n]
        us = {1: list(np.arange(-3., 3.1, 0.5)), 2: [-2., -0.5, 0.25, 1.5]}[plant.m]
    cand = candidates(plant.m, low, high, deep)
    cases = fails = 0
    ens = [e for e in itertools.product([True, False], repeat=len(specs)) if deep or all(e) or sum(e) == 1]
    for dt in dts:
        for en in ens:
            m = sysm.init()._replace(en=en)
            sysm.apply_config(rta, m)
            act = [s for s, e in zip(specs, en) if e]
            for x in itertools.product(g if all(en) else g[::2], repeat=plant.n):
                x = np.array(x)
                for u in itertools.product(us if all(en) else us[::2], repeat=plant.m):
                    u = np.array(u)
                    got, failed = call(rta, x, dt, u)
                    rep.count_states()
                    cases += 1
                    msg, dec = judge(kind, plant, act, x, dt, u, got, low, high, cand)
                    rep.step(f"{kind}:{'undecided' if not dec else 'same' if np.linalg.norm(got - u) < 1e-4 else 'opt'}")
                    if not dec:
                        rep.skip()
                    if msg and failed and np.allclose(got, rigs.clip(got, low, high), atol=1e-6):
                        fails += 1
                        rep.skip()
                        if fails > 2 + 0.02 * cases:
                            rep.violation("solver keeps failing on feasible problems", kind=kind, cfg=cfg, form=form, step=dt, enabled=en, state=x, desired=u)
                    elif msg:
                        rep.violation(msg, kind=kind, cfg=cfg, form=form, step=dt, enabled=en, state=x, desired=u)
    rep.trace()


def call(rta, x, dt, u):
    """the returned control, and whether the nonlinear solver warned that it failed"""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        got = np.array(rta.filter_control(x, dt, u), float)
    return got, any("olver" in str(a.category) + str(a.message) for a in w)


KNOWN = {"C14-slsqp-rmax": ([-529.4622705867305, 394.9350465004197, 743.2778301805716, -0.6168577216589729, 0.16798023654176006, 0.7236514651203193, 0.495892, 0.5902523982028166],
                            [-1., -1., 1.], [0.156, -1., -0.621]),
         "C14-slsqp-yvel": ([-573.1070996139422, -663.5555969986616, -459.71972120395793, -0.3810650960790785, 0.9985003750596747, -0.9661743449571573, 0.5, 0.], [1., 1., 1.], [1., -0.0075, 1.])}


def solver_failure(rep):
    """listed inputs on which the solver gives up although an admissible control exists"""
    from run_time_assurance.zoo.cwh import inspection_1v1
    rta = inspection_1v1.DiscreteInspection1v1RTA()
    Ad, Bd = zoo.zoh_mats(*zoo.cwh(3), 1.)
    cons = zoo.inspection_discrete()

    def bar(x, u):
        nx = np.concatenate((Ad @ x[:6] + Bd @ u, [x[6] - zoo.N, x[7]]))
        return min(c.hb(nx) - c.hb(x) + poly(c.alpha, c.hb(x)) for c in cons)
    for fid, (x, u, good) in KNOWN.items():
        x, u, good = np.array(x), np.array(u), np.array(good)
        got, failed = call(rta, x, 1., u)
        rep.count_states()
        rep.step("listed input:" + ("solver failure" if failed else "solved"))
        if bar(x, good) < -2e-4:
            rep.violation("reference control of a listed input is not admissible", state=x, control=good, slack=bar(x, good))
        if failed:
            rep.known_finding(fid)
        elif bar(x, got) < -2e-4 or np.linalg.norm(got - u) > np.linalg.norm(good - u) + 1e-2:
            rep.violation("barrier violated or control not closest", state=x, desired=u, got=got, slack=bar(x, got))
    rep.trace()


def supplied(rep, part, parts, deep):
    from run_time_assurance.zoo.cwh import inspection_1v1
    rta = inspection_1v1.DiscreteInspection1v1RTA()
    A, B = zoo.cwh(3)
    cons = zoo.inspection_discrete()
    xs = []
    for p, az, el in itertools.product((14., 60., 400., 985.), (0.4, 2., 4.4), (-0.6, 0.3)):
        d = np.array([np.cos(az) * np.cos(el), np.sin(az) * np.cos(el), np.sin(el)])
        t = np.array([-np.sin(az), np.cos(az), 0.])
        for vr, vt in ((-0.12, 0.02), (0.1, 0.1), (0.18, 0.), (-0.02, 0.15)):
            for sun in (0.2, 3.6):
                xs.append(np.concatenate((p * d, vr * d + vt * t, [sun, 1.])))
    us = [np.array(u) for u in ((0.2, -0.1, 0.3), (1., 1., 1.), (-1., 0.5, -3.), (0.9, -1., 0.))]
    if not deep:
        xs, us = xs[::3], us[:3]
    cases = fails = 0
    for dt in (1., 0.5, 5.):
        Ad, Bd = zoo.zoh_mats(A, B, dt)

        def bar(x, u):
            nx = np.concatenate((Ad @ x[:6] + Bd @ u, [x[6] - zoo.N * dt, x[7]]))
            return np.array([(c.hb(nx) - c.hb(x)) / dt + poly(c.alpha, c.hb(x)) for c in cons])

        for x in xs[part::parts]:
            for u in us:
                got, failed = call(rta, x, dt, u)
                rep.count_states()
                cases += 1
                if np.any(np.abs(got) > 1 + 1e-6):
                    rep.violation("control outside the bounds", state=x, desired=u, got=got)
                    continue
                # independent optimum: sequential linearisation, each solved by active-set enumeration
                v, r = rigs.clip(u, -1, 1), None
                for _ in range(6):
                    b0 = bar(x, v)
                    J = np.array([(bar(x, v + e) - bar(x, v - e)) / 2e-4 for e in 1e-4 * np.eye(3)]).T
                    C, b, _n = rigs.bound_rows(3, -1., 1.)
                    C, b = np.array(list(C) + list(J)), np.array(list(b) + list(J @ v - b0 + 5e-5))
                    r = rigs.solve_qp(u, C, b)
                    if r is None:
                        break
                    v = r[0]
                if r is None or bar(x, v).min() < 0:
                    rep.step("supplied:undecided")
                    rep.skip()
                    continue
                mine = bar(x, got)
                best, d = np.linalg.norm(v - u), np.linalg.norm(got - u)
                rep.step("supplied:" + ("same" if d < 1e-4 else "opt"))
                if failed and (mine.min() < -2e-4 or d > best + 1e-2):
                    fails += 1
                    rep.skip()
                    if fails > 2 + 0.02 * cases:
                        rep.violation("solver keeps failing on feasible problems", state=x, desired=u, step=dt, got=got, better=v)
                elif mine.min() < -2e-4:
                    rep.violation(f"barrier of {cons[int(mine.argmin())].name} violated by {mine.min():.3g}", state=x, desired=u, step=dt, got=got, better=v)
                elif d > best + 1e-2:
                    rep.violation(f"distance {d:.4f} although {best:.4f} is admissible", state=x, desired=u, step=dt, got=got, better=v)
    rep.trace()


def shards(tier):
    deep = tier == "thorough"
    out = [("solver_failure", {})]
    for p in range(6):
        out.append(("supplied", dict(part=p, parts=6, deep=deep)))
    D = ([0.5], [0.0625], [0.25, 1.], [1 / 256.], [2., 8.])
    i = 0
    for kind, cfgs in (("dasif", ("si1", "lin2", "nl2")), ("dasifint", ("lin2", "nldi", "nl2"))):
        for cfg in cfgs:
            for form in FORMS[config(cfg)[0].m]:
                for dts in D:
                    i += 1
                    if max(dts) > 1. and (cfg not in ("si1", "lin2") or kind != "dasif"):
                        continue
                    if cfg == "nl2" and kind == "dasifint" and max(dts) > 0.5:
                        continue  # that system can escape to infinity within such a step
                    if not deep and i % 3 and config(cfg)[0].m > 1:
                        continue
                    out.append(("toy", dict(kind=kind, cfg=cfg, form=form, dts=dts, deep=deep)))
    return out
