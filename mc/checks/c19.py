"""C19 spacecraft constraints: complete grids of physical states and configurations against independent geometric formulas."""
import itertools

import jax.numpy as jnp
import numpy as np

from mc import zoo

BOUNDS = ("relative positions: 7 directions x 6-8 distances straddling every limit; velocities: 9 (13 thorough) vectors from rest to closing / receding / tangential; sun angles: 5; cone keep-outs also on and 1e-6 .. 1e-2 rad beside their axis; "
          "second spacecraft: 6 relative positions; constructor grids of radius, deceleration, field of view, cone rate, distance limit, speed-limit coefficients, mean motion, "
          "horizon; each constraint class on its own, again as configured inside every supplied filter (1..5 agents, default and non-default mass / motion / radii / limits), and "
          "after in-place parameter changes; enforced value, reported value, gradient and the trajectory array of passive safety")
ASSUMPTIONS = ["points closer to a geometric boundary than single precision can resolve are counted as undecided", "contact points exactly at zero distance are excluded"]

DIRS = [np.array(v, float) / np.linalg.norm(v) for v in ([1, 0, 0], [0, -1, 0], [0, 0, 1], [1, 1, 0], [-1, 2, 2], [2, -1, 0.5], [-1, -1, -1])]


def vels(deep):
    """velocities relative to the line of sight: along, against, across and mixed"""
    out = []
    for s in ((0.02, 0.2, 0.6, 1.2) if deep else (0.05, 0.3, 1.2)):
        out += [("along", s), ("against", s), ("across", s)]
    return out + [("mixed", 0.4)]


def vel_of(kind, s, d):
    t = np.cross(d, [0.3, -0.5, 0.8])
    t /= np.linalg.norm(t)
    return {"along": s * d, "against": -s * d, "across": s * t, "mixed": s * (t - 0.5 * d)}[kind]


def states(radii, deep):
    for d in DIRS:
        for r in radii:
            yield np.concatenate([r * d, np.zeros(3)]), d
            for k, s in vels(deep):
                yield np.concatenate([r * d, vel_of(k, s, d)]), d


def judge(rep, c, z, x, phi, tol, geom, near, ctx, grad=False, gscale=1.):
    """compares enforced and reported value with the reference; near: undecidable in single precision"""
    xs = jnp.array(x)
    got, p = float(c(xs, c.params)), float(c.phi(xs, c.params))
    e, ep = z(x), phi(x)
    rep.step(f"{ctx['constraint']}:{e >= 0}{ep >= 0}")
    rep.count_states()
    ctx = dict(ctx, state=x)
    bias = float(c.bias)
    if near:
        rep.skip()
    else:
        rep.check(abs(got - bias - e) <= tol, "enforced value", got=got - bias, expected=e, tolerance=tol, **ctx)
        if abs(e) > tol and abs(e + bias) > tol:
            rep.check((got - bias >= 0) == (e >= 0), "safe exactly when the physical condition holds", got=got - bias, expected=e, **ctx)
        if grad:
            g = np.asarray(c.grad(xs, c.params), float)
            eg = zoo.Z("", z, [0, 1]).grad(x)
            rep.check(g.shape == eg.shape and np.allclose(g, eg, atol=5e-3 * gscale, rtol=2e-2), "gradient", got=g, expected=eg, **ctx)
    if abs(ep) > geom:
        rep.check((p >= 0) == (ep >= 0), "reported value has the wrong sign for the geometric condition", got=p, expected=ep, **ctx)
    rep.check(abs(p - ep) <= max(geom, 1e-4 * abs(ep)), "reported value", got=p, expected=ep, **ctx)


def rel_velocity(rep, k, deep):
    if k == 2:
        from run_time_assurance.zoo.cwh.docking_2d import ConstraintDocking2dRelativeVelocity as C
    else:
        from run_time_assurance.zoo.cwh.docking_3d import ConstraintCWH3dRelativeVelocity as C
    for v0, v1, d0, delta in itertools.product((0.2, 1.), (0.002, 0.0041, 0.), (0., 50.), (1e-5, 1e-3)):
        c = C(v0=v0, v1=v1, v0_distance=d0, delta=delta)
        z = zoo.relvel(k, v0, v1, d0, delta)
        for p in (0., 0.5, 30., 50., 300., 2000.):
            for d in ([1, 0, 0], [0, -1, 0], [1, 1, 0], [-0.6, 0.8, 0]) + (([0, 0, 1],) if k == 3 else ()):
                for v in ([0, 0, 0], [0.1, 0, 0], [0, -0.2, 0], [0.3, 0.4, 0], [-1., 1., 0], [5., 0, 0]) + (([0, 0, 0.25],) if k == 3 else ()):
                    x = np.concatenate([p * np.array(d, float)[:k], np.array(v, float)[:k]])
                    lim = v0 + v1 * (nd0(x[:k]) - d0) - nd0(x[k:])
                    e = z(x)
                    # documented condition ||v|| <= v0 + v1 (distance - d0), up to the smoothing delta
                    if abs(lim) > 2 * np.sqrt(delta):
                        rep.check((e >= 0) == (lim >= 0), "reference", state=x)
                    judge(rep, c, z, x, z, 1e-5 + 1e-6 * abs(v1 * p) + 1e-6 * nd0(v), 1e-5, abs(e) < 1e-6, dict(constraint=f"relative velocity {k}d", v0=v0, v1=v1, v0_distance=d0, delta=delta),
                          grad=deep or (v0 == 0.2 and d0 == 0. and p in (0., 30.) and delta == 1e-3))
        # parameter change in place
        for nv in (0.7, 0.3):
            c.params["v0"] = nv
            x = np.concatenate([100. * np.eye(k)[0], 0.25 * np.eye(k)[-1]])
            e = zoo.relvel(k, nv, v1, d0, delta)(x)
            rep.step("changed")
            rep.check(abs(float(c(jnp.array(x), c.params)) - e) < 1e-5, "value after a parameter change", v0=nv, expected=e)
        rep.trace()


def nd0(v):
    return float(np.linalg.norm(v))


def chief_collision(rep, R, deep):
    from run_time_assurance.zoo.cwh.inspection_1v1 import ConstraintCWHChiefCollision, HOCBFExampleChiefCollision
    hc = HOCBFExampleChiefCollision(collision_radius=R)
    for a in (0.08, 0.0767, 0.01):
        c = ConstraintCWHChiefCollision(collision_radius=R, a_max=a)
        for x, _ in states((0.25 * R, 0.9 * R, 1.01 * R, 1.5 * R, 4 * R, 200.), deep):
            r = nd0(x[:3])
            judge(rep, c, zoo.collision(R, a), x, lambda y: nd0(y[:3]) - R, 1e-4 + a * 4e-5 * R / np.sqrt(max(2 * a * abs(r - R), 1e-9)), 1e-4, False,
                  dict(constraint="chief collision", R=R, a_max=a), grad=a == 0.08)
            h = float(hc(jnp.array(x), hc.params))
            rep.check(abs(h - (r - R)) < 1e-3 * R, "clearance of the higher-order example", state=x, got=h, expected=r - R)
        for R2, a2 in ((2 * R, a), (R, 2 * a)):
            c.params["collision_radius"], c.params["a_max"] = R2, a2
            for x, _ in states((1.5 * R, 3 * R), False):
                judge(rep, c, zoo.collision(R2, a2), x, lambda y: nd0(y[:3]) - R2, 2e-4, 1e-4, False, dict(constraint="chief collision (changed)", R=R2, a_max=a2))
        rep.trace()


def max_distance(rep, R, deep):
    from run_time_assurance.zoo.cwh.inspection_1v1 import ConstraintCWHMaxDistance
    for a in (0.08, 0.0767, 0.01):
        c = ConstraintCWHMaxDistance(r_max=R, a_max=a)
        for x, _ in states((0.01 * R, 0.5 * R, 0.9 * R, 0.99 * R, 1.01 * R, 1.5 * R), deep):
            judge(rep, c, zoo.maxdist(R, a), x, lambda y: R - nd0(y[:3]), 5e-4, 1e-3, False, dict(constraint="maximum distance", R=R, a_max=a), grad=a == 0.08)
        for R2, a2 in ((0.7 * R, a), (R, 2 * a)):
            c.params["r_max"], c.params["a_max"] = R2, a2
            for x, _ in states((0.5 * R, 0.95 * R), False):
                judge(rep, c, zoo.maxdist(R2, a2), x, lambda y: R2 - nd0(y[:3]), 5e-4, 1e-3, False, dict(constraint="maximum distance (changed)", R=R2, a_max=a2))
        rep.trace()


ANG = (0., 0.7, 2.5, -1.9, 3.6)


def cone_case(rep, c, a, fov, omega, x, ctx, pos=lambda x: x[0:3], vel=lambda x: x[3:6], axis=zoo.sunaxis(-1), grad=False):
    p, ax = pos(x), axis(x)
    r = nd0(p)
    ang = np.arctan2(nd0(np.cross(p, ax)), p @ ax)
    d = r * np.sin(ang - fov / 2)
    s = 4e-7 * (2. + abs(x[-1] if len(x) % 6 == 1 else x[6]))  # relative single-precision error of the geometry, sun angle included
    near = abs(d) < max(200 * r * s, 0.02)
    speed = nd0(vel(x)) + abs(omega) * r
    side = s / max(np.sin(ang), 1e-12)  # error of the direction away from the axis
    tol = 2e-4 + a * r * s / np.sqrt(2 * a * max(abs(d), 1e-9)) + speed * (3 * r * s / max(abs(d), 1e-9) + 1e-5)
    dang = s / max(np.sin(ang), 3e-4)  # the reported angle is the arccos of a single-precision cosine
    phi = lambda y: float(np.arctan2(nd0(np.cross(pos(y), axis(y))), pos(y) @ axis(y)) - fov / 2)  # noqa
    if side < 0.02:
        judge(rep, c, zoo.cone(a, fov, pos, vel, axis, omega), x, phi, tol + speed * side, max(1e-5, 3 * dang), near, ctx, grad=grad and abs(d) > 2. and not near and np.sin(ang) > 3e-2)
        return
    # on the axis, to single precision: no direction away from it is distinguished, so any of them (or their mean) is accepted
    xs = jnp.array(x)
    got, ph, g = float(c(xs, c.params)) - float(c.bias), float(c.phi(xs, c.params)), np.asarray(c.grad(xs, c.params), float)
    cs = [zoo.cone(a, fov, pos, vel, axis, omega, toward=t)(x) for t in around(ax)]
    rep.step(f"{ctx['constraint']}:axis{p @ ax > 0}")
    rep.count_states()
    rep.check(min(cs) - tol - 0.03 * speed <= got <= max(cs) + tol + 0.03 * speed, "enforced value on the axis of the cone", got=got, expected=[min(cs), max(cs)], state=x, **ctx)
    rep.check(abs(ph - phi(x)) < 3e-3, "reported value on the axis of the cone", got=ph, expected=phi(x), state=x, **ctx)
    rep.check(bool(np.all(np.isfinite(g))), "gradient on the axis of the cone", got=g, state=x, **ctx)


def around(ax):
    e1 = np.cross(ax, [0., 0., 1.])
    e1 /= nd0(e1)
    e2 = np.cross(ax, e1)
    return [np.cos(k * np.pi / 16) * e1 + np.sin(k * np.pi / 16) * e2 for k in range(32)]


def conic(rep, fov, omega, deep):
    from run_time_assurance.zoo.cwh.inspection_1v1 import ConstraintCWHConicKeepOutZone
    for a in ((0.0767, 0.02) if not deep else (0.0767, 0.02, 0.2)):
        c = ConstraintCWHConicKeepOutZone(a_max=a, fov=fov, get_pos=lambda s: s[0:3], get_vel=lambda s: s[3:6], get_cone_vec=lambda s: -3. * jnp.array([jnp.cos(s[-1]), jnp.sin(s[-1]), 0.]),
                                          cone_ang_vel=jnp.array([0., 0., omega]))
        for th in ANG[:3] if not deep else ANG:
            for x6, _ in states((20., 300.) if not deep else (20., 300., 900.), deep):
                x = np.concatenate([x6, [th]])
                cone_case(rep, c, a, fov, omega, x, dict(constraint="cone", fov=fov, omega=omega, a_max=a), grad=th == 0.7 and a == 0.0767)
        # on and next to the axis, towards and away from the sun
        for th, r, sg, off, (k, s) in itertools.product((0., 0.7, np.pi, -np.pi / 2), (20., 300.), (1., -1.), (0., 1e-6, 1e-5, 1e-4, 3e-4, 1e-3, 1e-2), vels(deep)[::2]):
            ax = sg * zoo.sunaxis(-1)([th])
            for t in around(ax)[::11]:
                cone_case(rep, c, a, fov, omega, np.concatenate([r * (ax + off * t), vel_of(k, s, ax), [th]]), dict(constraint="cone", fov=fov, omega=omega, a_max=a))
                if off == 0.:
                    break
        for f2 in (0.5 * fov, 1.2 * fov):
            c.params["fov"] = f2
            for x6, _ in states((50.,), False):
                cone_case(rep, c, a, f2, omega, np.concatenate([x6, [0.7]]), dict(constraint="cone (changed)", fov=f2, omega=omega, a_max=a))
        rep.trace()


def passive(rep, n, R, deep, deputy=None):
    """least clearance along the unforced orbit, and the whole clearance array"""
    from run_time_assurance.zoo.cwh.inspection_1v1 import ConstraintPassivelySafeManeuver
    from run_time_assurance.zoo.cwh.inspection_3d import ConstraintPSMDeputy
    for dt, steps in ((1., 100), (2.5, 40), (10., 7), (1., 1)) + (((20., 100),) if deep else ()):
        kw = dict(collision_radius=R, m=12., n=n, dt=dt, steps=steps)
        c = ConstraintPassivelySafeManeuver(**kw) if deputy is None else ConstraintPSMDeputy(deputy=deputy, **kw)
        z = zoo.psm(R, n=n, dt=dt, steps=steps, j=deputy)
        A, _ = zoo.cwh(3, n=n)
        num = 0
        for x6, _ in states((0.5 * R, 1.2 * R, 60., 600.), deep):
            if deputy is None:
                x = x6
            else:
                other = [np.array([40., -30., 20., 0.1, 0.2, -0.1]), np.array([-300., 100., 5., 0., -0.3, 0.2])]
                fill = np.array([7., -9., 3., 0.3, 0.1, 0.2])
                base = other[deputy % 2]
                rest = [fill * (i + 1) for i in range(max(3, deputy))]
                rest[deputy - 1] = base
                x = np.concatenate([x6 + base] + rest + [[0.4]])
            T = dt * steps
            v = nd0(x[3:6]) + (0 if deputy is None else nd0(x[6 * deputy + 3:6 * deputy + 6]))
            pmag = nd0(x[:3]) + (0 if deputy is None else nd0(x[6 * deputy:6 * deputy + 3]))
            tol = 1e-4 + 5e-7 * v / n + 2e-6 * (pmag + v * T) + 4e-6 * pmag
            judge(rep, c, z, x, z, tol, tol, False, dict(constraint="passive safety" + ("" if deputy is None else " (deputy)"), n=n, R=R, dt=dt, steps=steps),
                  grad=False)
            num += 1
            if not deep and num % 6:
                continue
            arr = np.asarray(c.get_array(jnp.array(x), c.params), float)
            s = x[0:6] if deputy is None else x[0:6] - x[6 * deputy:6 * deputy + 6]
            import scipy.linalg as sl
            E = sl.expm(A * dt)
            ref, cur = [], s.copy()
            for _ in range(steps + 1):
                ref.append(nd0(cur[:3]) - R)
                cur = E @ cur
            rep.check(arr.shape == (steps + 1,) and np.all(np.abs(arr - ref) <= tol), "clearance along the unforced orbit", state=x, n=n, dt=dt, steps=steps, got=arr[:5], expected=ref[:5], worst=float(np.max(np.abs(arr.ravel()[:steps + 1] - ref[:len(arr.ravel())]))) if arr.size else None)
        c.params["collision_radius"] = 2 * R
        e = zoo.psm(2 * R, n=n, dt=dt, steps=steps, j=deputy)(x)
        rep.check(abs(float(c(jnp.array(x), c.params)) - e) <= tol, "value after a parameter change")
        rep.trace()


def deputy_collision(rep, deputy, deep):
    from run_time_assurance.zoo.cwh.inspection_3d import ConstraintCWHDeputyCollision
    for R, a in itertools.product((10., 6.), (0.0767, 0.02)):
        c = ConstraintCWHDeputyCollision(collision_radius=R, a_max=a, deputy=deputy)
        base = np.array([40., -30., 20., 0.1, 0.2, -0.1])
        for x6, _ in states((0.25 * R, 0.9 * R, 1.05 * R, 4 * R, 200.), deep):
            rest = [np.array([7., -9., 3., 0.3, 0.1, 0.2]) * (i + 1) for i in range(max(3, deputy))]
            rest[deputy - 1] = base
            x = np.concatenate([x6 + base] + rest + [[0.4]])
            judge(rep, c, zoo.collision(R, a, j=deputy, k=2.), x, lambda y: nd0(y[:3] - y[6 * deputy:6 * deputy + 3]) - R, 1.5e-3, 1e-4, abs(nd0(x6[:3]) - R) < 0.02,
                  dict(constraint="deputy collision", R=R, a_max=a, deputy=deputy), grad=deep)
        rep.trace()


CONF = {
    "default": {}, "heavy": dict(m=20.), "slow": dict(n=0.0005), "radii": dict(chief_radius=8., deputy_radius=3.), "speed": dict(v0=0.4, v1_coef=3., v0_distance=20.),
    "range": dict(r_max=500.), "fov": dict(fov=0.6), "vlim": dict(vel_limit=0.5), "sun": dict(sun_vel=0.002),
}


def _zargs(cfg):
    m = {"m": "m", "n": "n", "chief_radius": "rc", "deputy_radius": "rd", "v0": "v0", "v1_coef": "v1c", "v0_distance": "v0d", "r_max": "rmax", "fov": "fov", "vel_limit": "vlim", "sun_vel": "sun"}
    out = {m[k]: v for k, v in cfg.items()}
    out.setdefault("sun", -zoo.N)
    return out


def in_filter(rep, which, cfg, k, deep):
    """the constraints as configured inside a supplied filter"""
    kw = CONF[cfg]
    za = _zargs(kw)
    if which == "insp3":
        from run_time_assurance.zoo.cwh.inspection_3d import InspectionRTA
        rta, ref = InspectionRTA(**kw) if k == 5 else InspectionRTA(num_deputies=k, **kw), zoo.inspection3(k, **za)  # five is the default
    else:
        from run_time_assurance.zoo.cwh import inspection_1v1 as m
        hoc = which == "insp1h"
        if which == "disc":
            rta, ref = m.DiscreteInspection1v1RTA(**kw), zoo.inspection_discrete(**za)
        else:
            rta, ref = m.Inspection1v1RTA(use_hocbf=hoc, **kw), zoo.inspection1(hocbf=hoc, **za)
    rep.check(sorted(rta.constraints) == sorted(z.name for z in ref), "set of constraints in force", got=sorted(rta.constraints), expected=sorted(z.name for z in ref))
    n, R = za.get("n", zoo.N), za.get("rc", 5.) + za.get("rd", 5.)
    Rd, rmax, fov = 2 * za.get("rd", 5.), za.get("rmax", 1000.), za.get("fov", np.pi / 3)
    a = zoo.a_max(za.get("m", zoo.M), n, za.get("v0", 0.2), za.get("v1c", 2), rmax, za.get("vlim", 1.))
    others = [np.array([40., -30., 20., 0.1, 0.2, -0.1]), np.array([-300., 100., 5., 0., -0.3, 0.2]), np.array([30., 250., -60., -0.2, 0., 0.3]), np.array([-70., -90., 200., 0.3, -0.1, 0.])]
    pts = []
    for th in ANG[:2] if not deep else ANG[:4]:
        for x6, _ in states((0.9 * R, 1.3 * R, 100., 0.97 * rmax), deep):
            pts.append(np.concatenate([x6] + others[:k - 1] + [[th]] + ([[1.]] if which != "insp3" else [])))
        for o in others[:k - 1]:
            for x6, _ in states((0.8 * Rd, 2 * Rd), False):
                pts.append(np.concatenate([x6 + o] + others[:k - 1] + [[th]]))
    for z in ref:
        c = rta.constraints[z.name]
        rep.check(abs(float(c.bias) - z.bias) < 1e-9 and abs(float(c.bias_negative) - z.bias_neg) < 1e-9, "bias", constraint=z.name, got=float(c.bias), expected=z.bias)
        for v in (-0.5, 0.25, 2.):
            rep.check(np.isclose(float(c.alpha(v)), zoo.poly(z.alpha, v), rtol=1e-5), "strengthening function", constraint=z.name, got=float(c.alpha(v)), expected=zoo.poly(z.alpha, v))
        ctx = dict(constraint=f"{which}.{z.name}", config=cfg, agents=k)
        # reported value
        nm = z.name
        i = -1 if which == "insp3" else 6
        for x in pts:
            y = x
            if nm in ("sun", "chief_sun") or nm.startswith("deputy_sun"):
                ax = zoo.sunaxis(i)
                if nm.startswith("deputy"):
                    d = int(nm.split("_")[-1])

                    def sg(q, d=d, ax=ax):
                        return 1. if (q[0:3] - q[6 * d:6 * d + 3]) @ ax(q) >= 0 else -1.
                    dp = x[:3] - x[6 * d:6 * d + 3]
                    if abs(dp @ ax(x)) < 1e-3 * nd0(dp):
                        rep.skip()
                        continue
                    cone_case(rep, c, a, fov, za["sun"], x, ctx, lambda q, d=d: sg(q) * (q[0:3] - q[6 * d:6 * d + 3]), lambda q, d=d: sg(q) * (q[3:6] - q[6 * d + 3:6 * d + 6]), ax)
                else:
                    cone_case(rep, c, a, fov, za["sun"], x, ctx, axis=ax)
                continue
            if "PSM" in nm:
                v = nd0(x[3:6]) + 0.4
                tol = 1e-4 + 5e-7 * v / n + 6e-6 * (nd0(x[:3]) + 400.) + 2e-6 * v * 100
                judge(rep, c, z.h, y, z.h, tol, tol, False, ctx)
            elif "deputy_collision" in nm:
                d = int(nm.split("_")[-1])
                judge(rep, c, z.h, y, lambda q, d=d: nd0(q[:3] - q[6 * d:6 * d + 3]) - Rd, 1.5e-3, 2e-3, abs(nd0(x[:3] - x[6 * d:6 * d + 3]) - Rd) < 0.02, ctx)
            elif "hocbf" in nm:
                judge(rep, c, z.h, y, lambda q: nd0(q[:3]) - R, 2e-3 + 1e-6 * abs(z.h(y)), 1e-3, False, ctx)
            elif nm == "chief_collision":
                judge(rep, c, z.h, y, lambda q: nd0(q[:3]) - R, 1e-3, 2e-3, False, ctx)
            elif nm == "r_max":
                judge(rep, c, z.h, y, lambda q: rmax - nd0(q[:3]), 1e-3, 2e-3, False, ctx)
            else:
                judge(rep, c, z.h, y, z.h, 2e-5 + 1e-6 * nd0(x[:3]), 2e-5 + 1e-6 * nd0(x[:3]), False, ctx)
        rep.trace()


def docking_filters(rep, name, cfg):
    from mc import zoofleet
    k = 2 if name.startswith("d2") else 3
    kw = dict(cfg)
    rta = zoofleet.FLEET[name][0](**kw)
    n = kw.get("n", zoo.N)
    v1c = kw.get("v1_coef")
    lims = [kw.get(f"{a}_vel_limit", 10) for a in "xyz"]
    ref = {z.name: z for z in zoo.docking(k, v0=kw.get("v0", 0.2 if k == 2 else 0.2), v1_coef=v1c, n=n, v0d=kw.get("v0_distance", 0.), lims=lims)}
    rep.check(sorted(rta.constraints) == sorted(ref), "set of constraints in force", got=sorted(rta.constraints), expected=sorted(ref))
    for nm, c in rta.constraints.items():
        z = ref[nm]
        rep.check(abs(float(c.bias) - z.bias) < 1e-9, "bias", constraint=nm, filter=name, got=float(c.bias), expected=z.bias)
        for p in (0., 30., 800.):
            for d in ([1, 0, 0], [-0.6, 0.8, 0], [0, 0, 1]):
                for v in ([0, 0, 0], [0.1, -0.2, 0.1], [0.5, 0.4, -1.], [5., -11., 20.], [-9.9, 9.9, 10.1]):
                    x = np.concatenate([p * np.array(d, float)[:k], np.array(v, float)[:k]])
                    judge(rep, c, z.h, x, z.h, 1e-4, 1e-4, False, dict(constraint=f"docking {nm}", filter=name, config=cfg))
    rep.trace()


def integrators(rep):
    from mc import zoofleet
    ref = {"int_es": zoo.integrator_explicit(), "int_ea": zoo.integrator_explicit(), "int_is": zoo.integrator_implicit(), "int_ia": zoo.integrator_implicit()}
    for name, zs in ref.items():
        rta = zoofleet.FLEET[name][0]()
        rep.check(sorted(rta.constraints) == sorted(z.name for z in zs), "set of constraints in force", filter=name)
        for z in zs:
            for x in itertools.product((-5., -1., -0.25, 0., 0.5), (-2., -0.5, 0., 1., 1.5)):
                judge(rep, rta.constraints[z.name], z.h, np.array(x), z.h, 1e-5, 1e-6, False, dict(constraint="integrator", filter=name))
        rep.trace()


def shards(tier):
    deep = tier == "thorough"
    out = [("integrators", {})]
    for k in (2, 3):
        out.append(("rel_velocity", dict(k=k, deep=deep)))
    for R in (10., 4., 25.):
        out.append(("chief_collision", dict(R=R, deep=deep)))
    for R in (1000., 200.):
        out.append(("max_distance", dict(R=R, deep=deep)))
    for f in (np.pi / 3, 0.5, 1.5):
        for o in (-zoo.N, 0.004, 0.):
            out.append(("conic", dict(fov=f, omega=o, deep=deep)))
    for n in (zoo.N, 0.0005, 0.004):
        for d in (None, 1, 2, 3, 4):
            out.append(("passive", dict(n=n, R=10. if n < 0.004 else 6., deep=deep, deputy=d)))
    for d in (1, 2, 3, 4, 7):
        out.append(("deputy_collision", dict(deputy=d, deep=deep)))
    for cfg in CONF:
        out.append(("in_filter", dict(which="insp1", cfg=cfg, k=1, deep=deep)))
        out.append(("in_filter", dict(which="disc", cfg=cfg, k=1, deep=deep)))
        for k in (5, 4, 3, 2, 1):
            if deep or k == 3 or cfg == "default":
                out.append(("in_filter", dict(which="insp3", cfg=cfg, k=k, deep=deep)))
        if deep or cfg in ("default", "radii"):
            out.append(("in_filter", dict(which="insp1h", cfg=cfg, k=1, deep=deep)))
    for f in ("d2_es", "d2_is", "d2_ea", "d2_ia", "d3_es", "d3_is", "d3_ea", "d3_ia"):
        for cfg in ({}, dict(v0=0.5), dict(v1_coef=3.), dict(n=0.002), dict(v0_distance=15.), dict(x_vel_limit=2., y_vel_limit=3.)):
            if deep or f.endswith(("es", "ia")) or not cfg:
                out.append(("docking_filters", dict(name=f, cfg=cfg)))
    return out
