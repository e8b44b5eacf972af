"""C20 prediction models: complete grids (basis states and controls, so every matrix entry is determined) against exact integration."""
import itertools

import jax.numpy as jnp
import numpy as np

from mc import snap, zoo, zoofleet

BOUNDS = ("every supplied filter with a prediction model x integration method x 3-4 mass / mean-motion configurations x step sizes {0.1, 0.5, 1, 5, 10} x {zero state, every "
          "basis state, 4 mixed states} x {zero, every basis control, saturated, mixed}; drift and input terms on the same states; 1..4 agents; named accessors: "
          "every get, every set and every pair of sets on every state wrapper; braking controllers: 12 velocities x 4 positions, each followed for 300 s in closed loop")
ASSUMPTIONS = ["single precision: absolute tolerance proportional to the magnitude of the state", "the docked integrator's braking controller is exercised for closing velocities"]

DTS = (0.1, 0.5, 1., 5., 10.)


def pts(k):
    """zero, scaled basis, mixed"""
    n = 2 * k
    out = [np.zeros(n)]
    for i in range(n):
        e = np.zeros(n)
        e[i] = 100. if i < k else 0.5
        out.append(e)
    out += [np.array(([300., -100., 50.][:k]) + ([0.5, -0.3, 0.2][:k])), np.array(([-12., 7., 900.][:k]) + ([-0.05, 0.9, -1.][:k]))]
    return out


def ctl(k):
    out = [np.zeros(k)]
    for i in range(k):
        for s in (1., -0.5):
            e = np.zeros(k)
            e[i] = s
            out.append(e)
    return out + [np.array([1., -1., 1.][:k]), np.array([0.3, 0.7, -0.2][:k])]


def close(got, exp, x, dt, rel=3e-6, floor=2e-6, extra=0.):
    """single precision relative to the quantities that enter each component"""
    k = len(x) // 2
    sp, sv = np.abs(x[:k]).max(initial=0.), np.abs(x[k:2 * k]).max(initial=0.)
    tp, tv = extra + rel * (sp + sv * dt) + floor * max(dt, 0.1) ** 2, rel * (sv + 0.01 * sp * min(dt, 1.)) + floor * max(dt, .1)
    tol = np.concatenate([np.full(k, tp), np.full(k, tv)])
    got = np.asarray(got, float)
    return got.shape == exp.shape and bool(np.all(np.abs(got - exp) <= tol + 1e-6 * np.abs(exp)))


def switching(rep, name, method, cfg, dts):
    rta = zoofleet.FLEET[name][0](integration_method=method, **cfg)
    k = 1 if name.startswith("int") else int(name[1])
    A, B = zoo.integ(cfg.get("m", 1.)) if k == 1 else zoo.cwh(k, cfg.get("m", zoo.M), cfg.get("n", zoo.N))
    for dt in dts:
        for x in pts(k):
            for u in ctl(k):
                exp = (zoo.euler if method == "Euler" else zoo.zoh)(A, B, x, dt, u)
                got = np.asarray(rta._pred_state(jnp.array(x), dt, jnp.array(u)), float)
                rep.step(f"{name}:{method}")
                rep.count_states()
                rep.check(close(got, exp, x, dt), "predicted next state", filter=name, method=method, config=cfg, dt=dt, state=x, control=u, got=got, expected=exp)
    terms(rep, rta, name, A, B, k, cfg)
    rep.trace()


def terms(rep, rta, name, A, B, k, cfg):
    if not hasattr(rta, "state_transition_system"):
        return
    for x in pts(k):
        f, g = np.asarray(rta.state_transition_system(jnp.array(x)), float), np.asarray(rta.state_transition_input(jnp.array(x)), float)
        rep.step(f"{name}:terms")
        rep.check(np.allclose(f, A @ x, rtol=1e-5, atol=1e-9) and g.shape == B.shape and np.allclose(g, B, rtol=1e-5), "drift and input terms", filter=name, config=cfg, state=x, f=f, f_expected=A @ x,
                  g=g, g_expected=B)


def optimisation(rep, name, cfg):
    rta = zoofleet.FLEET[name][0](**cfg)
    k = 1 if name.startswith("int") else int(name[1])
    A, B = zoo.integ(cfg.get("m", 1.)) if k == 1 else zoo.cwh(k, cfg.get("m", zoo.M), cfg.get("n", zoo.N))
    terms(rep, rta, name, A, B, k, cfg)
    rep.count_states(len(pts(k)))
    rep.trace()


TAIL = [(0., 0.), (0.7, 3.), (-2., 19.)]


def inspection(rep, cfg, which):
    from run_time_assurance.zoo.cwh import inspection_1v1 as m
    A, B = zoo.cwh(3, cfg.get("m", zoo.M), cfg.get("n", zoo.N))
    mass, sun = cfg.get("m", zoo.M), cfg.get("sun_vel", -zoo.N)
    rta = {"insp1": lambda: m.Inspection1v1RTA(**cfg), "disc": lambda: m.DiscreteInspection1v1RTA(**cfg), "dv": lambda: zoofleet._dv(**cfg)}[which]()
    if which == "dv":
        sun = -cfg.get("n", zoo.N)
    for dt in DTS:
        for x6 in pts(3):
            for tail in TAIL:
                x = np.concatenate([x6, tail])
                for u in ctl(3):
                    if which == "dv":
                        got = np.asarray(rta._pred_state(x, dt, u), float)
                        e6 = zoo.euler(A, B, x6, dt, u)
                    elif which == "disc":
                        got = np.asarray(rta.next_state_differentiable(jnp.array(x), dt, jnp.array(u)), float)
                        e6 = zoo.zoh(A, B, x6, dt, u)
                    else:
                        if tail != TAIL[1]:
                            continue
                        got = np.asarray(rta._pred_state(jnp.array(x), dt, jnp.array(u)), float)
                        e6 = zoo.zoh(A, B, x6, dt, u)
                    rep.step(which)
                    rep.count_states()
                    ctx = dict(filter=which, config=cfg, dt=dt, state=x, control=u)
                    # the Coriolis input entries of the discrete matrices are differences of almost equal single-precision numbers
                    ok = close(got[:6], e6, x6, dt, rel=5e-6 if which != "insp1" else 2e-5, extra=2e-3 * dt ** 2 / 2 / mass if which == "disc" else 0.)
                    rep.check(ok, "predicted next state", got=got[:6], expected=e6, **ctx)
                    et = [tail[0] + sun * dt, tail[1] + np.sum(np.abs(u)) / mass * dt]
                    rep.check(np.allclose(got[6:], et, atol=1e-5, rtol=1e-6), "predicted sun angle and accumulated delta-v", got=got[6:], expected=et, **ctx)
    if which == "insp1":
        for x6 in pts(3):
            x = np.concatenate([x6, TAIL[1]])
            f, g = np.asarray(rta.state_transition_system(jnp.array(x)), float), np.asarray(rta.state_transition_input(jnp.array(x)), float)
            rep.step("terms")
            rep.check(f.shape == (8,) and np.allclose(f[:6], A @ x6, rtol=1e-5, atol=1e-9) and np.isclose(f[6], sun, rtol=1e-5), "drift term", config=cfg, state=x, got=f)
            rep.check(g.shape == (8, 3) and np.allclose(g[:6], B, rtol=1e-5) and np.all(g[6] == 0), "input term", config=cfg, got=g)
            # the control-affine terms agree with the derivative used for prediction
            for u in ctl(3) if hasattr(rta, "compute_state_dot") and hasattr(rta, "compute_state_dot_cwh") else ():
                xd = np.asarray(rta.compute_state_dot(jnp.array(x), 0., jnp.array(u)), float)
                ex = np.concatenate([A @ x6 + B @ u, [sun, np.sum(np.abs(u)) / mass]])
                rep.check(np.allclose(xd, ex, rtol=1e-5, atol=1e-8), "state derivative", config=cfg, state=x, control=u, got=xd, expected=ex)
                xc = np.asarray(rta.compute_state_dot_cwh(jnp.array(x6), 0., jnp.array(u)), float)
                rep.check(np.allclose(xc, ex[:6], rtol=1e-5, atol=1e-8), "state derivative (orbit only)", config=cfg, state=x6, control=u, got=xc, expected=ex[:6])
    if which == "disc" and hasattr(rta, "discrete_a_mat") and hasattr(rta, "discrete_b_mat"):
        for dt in DTS + (0.05, 20., 60.):
            Ad, Bd = zoo.zoh_mats(A, B, dt)
            ga, gb = np.asarray(rta.discrete_a_mat(dt), float), np.asarray(rta.discrete_b_mat(dt), float)
            rep.step("matrices")
            tola = np.array([[3e-7, 3e-7, 3e-7, 3e-6 * dt, 3e-6 * dt, 3e-6 * dt]] * 3 + [[2e-9 * (1 + dt)] * 3 + [3e-7 * 4] * 3] * 3)
            rep.check(ga.shape == (6, 6) and np.all(np.abs(ga - Ad) <= tola + 1e-5 * np.abs(Ad)), "discrete transition matrix", config=cfg, dt=dt, got=ga, expected=Ad)
            # the Coriolis entries are differences of almost equal single-precision numbers: judged against the direct term
            tolb = np.array([[2e-3 * abs(Bd[0, 0])] * 3] * 3 + [[2e-5 * abs(Bd[3, 0])] * 3] * 3)
            rep.check(gb.shape == (6, 3) and np.all(np.abs(gb - Bd) <= tolb), "discrete input matrix", config=cfg, dt=dt, got=gb, expected=Bd)
    rep.trace()


def agents(rep, k, cfg):
    from run_time_assurance.zoo.cwh.inspection_3d import InspectionRTA
    rta = InspectionRTA(num_deputies=k, **cfg)
    A, B = zoo.cwh(3, cfg.get("m", zoo.M), cfg.get("n", zoo.N))
    sun = cfg.get("sun_vel", -zoo.N)
    P = pts(3)
    for i, x6 in enumerate(P):
        xs = [P[(i + 3 * d) % len(P)] for d in range(k)]
        x = np.concatenate(xs + [[0.4]])
        f, g = np.asarray(rta.state_transition_system(jnp.array(x)), float), np.asarray(rta.state_transition_input(jnp.array(x)), float)
        ef = np.concatenate([A @ y for y in xs] + [[sun]])
        eg = np.zeros((6 * k + 1, 3))
        eg[:6] = B
        rep.step(f"agents{k}")
        rep.count_states()
        rep.check(f.shape == ef.shape and np.allclose(f, ef, rtol=1e-5, atol=1e-9), "drift term of several agents", agents=k, config=cfg, state=x, got=f, expected=ef)
        rep.check(g.shape == eg.shape and np.allclose(g, eg, rtol=1e-5), "input term of several agents", agents=k, config=cfg, got=g, expected=eg)
    rep.trace()


def matrices(rep):
    from run_time_assurance.zoo.cwh.utils import generate_cwh_matrices
    for m, n, (mode, k) in itertools.product((12., 1., 30.), (0.001027, 0.01, 0.0001), (("2d", 2), ("3d", 3))):
        A, B = generate_cwh_matrices(m, n, mode=mode)
        eA, eB = zoo.cwh(k, m, n)
        rep.step("matrices")
        rep.count_states()
        rep.check(np.allclose(A, eA, rtol=1e-9) and np.allclose(B, eB, rtol=1e-9), "relative-orbit matrices", m=m, n=n, mode=mode, A=A, B=B)
    A, B = generate_cwh_matrices(12., 0.001)
    rep.check(np.shape(A) == (4, 4), "default mode is 2d")
    rep.trace()


WRAP = {"docking_2d.Docking2dState": ["x", "y", "x_dot", "y_dot"], "docking_3d.Docking3dState": ["x", "y", "z", "x_dot", "y_dot", "z_dot"],
        "inspection_1v1.Inspection3dState": ["x", "y", "z", "x_dot", "y_dot", "z_dot", "sun_angle", "delta_v"], "integrator_1d.Integrator1dDockingState": ["x", "x_dot"]}


def accessors(rep, cls):
    import importlib
    mod, nm = cls.split(".")
    m = importlib.import_module(("run_time_assurance.zoo.integrators." if mod.startswith("integ") else "run_time_assurance.zoo.cwh.") + mod)
    C, names = getattr(m, nm), WRAP[cls]
    base = np.arange(1, len(names) + 1) * 1.5 - 3.
    for depth in (1, 2, 3):
        if depth == 3 and len(names) > 6:
            continue
        for seq in itertools.product(range(len(names)), repeat=depth):
            src = base.copy()
            s = C(jnp.array(src))
            ref = base.copy()
            for t, i in enumerate(seq):
                v = 10. + t + 0.25 * i
                setattr(s, names[i], v)
                ref[i] = v
                rep.step("set")
                got = np.asarray(s.vector, float)
                rep.check(np.allclose(got, ref), "a named setter must change exactly its own component", cls=cls, sets=[names[q] for q in seq[:t + 1]], got=got, expected=ref)
                vals = [float(getattr(s, q)) for q in names]
                rep.check(np.allclose(vals, ref), "named getters must read their own component", cls=cls, sets=[names[q] for q in seq[:t + 1]], got=vals, expected=ref)
            rep.check(s.size == len(names) and len(s) == len(names), "size of the state", cls=cls)
            rep.count_states()
    a = np.array(base)
    s = C(a)
    setattr(s, names[0], 99.)
    rep.check(np.array_equal(a, base), "wrapping must copy the caller's vector", cls=cls)
    a[1] = 55.
    rep.check(np.isclose(float(getattr(s, names[1])), base[1]), "wrapping must copy the caller's vector", cls=cls)
    rep.trace()


def braking(rep, k, cfg):
    if k == 1:
        from run_time_assurance.zoo.integrators.integrator_1d import Integrator1dDockingBackupController
        c = Integrator1dDockingBackupController()
        A, B = zoo.integ()
        for p in (-5., -1., -0.1):
            for v in (0.1, 0.5, 1., 2.):
                s = np.array([p, v])
                dt, t = 0.05, 0
                while s[1] > dt:
                    u = np.asarray(c.generate_control(jnp.array(s), dt), float)
                    rep.step("brake1")
                    rep.check(u.shape == (1,) and -1 - 1e-6 <= u[0] < 0, "braking control must oppose the closing velocity within the bounds", state=s, got=u)
                    s2 = zoo.zoh(A, B, s, dt, np.clip(u, -1, 1))
                    rep.check(abs(s2[1] - (s[1] - dt)) < 1e-5, "full braking", state=s, got=s2)
                    s = s2
                    t += 1
                    if t > 100:
                        rep.violation("velocity does not reach zero", start=[p, v])
                        break
                rep.count_states()
                rep.trace()
        return
    from run_time_assurance.zoo.cwh import docking_2d, docking_3d
    C = docking_2d.Docking2dStopLQRBackupController if k == 2 else docking_3d.Docking3dStopLQRBackupController
    c = C(**cfg)
    A, B = zoo.cwh(k, cfg.get("m", zoo.M), cfg.get("n", zoo.N))
    dirs = [np.eye(k)[i] * s for i in range(k) for s in (1., -1.)] + [np.ones(k) / np.sqrt(k), np.array([1., -2., 2.][:k]) / 3.]
    for pos in ([0., 0., 0.], [0., 400., 0.], [0., -900., 0.]):
        for d in dirs:
            for sp in (0.05, 0.5):
                s = np.concatenate([np.array(pos[:k]), sp * d])
                speeds = [sp * np.linalg.norm(d)]
                for t in range(300):
                    u = np.asarray(c.generate_control(jnp.array(s), 1.), float)
                    rep.step("brake")
                    if t == 0:
                        rep.check(u.shape == (k,) and u @ s[k:] < 0, "braking control must oppose the velocity", state=s, got=u, config=cfg)
                    s = zoo.zoh(A, B, s, 1., np.clip(u, -1, 1))
                    v = np.linalg.norm(s[k:])
                    if v > 0.1 * speeds[0]:
                        rep.check(v < speeds[-1], "speed must decrease under the braking controller", start=[pos, list(sp * d)], t=t, got=v, before=speeds[-1], config=cfg)
                    speeds.append(v)
                    if v < 0.04 * speeds[0]:
                        break
                rep.check(speeds[-1] < 0.1 * speeds[0], "velocity must be driven towards zero", start=[pos, list(sp * d)], final=speeds[-1], config=cfg)
                rep.count_states()
                rep.trace()
    # at rest no control is needed; each axis brakes on its own
    for pos in ([100., 50., -20.], [0., 0., 0.]):
        u = np.asarray(c.generate_control(jnp.array(np.concatenate([np.array(pos[:k]), np.zeros(k)])), 1.), float)
        rep.check(np.allclose(u, 0, atol=1e-7), "no braking at rest", position=pos, got=u)


def shards(tier):
    deep = tier == "thorough"
    out = [("matrices", {})]
    CW = [{}, dict(m=20.), dict(n=0.002), dict(m=5., n=0.0005)]
    for f in ("d2_es", "d2_is", "d2_ia", "d3_es", "d3_is", "d3_ia", "int_es", "int_is", "int_ia"):
        for method in ("RK45", "Euler"):
            for cfg in CW if not f.startswith("int") else [{}, dict(m=2.)]:
                if not deep and method == "RK45" and len(cfg) == 1 and not f.endswith("es"):
                    continue
                out.append(("switching", dict(name=f, method=method, cfg=cfg, dts=DTS if deep or method == "Euler" else (0.5, 1., 10.))))
    for f in ("d2_ea", "d3_ea", "int_ea"):
        for cfg in CW if not f.startswith("int") else [{}, dict(m=2.)]:
            out.append(("optimisation", dict(name=f, cfg=cfg)))
    for cfg in CW + [dict(sun_vel=0.003)]:
        for w in ("insp1", "disc", "dv"):
            if w == "dv" and "sun_vel" in cfg:
                continue
            out.append(("inspection", dict(cfg=cfg, which=w)))
        for k in (1, 2, 3, 4):
            out.append(("agents", dict(k=k, cfg=cfg)))
    for w in WRAP:
        out.append(("accessors", dict(cls=w)))
    out.append(("braking", dict(k=1, cfg={})))
    for k in (2, 3):
        for cfg in CW:
            out.append(("braking", dict(k=k, cfg=cfg)))
    return out
