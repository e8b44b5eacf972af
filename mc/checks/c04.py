"""C04 telemetry: every interleaving of calls, constraint updates, toggles and resets; the info record is compared with the reference model."""
import itertools

import numpy as np

from mc import fleet, snap, zoofleet
from mc.ref import Sys, observe
from mc.rigs import CSpec, SI2, LinearBackup

BOUNDS = ("toy filters of all 5 algorithms, also with biased / disabled / subset constraints: every interleaving of {4-5 call kinds, 2 constraint updates, enable, "
          "disable, reset} to depth 4 (quick) / 6 (thorough) with merging and every sequence of length 3/4 without; supplied filters: length 3; reported values: every ordered pair of {filter call, update} over 7 states 4e-6 .. 1 apart x 2 limits; intervention "
          "threshold: 5 thresholds x distances {0, .5, .9, 1.1, 2, 20} x threshold in 4 directions x 3 optimisation algorithms x bounds")
ASSUMPTIONS = ["constraint values are judged after enabled filter calls and after explicit updates (a disabled call does not evaluate constraints)"]


def check_info(info, exp, tol=1e-4):
    """exp: dict(desired, actual, enable, interv, label, phi); label None: not judged"""
    for k, e in (("control_desired", exp["desired"]), ("control_actual", exp["actual"])):
        if k not in info:
            return f"info lacks {k}"
        v = info[k]
        if e is None:
            if v is not None:
                return f"{k} is {v} expected None"
        elif v is None or np.shape(v) != np.shape(e) or not np.allclose(np.asarray(v, float), e, atol=1e-6, rtol=1e-6):
            return f"{k} is {v} expected {e}"
    if bool(info.get("enable")) != exp["enable"]:
        return f"enable is {info.get('enable')} expected {exp['enable']}"
    if exp["interv"] is not None and bool(info.get("intervening")) != exp["interv"]:
        return f"intervening is {info.get('intervening')} expected {exp['interv']}"
    if exp["label"]:
        has = [k for k in ("constraints", "constraints_at_last_state") if k in info]
        if has != [exp["label"]]:
            return f"constraint values labelled {has}, expected {exp['label']}"
        got = info[exp["label"]]
        if set(got) != set(exp["phi"]):
            return f"constraint names {sorted(got)} expected {sorted(exp['phi'])}"
        for n, v in exp["phi"].items():
            if not np.isclose(float(got[n]), v, atol=tol, rtol=1e-4):
                return f"constraint {n} reported {got[n]} expected {v}"
    return None


def explore(rep, label, rta, init, step, reset, phi, calls, depth, flat):
    """step(m, call) -> (m', expected intervening or None, expected control or None)"""
    ops = []

    def run_call(r, x, dt, u):
        out = r.filter_control(np.array(x, float), dt, np.array(u, float))
        return np.array(out), r.generate_info(), bool(r.intervening)

    def mk(k):
        x, dt, u = calls[k]

        def spec(m):
            m2, interv, ctrl = step(m, k)
            en = m[0]

            def judge(obs):
                got, info, flag = obs
                rep.outcomes[f"{label}:{'off' if not en else 'int' if interv else 'pass'}"] += 1
                if ctrl is not None and not np.allclose(got, ctrl, atol=3e-3):
                    return f"control {got.tolist()} expected {ctrl}"
                if bool(info["intervening"]) != flag:
                    return "info and attribute disagree about intervening"
                return check_info(info, dict(desired=np.array(u, float), actual=got, enable=en, interv=interv,
                                             label="constraints_at_last_state" if en and phi else None, phi=phi(x) if en and phi else None))
            return m2, judge
        return k, (lambda r: run_call(r, x, dt, u)), spec

    for k in calls:
        ops.append(mk(k))
    keys = list(calls)[:2]
    for k in keys:
        x = calls[k][0]
        if not hasattr(rta, "update_constraint_values"):
            break

        def upd(r, x=x):
            r.update_constraint_values(np.array(x, float))
            return r.generate_info()

        def spec(m, x=x):
            return m, (lambda info: check_info(dict(info), dict(desired=info["control_desired"], actual=info["control_actual"], enable=m[0], interv=None,
                                                                label="constraints", phi=phi(x))))
        ops.append((f"update[{k}]", upd, spec))
    ops.append(("disable", lambda r: setattr(r, "enable", False), lambda m: None if not m[0] else ((False, m[1]), lambda o: None)))
    ops.append(("enable", lambda r: setattr(r, "enable", True), lambda m: None if m[0] else ((True, m[1]), lambda o: None)))

    def rst(r):
        r.reset()
        return r.generate_info()
    ops.append(("reset", rst, lambda m: ((True, reset(m[1])), lambda info: check_info(info, dict(desired=None, actual=None, enable=True, interv=False, label=None)))))
    snap.explore(rep, rta, (True, init), ops, depth, replays=40, label=label, flat=flat)


def toy(rep, kind, depth, flat, variant="std", **kw):
    ctl = kw.pop("ctl", None)
    if ctl:
        kw["ctl"] = fleet.counter(ctl)
    sysm = fleet.ALL[kind](**kw)
    over = {}
    if variant == "subset":
        names = [s.name for s in sysm.specs][::2]
        over["constraints_to_use"] = names
    if variant == "off":
        sysm.specs[0].enabled = False
    rta = sysm.build(**over)
    if variant == "subset":
        sysm.specs = [s for s in sysm.specs if s.name in over["constraints_to_use"]]
    calls = fleet.calls(sysm)
    m0 = sysm.init()

    def step(m, k):
        x, dt, u = calls[k]
        ms, out = sysm.step(m[1]._replace(enable=m[0]), x, dt, u)
        judge_i = out.margin > 1e-3 or "simplex" in kind
        if kind == "dasif" and out.status == "infeasible":
            return (m[0], ms._replace(enable=True)), None, None
        return (m[0], ms._replace(enable=True)), (bool(out.interv) if judge_i else None), out.u

    explore(rep, f"{kind}-{variant}", rta, m0, step, sysm.fresh, lambda x: sysm.phi(m0, x), calls, depth, flat)


def supplied(rep, name, n):
    b, calls = zoofleet.FLEET[name]
    calls = {k: c for k, c in calls.items() if k != "coll"}
    rta = b()
    s0 = snap.snapshot(rta)
    table, phis = {}, {}
    import jax.numpy as jnp
    for k, (x, dt, u) in calls.items():
        snap.restore(s0)
        table[k] = observe(rta, x, dt, u)
        if hasattr(rta, "constraints"):
            phis[tuple(x)] = {c: float(v.phi(jnp.array(x), v.params)) for c, v in rta.constraints.items()}
    snap.restore(s0)

    def step(m, k):
        if not m[0]:
            return m, False, np.asarray(calls[k][2])
        return m, table[k][1], table[k][0]

    # composites report no constraint values
    explore(rep, name, rta, 0, step, lambda m: 0, (lambda x: phis[tuple(x)]) if phis else None, calls, n, n)


def threshold(rep, kind, bounded):
    """the intervening flag is the comparison of a known distance with the configured threshold"""
    specs = [CSpec("a", "max", 1., idx=0), CSpec("b", "max", 1., idx=1)]
    x = np.array([0.5, 0.5])  # both inputs limited to 0.5
    for eps in (None, 0.5, 0.0625, 0.01, 0.002):
        e = 1e-2 if eps is None else eps
        sysm = Sys(kind, SI2, specs, ctl=(lambda: LinearBackup([[0., 0.], [0., 0.]])) if kind == "iasif" else None, low=-2. if bounded else None,
                   high=2. if bounded else None, exact=False, eps=e, window=0.5)
        kw = {} if eps is None else {"epsilon": eps}
        rta = sysm.build(**kw)
        for f, d in itertools.product((0., 0.5, 0.9, 1.1, 2., 20.), ((1., 0.), (0., 1.), (0.6, 0.8), (0.8, 0.6))):
            if kind == "dasif" and e * abs(f - 1) < 2e-4:
                continue
            u = np.array([0.5, 0.5]) + f * e * np.array(d)
            out = rta.filter_control(x, 0.5, u)
            exp = f > 1
            rep.count_states()
            rep.step(f"{kind}:{exp}")
            rep.check(np.allclose(out, [0.5, 0.5], atol=1e-3), "wrong optimum", kind=kind, eps=e, desired=u, got=out)
            rep.check(bool(rta.intervening) == exp and bool(rta.generate_info()["intervening"]) == exp, "intervening flag does not follow the threshold",
                      kind=kind, epsilon=e, distance=f * e, direction=d, desired=u, got=out, intervening=rta.intervening)
        if bounded:
            # distance to a clipped control counts as well
            for f in (0.5, 1.5, 20.):
                u = np.array([-2. - f * e, 0.])
                rta.filter_control(x, 0.5, u)
                rep.count_states()
                rep.step(f"{kind}:bound")
                if kind != "dasif":
                    rep.check(bool(rta.intervening) == (f > 1), "intervening flag does not follow the threshold (actuator limit)", kind=kind, epsilon=e,
                              distance=f * e, intervening=rta.intervening)
    rep.trace()


def values(rep, kind, base):
    """every ordered pair of operations over states that differ by little or not at all, and over changed limits: the reported values are those of the state just given"""
    import warnings
    specs = [CSpec("a", "max", 1., idx=0, bias=-0.25), CSpec("b", "min", -1., idx=1), CSpec("c", "mag", 2., idx=1, bias=0.5)]
    sysm = Sys(kind, SI2, specs, ctl=(lambda: LinearBackup([[0., 0.], [0., 0.]])) if kind in ("iasif", "esimplex", "isimplex") else None, low=-2., high=2., exact=False, window=0.5)
    rta = sysm.build()
    eps = base * 2. ** -17
    xs = [np.array([base, 0.5]) + d for d in ([0., 0.], [eps, 0.], [0., 2. ** -17], [-eps, 0.], [64 * eps, 0.], [0., 2. ** -10], [0., -1.])]
    ops = [(op, i, lim) for op in ("filter", "update") for i in range(len(xs)) for lim in (1., 1.5)]
    tol = 4e-7 * base + 1e-6

    def run(op, i, lim):
        rta.constraints["a"].params["limit_val"] = lim
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if op == "filter":
                rta.filter_control(xs[i], 0.5, np.array([0.25, -0.25]))
            else:
                rta.update_constraint_values(xs[i])
        return rta.generate_info()

    for a, b in itertools.product(ops, ops):
        run(*a)
        info = run(*b)
        x, lab = xs[b[1]], "constraints_at_last_state" if b[0] == "filter" else "constraints"
        exp = dict(a=b[2] - x[0], b=x[1] + 1., c=4. - x[1] ** 2)
        rep.count_states()
        rep.step(f"values:{b[0]}")
        got = info.get(lab)
        if not rep.check(got is not None and set(got) == set(exp) and all(abs(float(got[k]) - exp[k]) <= tol for k in exp),
                         "reported constraint values are not those of the state just given", kind=kind, first=a, then=b, state=x, got=got, expected=exp):
            return
    rep.trace()


def shards(tier):
    deep = tier == "thorough"
    d, f = (6, 4) if deep else (4, 3)
    out = []
    for n in zoofleet.FLEET:
        slow = n in ("insp3", "comb3", "insp1d", "d2_ia", "d3_ia", "int_ia", "d2_is", "d3_is", "casc", "insp1", "d2_ea", "d3_ea")
        out.append(("supplied", dict(name=n, n=(3 if not slow else 2) + deep)))
    for kind, kw in (("esimplex", dict(latch=1., ctl="array")), ("esimplex", {}), ("isimplex", {}), ("easif", {}), ("iasif", {}), ("dasif", {})):
        for v in ("std", "subset", "off"):
            if v != "std" and kw:
                continue
            out.append(("toy", dict(kind=kind, depth=d - (kind in ("iasif", "dasif")), flat=f - (kind in ("iasif", "dasif") or v != "std"), variant=v, **kw)))
    for k in ("esimplex", "isimplex", "easif", "iasif", "dasif"):
        for b in (0.5, 1000.) if k in ("esimplex", "easif") or deep else (0.5,):
            out.append(("values", dict(kind=k, base=b)))
    for k in ("easif", "iasif", "dasif"):
        for b in (True, False):
            out.append(("threshold", dict(kind=k, bounded=b)))
    return out
