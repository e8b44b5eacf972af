"""C11 infeasible problems and slack: complete grids and all short histories of feasible / infeasible calls, against exhaustive active-set enumeration."""
import itertools
import warnings

import numpy as np

from mc import fleet, rigs, snap
from mc.checks.c10 import sensitive
from mc.ref import Sys
from mc.rigs import CSpec, DSpec, LIN2, LinearBackup, SI2

BOUNDS = ("explicit and implicit QP filters x {warning, exception} x bound forms x slack assignments {none, 1/64, 1, 64}^2..3 and priorities from 1e-8 to 1e10: product grids of states and desired controls; "
          "all histories of length <= 4 (quick) / 5 (thorough) over feasible, binding and infeasible calls, reset and disable; discrete filter: clear cases")
ASSUMPTIONS = ["grid cases whose feasibility or optimum changes when the reference rows move by 2e-5 relative are undecided (counted)"]
FORMS = {"num": (-1., 1.), "list": ([-1., -0.5], [1., 0.75]), "none": (None, None), "high": (None, 0.5)}


def call(rta, x, dt, u):
    """(kind, control) with kind in ok / warned / raised"""
    from run_time_assurance.utils import SolverError, SolverWarning
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            out = np.array(rta.filter_control(np.array(x, float), dt, np.array(u, float)))
        except SolverError:
            return "raised", None
    return ("warned" if any(issubclass(i.category, SolverWarning) for i in w) else "ok"), out


def system(kind, cfg, slacks, form, exc, direct=True):
    low, high = FORMS[form]
    s = list(slacks) + [None] * 3
    if cfg == "lin2":
        plant = LIN2
        specs = [CSpec("a", "max", 1., idx=0, slack=s[0]), CSpec("b", "aff", 1., vec=[0.5, 1.], alpha=(0., 0.5, 0., 0.25), bias=-0.125, slack=s[1]),
                 CSpec("c", "min", -1., idx=1, slack=s[2])]
    else:  # opposing walls: infeasible without slack when squeezed
        plant = SI2
        specs = [CSpec("a", "max", 0.5, idx=0, alpha=(0., 1.), bias=-0.5, slack=s[0]), CSpec("b", "min", 0.25, idx=0, alpha=(0., 2.), slack=s[1]),
                 CSpec("c", "aff", 0.5, vec=[1., 1.], slack=s[2])]
    d = [DSpec("d", [1., 1.], -0.75)] if direct else []
    kw = dict(direct=d, low=low, high=high, exact=False, solver_exception=exc)
    if kind == "iasif":
        kw.update(ctl=lambda: LinearBackup([[0.25, 0.], [0., 0.25]] if plant is LIN2 else [[0.5, 0.], [0., 0.5]]), window=0.5)
    return Sys(kind, plant, specs, **kw)


def judge(sysm, out, got, rta, exc, atol=1e-4):
    kind, u = got
    if out.status == "infeasible":
        if exc:
            return None if kind == "raised" else f"infeasible problem: solver error requested but the call {kind}"
        if kind != "warned":
            return f"infeasible problem: no solver warning (call {kind})"
        if not np.allclose(u, out.u, atol=1e-6):
            return f"infeasible problem returned {u.tolist()}, not the clipped desired control {out.u.tolist()}"
        return None
    if kind != "ok":
        return f"feasible problem {kind}"
    return sysm.compare(out, rta, u, atol=atol)


def sens(sysm, m, x, u, got):
    C, b, _ = sysm.rows(m, x, 0.5)
    d = np.concatenate((u, np.zeros(len(sysm.slack))))
    r = rigs.solve_qp(d, C, b, sysm.weights())
    return sensitive(C, b, d, sysm.weights(), None if r is None else r[0], 1e-4, 2e-5, got)


def grid(rep, kind, cfg, form, exc, slacks, deep):
    g = [-1.5, -0.5, 0., 0.5, 1.25] if not deep else list(np.arange(-2., 2.1, 0.25))
    us = [-2., 0.25, 0.75] if not deep else [-3., -1., -0.5, 0., 0.25, 0.75, 1., 2.]
    if kind == "iasif":
        g, us = g[1:], us[::2]
    for sl in slacks:
        sysm = system(kind, cfg, sl, form, exc)
        rta = sysm.build()
        m = sysm.init()
        for x in itertools.product(g, repeat=2):
            for u in itertools.product(us, repeat=2):
                x, u = np.array(x), np.array(u)
                _, out = sysm.step(m, x, 0.5, u)
                got = call(rta, x, 0.5, u)
                rep.count_states()
                rep.step(f"{out.status}:{got[0]}:{sum(v is not None for v in sl)} slack")
                msg = judge(sysm, out, got, rta, exc)
                if msg:
                    if sens(sysm, m, x, u, got[1]):
                        rep.skip()
                        continue
                    rep.violation(msg, kind=kind, cfg=cfg, slack=sl, state=x, desired=u, exception=exc)
                    continue
                if out.status != "infeasible" and not relaxed_ok(sysm, m, x, got[1]):
                    rep.violation("a bound, direct inequality or constraint without slack is not met", kind=kind, slack=sl, state=x, desired=u, got=got[1])
        rep.trace()


def relaxed_ok(sysm, m, x, u):
    """rows without slack hold at the returned control"""
    C, b, names = sysm.rows(m, x, 0.5)
    ns = len(sysm.slack)
    for r, c in zip(C, b):
        if ns and np.any(r[-ns:] != 0):
            continue
        w = r[:len(r) - ns]
        if w @ u - c < -1e-4 * (1 + abs(c) + np.abs(w).sum()):
            return False
    return True


def priority(rep, kind):
    """raising one constraint's slack priority never increases how far that constraint is relaxed"""
    scales = [1 / 64, 1 / 4, 1., 4., 64.]
    for other in (1 / 4, 4.):
        for x in itertools.product([0.25, 1.5, 2.], [0.25, 1., 2.]):
            for u in ((0., 0.), (1., 1.), (-2., 0.5)):
                prev = None
                for s in scales:
                    sysm = rigset(kind, s, other)
                    rta = build_cached(kind, s, other, sysm)
                    kind_, got = call(rta, x, 0.5, u)
                    rep.count_states()
                    rep.step("priority")
                    if kind_ != "ok":
                        rep.violation(f"problem whose barriers all have slack {kind_}", kind=kind, state=x, desired=u)
                        break
                    C, b, names = sysm.rows(sysm.init(), np.array(x), 0.5)
                    sh = max([c - r[:2] @ got for r, c, n in zip(C, b, names) if n == "a"] + [0.])
                    if prev is not None and sh > prev + 2e-4:
                        rep.violation("a higher slack priority relaxed the constraint more", kind=kind, state=x, desired=u, scale=s, shortfall=sh, before=prev)
                    prev = sh
    rep.trace()


_CACHE = {}


def rigset(kind, s, other):
    return system(kind, "si2", [s, other, 1.], "list", False, direct=False)


def build_cached(kind, s, other, sysm):
    if (kind, s, other) not in _CACHE:
        _CACHE[kind, s, other] = sysm.build()
    return _CACHE[kind, s, other]


def history(rep, kind, exc, slack, depth, flat):
    sysm = system(kind, "lin2", [4., None] if slack else [], "list", exc)
    rta = sysm.build()
    calls = dict(fleet.CALLS2)
    calls["infeas2"] = ([3., -4.], .5, [-0.5, 3.])
    ops = []
    for k, (x, dt, u) in calls.items():
        def run(r, x=x, dt=dt, u=u):
            return call(r, x, dt, u), (None if r.constraints_causing_intervention is None else list(r.constraints_causing_intervention))

        def spec(m, x=x, dt=dt, u=u):
            m2, out = sysm.step(m, x, dt, u)
            if out.status == "infeasible" and exc:
                m2 = m  # the call raised: nothing is reported about it
            if not m.enable:
                return m2, lambda o: None if o[0][0] == "ok" and np.allclose(o[0][1], u, atol=1e-6) else f"disabled filter: {o[0]}"

            def jd(o):
                msg = judge(sysm, out, o[0], rta, exc)
                if not msg and out.status == "infeasible" and o[1]:
                    msg = f"infeasible call attributed to {o[1]}"
                return msg
            return m2, jd
        ops.append((k, run, spec))
    ops.append(("reset", lambda r: r.reset(), lambda m: (sysm.fresh(m), lambda o: None)))
    ops.append(("toggle", lambda r: setattr(r, "enable", not r.enable), lambda m: (m._replace(enable=not m.enable), lambda o: None)))
    snap.explore(rep, rta, sysm.init(), ops, depth, replays=100, label=f"{kind} exception={exc} slack={slack}", flat=flat)


def discrete(rep, exc, deep):
    """the discrete filter: clear infeasibility raises or warns, the result stays within the bounds; slack makes the problem feasible"""
    from run_time_assurance.utils import SolverError
    for sl in ((None, None), (4., None), (4., 1.), (1., 64.), (4., 1., 0.25), (1., None, 16.), (0.25, 4., 1.)):
        gave_up = solved = 0
        specs = [CSpec("a", "max", 1., idx=0, slack=sl[0]), CSpec("b", "aff", 1., vec=[0.5, 1.], alpha=(0., 0.5, 0., 0.25), bias=-0.125, slack=sl[1])]
        if len(sl) > 2:
            specs.append(CSpec("c", "aff", 0.5, vec=[1., -0.25], slack=sl[2]))
        sysm = Sys("dasif", LIN2, specs, low=[-1., -0.5], high=[1., 0.75], exact=False, tol=2e-3, solver_exception=exc)
        rta = sysm.build()
        m = sysm.init()
        g = [-0.5, 0.375, 0.75, 2., 4.] + ([-1., 0., 0.5, 1., 1.5] if deep else [])
        for x in itertools.product(g, repeat=2):
            for u in itertools.product([-2., 0., 2.], repeat=2):
                x, u = np.array(x), np.array(u)
                _, out = sysm.step(m, x, 0.5, u)
                rep.count_states()
                with warnings.catch_warnings(record=True) as w:
                    warnings.simplefilter("always")
                    try:
                        got, kind = np.array(rta.filter_control(x, 0.5, u)), "ok"
                    except SolverError:
                        got, kind = None, "raised"
                if kind == "ok" and any("olver" in str(i.message) for i in w):
                    kind = "warned"
                rep.step(f"discrete {out.status}:{kind}")
                C, b, _ = sysm.rows(m, x, 0.5)
                d = np.concatenate((u, np.zeros(len(sysm.slack))))
                if got is not None and not np.allclose(got, sysm.bc(got), atol=1e-6):
                    rep.violation("discrete filter left the bounds", state=x, desired=u, got=got)
                if out.status == "infeasible":
                    if kind == ("raised" if exc else "warned"):
                        continue
                    if sensitive(C, b, d, sysm.weights(), None, 1e-3, 1e-3, got):
                        rep.skip()
                        continue
                    rep.violation(f"infeasible discrete problem: exception={exc} but the call {kind}", state=x, desired=u, slack=sl)
                elif kind == "ok":
                    solved += 1
                    msg = sysm.compare(out, rta, got, atol=4e-3)
                    if msg:
                        if sensitive(C, b, d, sysm.weights(), rigs.solve_qp(d, C, b, sysm.weights())[0], 4e-3, 1e-4, got):
                            rep.skip()
                            continue
                        rep.violation(msg, state=x, desired=u, slack=sl)
                else:
                    rep.skip()  # the general solver gave up; only quadratic-programming filters promise otherwise
                    gave_up += 1
        if gave_up > 2 + 0.02 * (gave_up + solved):
            rep.violation(f"the discrete filter's solver fails on {gave_up} of {gave_up + solved} feasible problems", slack=sl)
    rep.trace()


def shards(tier):
    deep = tier == "thorough"
    V = [None, 1 / 64, 1., 64.]
    two = [(a, b) for a in V for b in V]
    three = [(a, b, c) for a in (None, 4.) for b in (None, 1 / 4) for c in (None, 16.)]
    out = []
    for form in FORMS:
        for exc in (False, True):
            out.append(("grid", dict(kind="easif", cfg="si2", form=form, exc=exc, slacks=two if form in ("list", "none") else three, deep=deep)))
            out.append(("grid", dict(kind="easif", cfg="lin2", form=form, exc=exc, slacks=three, deep=deep)))
    for form in ("list", "none") if not deep else FORMS:
        out.append(("grid", dict(kind="iasif", cfg="si2", form=form, exc=form == "none", slacks=three if deep else three[::2] + three[-1:], deep=deep)))
        out.append(("grid", dict(kind="iasif", cfg="lin2", form=form, exc=form != "none", slacks=three if deep else three[::3] + three[-1:], deep=deep)))
    big = [(1e4, None), (1e6, 1e2), (None, 1e6), (1e2, 1e6), (0.01, 1e4), (1e6, 1e6), (1e8, 1e10), (1e10, 1e8), (1e-6, 1e-4), (1e-8, 1e2)]
    for cfg, form in (("si2", "list"), ("lin2", "none"), ("si2", "none"), ("lin2", "list")):
        out.append(("grid", dict(kind="easif", cfg=cfg, form=form, exc=form == "list", slacks=big, deep=deep)))
    out.append(("grid", dict(kind="iasif", cfg="si2", form="list", exc=True, slacks=big[:4], deep=deep)))
    for k in ("easif", "iasif"):
        out.append(("priority", dict(kind=k)))
        for exc in (False, True):
            for sl in (False, True):
                d = (4 if k == "easif" else 3) + deep
                out.append(("history", dict(kind=k, exc=exc, slack=sl, depth=d, flat=3 if deep or k == "easif" else 2)))
    for exc in (False, True):
        out.append(("discrete", dict(exc=exc, deep=deep)))
    return out
