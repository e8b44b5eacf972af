"""C12 attribution of interventions: complete grids over configurations and calls, multipliers from exhaustive active-set enumeration."""
import itertools
import warnings

import numpy as np

from mc import rigs, snap, zoofleet
from mc.checks.c10 import supplied_case
from mc.ref import Sys
from mc.rigs import CSpec, DSpec, LIN2, LIN3, LinearBackup, SI2

BOUNDS = ("explicit and implicit QP filters x {bounds: none, low, high, both, per element} x all enabled subsets of barriers and direct inequalities x slack on/off x subsampling "
          "configurations: product grids of states and desired controls; all call pairs / triples including infeasible ones; supplied integrator, docking and inspection filters")
ASSUMPTIONS = ["a binding condition whose multiplier is below 2e-3 of the intervention, or a non-binding one within 2e-5 relative of its boundary, may be listed or not (single precision rows); "
               "so may ties between identical or linearly dependent rows, where multipliers are not unique"]
FORMS = {"none": (None, None), "num": (-1., 1.), "list": ([-1., -0.5], [1., 0.75]), "low": ([-0.5, -0.25], None), "high": (None, 0.5)}
SUBS = {"all": ({}, {}), "least": (dict(subsample_constraints_num_least=1), dict(subsample_constraints_num_least=2, keep_first=True)),
        "skip": (dict(num_check_all=1, skip_length=2, keep_last=True), dict(skip_length=3)), "mix": (dict(num_check_all=2, skip_length=2, subsample_constraints_num_least=2, keep_first=True, keep_last=True), {})}


def judge(sysm, m, x, dt, u, got):
    """None or message.  Names that must be listed: every optimal multiplier vector is positive there, clearly; that must not: clearly inactive"""
    C, b, names = sysm.rows(m, x, dt)
    ns = len(sysm.slack)
    d = np.concatenate((u, np.zeros(ns)))
    w = sysm.weights()
    r = rigs.solve_qp(d, C, b, w)
    return verdict(C, b, names, d, w, r, got)


def verdict(C, b, names, d, w, r, got, eps=2e-5):
    if got is None:
        return "no list of causing constraints after a call"
    if len(set(got)) != len(got):
        return f"duplicates in {got}"
    if set(got) - set(names):
        return f"{sorted(set(got) - set(names))} listed, but not in force"
    if r is None:
        return None if not got else f"infeasible call attributed to {got}"
    C, b = np.asarray(C, float).reshape(-1, len(d)), np.asarray(b, float)
    sol, lam = r
    act = C @ sol - b
    size = np.abs(C).sum(axis=1) + np.abs(b)
    slackish = act > eps * (1e-2 + size) + 1e-7
    may = {n for n, s in zip(names, slackish) if not s}
    if set(got) - may:
        return f"listed {sorted(got)}: {sorted(set(got) - may)} do not bind"
    big = max(np.max(np.abs(lam) * size, initial=0.), 1e-12)
    if big < 1e-3:
        return None
    # must: every set of near-active rows reproducing the optimum needs that name
    near = np.flatnonzero(~slackish)
    must = set()
    tgt = w * sol - d
    for n in {names[i] for i in near if lam[i] * size[i] > 2e-3 * big}:
        others = [i for i in near if names[i] != n]
        if not others:
            must.add(n)
            continue
        from scipy.optimize import nnls
        _, res = nnls(C[others].T, tgt)
        if res > 1e-3 * (np.linalg.norm(tgt) + 1e-9):
            must.add(n)
    if must - set(got):
        return f"listed {sorted(got)}: missing {sorted(must - set(got))}"
    return None


def system(kind, cfg, form, slack, sub="all"):
    low, high = FORMS[form] if form in FORMS else form
    sa, sb = SUBS[sub]
    s = (4., None) if slack else (None, None)
    if cfg == "lin2":
        plant, specs = LIN2, [CSpec("a", "max", 1., idx=0, slack=s[0], sub=sa), CSpec("b", "aff", 1., vec=[0.5, 1.], alpha=(0., 0.5, 0., 0.25), bias=-0.125, slack=s[1], sub=sb),
                              CSpec("c", "ball", 2., vec=[0., 0.], alpha=(0., 1.), slack=s[0], sub=sa)]
        direct = [DSpec("d", [1., 1.], -0.75), DSpec("e", [-1., 0.5], -1.)]
    elif cfg == "si2":
        plant, specs = SI2, [CSpec("a", "max", 1., idx=0, sub=sb, slack=s[1]), CSpec("b", "max", 1., idx=1, sub=sa, slack=s[0])]
        direct = [DSpec("d", [1., -1.], -0.75)]
    else:
        plant, specs = LIN3, [CSpec("a", "max", 1., idx=0, sub=sa), CSpec("b", "min", -1., idx=1, slack=s[0], sub=sb), CSpec("c", "mag", 1., idx=2, bias=-0.125)]
        direct = [DSpec("d", [1., 1., 1.], -1.)]
        if low is not None and np.ndim(low):
            low = list(low) + [-0.75]
        if high is not None and np.ndim(high):
            high = list(high) + [0.5]
    kw = dict(direct=direct, low=low, high=high, exact=False)
    if kind == "iasif":
        kw.update(ctl=lambda: LinearBackup(0.25 * np.eye(plant.m)), window=2. if sub != "all" else 1.)
    return Sys(kind, plant, specs, **kw)


def run(rta, x, dt, u):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        rta.filter_control(np.array(x, float), dt, np.array(u, float))
    c = rta.constraints_causing_intervention
    return None if c is None else list(c)


def saturates(sysm, m, x, dt):
    """the bounded backup flow of the implicit filter differs from the controller's own output: its sensitivity is a separate question (C13)"""
    if sysm.kind != "iasif":
        return False
    xs, _ = sysm.flow(m, x, dt)
    return any(not np.allclose(sysm.refctl.ref(xx, dt, None)[0], sysm.bc(sysm.refctl.ref(xx, dt, None)[0])) for xx in xs)


def grid(rep, kind, cfg, form, slack, sub, deep, part=0, parts=1):
    sysm = system(kind, cfg, form, slack, sub)
    rta = sysm.build()
    n, k = len(sysm.specs), len(sysm.direct)
    g = [-1.5, -0.5, 0.25, 0.75, 1.125] if not deep else list(np.arange(-1.5, 1.6, 0.375))
    us = [-2., 0.25, 1., 3.] if not deep else [-3., -1., -0.25, 0.25, 1., 3.]
    if sysm.plant.n == 3:
        g, us = (g[::2], us[::2]) if not deep else (g[::3], us[::2])
    if kind == "iasif" and not deep:
        g = g[1:4]
    dt = 0.5
    subsets = [e for e in itertools.product([True, False], repeat=n + k) if deep or sum(not v for v in e) <= 1 or sum(e) <= 1]
    for i, en in enumerate(subsets):
        if i % parts != part:
            continue
        m = sysm.init()._replace(en=en[:n], den=en[n:])
        sysm.apply_config(rta, m)
        for x in itertools.product(g, repeat=sysm.plant.n):
            x = np.array(x)
            sat = saturates(sysm, m, x, dt)
            for u in itertools.product(us if all(en) or deep else us[1:3], repeat=sysm.plant.m):
                u = np.array(u)
                got = run(rta, x, dt, u)
                rep.count_states()
                if sat:
                    rep.skip()
                    continue
                rep.step("+".join(sorted(got or ())) or "none")
                msg = judge(sysm, m, x, dt, u, got)
                if msg:
                    rep.violation(msg, kind=kind, cfg=cfg, form=form, slack=slack, sub=sub, enabled=en, state=x, desired=u)
    rep.trace()


def history(rep, kind, slack, depth):
    """the list is that of the very last call, whatever came before"""
    sysm = system(kind, "lin2", "list", slack)
    rta = sysm.build()
    calls = {"safe": ([0., 0.], [0.25, 0.125]), "umax": ([-0.5, -0.5], [3., 0.]), "umin": ([-0.5, -0.5], [0., -3.]), "a": ([0.75, -0.5], [1., 0.5]), "b": ([0.25, 0.75], [0., 0.75]),
             "d": ([-0.5, -0.5], [-1., -0.5]), "infeas": ([4., 4.], [1., 0.]), "many": ([0.75, 0.75], [3., 3.])}
    ops = []
    for k, (x, u) in calls.items():
        x, u = np.array(x), np.array(u)

        def spec(m, x=x, u=u):
            if not m.enable:
                return m, lambda o: None
            return m, lambda o: judge(sysm, m, x, 0.5, u, o)
        ops.append((k, lambda r, x=x, u=u: run(r, x, 0.5, u), spec))
    ops.append(("en a", lambda r: flip(r.constraints["a"]), lambda m: (m._replace(en=(not m.en[0],) + m.en[1:]), lambda o: None)))
    ops.append(("en d", lambda r: flip(r.direct_inequality_constraints["d"]), lambda m: (m._replace(den=(not m.den[0],) + m.den[1:]), lambda o: None)))
    snap.explore(rep, rta, sysm.init(), ops, depth, replays=60, label=f"{kind} slack={slack}")


def flip(c):
    c.enabled = not c.enabled


def supplied(rep, which, deep):
    rta, f, g, cons, xs, us = supplied_case(which)
    for x in xs if deep else xs[::2]:
        fx, gx = f(x), g(x)
        C, b, names = rigs.bound_rows(gx.shape[1], -1., 1.)
        for c in cons:
            gr = c.grad(x)
            C.append(gr @ gx)
            b.append(-gr @ fx - c.strength(c.hb(x)))
            names.append(c.name)
        if any(abs(c.hb(x)) < 2e-6 * c.scale for c in cons):
            rep.skip(len(us))
            continue
        for u in us:
            r = rigs.solve_qp(u, C, b)
            got = run(rta, x, 1., u)
            rep.count_states()
            if r is None:
                rep.step("infeasible")
                if got and not near_feasible(u, C, b):
                    rep.violation(f"infeasible call attributed to {got}", filter=which, state=x, desired=u)
                continue
            rep.step("+".join(sorted(got or ())) or "none")
            msg = verdict(C, b, names, u, np.ones(len(u)), r, got, eps=1e-4)
            if msg:
                rep.violation(msg, filter=which, state=x, desired=u)
    rep.trace()


def near_feasible(u, C, b):
    return rigs.solve_qp(u, C, np.asarray(b) - 1e-4 * (1e-2 + np.abs(np.asarray(C)).sum(axis=1) + np.abs(b))) is not None


def shards(tier):
    deep = tier == "thorough"
    out = []
    for w in ("insp1", "d3", "d2", "int"):
        out.append(("supplied", dict(which=w, deep=deep)))
    for sub in SUBS:
        for form in FORMS:
            for cfg in ("lin2", "si2", "lin3"):
                if not deep and (list(SUBS).index(sub) + list(FORMS).index(form) + ("lin2", "si2", "lin3").index(cfg)) % 4:
                    continue
                out.append(("grid", dict(kind="iasif", cfg=cfg, form=form, slack=form in ("list", "high"), sub=sub, deep=deep and cfg != "lin3")))
    for form in FORMS:
        for slack in (False, True):
            for cfg in ("lin2", "si2", "lin3"):
                out.append(("grid", dict(kind="easif", cfg=cfg, form=form, slack=slack, sub="all", deep=deep)))
    for k in ("easif", "iasif"):
        for sl in (False, True):
            out.append(("history", dict(kind=k, slack=sl, depth=(4 if deep else 3) if k == "easif" else 2 + deep)))
    return out
