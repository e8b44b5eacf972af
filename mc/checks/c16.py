"""C16 compilation settings: a filter with changed compilation settings is driven in lockstep with the default one through every operation sequence up to a bound."""
import itertools

import numpy as np

from mc import fleet, snap, zoofleet
from mc.checks.c08 import differ, report
from mc.ref import observe
from mc.rigs import CSpec

BOUNDS = ("toy algorithms (latched and not, with memory where compiled calls allow it): jit off, all-off, all-on and every single documented switch flipped (thorough: every combination) x all sequences of length <= 3 "
          "(quick) / 4 (thorough) over calls {pass, clip, intervene, infeasible}, other step size, constraint toggles, parameter change, disabling, reset; 17 supplied filters and the delta-v filter: jit off and every documented switch off, "
          "sequences of length 2 plus a grid of states")
ASSUMPTIONS = ["compiled trajectory integration is exercised with memoryless backup controllers only (the library documents controllers with memory as not compilable)"]

KEYS = {"esimplex": ["constraint_violation", "pred_state"], "isimplex": ["constraint_violation", "pred_state", "integrate"],
        "easif": ["generate_barrier_constraint_mats", "update_ineq_mats"],
        "iasif": ["generate_ineq_constraint_mats", "update_ineq_mats", "jacobian"], "dasif": []}


class Pair:
    def __init__(self, a, b):
        self.a, self.b = a, b


def variants(kind, deep):
    keys = KEYS[kind]
    out = [dict(jit_enable=False), dict(jit_enable=False, jit_compile_dict={k: True for k in keys})]
    if deep:
        out += [dict(jit_compile_dict=dict(zip(keys, v))) for v in itertools.product([True, False], repeat=len(keys))]
    else:
        out += [dict(jit_compile_dict={k: False for k in keys}), dict(jit_compile_dict={k: True for k in keys})]
        out += [dict(jit_compile_dict={k: v}) for k in keys for v in (True, False)]
    seen, res = set(), []
    for o in out:
        if repr(o) not in seen:
            seen.add(repr(o))
            res.append(o)
    return res


def system(kind, memory):
    ctl = fleet.counter("array") if memory else None
    if kind == "esimplex":
        return fleet.es(latch=0.75, ctl=ctl)
    if kind == "isimplex":
        return fleet.isx(latch=0.75, ctl=ctl)
    if kind == "iasif":
        specs = [CSpec("a", "max", 1., idx=0, sub=dict(num_check_all=1, skip_length=2, keep_last=True)),
                 CSpec("b", "aff", 1., vec=[0.5, 1.], alpha=(0., 0.5, 0., 0.25), bias=-0.125, slack=4., sub=dict(subsample_constraints_num_least=2, keep_first=True)), CSpec("c", "ball", 2., vec=[0., 0.])]
        return fleet.ia(specs=specs, window=1., ctl=fleet.counter("dict", m=2, slope=-0.125, c0=0.125) if memory else None)
    return fleet.ALL[kind]()


def both(fn):
    return lambda p: (fn(p.a), fn(p.b))


def ops_for(sysm, calls, tol):
    ops = []

    def add(name, fn):
        def judge(o):
            (ca, ra), (cb, rb) = o
            if ca is not None:
                d = differ(ca[0], cb[0], tol) or (None if ca[1] == cb[1] else f"intervening {ca[1]} vs {cb[1]}")
                if d:
                    return f"default vs changed settings: {d}"
            d = differ(ra, rb, max(tol, 2e-4))
            return d and f"default vs changed settings: {d}"
        ops.append((name, both(lambda r, fn=fn: (fn(r), report(r))), lambda m: (m, judge)))

    for k, (x, dt, u) in calls.items():
        add(k, lambda r, x=x, dt=dt, u=u: observe(r, x, dt, u))
    x, dt, u = calls["unsafe"]
    add("half step", lambda r: observe(r, x, dt / 2, u))

    def toggle(i):
        def f(r):
            c = list(r.constraints.values())[i]
            c.enabled = not c.enabled
        return f
    add("toggle first", toggle(0))
    add("toggle last", toggle(-1))

    def par(r):
        p = list(r.constraints.values())[0].params
        k = sorted(p)[0]
        p[k] = p[k] * 0.5 if p[k] != 0.5 else 1.
    add("param", par)
    add("disable", lambda r: setattr(r, "enable", not r.enable))
    add("values", lambda r: r.update_constraint_values(np.array(x, float)))
    return ops


def toy(rep, kind, var, memory, depth):
    sysm = system(kind, memory)
    pair = Pair(sysm.build(), sysm.build(**var))
    snap.explore(rep, pair, 0, ops_for(sysm, fleet.calls(sysm), sysm.tol if kind != "dasif" else 2e-3), depth, replays=40, label=f"{kind} {var} memory={memory}")


def toygrid(rep, kind, var):
    """dense grid of single calls"""
    sysm = system(kind, False)
    a, b = sysm.build(), sysm.build(**var)
    g = [-1.5, -0.5, 0.25, 0.875, 1.5, 2.25]
    for x in itertools.product(g, repeat=2):
        for u in itertools.product([-2., 0.375, 1.] if sysm.plant.m == 2 else [-2., -0.5, 0.375, 1., 3.], repeat=sysm.plant.m):
            ra, rb = observe(a, x, 0.5, u), observe(b, x, 0.5, u)
            rep.count_states()
            rep.step(f"{kind}:{ra[1]}", n=2)
            d = differ(ra[0], rb[0], 1e-4 if kind != "dasif" else 2e-3) or (None if ra[1] == rb[1] else f"intervening {ra[1]} vs {rb[1]}") or differ(report(a), report(b), 2e-4)
            if d:
                rep.violation(f"default vs {var}: {d}", kind=kind, state=x, desired=u)
    rep.trace()


SUPKEYS = {"es": ["constraint_violation"], "is": ["constraint_violation"], "ea": ["generate_barrier_constraint_mats", "update_ineq_mats"],
           "ia": ["generate_ineq_constraint_mats", "update_ineq_mats", "jacobian"]}


def supplied(rep, name, var, depth):
    if name == "dv":
        mk, calls = zoofleet._dv, {k: (x, 1., u) for k, (x, _, u) in zoofleet.CALLS_I1.items()}
        a, b = mk(n_steps=20), mk(n_steps=20, **var)
    else:
        mk, calls = zoofleet.FLEET[name]
        a = mk()
        if name == "comb3":
            from run_time_assurance.zoo.cwh import inspection_3d as m
            b = m.CombinedInspectionRTA(num_deputies=3, deputy_rta=m.InspectionRTA(num_deputies=3, **var))
        elif name == "casc":
            b = mk()
            from run_time_assurance.zoo.cwh import inspection_1v1 as m
            b.rta_list = [m.Inspection1v1RTA(**var) if isinstance(r, m.Inspection1v1RTA) else r for r in b.rta_list]
        else:
            b = mk(**var)
    tol = 2e-3
    # every ordered pair of calls (history) with a constraint toggle in between
    names = list(calls)

    def tog(r):
        for rr in [r] + list(getattr(r, "rta_list", ())) + ([r.deputy_rta] if hasattr(r, "deputy_rta") else []):
            if hasattr(rr, "constraints"):
                c = list(rr.constraints.values())[0]
                c.enabled = not c.enabled
    seqs = list(itertools.product(names + ["toggle"], repeat=depth))
    for s in seqs:
        for o in s:
            if o == "toggle":
                tog(a)
                tog(b)
                continue
            x, dt, u = calls[o]
            ra, rb = observe(a, x, dt, u), observe(b, x, dt, u)
            rep.count_states()
            rep.step(f"{name}:{ra[1]}", n=2)
            d = differ(ra[0], rb[0], tol) or (None if ra[1] == rb[1] else f"intervening {ra[1]} vs {rb[1]}") or differ(report(a), report(b), 2e-3)
            if d:
                rep.violation(f"{name} default vs {var}: {d}", history=s, call=o)
        rep.trace()


def shards(tier):
    deep = tier == "thorough"
    out = []
    for n in list(zoofleet.FLEET) + ["dv"]:
        slow = n in ("insp3", "comb3", "casc", "insp1")
        vs = [dict(jit_enable=False)] if n not in ("insp1d", "dv") else ([dict(jit_enable=False)] if n == "insp1d" else [])
        suffix = n.split("_")[-1]
        if suffix in SUPKEYS:
            vs += [dict(jit_compile_dict={k: False}) for k in SUPKEYS[suffix]]
        if n in ("insp1", "insp3") and deep:
            vs += [dict(jit_compile_dict={k: False}) for k in SUPKEYS["ea"]]
        for v in vs:
            if not deep and n == "comb3":
                continue
            out.append(("supplied", dict(name=n, var=v, depth=1 if slow and not deep else 2)))
    for k in KEYS:
        for v in variants(k, deep):
            d = 3 + deep - (k in ("iasif",)) - (k == "dasif")
            out.append(("toy", dict(kind=k, var=v, memory=False, depth=d)))
            out.append(("toygrid", dict(kind=k, var=v)))
    for k in ("esimplex", "isimplex", "iasif"):
        for v in (dict(jit_enable=False), dict(jit_compile_dict={x: False for x in KEYS[k]})):
            out.append(("toy", dict(kind=k, var=v, memory=True, depth=3 + deep - (k == "iasif"))))
    return out
