"""C22 repeatability and isolation: every call history before every probe call; every interleaving of several live filters."""
import itertools

import numpy as np

from mc import fleet, snap, zoofleet
from mc.checks.c08 import differ, report
from mc.ref import observe

BOUNDS = ("repeatability: all 17 supplied filters and all toy algorithms, every history of length <= 3 (slow filters 2; thorough +1) over call kinds with two step sizes, disabled calls, "
          "reports and constraint-value updates, then every probe, compared with the same probe as first call; every ordered pair out of a (state x step x control) grid back to back, so that neighbours differ in one argument only; isolation: 17 pairs / triples of filters (same class with the "
          "same and different configuration, different classes, shared base classes, latched and with controller memory), every interleaved sequence of length 3-4 over "
          "{calls, constraint parameter change, constraint disabled, filter disabled, member disabled, reset} per instance, compared with that instance's own subsequence run alone; 13 supplied and 5 toy classes in two configurations that differ in everything, built and used in both orders in fresh processes")
ASSUMPTIONS = ["a solo reference is recorded for each instance before the next instance is built"]


def probe(r, c):
    o = observe(r, *c)
    return o[0], o[1], report(r)


def same(a, b):
    return differ(a[0], b[0]) or (None if a[1] == b[1] else f"intervening {a[1]} vs {b[1]}") or differ(a[2], b[2])


def ops_for(calls):
    ops = {k: (lambda r, c=c: observe(r, *c)) for k, c in calls.items()}

    def off(r):
        r.enable = False
        observe(r, *list(calls.values())[-1])
        r.enable = True
    ops["off-call"] = off
    ops["report"] = lambda r: r.generate_info()
    x = list(calls.values())[0][0]
    ops["values"] = lambda r: r.update_constraint_values(np.array(x, float)) if hasattr(r, "update_constraint_values") else None
    return ops


def repeat(rep, label, mk, calls, depth):
    calls = {k: (np.array(x, float), dt, np.array(u, float)) for k, (x, dt, u) in calls.items()}
    for k in list(calls)[:2]:
        x, dt, u = calls[k]
        calls[k + "/2"] = (x, dt * 0.5, u)
    table = {}
    rta = mk()
    s0 = snap.snapshot(rta)
    for k, c in calls.items():
        snap.restore(s0)
        table[k] = probe(rta, c)
    ops = ops_for(calls)
    live = mk()
    l0 = snap.snapshot(live)
    for n in range(0, depth + 1):
        for hist in itertools.product(ops, repeat=n):
            snap.restore(l0)
            for o in hist:
                ops[o](live)
            rep.step(n=n)
            after = snap.snapshot(live)
            for k, c in calls.items():
                snap.restore(after)
                for again in range(2 if n == depth else 1):
                    got = probe(live, c)
                    rep.step(f"{label}:{got[1]}")
                    d = same(got, table[k])
                    if d:
                        rep.violation(f"{label}: a call depends on earlier calls: {d}", history=list(hist) + [k] * (again + 1))
            rep.count_states()
            rep.trace()
    snap.restore(l0)
    # uninterrupted: every ordered pair of calls on the live object without any restoring
    for a, b in itertools.product(calls, repeat=2):
        for k in (a, b):
            d = same(probe(live, calls[k]), table[k])
            rep.step()
            if d:
                rep.violation(f"{label}: a call depends on earlier calls (uninterrupted): {d}", history=[a, b])
        rep.trace()


def supplied(rep, name, depth):
    mk, calls = zoofleet.FLEET[name]
    if name == "casc":
        # the delta-v member latches by design (C24): only the histories that leave it unlatched
        calls = {k: c for k, c in calls.items()}

        def mk2():
            r = mk()
            r.rta_list[1].n_steps = 5
            return r
        return repeat(rep, name, mk2, calls, depth)
    return repeat(rep, name, mk, calls, depth)


def toy(rep, kind, depth, kw):
    sysm = fleet.ALL[kind](**kw)
    calls = dict(fleet.calls(sysm))
    if kind in ("iasif", "dasif"):
        calls = {k: calls[k] for k in ("safe", "unsafe", "infeas")}
    return repeat(rep, kind, sysm.build, calls, depth)


def neighbours(rep, label, mk, calls, small):
    """calls that differ in one argument only, in every order: each ordered pair of (state, step, control) combinations occurs back to back on one live filter"""
    cs = [(np.array(x, float), dt, np.array(u, float)) for x, dt, u in calls.values()]
    a, b = cs[0], cs[min(1, len(cs) - 1)]
    for k, c in calls.items():
        if k == "unsafe":
            b = tuple(np.array(v, float) if i != 1 else v for i, v in enumerate(c))
    xs = [a[0], b[0], 0.5 * (a[0] + b[0]), 0.25 * a[0] + 0.75 * b[0], 0.5 * (a[0] + b[0]) + 2e-3]
    us = [b[2], -b[2], 0.25 * a[2]]
    dts = [a[1], 0.5 * a[1]]
    if small:
        xs, us = xs[:1] + xs[-3:], us[:2]
    grid = [(x, dt, u) for x in xs for dt in dts for u in us]
    live = mk()
    l0 = snap.snapshot(live)
    table = []
    for c in grid:
        snap.restore(l0)
        table.append(probe(live, c))
    snap.restore(l0)
    n, seq = len(grid), [0]
    for d in range(n):  # tour through all ordered pairs
        for i in range(n):
            seq += [i, (i + d) % n]
    for pos, i in enumerate(seq):
        got = probe(live, grid[i])
        rep.step(f"{label} neighbours:{got[1]}")
        d = same(got, table[i])
        if d:
            rep.violation(f"{label}: a call depends on the call before it: {d}", history=[grid[j] for j in seq[max(0, pos - 1):pos + 1]])
            snap.restore(l0)
    rep.count_states(n)
    rep.trace(n * n)


def near(rep, name, depth):
    if name in fleet.ALL:
        sysm = fleet.ALL[name]()
        cs = dict(fleet.calls(sysm))
        if sysm.plant.m == 1:
            cs["unsafe"] = ([1.5, 0.5], .5, [1.])
        return neighbours(rep, name, sysm.build, cs, name == "dasif")
    mk, calls = zoofleet.FLEET[name]
    if name == "casc":
        def mk2():
            r = mk()
            r.rta_list[1].n_steps = 5
            return r
        return neighbours(rep, name, mk2, calls, True)
    return neighbours(rep, name, mk, calls, name in ("insp3", "comb3", "insp1d", "casc", "d3_ia", "d2_ia"))


def short_state(rep, name):
    """states with and without the optional sun components in one history (known finding)"""
    mk, calls = zoofleet.FLEET[name]
    a = np.deg2rad(30.5)  # just outside the sun cone, drifting towards it
    own = np.concatenate([500. * np.array([-np.cos(a), np.sin(a), 0.]), 0.1 * np.array([-np.sin(a), -np.cos(a), 0.])])
    x = np.concatenate([own, [0., 0.]]) if name == "insp1" else np.concatenate([own, np.array([0, -400, 300., 0, 0, 0, 0, -600., -300, 0, 0, 0]), [0.]])
    dt, u = 1., np.array([-.5, -1., 0.])
    full = (x, dt, u)
    short = (x[:6] if name == "insp1" else x[:-1], dt, u)
    forms = {"full": full, "short": short}
    res = {}
    for a, b in (("short", "full"), ("full", "short")):
        r = mk()
        res[a] = [probe(r, forms[k]) for k in (a, a, b)]
        rep.step(f"{name} {a}-{b}", n=3)
        rep.count_states(3)
        d = same(res[a][1], res[a][0])
        rep.check(not d, f"{name}: a repeated call differs: {d}", history=[a, a])
        rep.trace()
    for a, b in (("short", "full"), ("full", "short")):
        if same(res[a][2], res[b][0]):
            rep.known_finding(f"C22-sun-{name}")


# ----------------------------------------------------------------------------------------------------------- isolation
def isolate(rep, label, makers, calls, extra, depth):
    """makers: instance name -> constructor; calls: instance name -> calls; extra: instance name -> further operations"""
    names = list(makers)
    live, snaps, solo, ops = {}, {}, {}, {}
    for n in names:
        live[n] = makers[n]()
        o = {k: (lambda r, c=c: probe(r, c)) for k, c in calls[n].items()}
        for k, f in extra[n].items():
            o[k] = (lambda r, f=f: (f(r), None)[1])
        ops[n] = o
        snaps[n] = snap.snapshot(live[n])
        solo[n] = {}
        for ln in range(1, depth + 1):
            for seq in itertools.product(o, repeat=ln):
                snap.restore(snaps[n])
                out = None
                for k in seq:
                    out = o[k](live[n])
                solo[n][seq] = out
        snap.restore(snaps[n])
    moves = [(n, k) for n in names for k in ops[n]]
    for seq in itertools.product(moves, repeat=depth):
        if len({n for n, _ in seq}) < 2:
            continue
        for n in names:
            snap.restore(snaps[n])
        own = {n: () for n in names}
        for i, (n, k) in enumerate(seq):
            own[n] += (k,)
            got = ops[n][k](live[n])
            rep.step(f"{label}")
            exp = solo[n][own[n]]
            if got is None and exp is None:
                continue
            d = same(got, exp)
            if d:
                rep.violation(f"{label}: an instance is influenced by another one: {d}", history=[f"{a}.{b}" for a, b in seq[:i + 1]])
                break
        else:
            rep.trace()
        rep.count_states()
    for n in names:
        snap.restore(snaps[n])


def _limit(name, key, val):
    def f(r):
        r.constraints[name].params[key] = val
    return f


def _off(name):
    def f(r):
        r.constraints[name].enabled = False
    return f


def _disable(r):
    r.enable = False


def _pair(which):
    F = zoofleet.FLEET

    def pick(cs, *ks):
        return {k: cs[k] for k in ks}
    dz = {"rv": _limit("rel_vel", "v0", 0.6), "off": _off("rel_vel")}
    two = {"d2_ea": dz, "d2_es": dz, "d3_es": dz, "d2_is": dz, "d3_ea": dz, "d3_is": dz, "d2_ia": {"off": _off("rel_vel")}}
    if which in two:
        mk, cs = F[which]
        c = pick(cs, "safe", "unsafe")
        return {"a": mk, "b": lambda: mk(v0=0.5)}, {"a": c, "b": c}, {"a": two[which], "b": {"reset": lambda r: r.reset()} if which in ("d2_ea", "d3_ea") else {"disable": _disable}}
    if which == "latched":
        mk, cs = F["d3_es"]
        c = pick(cs, "safe", "unsafe")
        return {"a": lambda: mk(latch_time=3.), "b": lambda: mk(latch_time=1.)}, {"a": c, "b": c}, {"a": {}, "b": {"disable": _disable}}
    if which in ("int_es", "int_is", "int_ia"):
        mk, cs = F[which]
        c = pick(cs, "safe", "unsafe")
        return {"a": mk, "b": lambda: mk(control_bounds_high=0.5)}, {"a": c, "b": c}, {"a": {"off": _off("rel_vel")}, "b": {"disable": _disable}}
    if which == "insp1":
        mk, cs = F["insp1"]
        c = pick(cs, "safe", "unsafe")
        return {"a": mk, "b": lambda: mk(r_max=500., fov=0.8)}, {"a": c, "b": c}, {"a": {"rmax": _limit("r_max", "r_max", 310.)}, "b": {}}
    if which == "insp1d":
        mk, cs = F["insp1d"]
        c = pick(cs, "safe", "unsafe")
        return {"a": mk, "b": lambda: mk(r_max=500.)}, {"a": c, "b": c}, {"a": {"off": _off("rel_vel")}, "b": {}}
    if which == "insp3":
        mk, cs = F["insp3"]
        c = pick(cs, "safe", "unsafe")
        c2 = {k: (np.concatenate([x[:12], x[-1:]]), dt, u) for k, (x, dt, u) in c.items()}
        return {"a": mk, "b": lambda: mk(num_deputies=2)}, {"a": c, "b": c2}, {"a": {"off": _off("deputy_collision_1")}, "b": {}}
    if which == "comb":
        from run_time_assurance.zoo.cwh.inspection_3d import CombinedInspectionRTA
        mk, cs = F["comb3"]
        c = pick(cs, "safe", "unsafe")

        def dm():
            return CombinedInspectionRTA(num_deputies=3)

        def moff(r):
            r.deputy_rta.enable = False

        def rv(r):
            r.deputy_rta.constraints["rel_vel"].params["v0"] = 0.6
        return {"a": dm, "b": dm}, {"a": pick(c, "unsafe"), "b": pick(c, "safe")}, {"a": {"moff": moff, "rv": rv}, "b": {}}
    if which == "mixed":
        c2 = pick(zoofleet.CALLS_D2, "safe", "unsafe")
        return ({"a": F["d2_ea"][0], "b": F["d2_es"][0], "c": F["int_es"][0]}, {"a": c2, "b": c2, "c": pick(zoofleet.CALLS_INT, "unsafe")},
                {"a": {"off": _off("rel_vel")}, "b": {"off": _off("rel_vel")}, "c": {}})
    if which == "toys":
        a, b = fleet.es(latch=1.25, ctl=fleet.counter("array")), fleet.es(ctl=fleet.counter("inplace"))
        c = pick(fleet.CALLS1, "safe", "unsafe", "out")
        return {"a": a.build, "b": b.build}, {"a": c, "b": c}, {"a": {"lim": _limit("pmax", "limit_val", 1.)}, "b": {"reset": lambda r: r.reset()}}
    if which == "toyi":
        a, b = fleet.isx(latch=0.75, ctl=fleet.counter("dict")), fleet.isx(window=2.)
        c = pick(fleet.CALLS1, "safe", "unsafe")
        return {"a": a.build, "b": b.build}, {"a": c, "b": c}, {"a": {"lim": _limit("pmax", "limit_val", 1.)}, "b": {"disable": _disable}}
    if which == "toya":
        c = pick(fleet.CALLS2, "safe", "unsafe")
        return {"a": fleet.ea().build, "b": fleet.ea(low=None, high=None).build}, {"a": c, "b": c}, {"a": {"lim": _limit("a", "limit_val", .5)}, "b": {"off": _off("b")}}
    if which == "toyd":
        c = pick(fleet.CALLS2, "safe", "unsafe")
        return {"a": fleet.da().build, "b": fleet.ia().build}, {"a": c, "b": c}, {"a": {"lim": _limit("a", "limit_val", .5)}, "b": {"off": _off("b")}}
    raise ValueError(which)


PAIRS = ["d2_ea", "d2_es", "d3_es", "d2_is", "d3_ea", "d3_is", "d2_ia", "latched", "int_es", "int_is", "int_ia", "insp1", "insp1d", "insp3", "comb", "mixed", "toys", "toyi", "toya", "toyd"]
SLOW = ("d2_ia", "insp1d", "insp3", "comb", "int_ia", "d2_is", "d3_is", "insp1")


def isolation(rep, which, depth):
    mk, calls, extra = _pair(which)
    isolate(rep, which, mk, calls, extra, depth)


def twins(rep, group):
    """same classes, everything configured differently: a fresh process builds and uses the instances in one order, another in the reverse order; nothing an instance does may depend on it"""
    import json
    import os
    import subprocess
    import sys
    from mc import twins as tw
    root = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    res = {}
    procs = {o: subprocess.Popen([sys.executable, "-m", "mc.twins", group, o], cwd=root, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True) for o in ("fwd", "rev")}
    for o, p in procs.items():
        out, err = p.communicate(timeout=600)
        lines = [ln for ln in out.splitlines() if ln.startswith("TWINS ")]
        if p.returncode or not lines:
            rep.violation(f"{group}: filters of the same class cannot be built and used side by side", order=o, error=err[-1500:])
            continue
        res[o] = json.loads(lines[-1][6:])
    if len(res) < 2:
        return
    for key in res["fwd"]:
        ref = res["fwd"][key][0]
        for o in res:
            for again, tab in enumerate(res[o][key]):
                for i, (a, b) in enumerate(zip(tab, ref)):
                    rep.count_states()
                    rep.step(f"twins {key}:{b[1]}")
                    d = differ(np.array(a[0]), np.array(b[0])) or (None if a[1] == b[1] else f"intervening {a[1]} vs {b[1]}") or differ(a[2], b[2])
                    if d:
                        rep.violation(f"{key}: an instance depends on which differently configured instance of its class was made first: {d}", order=o, after_all_built=bool(again), call=i)
        rep.trace(2)
    rep.check(set(res["fwd"]) == {f"{n}/{i}" for n in tw.GROUPS[group] for i in (0, 1)}, "incomplete table", keys=sorted(res["fwd"]))


def shards(tier):
    deep = tier == "thorough"
    out = [("short_state", dict(name=n)) for n in ("insp3", "insp1")]
    out += [("twins", dict(group=g)) for g in ("insp3", "insp1d", "insp1", "d3", "d2", "int", "d2i", "toys", "toyi")]
    for p in sorted(PAIRS, key=lambda q: q not in SLOW):
        d = 3 if p in SLOW or p == "mixed" else 4
        out.append(("isolation", dict(which=p, depth=d + deep)))
    for n in [*zoofleet.FLEET, *fleet.ALL]:
        out.append(("near", dict(name=n, depth=1)))
    for n in zoofleet.FLEET:
        slow = n in ("insp3", "comb3", "insp1d", "d2_ia", "d3_ia", "int_ia", "d2_is", "d3_is", "insp1", "casc")
        out.append(("supplied", dict(name=n, depth=(1 if slow else 2) + deep)))
    for k in fleet.ALL:
        out.append(("toy", dict(kind=k, depth=(2 if k in ("esimplex", "isimplex", "easif") else 1) + deep, kw={})))
    return out
