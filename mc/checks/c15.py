"""C15 runtime reconfiguration: every interleaving of configuration changes and calls up to a bound against the reference model; supplied filters against
filters built with the changed configuration."""
import itertools

import numpy as np

from mc import fleet, rigs, snap, zoofleet
from mc.checks.c08 import differ
from mc.ref import Sys, observe
from mc.rigs import CSpec, DI, DSpec, LIN2, LinearBackup
from run_time_assurance.constraint import ConstraintModule, PolynomialConstraintStrengthener

BOUNDS = ("five toy algorithms (+ integrated discrete), compiled and not: all sequences of length <= 4 (quick) / 5 (thorough) over {set parameter in place, replace parameter dictionary, toggle constraint, "
          "toggle / reparametrise direct inequality, reset, disable/enable, constraint update, 2 calls}; every ordered pair of 16 (thorough 81) parameter vectors of two two-parameter constraints back to back; all non-empty constraint subsets and orders at construction, also with names that are prefixes, suffixes or case variants of one another; supplied filters: every parameter and every enabled flag "
          "(and every pair of parameters at equal sum) of every constraint changed in place / by replacement before or between calls, compared with a filter constructed that way (or without the constraint)")
ASSUMPTIONS = []


def toysys(kind, dc, jit):
    d = lambda c: [DSpec("d", [1., 1.], c)]  # noqa
    if kind == "esimplex":
        return fleet.es(jit_enable=jit), {"pmax": (2., -0.5), "brake": (4., 1.)}
    if kind == "isimplex":
        return fleet.isx(jit_enable=jit), {"pmax": (2., -0.5), "vmin": (-2., 0.5)}
    if kind == "easif":
        s = fleet.ea(jit_enable=jit)
        s.direct = d(dc)
        return s, {"a": (1., 0.25), "c": (2., 0.5)}
    if kind == "iasif":
        s = fleet.ia(jit_enable=jit, window=0.5)
        s.direct = d(dc)
        return s, {"a": (1., 0.25), "b": (1., 0.5)}
    if kind == "dasif":
        return fleet.da(jit_enable=jit), {"a": (1., 0.25), "b": (1., 0.5)}
    raise ValueError(kind)


CALLS = {1: {"safe": ([0., 0.], .5, [0.5]), "unsafe": ([1.5, 1.], .5, [1.])},
         2: {"one": ([0.25, 0.25], .5, [0.75, 0.5]), "two": ([-0.25, 0.], .5, [-0.75, -0.5])}}


def toy(rep, kind, jit, depth, flat):
    systems = {c: toysys(kind, c, jit)[0] for c in (-0.75, 0.125)}
    sysm, changes = toysys(kind, -0.75, jit)
    rta = sysm.build()
    names = [s.name for s in sysm.specs]
    ops = []
    for n, (v0, v1) in changes.items():
        i = names.index(n)

        def flipped(mm, i=i, v0=v0, v1=v1):
            m, dc = mm
            lims = list(m.lims)
            lims[i] = v1 if lims[i] == v0 else v0
            return m._replace(lims=tuple(lims)), dc

        def spec(mm, f=flipped):
            return f(mm), lambda o: None

        def inplace(r, n=n, v0=v0, v1=v1):
            p = r.constraints[n].params
            p["limit_val"] = v1 if p["limit_val"] == v0 else v0

        def replace(r, n=n, v0=v0, v1=v1):
            old = r.constraints[n].params["limit_val"]
            r.constraints[n].params = {"limit_val": v1 if old == v0 else v0}

        def toggle(r, n=n):
            r.constraints[n].enabled = not r.constraints[n].enabled

        def tspec(mm, i=i):
            m, dc = mm
            en = list(m.en)
            en[i] = not en[i]
            return (m._replace(en=tuple(en)), dc), lambda o: None
        ops += [(f"{n} param in place", inplace, spec), (f"{n} param replaced", replace, spec), (f"{n} toggle", toggle, tspec)]
    if sysm.direct:
        def dtoggle(r):
            c = r.direct_inequality_constraints["d"]
            c.enabled = not c.enabled

        def dset(r):
            p = r.direct_inequality_constraints["d"].params
            p["c"] = 0.125 if p["c"] == -0.75 else -0.75

        def drep(r):
            c = r.direct_inequality_constraints["d"]
            c.params = {"c": 0.125 if c.params["c"] == -0.75 else -0.75, "scale": 1.0}
        ops.append(("direct toggle", dtoggle, lambda mm: ((mm[0]._replace(den=(not mm[0].den[0],)), mm[1]), lambda o: None)))
        ops.append(("direct param in place", dset, lambda mm: ((mm[0], 0.125 if mm[1] == -0.75 else -0.75), lambda o: None)))
        ops.append(("direct param replaced", drep, lambda mm: ((mm[0], 0.125 if mm[1] == -0.75 else -0.75), lambda o: None)))
    for k, (x, dt, u) in CALLS[sysm.plant.m].items():
        def run(r, x=x, dt=dt, u=u):
            out = observe(r, x, dt, u)
            return out, dict(r.constraint_values), list(getattr(r, "constraints_causing_intervention", None) or ())

        def cspec(mm, x=x, dt=dt, u=u):
            m, dc = mm
            s = systems[dc]
            m2, out = s.step(m, x, dt, u)

            def judge(o):
                msg = s.compare(out, rta, o[0][0], atol=None if kind != "dasif" else 4e-3)
                if msg:
                    return msg
                if m.enable:
                    phi = s.phi(m, x)
                    if set(phi) != set(o[1]) or any(abs(phi[n] - o[1][n]) > 1e-4 for n in phi):
                        return f"reported constraint values {o[1]} expected {phi}"
                    off = [n for n, e in zip(names, m.en) if not e] + ["d"] * (bool(m.den) and not m.den[0])
                    if kind in ("easif", "iasif") and set(off) & set(o[2]):
                        return f"disabled constraint reported as cause: {o[2]}"
                return None
            return (m2, dc), judge
        ops.append((k, run, cspec))
    # memory the reset must not touch: configuration
    ops.append(("reset", lambda r: r.reset() if not (jit and "simplex" in kind or kind == "iasif" and jit) else clear(r), lambda mm: ((sysm.fresh(mm[0]), mm[1]), lambda o: None)))
    snap.explore(rep, rta, (sysm.init(), -0.75), ops, depth, replays=80, label=f"{kind} jit={jit}", flat=flat)


def clear(r):
    """reset without recompiling the (memoryless) backup controller"""
    ctl = r.backup_controller
    keep, ctl.reset = ctl.reset, lambda: None
    try:
        r.reset()
    finally:
        del ctl.__dict__["reset"]
    assert keep


def subsets(rep, kind, jit):
    """constraints_to_use: every subset"""
    import jax  # noqa: F401
    sysm, _ = toysys(kind, -0.75, jit)
    names = [s.name for s in sysm.specs]
    for r in range(0, len(names) + 1):
        for sub in itertools.combinations(names, r):
            for order in {tuple(sub), tuple(reversed(sub))}:
                rep.count_states()
                try:
                    rta = sysm.build(constraints_to_use=list(order))
                except ValueError:
                    rep.step("rejected")
                    if r:
                        rep.violation("non-empty constraint selection rejected", kind=kind, use=order)
                    continue
                if not r:
                    rep.violation("empty constraint selection accepted", kind=kind)
                    continue
                if set(rta.constraints) != set(sub):
                    rep.violation(f"constraints in force: {list(rta.constraints)}", kind=kind, use=order)
                    continue
                m = sysm.init()._replace(en=tuple(n in sub for n in names))
                for x, dt, u in list(CALLS[sysm.plant.m].values()) + [v for k, v in fleet.calls(sysm).items() if k != "infeas"]:
                    _, out = sysm.step(m, x, dt, u)
                    got = observe(rta, x, dt, u)
                    rep.step(out.status)
                    msg = sysm.compare(out, rta, got[0], atol=None if kind != "dasif" else 4e-3)
                    if msg:
                        rep.violation(msg, kind=kind, use=order, state=x, desired=u)
                    if set(rta.constraint_values) != set(sub):
                        rep.violation(f"values reported for {sorted(rta.constraint_values)}", kind=kind, use=order)
        rep.trace()
    for bad in (["nothing"], []):
        try:
            sysm.build(constraints_to_use=bad)
        except ValueError:
            rep.step("rejected")
            continue
        rep.violation("selecting no constraint accepted", kind=kind, use=bad)


class TwoParam(ConstraintModule):
    """lim - gain * (state component), both parameters changeable"""

    def __init__(self, idx, lim, gain, **kw):
        self.idx = idx
        super().__init__(params={"lim": lim, "gain": gain}, alpha=PolynomialConstraintStrengthener([0., 1.]), **kw)

    def _compute(self, state, params):
        return params["lim"] - params["gain"] * state[self.idx]


class Named:
    """what rigs.make needs of a constraint specification"""

    def __init__(self, name, mk):
        self.name, self.mk = name, mk

    def build(self):
        return self.mk()


def vectors(rep, kind, jit, vals):
    """every ordered pair of parameter vectors back to back: a live filter follows each change at once, whatever stays the same (sums, products, other constraints)"""
    plant = DI if "simplex" in kind else LIN2
    kw = dict(jit_enable=jit, control_bounds_low=-1., control_bounds_high=1.)
    if kind in ("isimplex", "iasif"):
        kw["backup_window"] = 0.5
    if kind == "iasif":
        kw["integration_method"] = "Euler"

    def mk(v):
        cons = [Named("ab", lambda: TwoParam(0, v[0], v[1])), Named("a", lambda: TwoParam(1, v[2], v[3]))]
        ctl = {"esimplex": LinearBackup([[0., 2.]], [0.25]), "isimplex": LinearBackup([[0., 1.]]), "iasif": LinearBackup([[0.25, 0.], [0., 0.25]])}.get(kind)
        return rigs.make(kind, plant, cons, controller=ctl, **kw)
    x, dt = np.array([0.625, 0.5]), 0.5
    u = np.array([0.75]) if plant is DI else np.array([0.75, 0.5])
    vecs = list(itertools.product(vals, repeat=4))
    table = {}
    for v in vecs:
        r = mk(v)
        table[v] = observe(r, x, dt, u)
    live = mk(vecs[0])
    n, pos = len(vecs), 0
    rep.count_states(n)
    for d in range(n):
        for i in range(n):
            for v in (vecs[i], vecs[(i + d) % n]):
                for k, (a, b) in (("ab", v[:2]), ("a", v[2:])):
                    c = live.constraints[k]
                    if pos % 3 == 0:
                        c.params = {"lim": a, "gain": b}
                    elif pos % 3 == 1:
                        c.params["gain"], c.params["lim"] = b, a
                    else:
                        c.params = {"gain": b, "lim": a}
                pos += 1
                got = observe(live, x, dt, u)
                rep.step(f"{kind} vectors:{got[1]}")
                want = {"ab": v[0] - v[1] * x[0], "a": v[2] - v[3] * x[1]}
                msg = differ({k: float(w) for k, w in live.constraint_values.items()}, want, 1e-5)
                msg = msg or differ(got[0], table[v][0], 2e-4 if kind != "dasif" else 4e-3) or (None if got[1] == table[v][1] or kind == "dasif" else f"intervening {got[1]} vs {table[v][1]}")
                if msg:
                    rep.violation(f"{kind}: a parameter change is not followed: {msg}", before=vecs[i], now=v)
    rep.trace(n * n)


NAMES = [["a", "ab", "abc"], ["x_lim", "lim", "x"], ["1", "10", "0"], ["Rel", "rel", "REL"]]


def names(rep, kind):
    """selection is by exact name: names that are prefixes, suffixes or case variants of one another"""
    for ns in NAMES:
        cons = [Named(n, lambda i=i: TwoParam(i % 2, 1. + i, 1.)) for i, n in enumerate(ns)]
        ctl = LinearBackup([[0., 2.]], [0.25]) if kind == "esimplex" else None
        for r in range(1, 4):
            for sub in itertools.permutations(ns, r):
                rta = rigs.make(kind, DI if kind == "esimplex" else LIN2, cons, controller=ctl, constraints_to_use=list(sub), jit_enable=False)
                rep.step("names")
                rep.count_states()
                if set(rta.constraints) != set(sub):
                    rep.violation(f"constraints in force: {list(rta.constraints)}", kind=kind, use=sub, declared=ns)
        for bad in ([ns[0] + "z"], [ns[0][:-1]], [ns[0].swapcase() + "_"], [" " + ns[0]]):
            if bad[0] in ns:
                continue
            try:
                rta = rigs.make(kind, DI if kind == "esimplex" else LIN2, cons, controller=ctl, constraints_to_use=bad, jit_enable=False)
                rep.violation(f"selecting no existing constraint accepted: {list(rta.constraints)} in force", kind=kind, use=bad, declared=ns)
            except ValueError:
                rep.step("rejected")
    rep.trace()


# -------------------------------------------------------------------------------------------------------- supplied filters
def variant(name, change):
    """supplied filter whose constraints are changed at construction"""
    mk = zoofleet.FLEET[name][0]
    base = type(mk())

    class V(base):
        def _setup_constraints(self):
            d = super()._setup_constraints()
            change(d)
            return d
    kw = dict(num_deputies=3) if name == "insp3" else {}
    return V(**kw)


def targets(name, rta):
    for k, c in rta.constraints.items():
        for p, v in c.params.items():
            if isinstance(v, (int, float)):
                yield k, p, (v * 0.5 if v else 100.)
        yield k, None, None
        num = [q for q, v in c.params.items() if isinstance(v, (int, float))]
        for p, q in itertools.combinations(num, 2):  # two at once, their sum unchanged
            yield k, (p, q), (c.params[p] * 1.25, c.params[q] - c.params[p] * 0.25)


def supplied(rep, name, part, parts):
    mk, calls = zoofleet.FLEET[name]
    live = mk()
    tol = 2e-4 if name != "insp1d" else 5e-3
    calls = list(calls.values())
    base = [observe(live, *c) for c in calls]
    for i, (k, p, v) in enumerate(list(targets(name, live))):
        if i % parts != part:
            continue
        if p is None and len(live.constraints) == 1:
            continue
        new = {} if p is None else dict(zip(p, v)) if isinstance(p, tuple) else {p: v}

        def change(d, k=k, p=p, new=new):
            if p is None:
                del d[k]
            else:
                d[k].params.update(new)
        ref = variant(name, change)
        want = [(observe(ref, *c), dict(ref.constraint_values)) for c in calls]
        old = dict(live.constraints[k].params)
        modes = ("enabled",) if p is None else ("in place", "replaced")
        for mode in modes:
            # change between two calls, then every call, then back again
            for first in calls[:2]:
                observe(live, *first)
                if mode == "enabled":
                    live.constraints[k].enabled = False
                elif mode == "in place":
                    live.constraints[k].params.update(new)
                else:
                    live.constraints[k].params = {**old, **new}
                for c, (w, vals) in zip(calls, want):
                    got = observe(live, *c)
                    rep.count_states()
                    rep.step(f"{mode}:{got[1]}")
                    d = differ(got[0], w[0], tol) or (None if got[1] == w[1] else f"intervening {got[1]} vs {w[1]}")
                    if not d and p is not None:
                        d = differ({n: float(x) for n, x in live.constraint_values.items()}, vals, 1e-3)
                    if d:
                        rep.violation(f"{name}: {k}.{p or 'disabled'} changed ({mode}): {d}", call=c)
                if mode == "enabled":
                    live.constraints[k].enabled = True
                elif mode == "in place":
                    live.constraints[k].params.update(old)
                else:
                    live.constraints[k].params = dict(old)
                for c, b in zip(calls, base):
                    got = observe(live, *c)
                    rep.step("restored")
                    d = differ(got[0], b[0], tol)
                    if d:
                        rep.violation(f"{name}: {k}.{p or 'disabled'} changed back ({mode}): {d}", call=c)
            rep.trace()


def shards(tier):
    deep = tier == "thorough"
    out = []
    sup = [("insp1", 8), ("insp1d", 8), ("d3_ea", 2), ("d2_es", 2), ("d3_is", 2), ("d2_ia", 2)]
    if deep:
        sup += [("insp3", 8), ("d2_ea", 1), ("d2_is", 2), ("d3_es", 1), ("d3_ia", 2)]
    for n, parts in sup:
        for p in range(parts):
            if deep or n not in ("insp1d",) or p % 4 == 0:
                out.append(("supplied", dict(name=n, part=p, parts=parts)))
    for k in ("esimplex", "isimplex", "easif", "iasif", "dasif"):
        out.append(("vectors", dict(kind=k, jit=k in ("esimplex", "easif") or deep, vals=(1., 2.) if not deep or k == "iasif" else (0.5, 1., 1.5))))
        for jit in (True, False):
            if k == "dasif" and not jit and not deep:
                continue
            d = {"iasif": 3, "dasif": 4}.get(k, 4) + deep - (not jit and k in ("iasif", "isimplex"))
            out.append(("toy", dict(kind=k, jit=jit, depth=d, flat=2 if not deep else 3)))
            if jit or deep:
                out.append(("subsets", dict(kind=k, jit=jit)))
    out += [("names", dict(kind=k)) for k in ("esimplex", "easif", "dasif")]
    return out
