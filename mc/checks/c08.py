"""C08 reset: every history up to a bound, then reset, then every probe sequence up to a second bound, compared with a newly built filter."""
import itertools

import numpy as np

from mc import fleet, snap, zoofleet
from mc.ref import observe

BOUNDS = ("every history of length <= 3 (quick) / 4 (thorough) over {call kinds, long-step call, disable, enable, constraint update, member disable} then reset, "
          "then every probe sequence of length <= 2 (3 for latched / memory filters), compared with a separately constructed filter; all toy algorithms, "
          "17 supplied filters (optionally latched), cascade, combined and delta-v filter")
ASSUMPTIONS = ["probe sequences are repeated only when the complete data of the filter after reset differs from a case already probed"]


def report(rta):
    """everything a user can read about the filter"""
    info = rta.generate_info()
    out = {}
    for k, v in info.items():
        out[k] = {n: float(x) for n, x in v.items()} if isinstance(v, dict) else v
    if hasattr(rta, "constraints_causing_intervention"):
        c = rta.constraints_causing_intervention
        out["causing"] = None if c is None else sorted(c)
    out["interv"] = bool(rta.intervening)
    subs = list(getattr(rta, "rta_list", ()))
    if hasattr(rta, "deputy_rta"):
        subs.append(rta.deputy_rta)
    for i, s in enumerate(subs):
        for k, v in report(s).items():
            out[f"{i}.{k}"] = v
    return out


def differ(a, b, tol=2e-5):
    if isinstance(a, dict) and isinstance(b, dict):
        if a.keys() != b.keys():
            return f"keys {sorted(a)} vs {sorted(b)}"
        for k in a:
            d = differ(a[k], b[k], tol)
            if d:
                return f"{k}: {d}"
        return None
    if isinstance(a, (list, str, bool, type(None))) or isinstance(b, (list, str, bool, type(None))):
        return None if (a is None) == (b is None) and a == b else f"{a} vs {b}"
    a, b = np.asarray(a, float), np.asarray(b, float)
    return None if a.shape == b.shape and np.allclose(a, b, atol=tol, rtol=1e-5, equal_nan=True) else f"{a.tolist()} vs {b.tolist()}"


def run(rep, label, rta, fresh, calls, hist_ops, hlen, plen):
    s0, f0 = snap.snapshot(rta), snap.snapshot(fresh)
    table = {}

    def probe(r, seq):
        out = []
        for k in seq:
            x, dt, u = calls[k]
            c = observe(r, x, dt, u)
            out.append((c[0], c[1], report(r)))
        return out

    # reference results of a newly constructed filter
    seqs = [s for n in range(1, plen + 1) for s in itertools.product(calls, repeat=n)]
    seqs = [s for s in seqs if len(s) == plen]  # prefixes are covered by the longer ones
    start = report(fresh)
    for s in seqs:
        snap.restore(f0)
        table[s] = probe(fresh, s)
    snap.restore(f0)
    probed = set()
    names = list(hist_ops)
    for n in range(1, hlen + 1):
        for hist in itertools.product(names, repeat=n):
            snap.restore(s0)
            for o in hist:
                hist_ops[o](rta)
            rep.step(n=n)
            rta.reset()
            rep.trace()
            d = differ(report(rta), start)
            if d:
                rep.violation(f"{label}: right after reset the reports differ from a new filter's: {d}", history=list(hist) + ["reset"])
                continue
            key = snap.canon(rta)
            if key in probed:
                rep.outcomes["merged"] += 1
                continue
            probed.add(key)
            rep.count_states()
            after = snap.snapshot(rta)
            for s in seqs:
                snap.restore(after)
                got = probe(rta, s)
                rep.step("probed", n=len(s))
                for i, (g, e) in enumerate(zip(got, table[s])):
                    d = differ(g[0], e[0]) or (None if g[1] == e[1] else f"intervening {g[1]} vs {e[1]}") or differ(g[2], e[2])
                    if d:
                        rep.violation(f"{label}: after reset, call {s[:i + 1]} differs from a new filter's: {d}", history=list(hist) + ["reset"] + list(s[:i + 1]))
                        break
    snap.restore(s0)


def ops_of(calls, toy=True):
    ops = {}
    for k, (x, dt, u) in calls.items():
        ops[k] = (lambda r, x=x, dt=dt, u=u: observe(r, x, dt, u))
    ops["disable"] = lambda r: setattr(r, "enable", False)
    k = list(calls)[0]
    ops["values"] = lambda r: r.update_constraint_values(np.array(calls[k][0], float)) if hasattr(r, "update_constraint_values") else None
    return ops


def toy(rep, kind, hlen, plen, **kw):
    ctl = kw.pop("ctl", None)
    if ctl:
        kw["ctl"] = fleet.counter(ctl)
    if kind == "slack":
        from mc.rigs import CSpec
        kind = "easif"
        kw["specs"] = [CSpec("a", "max", 1., idx=0, slack=4.), CSpec("b", "aff", 1., vec=[0.5, 1.])]
    sysm = fleet.ALL[kind](**kw)
    calls = dict(fleet.calls(sysm))
    if kind in ("iasif", "dasif"):
        calls = {k: calls[k] for k in ("safe", "unsafe", "infeas")}
    ops = ops_of(calls)
    if "simplex" in kind:
        calls = {k: calls[k] for k in ("safe", "unsafe")}
    run(rep, f"{kind} {kw}", sysm.build(), sysm.build(), calls, ops, hlen, plen)


def supplied(rep, name, hlen, plen, latched=None):
    if name == "dv":
        A = np.array
        x0 = [300., -100., 50., 0.05, 0.1, 0., 0.5]
        calls = {"low": (A(x0 + [1.]), 1., A([.25, -.5, .1])), "high": (A(x0 + [19.9]), 1., A([.25, -.5, .1])), "over": (A(x0 + [25.]), 1., A([1., 1., 1.]))}

        def mk():
            return zoofleet._dv(n_steps=12)
    else:
        b, calls = zoofleet.FLEET[name]
        mk = (lambda: b(latch_time=latched)) if latched else b
        calls = {k: c for k, c in calls.items() if k != "coll"}
        if name == "casc":
            calls = dict(calls)
            x, dt, u = calls["unsafe"]
            x = x.copy()
            x[7] = 19.99
            calls["fuel"] = (x, dt, u)
            mk0 = mk

            def mk():
                c = mk0()
                c.rta_list[1].n_steps = 20
                return c
    ops = ops_of(calls)
    if name == "casc":
        ops["m0off"] = lambda r: setattr(r.rta_list[0], "enable", False)
        ops["m1off"] = lambda r: setattr(r.rta_list[1], "enable", False)
    if name == "comb3":
        ops["moff"] = lambda r: setattr(r.deputy_rta, "enable", False)
    run(rep, name + (f" latch={latched}" if latched else ""), mk(), mk(), calls, ops, hlen, plen)


def cascade(rep, kinds, hlen):
    """a cascade of latched / memory filters"""
    from run_time_assurance.rta import CascadedRTA

    def mk():
        class Casc(CascadedRTA):
            def _setup_rta_list(self):
                out = []
                for k in kinds:
                    if k == "es":
                        out.append(fleet.es(latch=1.25, ctl=fleet.counter("array")).build())
                    elif k == "is":
                        out.append(fleet.isx(latch=0.75, ctl=fleet.counter("inplace")).build())
                return out
        Casc.__module__ = __name__
        return Casc()
    calls = {k: fleet.CALLS1[k] for k in ("safe", "unsafe")}
    ops = ops_of(fleet.CALLS1)
    ops["m0off"] = lambda r: setattr(r.rta_list[0], "enable", False)
    run(rep, f"cascade {kinds}", mk(), mk(), calls, ops, hlen, 3)


def shards(tier):
    deep = tier == "thorough"
    h = 4 if deep else 3
    out = []
    for n in zoofleet.FLEET:
        slow = n in ("insp3", "comb3", "insp1d", "d2_ia", "d3_ia", "int_ia", "d2_is", "d3_is", "insp1", "casc")
        out.append(("supplied", dict(name=n, hlen=h - (1 if slow else 0), plen=1 if slow else 2)))
    out.append(("supplied", dict(name="dv", hlen=h, plen=3)))
    for n in ("d2_es", "d3_is", "int_es", "int_is"):
        out.append(("supplied", dict(name=n, hlen=h if "es" in n else h - 1, plen=2, latched=3.)))
    for lt in (0., 1., 1.25):
        for c in (None, "array", "dict", "inplace"):
            out.append(("toy", dict(kind="esimplex", hlen=h, plen=3 + deep, latch=lt, ctl=c)))
    for lt, c in ((0., "dict"), (1., "inplace"), (1.25, None)):
        out.append(("toy", dict(kind="isimplex", hlen=h, plen=3 + deep, latch=lt, ctl=c)))
    for k in ("easif", "slack", "iasif", "dasif"):
        out.append(("toy", dict(kind=k, hlen=h - (k in ("iasif",)), plen=2)))
    for ks in (("es",), ("es", "is"), ("is", "es"), ("es", "es")):
        out.append(("cascade", dict(kinds=ks, hlen=h)))
    return out
