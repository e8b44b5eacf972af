"""C03 no mutation / aliasing: every short call sequence x overwriting pattern x array form, against an undisturbed twin filter."""
import itertools

import numpy as np

from mc import fleet, snap, zoofleet
from mc.checks.c08 import differ, report

BOUNDS = ("every sequence of 2 (quick) / 3 (thorough) calls over call kinds x caller behaviour {keep, overwrite state, overwrite desired control, overwrite "
          "returned control, overwrite all three} x array form {float64, 64-byte aligned float32, read-only, slice of a larger array} x {enabled, disabled}, "
          "every toy algorithm (latched, with memory) and supplied filter, compared with a twin that is given private copies")
ASSUMPTIONS = ["arrays with different call kinds are independent; the twin is the same filter restored to its initial data"]

PATTERNS = ("keep", "state", "desired", "out", "all")
FORMS = ("f64", "f32", "ro", "slice")


def aligned(a, dtype):
    a = np.asarray(a)
    n = a.size * np.dtype(dtype).itemsize
    buf = np.zeros(n + 64, np.uint8)
    off = (-buf.ctypes.data) % 64
    v = buf[off:off + n].view(dtype)
    v[:] = a
    return v


def form(a, f):
    a = np.asarray(a, float)
    if f == "f32":
        return aligned(a, np.float32)
    if f == "slice":
        big = np.full(a.size + 4, 7.5)
        big[2:-2] = a
        return big[2:-2]
    v = aligned(a, np.float64)
    return v


def run(rep, label, rta, calls, pats, forms, n):
    s0 = snap.snapshot(rta)
    table = {}
    ops = [(k, p, f, e) for k in calls for p in pats for f in forms for e in ((True, False) if p in ("keep", "all") else (True, ))]
    ops = [o for o in ops if o[1] == "keep" or o[2] != "ro"]
    ops = [o for o in ops if not (o[1] == "keep" and o[2] not in ("ro", "slice"))]

    def expected(hist):
        """results of the undisturbed filter: (control, report) of the last call of the history"""
        if hist not in table:
            snap.restore(s0)
            for k, e in hist:
                x, dt, u = calls[k]
                rta.enable = e
                out = np.array(rta.filter_control(np.array(x, float), dt, np.array(u, float)))
            table[hist] = (out, snap.snapshot(rta), copied(report(rta)))
        return table[hist]

    for seq in itertools.product(ops, repeat=n):
        hist = ()
        for k, _, _, e in seq:
            hist += ((k, e), )
            expected(hist)
        snap.restore(s0)
        hist, prev = (), []
        for k, p, f, e in seq:
            hist += ((k, e), )
            exp = table[hist]
            x0, dt, u0 = calls[k]
            x, u = form(x0, f), form(u0, f)
            xb, ub = x.tobytes(), u.tobytes()
            if f == "ro":
                x.flags.writeable = u.flags.writeable = False
            rta.enable = e
            out = rta.filter_control(x, dt, u)
            rep.step()
            bad = None
            if x.tobytes() != xb or u.tobytes() != ub:
                bad = "input array changed by the call"
            elif isinstance(out, np.ndarray) and (np.shares_memory(out, x) or np.shares_memory(out, u) or any(np.shares_memory(out, o) for o in prev)):
                bad = "returned control shares memory with an input or an earlier result"
            else:
                d = differ(np.array(out), exp[0], 1e-5)
                bad = f"result differs from the undisturbed filter: {d}" if d else None
            if not bad:
                if p in ("state", "all"):
                    x[:] = 1e3
                if p in ("desired", "all"):
                    u[:] = -77.
                if p in ("out", "all"):
                    out = np.asarray(out)
                    out[:] = 55.
                d = differ(report(rta), exp[2], 1e-4)
                bad = f"report about the call changed / differs: {d}" if d else None
            if bad:
                rep.violation(f"{label}: {bad}", history=[f"{a}/{b}/{c}/{'on' if d else 'off'}" for a, b, c, d in seq[:len(hist)]])
                break
            prev += [x, u, out]
        else:
            rep.trace()
        rep.count_states()
    rep.outcomes[label] += 1
    snap.restore(s0)


def copied(r):
    return {k: (np.array(v) if isinstance(v, np.ndarray) else dict(v) if isinstance(v, dict) else v) for k, v in r.items()}


def toy(rep, kind, n, pats, forms, **kw):
    ctl = kw.pop("ctl", None)
    if ctl:
        kw["ctl"] = fleet.counter(ctl)
    sysm = fleet.ALL[kind](**kw)
    calls = fleet.calls(sysm)
    calls = {k: calls[k] for k in ("safe", "unsafe", "clip")}
    run(rep, kind, sysm.build(), calls, pats, forms, n)


def supplied(rep, name, n, pats, forms):
    if name == "dv":
        A = np.array
        x0 = [300., -100., 50., 0.05, 0.1, 0., 0.5]
        calls = {"safe": (A(x0 + [1.]), 1., A([.25, -.5, .1])), "unsafe": (A(x0 + [25.]), 1., A([1., 1., 1.]))}
        rta = zoofleet._dv(n_steps=10)
    else:
        b, c = zoofleet.FLEET[name]
        calls = {k: c[k] for k in ("safe", "unsafe")}
        rta = b()
        if name == "casc":
            rta.rta_list[1].n_steps = 20
    run(rep, name, rta, calls, pats, forms, n)


def shards(tier):
    deep = tier == "thorough"
    out = []
    for n in list(zoofleet.FLEET) + ["dv"]:
        slow = n in ("insp3", "comb3", "insp1d", "d2_ia", "d3_ia", "int_ia", "d2_is", "d3_is", "casc", "insp1")
        out.append(("supplied", dict(name=n, n=2 if not slow or deep else 1, pats=PATTERNS if not deep or not slow else ("keep", "all"), forms=FORMS)))
        if slow and not deep:
            out.append(("supplied", dict(name=n, n=2, pats=("all", ), forms=("f32", ))))
    for kind, kw in (("esimplex", dict(latch=1., ctl="inplace")), ("esimplex", {}), ("isimplex", dict(ctl="array")), ("easif", {}), ("iasif", {}),
                     ("dasif", {}), ("easif", dict(low=None, high=None, direct=False))):
        slow = kind in ("iasif", "dasif")
        out.append(("toy", dict(kind=kind, n=2, pats=PATTERNS if not slow or deep else ("keep", "all"), forms=FORMS if not slow else ("f64", "f32", "ro"), **kw)))
        if deep:
            out.append(("toy", dict(kind=kind, n=3, pats=("all", "out"), forms=("f32", "f64") if not slow else ("f32", ), **kw)))
    return out
