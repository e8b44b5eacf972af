"""C17 composites: every cascade up to a length over a member alphabet, every call sequence; every agent pattern of the combined filter."""
import itertools

import numpy as np

from mc import fleet, snap, zoofleet
from mc.ref import observe
from run_time_assurance.rta import CascadedRTA, RTAModule

BOUNDS = ("cascades of 0..3 members (thorough: 4) over 8 member kinds (scripted transparent / offset / gain / state- and control-dependent / latching members, "
          "own bounds, toy simplex and ASIF filters, nested cascades), all on/off patterns of the members, all call sequences of length 2 (3 for latching) over 3-4 calls, "
          "array and custom-object states, 2 cascade bounds; combined filter: 1..5 agents, all intervention patterns, all products of 3 controls per agent, with a "
          "scripted deputy filter and with the supplied one (1..3 agents) against separately built deputy filters; supplied inspection cascade against its own chain")
ASSUMPTIONS = ["a reference member is a second instance of the same filter called on its own",
               "the supplied delta-v filter is built with stand-in Riccati gains (its default gains cannot be computed: known finding)"]


class Member(RTAModule):
    """scripted filter: output = gain*u + off (+ shift*state[0]), intervening by rule; optionally latches"""

    def __init__(self, gain=1., off=0., shift=0., rule="never", latch=False, dtgain=0., **kw):
        self.gain, self.off, self.shift, self.rule, self.latch, self.dtgain = gain, off, shift, rule, latch, dtgain
        self.count = 0
        self.calls = []
        super().__init__(**kw)

    def compute_filtered_control(self, input_state, step_size, control_desired):
        x = np.asarray(getattr(input_state, "vec", input_state), float)
        u = np.asarray(control_desired, float)
        self.calls.append((x.copy(), float(step_size), u.copy()))
        hit = {"never": False, "always": True, "u": bool(u[0] > 0.5), "x": bool(x[0] > 0.5)}[self.rule]
        if self.latch:
            self.count = self.count + 1 if (hit or self.count) else 0
            hit = self.count > 0
        self.intervening = hit
        return self.gain * u + self.off + self.shift * x[0] + self.dtgain * step_size + 0.125 * self.count


class Custom:
    """a user's own state type"""

    def __init__(self, vec):
        self.vec = np.array(vec, float)


def _nested():
    class Inner(CascadedRTA):
        def _setup_rta_list(self):
            return [Member(off=0.25, rule="u"), Member(gain=-2., rule="x")]
    return Inner(control_bounds_high=1.5, control_bounds_low=-1.25)


KINDS = {
    "pass": lambda: Member(),
    "off": lambda: Member(off=0.5, dtgain=0.25),
    "gain": lambda: Member(gain=-2., rule="always"),
    "uthr": lambda: Member(gain=0.5, rule="u", control_bounds_high=0.375, control_bounds_low=-2.),
    "xshift": lambda: Member(shift=1., rule="x"),
    "latch": lambda: Member(gain=2., off=-0.25, rule="u", latch=True),
    "es": lambda: fleet.es(latch=0.75).build(),
    "nested": _nested,
}


def model_call(ms, on, x, dt, u, lo, hi):
    """reference: chain of separately built members"""
    u = np.array(u, float)
    flags = []
    for m, e in zip(ms, on):
        if e:
            u = np.asarray(m.filter_control(np.array(x, float), dt, u), float)
            flags.append(bool(m.intervening))
        else:
            flags.append(False)
    out = u if lo is None and hi is None else np.clip(u, lo, hi)
    return out, flags


def cascade(rep, first, length, custom, depth, bounds, calls):
    lo, hi = bounds
    pool = {(k, s): (KINDS[k](), KINDS[k]()) for k in KINDS for s in range(length)}
    for kinds in itertools.product(KINDS, repeat=max(length - 1, 0)):
        kinds = ((first,) + kinds) if length else ()
        members = [pool[k, i][0] for i, k in enumerate(kinds)]
        refs = [pool[k, i][1] for i, k in enumerate(kinds)]

        class Casc(CascadedRTA):
            def _setup_rta_list(self):
                return members
        rta = Casc(control_bounds_low=lo, control_bounds_high=hi)
        s0, r0 = snap.snapshot(rta), [snap.snapshot(r) for r in refs]
        for on in itertools.product((True, False), repeat=len(members)):
            for seq in itertools.product(calls, repeat=depth):
                snap.restore(s0)
                for s in r0:
                    snap.restore(s)
                for m, e in zip(members, on):
                    m.enable = e
                hist = []
                for x, dt, u in seq:
                    for m in members:
                        if isinstance(m, Member):
                            m.calls = []
                    x, ua = np.array(x, float), np.array(u, float)
                    xin = Custom(x) if custom else x.copy()
                    got = np.asarray(rta.filter_control(xin, dt, ua), float)
                    for r in refs:
                        if isinstance(r, Member):
                            r.calls = []
                    exp, flags = model_call(refs, on, x, dt, u, lo, hi)
                    hist.append([x, dt, u])
                    rep.step(f"n{len(members)}:{any(flags)}")
                    ctx = dict(members=kinds, enabled=on, bounds=bounds, history=hist)
                    if got.shape != exp.shape or not np.allclose(got, exp, atol=1e-5):
                        rep.violation("cascade output is not the chain of its filters", got=got, expected=exp, **ctx)
                        break
                    if bool(rta.intervening) != any(flags):
                        rep.violation("cascade reports intervening wrongly", got=bool(rta.intervening), members_intervening=flags, **ctx)
                        break
                    if [bool(m.intervening) for m in members] != flags:
                        rep.violation("a member's own flag is wrong", got=[bool(m.intervening) for m in members], expected=flags, **ctx)
                        break
                    if bool(rta.generate_info()["intervening"]) != any(flags) or not np.allclose(rta.generate_info()["control_actual"], exp, atol=1e-5):
                        rep.violation("cascade info does not report this call", info=rta.generate_info(), **ctx)
                        break
                    if not np.array_equal(ua, np.array(u, float)):
                        rep.violation("the caller's control was modified", **ctx)
                        break
                    bad = None
                    for i, (m, r) in enumerate(zip(members, refs)):
                        if isinstance(m, Member):
                            a, b = m.calls, r.calls
                            if len(a) != len(b) or any(not np.allclose(p[0], q[0]) or p[1] != q[1] or not np.allclose(p[2], q[2], atol=1e-5) for p, q in zip(a, b)):
                                bad = (i, a, b)
                    if bad:
                        rep.violation(f"member {bad[0]} did not receive (state, step, predecessor's output)", got=bad[1], expected=bad[2], **ctx)
                        break
                else:
                    rep.trace()
                    continue
            rep.state((kinds, on))
        snap.restore(s0)
        for s in r0:
            snap.restore(s)
        for m in members:
            m.enable = True


def supplied_cascade(rep, depth):
    from run_time_assurance.zoo.cwh import inspection_1v1 as m
    rta = zoofleet._casc()
    a, b = m.Inspection1v1RTA(), zoofleet._dv(n_steps=20)
    rta.rta_list[1].n_steps = 20
    rep.check([type(r).__name__ for r in rta.rta_list] == ["Inspection1v1RTA", "SwitchingDeltaVLimitRTA"] or len(rta.rta_list) == 2,
              "the inspection cascade is not inspection filter then delta-v filter", got=[type(r).__name__ for r in rta.rta_list])
    calls = {}
    for k, (x, dt, u) in zoofleet.CALLS_I1.items():
        for f in (1., 19.995):
            y = x.copy()
            y[7] = f
            calls[f"{k}@{f}"] = (y, dt, u)
    s0, a0, b0 = snap.snapshot(rta), snap.snapshot(a), snap.snapshot(b)
    cache = {}
    for on in itertools.product((True, False), repeat=2):
        for seq in itertools.product(calls, repeat=depth):
            snap.restore(s0)
            snap.restore(a0)
            snap.restore(b0)
            for r, e in zip(rta.rta_list, on):
                r.enable = e
            for n, k in enumerate(seq):
                x, dt, u = calls[k]
                key = (on[0], k)
                if key not in cache:
                    cache[key] = (a.filter_control(x, dt, u), bool(a.intervening)) if on[0] else (u, False)
                mid, fa = cache[key]
                out, fb = (b.filter_control(x, dt, mid), bool(b.intervening)) if on[1] else (mid, False)
                got, iv = observe(rta, x, dt, u)[:2]
                rep.step(f"insp:{fa}{fb}")
                if not np.allclose(got, out, atol=1e-4) or bool(iv) != (fa or fb):
                    rep.violation("inspection cascade is not inspection filter followed by delta-v filter", calls=seq[:n + 1], enabled=on, got=got, expected=out,
                                  intervening=iv, expected_intervening=[fa, fb])
                    break
            else:
                rep.trace()
        rep.state(on)
    snap.restore(s0)


def default_construction(rep):
    """the supplied cascade must be constructible as documented (known finding: the Riccati equation of its delta-v member has no solution)"""
    from run_time_assurance.zoo.cwh import inspection_1v1 as m
    rep.step()
    rep.count_states()
    try:
        m.InspectionCascadedRTA()
        rep.outcomes["constructed"] += 1
    except (np.linalg.LinAlgError, ValueError) as e:
        if not zoofleet.from_care(e):
            raise
        rep.known_finding("C17-care")
        rep.outcomes["care"] += 1


# -------------------------------------------------------------------------------------------------------- combined filter
class Deputy(RTAModule):
    """scripted deputy filter: reacts to the complete state it is shown; intervenes when its own first component is marked"""

    def __init__(self, k, **kw):
        self.k = k
        super().__init__(**kw)

    def compute_filtered_control(self, input_state, step_size, control_desired):
        out, self.intervening = self.ref(input_state, step_size, control_desired)
        return out

    def ref(self, s, dt, u):
        s = np.asarray(s, float)
        w = np.arange(1, len(s) + 1)
        return 0.5 * np.asarray(u, float) + np.array([np.sin(s @ w), s @ w ** 2 / 4096., s[0] + dt]), bool(s[0] > 0.5)


U = [np.array([0.25, -0.5, 0.125]), np.array([-3., 4., 1.]), np.array([0., 0., 0.])]


def _views(x, k):
    own = [x[6 * i:6 * i + 6] for i in range(k)]
    return [np.concatenate([own[i]] + [own[j] for j in range(k) if j != i] + [x[6 * k:]]) for i in range(k)]


def combined_scripted(rep, k, nu, bounds, tail):
    from run_time_assurance.zoo.cwh.inspection_3d import CombinedInspectionRTA
    d = Deputy(k)
    kw = {} if bounds is None else dict(control_bounds_low=bounds[0], control_bounds_high=bounds[1])
    rta = CombinedInspectionRTA(num_deputies=k, deputy_rta=d, **kw)
    lo, hi = bounds or (-1., 1.)
    for pat in itertools.product((0., 1.), repeat=k):
        x = np.array([v for i in range(k) for v in [pat[i], 0.1 * i, -0.2 * i * i, 0.05 + i, 0.3, 0.01 * (i + 1)]] + ([0.7] if tail else []))
        views = _views(x, k)
        for on in (True, False):
            d.enable = on
            for us in itertools.product(U[:nu], repeat=k):
                u = np.concatenate(us)
                for dt in (1., 0.5):
                    got = np.asarray(rta.filter_control(x.copy(), dt, u.copy()), float)
                    ref = [d.ref(v, dt, a) if on else (a, False) for v, a in zip(views, us)]
                    exp = np.clip(np.concatenate([r[0] for r in ref]), lo, hi)
                    iv = any(r[1] for r in ref)
                    rep.step(f"k{k}:{iv}")
                    if not np.allclose(got, exp, atol=1e-6):
                        rep.violation("an agent's control is not what its own filter gives for its own view", agents=k, state=x, control=u, got=got, expected=exp, deputy_enabled=on)
                    elif bool(rta.intervening) != iv:
                        rep.violation("combined filter reports intervening wrongly", agents=k, state=x, control=u, got=bool(rta.intervening), expected=[r[1] for r in ref], deputy_enabled=on)
                    else:
                        rep.trace()
            rep.state((pat, on))
    d.enable = True


# positions/velocities that make an agent's own filter pass, clip and intervene
POOL = [[300., -100., 50., 0.05, 0.1, 0.], [61., 55., 24., 0.1, 0.1, 0.05], [50., 50., 20., 0.1, 0.12, 0.05], [-200., 150., 80., 0.02, -0.05, 0.01]]
UU = [np.array([0.25, -0.5, 0.1]), np.array([1., 1., 1.]), np.array([-5., 0., 0.5])]


def combined_supplied(rep, k, nu, default, tail, npos):
    from run_time_assurance.zoo.cwh.inspection_3d import CombinedInspectionRTA, InspectionRTA
    rta = CombinedInspectionRTA(num_deputies=k) if default else CombinedInspectionRTA(num_deputies=k, deputy_rta=InspectionRTA(num_deputies=k))
    own = InspectionRTA(num_deputies=k)
    for ids in itertools.permutations(range(npos), k):
        x = np.array([v for i in ids for v in POOL[i]] + ([0.5] if tail else []))
        views = _views(x, k)
        ref = {}
        for i, v in enumerate(views):
            for j, u in enumerate(UU[:nu]):
                o = own.filter_control(v.copy(), 1., u.copy())
                ref[i, j] = (np.asarray(o, float), bool(own.intervening))
                rep.step("own")
        for js in itertools.product(range(nu), repeat=k):
            u = np.concatenate([UU[j] for j in js])
            got = np.asarray(rta.filter_control(x.copy(), 1., u.copy()), float)
            exp = np.clip(np.concatenate([ref[i, j][0] for i, j in enumerate(js)]), -1, 1)
            iv = any(ref[i, j][1] for i, j in enumerate(js))
            rep.step(f"supplied k{k}:{iv}")
            ctx = dict(agents=k, state=x, control=u)
            if not np.allclose(got, exp, atol=2e-4):
                rep.violation("an agent's control is not what its own filter gives for its own view", got=got, expected=exp, **ctx)
            elif bool(rta.intervening) != iv:
                rep.violation("combined filter reports intervening wrongly", got=bool(rta.intervening), expected=[ref[i, j][1] for i, j in enumerate(js)], **ctx)
            else:
                rep.trace()
        rep.state(ids)


CALLS = [([0., 0.], .5, [0.25]), ([1., 0.5], .25, [0.75]), ([0., 1.], .5, [3.])]


def shards(tier):
    deep = tier == "thorough"
    out = [("default_construction", {}), ("supplied_cascade", dict(depth=2 + deep))]
    for k in ((1, 2, 3, 4) if deep else (1, 2, 3)):
        for d in (True, False):
            for t in (True, False):
                if k >= 3 and not deep and (d != t):
                    continue
                out.append(("combined_supplied", dict(k=k, nu=3 if k < 3 else 2 + (deep and k < 4), default=d, tail=t, npos=4 if k < 3 or deep else 3)))
    for b in ((None, None), (-1., 1.25)):
        out.append(("cascade", dict(first=None, length=0, custom=False, depth=2, bounds=b, calls=CALLS)))
        for f in KINDS:
            out.append(("cascade", dict(first=f, length=1, custom=False, depth=3, bounds=b, calls=CALLS)))
            out.append(("cascade", dict(first=f, length=2, custom=False, depth=2 + deep, bounds=b, calls=CALLS)))
            if deep or b[0] is None:
                out.append(("cascade", dict(first=f, length=3, custom=False, depth=2 if deep else 1, bounds=b, calls=CALLS[1:])))
    for f in KINDS:
        if f not in ("es",):
            out.append(("cascade_custom", dict(first=f, length=2, depth=2)))
    for k in range(1, 6):
        for b in (None, (-0.5, 0.75)):
            for t in (True, False):
                out.append(("combined_scripted", dict(k=k, nu=3 if k < 4 else 2, bounds=b, tail=t)))
    return out


def cascade_custom(rep, first, length, depth):
    saved = dict(KINDS)
    KINDS.pop("es")
    try:
        cascade(rep, first, length, True, depth, (None, None), CALLS)
    finally:
        KINDS.clear()
        KINDS.update(saved)
