"""C09 backup-controller memory: every operation sequence on controllers, and every call history of filters built on them."""
import jax.numpy as jnp
import numpy as np

from mc import fleet, snap
from mc.ref import observe
from mc.rigs import LinearBackup, RTABackupController, memory_of

BOUNDS = ("controllers with no / array / dict / in-place dict memory: every sequence of {generate, save, restore, reset, jacobian, generate with explicit memory} to depth 7 "
          "(quick) / 9 (thorough) with state merging and every sequence of length 4/5 without; switching and implicit optimisation filters on such controllers: every "
          "sequence of {safe, clip, unsafe, deep-unsafe call, two step sizes, disable, enable, reset} to depth 5/7 with merging and length 3/4 without")
ASSUMPTIONS = ["stateful controllers run uncompiled, as the library documents"]


class Integral(RTABackupController):
    """integral controller: memory accumulates the state, both memories of a two-entry dictionary matter"""

    def __init__(self, kind):
        self.kind = kind
        init = {"s": jnp.array([0., 0.]), "k": jnp.array([0.])} if kind != "array" else jnp.array([0., 0., 0.])
        super().__init__(controller_state_initial=init, jit_enable=False)

    def _generate_control(self, state, step_size, controller_state=None):
        if self.kind == "array":
            s, k = controller_state[:2], controller_state[2:]
        else:
            s, k = controller_state["s"], controller_state["k"]
        u = jnp.array([-state[0] - 0.5 * s[0] + 0.25 * s[1] + k[0]])
        s2, k2 = s + step_size * state, k + 1.
        if self.kind == "array":
            return u, jnp.concatenate((s2, k2))
        if self.kind == "dict":
            return u, {"s": s2, "k": k2}
        controller_state["s"], controller_state["k"] = s2, k2
        return u, controller_state

    def ref(self, x, dt, mem):
        s0, s1, k = mem
        return np.array([-x[0] - 0.5 * s0 + 0.25 * s1 + k]), (s0 + dt * x[0], s1 + dt * x[1], k + 1)

    start = (0., 0., 0.)

    def mem(self):
        c = self.controller_state
        a = np.asarray(c) if self.kind == "array" else np.concatenate((np.asarray(c["s"]), np.asarray(c["k"])))
        return tuple(a.tolist())


def controller(rep, kind, cls, depth, flat):
    if cls == "linear":
        ctl, jac = LinearBackup([[0.5, 2.]], [0.25]), np.array([[-0.5, -2.]])
        mem = lambda: memory_of(ctl)  # noqa
        start = None
    elif cls == "counter":
        ctl, jac = fleet.counter(kind, start=2.)(), np.zeros((1, 2))
        mem = lambda: memory_of(ctl)  # noqa
        start = 2.
    else:
        ctl, jac = Integral(kind), np.array([[-1., 0.]])
        mem = ctl.mem
        start = Integral.start
    xs = {"a": ([1., -0.5], .5), "b": ([0.25, 2.], 1.)}
    ops = []

    def msg_mem(m):
        got = mem()
        return None if (got is None and m is None) or (got is not None and m is not None and np.allclose(got, m)) else f"memory {got} expected {m}"

    for n, (x, dt) in xs.items():
        xj = jnp.array(x)

        def gspec(m, x=x, dt=dt):
            u, m2 = ctl.ref(np.array(x), dt, m[0])

            def judge(obs):
                if not np.allclose(obs, u, atol=1e-5):
                    return f"control {obs} expected {u}"
                return msg_mem(m2)
            return (m2, m[1]), judge
        ops.append((f"generate[{n}]", lambda c, xj=xj, dt=dt: np.array(c.generate_control(xj, dt)), gspec))
    x, dt = xs["a"]
    xj = jnp.array(x)
    ops.append(("jacobian", lambda c: np.array(c.jacobian(xj, dt)), lambda m: (m, lambda o: (None if np.allclose(o, jac) else f"jacobian {o}") or msg_mem(m[0]))))
    ops.append(("save", lambda c: c.save(), lambda m: ((m[0], (m[0], )), lambda o: msg_mem(m[0]))))
    ops.append(("restore", lambda c: c.restore(), lambda m: None if m[1] is None else ((m[1][0], m[1]), lambda o: msg_mem(m[1][0]))))
    ops.append(("reset", lambda c: c.reset(), lambda m: ((start, m[1]), lambda o: msg_mem(start))))
    if kind != "inplace":
        # explicit memory: a pure function of its arguments
        given = {"linear": None, "counter": jnp.array([5.]) if kind == "array" else {"t": jnp.array([5.])},
                 "integral": jnp.array([1., 2., 3.]) if kind == "array" else {"s": jnp.array([1., 2.]), "k": jnp.array([3.])}}[cls]
        gm = {"linear": None, "counter": 5., "integral": (1., 2., 3.)}[cls]

        def espec(m):
            u, _ = ctl.ref(np.array(x), dt, gm)
            return m, (lambda o: (None if np.allclose(o, u, atol=1e-5) else f"control {o} expected {u}") or msg_mem(m[0]))
        ops.append(("explicit", lambda c: np.array(c.generate_control_with_controller_state(xj, dt, given)[0]), espec))

    def wrap(spec):
        def w(m):
            r = spec(m)
            if r is None:
                return None
            m2, j = r

            def judge(o):
                rep.outcomes[f"{cls}/{kind}"] += 1
                return j(o)
            return m2, judge
        return w
    snap.explore(rep, ctl, (start, None), [(n, r, wrap(s)) for n, r, s in ops], depth, replays=60, label=f"{cls} controller, {kind} memory", flat=flat)


def filt(rep, kind, ctl, depth, flat, latch=0., window=1., jit=True):
    kw = {}
    m = 2 if kind == "iasif" else 1
    if ctl.startswith("int"):
        kw["ctl"] = lambda: Integral(ctl.split("-")[1])
    else:
        kw["ctl"] = fleet.counter(ctl, m=m, slope=-0.25, c0=0.5)
    if latch:
        kw["latch"] = latch
    if kind in ("isimplex", "iasif"):
        kw["window"] = window
    sysm = fleet.ALL[kind](**kw, jit_enable=jit)
    rta = sysm.build()
    calls = {k: c for k, c in fleet.calls(sysm).items()}
    x, _, u = calls["unsafe"]
    calls["unsafe1"] = (x, 1., u)
    ops = []

    def memory(r):
        return r.backup_controller.mem() if ctl.startswith("int") else memory_of(r.backup_controller)

    def mk(k):
        x, dt, u = calls[k]

        def spec(m):
            m2, out = sysm.step(m, x, dt, u)

            def judge(obs):
                (got, interv), mem = obs
                rep.outcomes[f"{kind}:{out.status}"] += 1
                msg = sysm.compare(out, rta, got)
                if not msg and not np.allclose(mem, m2.mem, atol=1e-5):
                    msg = f"controller memory {mem} after the call, expected {m2.mem} (before: {m.mem})"
                return msg
            return m2, judge
        return k, (lambda r: (observe(r, x, dt, u), memory(r))), spec

    for k in calls:
        ops.append(mk(k))
    ops.append(("disable", lambda r: setattr(r, "enable", False), lambda m: None if not m.enable else (m._replace(enable=False), lambda o: None)))
    ops.append(("enable", lambda r: setattr(r, "enable", True), lambda m: None if m.enable else (m._replace(enable=True), lambda o: None)))

    def rspec(m):
        m2 = sysm.fresh(m)
        return m2, (lambda mem: None if np.allclose(mem, m2.mem) else f"memory {mem} after reset")
    ops.append(("reset", lambda r: (r.reset(), memory(r))[1], rspec))
    snap.explore(rep, rta, sysm.init(), ops, depth, replays=40, label=f"{kind} ctl={ctl} latch={latch}", flat=flat)


def shards(tier):
    deep = tier == "thorough"
    d, f, d2, f2 = (9, 5, 7, 4) if deep else (7, 4, 5, 3)
    out = [("controller", dict(kind="none", cls="linear", depth=d, flat=f - 1))]
    for k in ("array", "dict", "inplace"):
        out.append(("controller", dict(kind=k, cls="counter", depth=d, flat=f)))
        out.append(("controller", dict(kind=k, cls="integral", depth=d - 1, flat=f)))
    for k in ("array", "dict", "inplace", "int-array", "int-dict", "int-inplace"):
        out.append(("filt", dict(kind="esimplex", ctl=k, depth=d2, flat=f2)))
        out.append(("filt", dict(kind="isimplex", ctl=k, depth=d2 - 1, flat=f2 - 1)))
        out.append(("filt", dict(kind="isimplex", ctl=k, depth=d2 - 1, flat=f2 - 1, latch=1.25)))
    for k in ("array", "dict", "inplace"):
        out.append(("filt", dict(kind="esimplex", ctl=k, depth=d2, flat=f2, latch=1.)))
        out.append(("filt", dict(kind="iasif", ctl=k, depth=d2 - 2, flat=2)))
    out.append(("filt", dict(kind="isimplex", ctl="inplace", depth=3, flat=2, jit=False)))
    out.append(("filt", dict(kind="iasif", ctl="inplace", depth=2, flat=1, jit=False)))
    return out
