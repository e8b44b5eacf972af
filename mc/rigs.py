"""Toy systems (user code written against the documented extension points) and their numpy reference semantics."""
import itertools
from collections import OrderedDict

import jax.numpy as jnp
import numpy as np

from run_time_assurance.constraint import (
    ConstraintMagnitudeStateLimit,
    ConstraintMaxStateLimit,
    ConstraintMinStateLimit,
    ConstraintModule,
    DirectInequalityConstraint,
    PolynomialConstraintStrengthener,
)
from run_time_assurance.controller import RTABackupController
from run_time_assurance.rta import (
    CascadedRTA,
    DiscreteASIFIntegratorModule,
    DiscreteASIFModule,
    ExplicitASIFModule,
    ExplicitSimplexModule,
    ImplicitASIFModule,
    ImplicitSimplexModule,
    RTAModule,
)


# ---------------------------------------------------------------------------------------------------------------- plants
class Plant:
    """dx/dt = f(x) + g(x) u, stepped with explicit Euler"""

    def __init__(self, name, n, m, f, g):
        self.name, self.n, self.m, self.f, self.g = name, n, m, f, g

    def step(self, xp, x, dt, u):
        return x + dt * (self.f(xp, x) + self.g(xp, x) @ u)


DI = Plant("double_integrator", 2, 1, lambda xp, x: xp.stack([x[1], 0. * x[0]]), lambda xp, x: xp.array([[0.], [1.]]))
SI1 = Plant("single_integrator_1", 1, 1, lambda xp, x: 0. * x, lambda xp, x: xp.array([[1.]]))
SI2 = Plant("single_integrator_2", 2, 2, lambda xp, x: 0. * x, lambda xp, x: xp.eye(2))
LIN2 = Plant("linear_2x2", 2, 2, lambda xp, x: xp.stack([0.5 * x[1], -0.25 * x[0] + 0.125 * x[1]]),
             lambda xp, x: xp.array([[1., 0.5], [-0.25, 0.75]]))
LIN3 = Plant("linear_3x3", 3, 3, lambda xp, x: xp.stack([x[1] - 0.5 * x[2], 0.25 * x[0], -0.5 * x[1]]),
             lambda xp, x: xp.array([[1., 0., 0.5], [0., 2., 0.], [0.25, 0., 1.]]))
LIN5 = Plant("linear_5x5", 5, 5, lambda xp, x: xp.stack([x[1] - 0.5 * x[4], 0.25 * x[0], -0.5 * x[3], 0.25 * x[2] + 0.125 * x[4], -0.25 * x[0]]),
             lambda xp, x: xp.array([[1., 0., 0.5, 0., 0.], [0., 2., 0., 0., 0.25], [0.25, 0., 1., 0., 0.], [0., -0.5, 0., 1., 0.], [0., 0., 0., 0.5, 1.5]]))
NL2 = Plant("nonlinear_2x2", 2, 2, lambda xp, x: xp.stack([x[1] - 0.1 * x[0] ** 2, -0.5 * x[0] * x[1]]),
            lambda xp, x: xp.stack([xp.stack([1. + 0.25 * x[0] ** 2, 0. * x[0]]), xp.stack([0.5 * x[1], 1. + 0. * x[0]])]))
NLDI = Plant("pendulum", 2, 1, lambda xp, x: xp.stack([x[1], -1.5 * xp.sin(x[0]) - 0.2 * x[1]]), lambda xp, x: xp.array([[0.], [1.]]))
PLANTS = {p.name: p for p in (DI, SI1, SI2, LIN2, LIN3, NL2, NLDI)}


# ----------------------------------------------------------------------------------------------------------- constraints
class UserConstraint(ConstraintModule):
    """user-defined constraint whose single parameter is limit_val"""

    def __init__(self, fn, lim, **kw):
        self.fn = fn
        super().__init__(params={"limit_val": lim}, **kw)

    def _compute(self, state, params):
        return self.fn(jnp, state, params["limit_val"])


def poly(coefs, x):
    return sum(c * x ** i for i, c in enumerate(coefs))


class CSpec:
    """one constraint: builds the library object and evaluates the reference value / gradient"""

    def __init__(self, name, kind, lim, idx=0, vec=None, alpha=(0., 1.), alpha_neg=None, bias=0., bias_neg=None, slack=None,
                 enabled=True, sub=None):
        self.name, self.kind, self.lim, self.idx, self.vec = name, kind, lim, idx, vec
        self.alpha, self.alpha_neg, self.bias, self.slack = list(alpha), alpha_neg, bias, slack
        self.bias_neg_arg = bias_neg
        self.bias_neg = -0.01 if bias_neg is None else bias_neg
        self.enabled, self.sub = enabled, dict(sub or {})

    def build(self, **over):
        kw = dict(alpha=PolynomialConstraintStrengthener(list(self.alpha)), bias=self.bias, slack_priority_scale=self.slack,
                  enabled=self.enabled, **self.sub)
        if self.alpha_neg is not None:
            kw["alpha_negative"] = PolynomialConstraintStrengthener(list(self.alpha_neg))
        if self.bias_neg_arg is not None:
            kw["bias_negative"] = self.bias_neg_arg
        kw.update(over)
        if self.kind == "max":
            return ConstraintMaxStateLimit(limit_val=self.lim, state_index=self.idx, **kw)
        if self.kind == "min":
            return ConstraintMinStateLimit(limit_val=self.lim, state_index=self.idx, **kw)
        if self.kind == "mag":
            return ConstraintMagnitudeStateLimit(limit_val=self.lim, state_index=self.idx, **kw)
        return UserConstraint(self._userfn(), self.lim, **kw)

    def _userfn(self):
        vec, kind = self.vec, self.kind
        if kind == "aff":  # lim - a.x
            return lambda xp, x, lim: lim - sum(float(a) * x[i] for i, a in enumerate(vec) if a != 0)
        if kind == "ball":  # lim^2 - |x-c|^2
            return lambda xp, x, lim: lim ** 2 - sum((x[i] - float(c)) ** 2 for i, c in enumerate(vec))
        if kind == "bowl":  # |x-c|^2 - lim^2
            return lambda xp, x, lim: sum((x[i] - float(c)) ** 2 for i, c in enumerate(vec)) - lim ** 2
        if kind == "brake":  # -2 p - v^2 + lim
            return lambda xp, x, lim: lim - 2. * x[0] - x[1] ** 2
        raise ValueError(kind)

    def h(self, x, lim=None):
        lim = self.lim if lim is None else lim
        k = self.kind
        if k == "max":
            return lim - x[self.idx]
        if k == "min":
            return x[self.idx] - lim
        if k == "mag":
            return lim ** 2 - x[self.idx] ** 2
        return float(self._userfn()(np, x, lim))

    def hb(self, x, lim=None):
        return self.h(x, lim) + self.bias

    def grad(self, x, lim=None):
        x = np.asarray(x, float)
        g = np.zeros(len(x))
        k = self.kind
        if k == "max":
            g[self.idx] = -1
        elif k == "min":
            g[self.idx] = 1
        elif k == "mag":
            g[self.idx] = -2 * x[self.idx]
        elif k == "aff":
            g[:len(self.vec)] = -np.asarray(self.vec, float)
        elif k == "ball":
            c = np.asarray(self.vec, float)
            g[:len(c)] = -2 * (x[:len(c)] - c)
        elif k == "bowl":
            c = np.asarray(self.vec, float)
            g[:len(c)] = 2 * (x[:len(c)] - c)
        elif k == "brake":
            g[0], g[1] = -2, -2 * x[1]
        return g

    def strength(self, hval):
        """right-hand side strengthening used by explicit barriers"""
        if hval < 0:
            an = 10 * poly(self.alpha, hval) if self.alpha_neg is None else poly(self.alpha_neg, hval)
            return an + self.bias_neg
        return poly(self.alpha, hval)


class DSpec:
    """direct inequality  w(x).u >= c(x)"""

    def __init__(self, name, w, c, enabled=True):
        self.name, self.w, self.c, self.enabled = name, list(w), c, enabled

    def build(self):
        spec = self

        class Direct(DirectInequalityConstraint):
            def ineq_weight(self, state, params):
                return jnp.array(spec.w) * params["scale"]

            def ineq_constant(self, state, params):
                return jnp.asarray(params["c"] + 0. * state[0])

        return Direct(params={"c": float(self.c), "scale": 1.0}, enabled=self.enabled)


# ---------------------------------------------------------------------------------------------------- backup controllers
class LinearBackup(RTABackupController):
    """u = -K x + k0 (memoryless)"""

    def __init__(self, K, k0=None, **kw):
        self.K = np.atleast_2d(np.asarray(K, float))
        self.k0 = np.zeros(self.K.shape[0]) if k0 is None else np.asarray(k0, float)
        self.Kj, self.k0j = jnp.array(self.K), jnp.array(self.k0)
        super().__init__(**kw)

    def _generate_control(self, state, step_size, controller_state=None):
        return self.k0j - self.Kj @ state, None

    def ref(self, x, dt, mem):
        return self.k0 - self.K @ x, mem


class CounterBackup(RTABackupController):
    """u = c0 + slope * memory on the first input, memory counts calls; memory kept as array, dict or dict updated in place"""

    def __init__(self, m=1, c0=0., slope=-0.5, kind="array", start=0.):
        self.m, self.c0, self.slope, self.kind, self.start = m, c0, slope, kind, start
        init = jnp.array([float(start)]) if kind == "array" else {"t": jnp.array([float(start)])}
        super().__init__(controller_state_initial=init, jit_enable=False)

    def _generate_control(self, state, step_size, controller_state=None):
        t = controller_state[0] if self.kind == "array" else controller_state["t"][0]
        u = jnp.zeros(self.m) + self.c0 + self.slope * t
        if self.kind == "array":
            new = controller_state + 1.
        elif self.kind == "dict":
            new = {"t": controller_state["t"] + 1.}
        else:
            controller_state["t"] = controller_state["t"] + 1.
            new = controller_state
        return u, new

    def ref(self, x, dt, mem):
        return np.zeros(self.m) + self.c0 + self.slope * mem, mem + 1


def memory_of(ctrl):
    s = ctrl.controller_state
    if s is None:
        return None
    if isinstance(s, dict):
        return float(np.asarray(s["t"])[0])
    return float(np.asarray(s)[0])


# --------------------------------------------------------------------------------------------------------------- filters
BASES = {"esimplex": ExplicitSimplexModule, "isimplex": ImplicitSimplexModule, "easif": ExplicitASIFModule,
         "iasif": ImplicitASIFModule, "dasif": DiscreteASIFModule, "dasifint": DiscreteASIFIntegratorModule}


def make(kind, plant, cons, controller=None, direct=None, **kw):
    """builds a filter of the given kind for a toy plant from constraint specs"""
    base = BASES[kind]
    ns = {"__module__": __name__}

    def _setup_constraints(self):
        return OrderedDict((c.name, c.build()) for c in cons)

    ns["_setup_constraints"] = _setup_constraints
    if kind in ("esimplex", "isimplex"):
        ns["_pred_state"] = lambda self, state, step_size, control: plant.step(jnp, state, step_size, control)
    if kind in ("easif", "iasif"):
        ns["state_transition_system"] = lambda self, state: plant.f(jnp, state)
        ns["state_transition_input"] = lambda self, state: plant.g(jnp, state)
        if direct:
            ns["_setup_direct_constraints"] = lambda self: OrderedDict((d.name, d.build()) for d in direct)
    if kind == "dasif":
        ns["next_state_differentiable"] = lambda self, state, step_size, control: plant.step(jnp, state, step_size, control)
    if kind == "dasifint":
        ns["compute_state_dot"] = lambda self, t, state, control: plant.f(jnp, state) + plant.g(jnp, state) @ control
    cls = type("Toy_" + kind, (base,), ns)
    if kind in ("easif", "iasif", "dasif", "dasifint"):
        kw.setdefault("control_dim", plant.m)
    if controller is not None:
        kw["backup_controller"] = controller
    if kind == "iasif":
        kw.setdefault("integration_method", "Euler")
    return cls(**kw)


# ------------------------------------------------------------------------------------------------------------- reference
def clip(u, low, high):
    u = np.asarray(u, float)
    if low is None and high is None:
        return u.copy()
    return np.clip(u, None if low is None else np.asarray(low, float), None if high is None else np.asarray(high, float))


def bound_rows(m, low, high, extra=0):
    C, b, names = [], [], []
    if low is not None:
        lo = np.broadcast_to(np.asarray(low, float), (m,))
        for i in range(m):
            r = np.zeros(m + extra)
            r[i] = 1
            C.append(r)
            b.append(lo[i])
            names.append(f"u{i + 1}_min")
    if high is not None:
        hi = np.broadcast_to(np.asarray(high, float), (m,))
        for i in range(m):
            r = np.zeros(m + extra)
            r[i] = -1
            C.append(r)
            b.append(-hi[i])
            names.append(f"u{i + 1}_max")
    return C, b, names


def solve_qp(d, C, b, w=None, tol=1e-9):
    """exhaustive active-set enumeration of  min 1/2 u'Wu - d'u  s.t. C u >= b.

    Returns (u, multipliers per row) or None when infeasible.  Every subset of at most dim rows is tried, smallest first;
    a subset whose multipliers are non-negative and whose point is feasible is the unique optimum of the strictly convex QP.
    """
    d = np.asarray(d, float)
    n = len(d)
    w = np.ones(n) if w is None else np.asarray(w, float)
    C = np.asarray(C, float).reshape(-1, n)
    b = np.asarray(b, float)
    scale = np.linalg.norm(C, axis=1)
    zero = scale < 1e-12
    if np.any(zero & (b > tol)):
        return None
    keep = np.flatnonzero(~zero)
    Cs, bs = C[keep] / scale[keep, None], b[keep] / scale[keep]
    u0 = d / w
    lam_full = np.zeros(len(b))
    ft = tol * (1 + np.abs(bs))
    if np.all(Cs @ u0 - bs >= -ft):
        return u0, lam_full
    CW = Cs / w[None, :]
    G = CW @ Cs.T
    res = bs - Cs @ u0
    for k in range(1, n + 1):
        combos = np.array(list(itertools.combinations(range(len(keep)), k)))
        if combos.size == 0:
            break
        Gk = G[combos[:, :, None], combos[:, None, :]]
        rk = res[combos]
        # scaled determinant guards against dependent rows
        dg = np.sqrt(np.einsum("nii->ni", Gk))
        Gn = Gk / (dg[:, :, None] * dg[:, None, :])
        ok = np.linalg.det(Gn) > 1e-12
        if not ok.any():
            continue
        combos, Gk, rk = combos[ok], Gk[ok], rk[ok]
        lam = np.linalg.solve(Gk, rk[..., None])[..., 0]
        pos = np.all(lam >= -1e-10 * (1 + np.abs(lam).max(axis=1, keepdims=True)), axis=1)
        if not pos.any():
            continue
        combos, lam = combos[pos], lam[pos]
        U = u0[None, :] + np.einsum("nk,nkj->nj", lam, CW[combos])
        feas = np.all(U @ Cs.T - bs[None, :] >= -(ft[None, :] + 1e-10 * np.abs(U).max(axis=1, keepdims=True)), axis=1)
        if feas.any():
            i = int(np.flatnonzero(feas)[0])
            for j, l in zip(combos[i], lam[i]):
                lam_full[keep[j]] = l / scale[keep[j]]
            return U[i], lam_full
    return None
