"""Executable reference model of the filters (numpy, float64), written from the property statements, together with the
construction of the corresponding real filter.  A Sys is one configuration; Sys.step is the specification of one call."""
from collections import namedtuple

import numpy as np

from mc import rigs
from mc.rigs import clip, poly

# model state of a filter between two calls
M = namedtuple("M", "enable interv elapsed mem lims en den")
Out = namedtuple("Out", "u interv status causing margin qp lam")


class Sys:
    def __init__(self, kind, plant, specs, direct=(), ctl=None, low=None, high=None, window=1., latch=0., eps=1e-2, exact=True, tol=2e-5,
                 **kw):
        self.kind, self.plant, self.specs, self.direct, self.ctl = kind, plant, list(specs), list(direct), ctl
        self.low, self.high, self.window, self.latch, self.eps = low, high, window, latch, eps
        self.exact, self.tol, self.kw = exact, tol, kw
        self.refctl = ctl() if ctl else None
        self.slack = [s for s in self.specs if s.slack is not None]

    # -------------------------------------------------------------------------------------------------------------- real
    def build(self, **over):
        kw = dict(self.kw)
        kw.update(over)
        if self.low is not None:
            kw.setdefault("control_bounds_low", self.low)
        if self.high is not None:
            kw.setdefault("control_bounds_high", self.high)
        if self.kind in ("esimplex", "isimplex") and self.latch:
            kw.setdefault("latch_time", self.latch)
        if self.kind in ("isimplex", "iasif"):
            kw.setdefault("backup_window", self.window)
        if "asif" in self.kind and self.eps != 1e-2:
            kw.setdefault("epsilon", self.eps)
        return rigs.make(self.kind, self.plant, self.specs, self.ctl() if self.ctl else None, direct=self.direct or None, **kw)

    # --------------------------------------------------------------------------------------------------------- reference
    def mem0(self):
        return getattr(self.refctl, "start", None) if self.refctl is not None else None

    def init(self):
        return M(True, False, 0., self.mem0(), tuple(s.lim for s in self.specs), tuple(s.enabled for s in self.specs),
                 tuple(d.enabled for d in self.direct))

    def fresh(self, m):
        """state after reset: configuration kept"""
        return m._replace(enable=True, interv=False, elapsed=0., mem=self.mem0())

    def bc(self, u):
        return clip(u, self.low, self.high)

    def backup(self, x, dt, mem):
        u, mem = self.refctl.ref(np.asarray(x, float), dt, mem)
        return self.bc(u), mem

    def nsteps(self, dt):
        return int(np.floor(self.window / dt + 1e-6))

    def monitor_values(self, m, x, dt, uc):
        """all constraint values a switching filter has to look at"""
        p = self.plant
        xs = [p.step(np, np.asarray(x, float), dt, uc)]
        if self.kind == "isimplex":
            mem = m.mem
            for _ in range(self.nsteps(dt)):
                ub, mem = self.backup(xs[-1], dt, mem)
                xs.append(p.step(np, xs[-1], dt, ub))
        vals = [s.hb(xx, lim) for xx in xs for s, lim, e in zip(self.specs, m.lims, m.en) if e]
        return vals

    def rows(self, m, x, dt):
        """rows of the optimisation: (C, b, names); columns = control then slack"""
        x = np.asarray(x, float)
        p, ns = self.plant, len(self.slack)
        C, b, names = rigs.bound_rows(p.m, self.low, self.high, ns)
        f0, g0 = p.f(np, x), p.g(np, x)

        def add(row, rhs, s):
            sl = np.zeros(ns)
            if s.slack is not None:
                sl[self.slack.index(s)] = -1
            C.append(np.concatenate((row, sl)))
            b.append(rhs)
            names.append(s.name)

        if self.kind == "easif":
            for s, lim, e in zip(self.specs, m.lims, m.en):
                if not e:
                    continue
                g = s.grad(x, lim)
                add(g @ g0, -g @ f0 - s.strength(s.hb(x, lim)), s)
        elif self.kind == "iasif":
            xs, Ss = self.flow(m, x, dt)
            for s, lim, e in zip(self.specs, m.lims, m.en):
                if not e:
                    continue
                hv = [s.hb(xx, lim) for xx in xs]
                for k in self.points(s, hv):
                    g = s.grad(xs[k], lim)
                    add(g @ Ss[k] @ g0, -g @ Ss[k] @ f0 - poly(s.alpha, hv[k]), s)
        else:  # discrete, affine constraints on an Euler plant: the barrier is affine in u
            for s, lim, e in zip(self.specs, m.lims, m.en):
                if not e:
                    continue
                g = s.grad(x, lim)
                add(g @ g0, -g @ f0 - poly(s.alpha, s.hb(x, lim)), s)
        for d, e in zip(self.direct, m.den):
            if e:
                C.append(np.concatenate((np.asarray(d.w, float), np.zeros(ns))))
                b.append(float(d.c))
                names.append(d.name)
        return C, b, names

    def flow(self, m, x, dt):
        """backup trajectory and its sensitivity (linear closed loops; Euler)"""
        xs, Ss, mem = [x], [np.eye(len(x))], m.mem
        for _ in range(self.nsteps(dt)):
            ub, mem = self.backup(xs[-1], dt, mem)
            xs.append(self.plant.step(np, xs[-1], dt, ub))
            Ss.append(Ss[-1] + dt * self.jac(xs[-1], dt, mem) @ Ss[-1])
        return xs, Ss

    def jac(self, x, dt, mem):
        n = len(x)
        J = np.zeros((n, n))
        for i in range(n):
            e = np.zeros(n)
            e[i] = 1e-6
            up, um = self.refctl.ref(x + e, dt, mem)[0], self.refctl.ref(x - e, dt, mem)[0]
            J[:, i] = (self.plant.f(np, x + e) + self.plant.g(np, x + e) @ up - self.plant.f(np, x - e) - self.plant.g(np, x - e) @ um) / 2e-6
        return J

    @staticmethod
    def points(s, hv):
        n = len(hv)
        c = s.sub
        na, sk = max(c.get("num_check_all", -1), 0), c.get("skip_length", 1)
        idx = list(range(min(na, n))) + list(range(na, n, sk))
        least = c.get("subsample_constraints_num_least")
        if least is not None:
            idx = sorted(idx, key=lambda k: hv[k])[:least]
        if c.get("keep_first"):
            idx.append(0)
        if c.get("keep_last"):
            idx.append(n - 1)
        return sorted(set(idx))

    def weights(self):
        pw = (lambda v: v) if self.kind.startswith("dasif") else np.sqrt
        return np.array([1.] * self.plant.m + [float(pw(s.slack)) for s in self.slack])

    def step(self, m, x, dt, u):
        u = np.asarray(u, float)
        if not m.enable:
            return m._replace(interv=False), Out(u.copy(), False, "disabled", None, np.inf, None, None)
        if "simplex" in self.kind:
            return self.step_simplex(m, x, dt, u)
        C, b, names = self.rows(m, x, dt)
        res = rigs.solve_qp(np.concatenate((u, np.zeros(len(self.slack)))), C, b, self.weights())
        if res is None:
            return m._replace(interv=False), Out(self.bc(u), False, "infeasible", [], np.inf, None, None)
        q, lam = res
        q = q[:self.plant.m]
        dist = float(np.linalg.norm(q - u))
        interv = dist > self.eps
        causing = sorted({n for n, l in zip(names, lam) if l > 1e-9})
        return m._replace(interv=interv), Out(self.bc(q), interv, "opt" if dist > 0 else "same", causing, abs(dist - self.eps), q,
                                              dict(zip(range(len(lam)), lam)))

    def step_simplex(self, m, x, dt, u):
        uc = self.bc(u)
        if m.interv and m.elapsed < self.latch:
            ub, mem = self.backup(x, dt, m.mem)
            return m._replace(elapsed=m.elapsed + dt, mem=mem), Out(ub, True, "latched", None, np.inf, None, None)
        vals = self.monitor_values(m, x, dt, uc)
        margin = min((abs(v) for v in vals), default=np.inf)
        bad = any(v < 0 for v in vals)
        if bad:
            ub, mem = self.backup(x, dt, m.mem)
            return m._replace(interv=True, elapsed=0., mem=mem), Out(ub, True, "backup", None, margin, None, None)
        return m._replace(interv=False, elapsed=0.), Out(uc, False, "pass", None, margin, None, None)

    def phi(self, m, x):
        return {s.name: s.h(np.asarray(x, float), lim) for s, lim in zip(self.specs, m.lims)}

    # ------------------------------------------------------------------------------------------------------- comparisons
    def apply_config(self, rta, m):
        """writes the model's constraint configuration into the real filter"""
        for s, lim, e in zip(self.specs, m.lims, m.en):
            c = rta.constraints[s.name]
            c.params["limit_val"] = lim
            c.enabled = e
        for d, e in zip(self.direct, m.den):
            rta.direct_inequality_constraints[d.name].enabled = e

    def compare(self, out, rta, got, atol=None):
        """None or a message; out is the reference outcome"""
        atol = self.tol if atol is None else atol
        got = np.asarray(got, float)
        if out.status == "infeasible" and self.kind.startswith("dasif"):  # the last iterate of the solver: only the bounds are promised
            return None if np.allclose(got, self.bc(got), atol=1e-6) else f"control {got.tolist()} outside its bounds"
        if got.shape != out.u.shape:
            return f"control has shape {got.shape}, expected {out.u.shape}"
        if not np.all(np.isfinite(got)) or not np.allclose(got, out.u, atol=atol, rtol=1e-5):
            return f"control {got.tolist()} expected {out.u.tolist()} ({out.status})"
        if out.margin > 1e-4 or ("simplex" in self.kind and self.exact):
            if bool(rta.intervening) != bool(out.interv):
                return f"intervening {rta.intervening} expected {out.interv} ({out.status})"
        return None


def observe(rta, x, dt, u):
    """one filter call on the real object: (control, intervening)"""
    out = rta.filter_control(np.array(x, float), dt, np.array(u, float))
    return np.array(out), bool(rta.intervening)
