"""C18 generic constraints: complete grids of limits, indices, states, biases, strengtheners and barrier orders against exact polynomial algebra."""
import itertools

import jax.numpy as jnp
import numpy as np

from run_time_assurance.constraint import (
    ConstraintMagnitudeStateLimit,
    ConstraintMaxStateLimit,
    ConstraintMinStateLimit,
    ConstraintModule,
    HOCBFConstraint,
    PolynomialConstraintStrengthener,
)

BOUNDS = ("limit constraints: 3 kinds x 5 limits x 3 state indices x full 5^3 dyadic state grid x 3 biases x compiled or not x parameter histories of length 3; "
          "gradients by exact central differences; strengtheners: every coefficient list of length <= 4 over 5 values, sparse and dense lists of length up to 12 x 9 arguments x 3 argument types; recovery "
          "strengthener: all pairs with / without own recovery polynomial; higher-order barriers: relative degree 1..4 x 5 polynomial drifts x 6 constraints x "
          "3 strengtheners x inner / outer bias x compiled or not x parameter histories, compared with exact polynomial Lie-derivative recursion")
ASSUMPTIONS = ["limits are non-negative for the magnitude constraint", "float32 evaluation: relative tolerance 2e-5 where numbers are not exactly representable"]

KIND = {"max": ConstraintMaxStateLimit, "min": ConstraintMinStateLimit, "mag": ConstraintMagnitudeStateLimit}
INSIDE = {"max": lambda v, lim: v <= lim, "min": lambda v, lim: v >= lim, "mag": lambda v, lim: abs(v) <= lim}


def j(x):
    return jnp.array(np.asarray(x, float))


def limits(rep, kind, jit, limit, deep):
    vals = [-2., -1., -0.5, 0., 0.25, 1., 2., 3.] if deep else [-2., -0.5, 0., 1., 2.]
    for idx in (0, 1, 2):
        for bias in (0., -0.125, 0.5):
            c = KIND[kind](limit_val=limit, state_index=idx, bias=bias, jit_enable=jit)
            for x in itertools.product(vals, repeat=3):
                xs = j(x)
                h, p = float(c(xs, c.params)), float(c.phi(xs, c.params))
                h2 = float(c.compute(xs, c.params))
                rep.step(f"{kind}:{p >= 0}")
                rep.count_states()
                ctx = dict(kind=kind, limit=limit, index=idx, bias=bias, state=x)
                rep.check((p >= 0) == INSIDE[kind](x[idx], limit), "reported value has the wrong sign for the documented set", value=p, **ctx)
                rep.check(abs(h - bias - p) < 1e-6 and h == h2, "bias must shift the enforced value and leave the reported one alone", enforced=h, reported=p, **ctx)
                if limit == 1. or deep:
                    g = np.asarray(c.grad(xs, c.params), float)
                    num = []
                    for i in range(3):
                        e = np.zeros(3)
                        e[i] = 0.25
                        num.append((float(c(j(np.array(x) + e), c.params)) - float(c(j(np.array(x) - e), c.params))) / 0.5)
                    rep.step(n=7)
                    rep.check(g.shape == (3,) and np.allclose(g, num, atol=1e-5), "gradient is not the derivative", got=g, expected=num, **ctx)
            # parameter histories: in place and by replacement
            for hist in itertools.product([(0, 2.), (0, 0.5), (1, 0.), (1, 1.5)], repeat=3):
                c.params["limit_val"] = limit
                for mode, val in hist:
                    if mode:
                        c.params = {"limit_val": val}
                    else:
                        c.params["limit_val"] = val
                    for v in (-1.5, 0., 0.5, 1.5):
                        x = np.array([7., 7., 7.])
                        x[idx] = v
                        p = float(c.phi(j(x), c.params))
                        h = float(c(j(x), c.params))
                        rep.step()
                        rep.check((p >= 0) == INSIDE[kind](v, val) and abs(h - p - bias) < 1e-6, "parameter change not followed", kind=kind, index=idx, bias=bias, history=hist, value=v, got=[p, h])
                rep.trace()


def defaults(rep):
    """documented defaults of the limit constraints"""
    for k, cls in KIND.items():
        c = cls(limit_val=1., state_index=0)
        for x in (-2., -1., 0., 0.5, 3.):
            e = 0.0005 * x + 0.001 * x ** 3
            rep.step("default")
            rep.count_states()
            rep.check(np.isclose(float(c.alpha(x)), e), "default strengthening polynomial", kind=k, x=x, got=float(c.alpha(x)), expected=e)
            rep.check(np.isclose(float(c.alpha_negative(x)), 10 * e), "default recovery strengthening is ten times the normal one", kind=k, x=x, got=float(c.alpha_negative(x)))
        rep.check(c.bias == 0 and np.isclose(c.bias_negative, -0.01) and c.enabled is True and c.slack_priority_scale is None, "documented defaults", kind=k)
    p = PolynomialConstraintStrengthener()
    for x in (-2., 0., 3.):
        rep.check(np.isclose(float(p(x)), x), "default strengthener is the identity", x=x, got=float(p(x)))
    for bad in ("12", (0, 1), [0, "a"], {0: 1}):
        try:
            PolynomialConstraintStrengthener(bad)
        except Exception:  # noqa
            rep.step("rejected")
        else:
            rep.violation("a malformed coefficient list was accepted", coefs=repr(bad))

    class NoAlpha(ConstraintModule):
        def _compute(self, state, params):
            return state[0]
    c = NoAlpha()
    for f in (c.alpha, c.alpha_negative):
        try:
            f(1.)
        except Exception:  # noqa
            rep.step("no strengthener")
        else:
            rep.violation("strengthening used although none was given")
    rep.trace()


def polys(rep, first):
    vals = [-1., 0., 0.5, 2, 3.]
    xs = [-3., -1., -0.5, 0., 0.25, 1., 1.5, 2., 10.]
    lists = [[first] + list(r) for n in range(0, 4) for r in itertools.product(vals, repeat=n)]
    # longer lists: one or two coefficients other than zero, all positions, and dense ones
    for n in (5, 6, 7, 9, 12):
        for i, j in itertools.combinations(range(n), 2):
            co = [0.] * n
            co[i], co[j] = first or 1., 0.5
            lists.append(co)
        lists.append([(first + k) / 2.**k for k in range(n)])
    if first == vals[0]:
        lists.append([])
    for co in lists:
        s = PolynomialConstraintStrengthener(list(co))
        rep.count_states()
        for x in xs:
            e = float(np.polyval(co[::-1], x)) if co else 0.
            for arg in (x, np.float64(x), jnp.float32(x)):
                got = float(s(arg))
                rep.step()
                rep.check(np.isclose(got, e, rtol=2e-5, atol=1e-6), "strengthener is not its polynomial", coefs=co, x=x, got=got, expected=e)
        rep.trace()


def recovery(rep):
    P = [[0, 1], [0, 0.5, 0, 2], [0, 2, 1], [0, 0, 0, 0.1]]
    for a in P:
        for an in P + [None]:
            c = ConstraintMaxStateLimit(limit_val=1., state_index=0, alpha=PolynomialConstraintStrengthener(list(a)),
                                        alpha_negative=None if an is None else PolynomialConstraintStrengthener(list(an)))
            for x in (-3., -1., -0.25, 0., 0.5, 2.):
                ea = np.polyval(a[::-1], x)
                en = 10 * ea if an is None else np.polyval(an[::-1], x)
                rep.step("own" if an else "ten times")
                rep.count_states()
                rep.check(np.isclose(float(c.alpha(x)), ea, rtol=1e-5) and np.isclose(float(c.alpha_negative(x)), en, rtol=1e-5), "strengthening functions",
                          alpha=a, recovery=an, x=x, got=[float(c.alpha(x)), float(c.alpha_negative(x))], expected=[ea, en])
            rep.trace()


# ---------------------------------------------------------------------------------------------- exact polynomial algebra
class Poly:
    """multivariate polynomial {exponents: coefficient}"""

    def __init__(self, d, n):
        self.d, self.n = {k: v for k, v in d.items() if v != 0}, n

    @staticmethod
    def var(i, n):
        return Poly({tuple(int(k == i) for k in range(n)): 1.}, n)

    @staticmethod
    def const(c, n):
        return Poly({(0,) * n: float(c)}, n)

    def __add__(self, o):
        o = o if isinstance(o, Poly) else Poly.const(o, self.n)
        d = dict(self.d)
        for k, v in o.d.items():
            d[k] = d.get(k, 0.) + v
        return Poly(d, self.n)

    __radd__ = __add__

    def __mul__(self, o):
        o = o if isinstance(o, Poly) else Poly.const(o, self.n)
        d = {}
        for a, x in self.d.items():
            for b, y in o.d.items():
                k = tuple(i + m for i, m in zip(a, b))
                d[k] = d.get(k, 0.) + x * y
        return Poly(d, self.n)

    __rmul__ = __mul__

    def __neg__(self):
        return self * -1.

    def __sub__(self, o):
        return self + (-o)

    def __rsub__(self, o):
        return -self + o

    def __pow__(self, e):
        r = Poly.const(1., self.n)
        for _ in range(e):
            r = r * self
        return r

    def diff(self, i):
        return Poly({tuple(k - (m == i) for m, k in enumerate(e)): v * e[i] for e, v in self.d.items() if e[i]}, self.n)

    def __call__(self, x):
        return float(sum(v * np.prod([x[i] ** k for i, k in enumerate(e)]) for e, v in self.d.items()))


def nsum(p, x):
    """sum of absolute monomials: the rounding scale of a float32 evaluation"""
    return float(sum(abs(v) * np.prod([abs(x[i]) ** k for i, k in enumerate(e)]) for e, v in p.d.items()))


DRIFT = {
    "chain2": (2, lambda x: [x[1], 0. * x[0]]),
    "chain3": (3, lambda x: [x[1], x[2], 0. * x[0]]),
    "rot": (2, lambda x: [0.5 * x[1], -0.5 * x[0]]),
    "cubic": (2, lambda x: [x[1], -1. * x[0] + 0.25 * x[1] * (1. - x[0] ** 2)]),
    "bilinear3": (3, lambda x: [x[1] * x[2], 0.5 * x[0], x[0] - x[2]]),
}
HS = {
    "max": lambda x, lim: lim - x[0], "min": lambda x, lim: x[0] - lim, "mag": lambda x, lim: lim ** 2 - x[0] ** 2,
    "ball": lambda x, lim: lim ** 2 - sum(v ** 2 for v in x), "prod": lambda x, lim: lim + x[0] * x[1],
    "min1": lambda x, lim: x[1] - lim,
}
ALPHAS = [[0., 1.], [0., 0.5, 0., 0.25], [0.25, 2.]]


class User(ConstraintModule):
    def __init__(self, fn, lim, n, **kw):
        self.fn, self.nn = fn, n
        super().__init__(params={"limit_val": lim}, **kw)

    def _compute(self, state, params):
        return self.fn([state[i] for i in range(self.nn)], params["limit_val"])


def build(h, lim, n, bias, jit):
    al = PolynomialConstraintStrengthener([0, 3.])  # not the one of the higher-order barrier
    if h in ("max", "min", "mag"):
        return KIND[h](limit_val=lim, state_index=0, alpha=al, bias=bias, jit_enable=jit)
    if h == "min1":
        return KIND["min"](limit_val=lim, state_index=1, alpha=al, bias=bias, jit_enable=jit)
    return User(HS[h], lim, n, alpha=al, bias=bias, jit_enable=jit)


def ladder(drift, h, lim, alpha, bias, degree):
    n, f = DRIFT[drift]
    X = [Poly.var(i, n) for i in range(n)]
    F = [v if isinstance(v, Poly) else Poly.const(v, n) for v in f(X)]
    psi = HS[h](X, lim) + bias
    for _ in range(degree - 1):
        psi = sum((psi.diff(i) * F[i] for i in range(n)), Poly.const(0., n)) + sum((c * psi ** k for k, c in enumerate(alpha)), Poly.const(0., n))
    return psi


def hocbf(rep, drift, h, degree, jit, deep):
    n, f = DRIFT[drift]
    grid = [-1., 0.5, 1.25] if not deep else [-1.25, -0.5, 0.25, 1.]
    pts = list(itertools.product(grid, repeat=n))
    for alpha in ALPHAS:
        if degree >= 3 and len(alpha) > 2 and not deep:
            continue
        if degree == 4 and len(alpha) > 2:
            continue
        for bi, bo in ((0., 0.), (-0.25, 0.), (-0.25, 0.5)):
            if not deep and jit and bi == 0:
                continue
            c0 = build(h, 1., n, bi, jit)
            hc = HOCBFConstraint(constraint=c0, relative_degree=degree, state_transition_system=lambda s: jnp.stack([v + 0. * s[0] for v in f([s[i] for i in range(n)])]),
                                 alpha=PolynomialConstraintStrengthener(list(alpha)), bias=bo, jit_enable=jit)
            refs = {}
            for mode, lim in ((None, 1.), ("hoc", 0.5), ("orig", 2.), ("replace", 1.)):
                if mode == "hoc":
                    hc.params["limit_val"] = lim
                elif mode == "orig":
                    c0.params["limit_val"] = lim
                elif mode == "replace":
                    hc.params = {"limit_val": lim}
                if lim not in refs:
                    psi = ladder(drift, h, lim, alpha, bi, degree)
                    refs[lim] = (psi, [psi.diff(i) for i in range(n)])
                psi, dpsi = refs[lim]
                for x in pts:
                    xs = j(x)
                    got, phi, g = float(hc(xs, hc.params)), float(hc.phi(xs, hc.params)), np.asarray(hc.grad(xs, hc.params), float)
                    e = psi(x) + bo
                    eg = np.array([d(x) for d in dpsi])
                    ep = float(HS[h](list(x), lim))
                    rep.step(f"r{degree}")
                    ctx = dict(drift=drift, constraint=h, degree=degree, alpha=alpha, inner_bias=bi, outer_bias=bo, limit=lim, changed=mode, state=x, compiled=jit)
                    rep.check(abs(got - e) <= 2e-5 * (1 + nsum(psi, x)), "higher-order barrier value", got=got, expected=e, **ctx)
                    rep.check(abs(phi - ep) <= 2e-5 * (1 + abs(ep)), "higher-order barrier does not report the original constraint", got=phi, expected=ep, **ctx)
                    rep.check(g.shape == eg.shape and np.all(np.abs(g - eg) <= 2e-5 * (1 + sum(nsum(d, x) for d in dpsi))), "gradient of the higher-order barrier", got=g, expected=eg, **ctx)
                    for a in (0.75, -0.5):
                        rep.check(np.isclose(float(hc.alpha(a)), np.polyval(alpha[::-1], a), rtol=1e-5), "outer strengthening of the higher-order barrier", **ctx)
                rep.count_states(len(pts))
            rep.trace()


def custom_phi(rep, jit):
    """a user's own reported value is used for reports only"""
    class Own(ConstraintModule):
        def _compute(self, state, params):
            return params["k"] * state[0] - state[1]

        def _phi(self, state, params):
            return state[1] * 2. + params["k"]
    for bias in (0., -0.5):
        c = Own(params={"k": 2.}, bias=bias, alpha=PolynomialConstraintStrengthener([0, 1]), jit_enable=jit)
        for k in (2., -1.):
            c.params["k"] = k
            for x in itertools.product((-1., 0., 2.), repeat=2):
                rep.step("own phi")
                rep.count_states()
                rep.check(np.isclose(float(c(j(x), c.params)), k * x[0] - x[1] + bias) and np.isclose(float(c.phi(j(x), c.params)), 2 * x[1] + k), "own reported value", bias=bias, k=k, state=x)
                rep.check(np.allclose(np.asarray(c.grad(j(x), c.params)), [k, -1.]), "gradient", state=x)
    rep.trace()


def shards(tier):
    deep = tier == "thorough"
    out = [("defaults", {}), ("recovery", {})]
    for v in (-1., 0., 0.5, 2, 3.):
        out.append(("polys", dict(first=v)))
    for k in KIND:
        for lim in (0., 0.5, 1., 2., 3.) if k == "mag" else (-1., 0., 0.5, 1., 2.):
            for jit in (True, False):
                if jit or lim in (1.,) or deep:
                    out.append(("limits", dict(kind=k, jit=jit, limit=lim, deep=deep)))
    for d, (n, _) in DRIFT.items():
        for h in HS:
            for r in (1, 2, 3, 4):
                if not deep and (r == 4 and n == 3 or r == 4 and h not in ("max", "min1")):
                    continue
                out.append(("hocbf", dict(drift=d, h=h, degree=r, jit=True, deep=deep)))
                if deep and r < 4 or d == "chain2" and r == 2:
                    out.append(("hocbf", dict(drift=d, h=h, degree=r, jit=False, deep=False)))
    for jit in (True, False):
        out.append(("custom_phi", dict(jit=jit)))
    return out
