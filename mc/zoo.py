"""Independent numpy semantics (float64) of the supplied example filters: dynamics and safety constraints."""
import numpy as np
import scipy.linalg as sl

from mc.rigs import poly

M, N = 12.0, 0.001027


def cwh(dim, m=M, n=N):
    """Clohessy-Wiltshire matrices written from the equations of motion
    x'' = 3n^2 x + 2n y' + ux/m ; y'' = -2n x' + uy/m ; z'' = -n^2 z + uz/m"""
    k = dim
    A = np.zeros((2 * k, 2 * k))
    B = np.zeros((2 * k, k))
    for i in range(k):
        A[i, k + i] = 1
        B[k + i, i] = 1 / m
    A[k, 0] = 3 * n ** 2
    A[k, k + 1] = 2 * n
    A[k + 1, k] = -2 * n
    if k == 3:
        A[5, 2] = -n ** 2
    return A, B


def integ(m=1.0):
    return np.array([[0., 1.], [0., 0.]]), np.array([[0.], [1. / m]])


def zoh(A, B, x, dt, u):
    """exact step under constant control"""
    n, m = B.shape
    E = sl.expm(np.block([[A, B], [np.zeros((m, n + m))]]) * dt)
    return E[:n, :n] @ x + E[:n, n:] @ u


def zoh_mats(A, B, dt):
    n, m = B.shape
    E = sl.expm(np.block([[A, B], [np.zeros((m, n + m))]]) * dt)
    return E[:n, :n], E[:n, n:]


def euler(A, B, x, dt, u):
    return x + dt * (A @ x + B @ u)


class Z:
    """reference constraint: h (unbiased), bias, strengthening polynomials"""

    def __init__(self, name, h, alpha, bias=0., phi=None, alpha_neg=None, bias_neg=-0.01, fd=1e-5, scale=1.):
        self.scale = scale
        self.name, self.h, self.alpha, self.bias, self.phi = name, h, alpha, bias, phi or h
        self.alpha_neg, self.bias_neg, self.fd = alpha_neg, bias_neg, fd

    def hb(self, x):
        return self.h(x) + self.bias

    def grad(self, x):
        x = np.asarray(x, float)
        g = np.zeros(len(x))
        for i in range(len(x)):
            e = np.zeros(len(x))
            s = self.fd * max(1., abs(x[i]))
            e[i] = s
            g[i] = (-self.h(x + 2 * e) + 8 * self.h(x + e) - 8 * self.h(x - e) + self.h(x - 2 * e)) / (12 * s)
        return g

    def strength(self, hv):
        if hv < 0:
            an = 10 * poly(self.alpha, hv) if self.alpha_neg is None else poly(self.alpha_neg, hv)
            return an + self.bias_neg
        return poly(self.alpha, hv)


def nd(v, delta=1e-5):
    return np.sqrt(np.sum(np.square(v)) + delta)


def relvel(k, v0, v1, v0d=0., delta=1e-5):
    return lambda x: v0 + v1 * (nd(x[0:k], delta) - v0d) - nd(x[k:2 * k], delta)


def mag(i, lim):
    return lambda x: lim ** 2 - x[i] ** 2


def docking(k, v0=0.2, v1_coef=None, n=N, v0d=0., lims=(10, 10, 10)):
    v1 = (v1_coef if v1_coef is not None else (2 if k == 2 else 4)) * n
    a = [0, 0.01, 0, 0.1] if k == 2 else [0, 0.05, 0, 0.005]
    out = [Z("rel_vel", relvel(k, v0, v1, v0d), a, bias=-1e-4)]
    for i, nm in enumerate("xyz"[:k]):
        out.append(Z(nm + "_vel", mag(k + i, lims[i]), [0, 0.0005, 0, 0.001]))
    return out


def integrator_explicit():
    return [Z("rel_vel", lambda x: -2 * x[0] - x[1] ** 2, [0, 1, 0, 30])]


def integrator_implicit():
    return [Z("rel_vel", lambda x: -x[0], [0, 10, 0, 30])]


# ------------------------------------------------------------------------------------------------------------- inspection
def a_max(m=M, n=N, v0=0.2, v1c=2, rmax=1000., vlim=1., umax=1.):
    """braking authority left after gravity-gradient and Coriolis terms"""
    return umax / m - 3 * n ** 2 * rmax - 2 * n * min(vlim, v0 + v1c * n * rmax)


def sroot(a, d):
    return np.sign(d) * np.sqrt(2 * a * abs(d))


def collision(R, a, j=None, k=1.):
    """closing speed that can still be braked before contact; j: index of the other spacecraft, k=2: both brake"""
    def h(x):
        dp, dv = x[0:3], x[3:6]
        if j is not None:
            dp, dv = dp - x[6 * j:6 * j + 3], dv - x[6 * j + 3:6 * j + 6]
        r = np.linalg.norm(dp)
        return sroot(k * a, r - R) + dp @ dv / r
    return h


def maxdist(R, a):
    def h(x):
        r = np.linalg.norm(x[0:3])
        return sroot(a, R - r) - x[0:3] @ x[3:6] / r
    return h


def psm(R, n=N, dt=1., steps=100, j=None):
    """least clearance along the unforced relative orbit"""
    A, _ = cwh(3, n=n)
    P = np.array([sl.expm(A * dt * (i + 1))[:3] for i in range(steps)])

    def h(x):
        s = x[0:6] if j is None else x[0:6] - x[6 * j:6 * j + 6]
        return float(np.min(np.linalg.norm(P @ s, axis=1)) - R)
    return h


def cone(a, fov, pos, vel, axis, omega, toward=None):
    """angular keep-out cone around `axis` (unit, pointing from the chief), rotating with omega about z:
    signed distance to the nearest point of the cone surface, with the speed along the surface normal that can still be braked"""
    th = fov / 2

    def h(x):
        p, v, c = pos(x), vel(x), axis(x)
        along = p @ c
        perp = p - along * c
        e = perp / np.linalg.norm(perp) if toward is None else toward
        # outward normal of the cone surface in the plane spanned by c and p
        nrm = np.cos(th) * e - np.sin(th) * c
        dist = p @ nrm
        foot = p - dist * nrm
        rel = v - np.cross([0., 0., omega], foot)
        return sroot(a, dist) + nrm @ rel
    return h


def sunaxis(i):
    return lambda x: -np.array([np.cos(x[i]), np.sin(x[i]), 0.])


def inspection1(hocbf=False, sys=None, m=M, n=N, rc=5., rd=5., v0=0.2, v1c=2, v0d=0., rmax=1000., fov=np.pi / 3, vlim=1., sun=None):
    sun = -n if sun is None else sun
    a = a_max(m, n, v0, v1c, rmax, vlim)
    R = rc + rd
    out = [Z("rel_vel", relvel(3, v0, v1c * n, v0d), [0, 0.05, 0, 0.005], bias=-1e-3),
           Z("sun", cone(a, fov, lambda x: x[0:3], lambda x: x[3:6], sunaxis(6), sun), [0, 0.001, 0, 0.0001], bias=-1e-3, scale=10.),
           Z("r_max", maxdist(rmax, a), [0, 0.01, 0, 0.001], bias=-1e-3, scale=10.), Z("PSM", psm(R, n), [0, 0.01, 0, 0.001], scale=100.)]
    for i, nm in enumerate("xyz"):
        out.append(Z(nm + "_vel", mag(3 + i, vlim), [0, 0.1, 0, 0.01], bias=-1e-3))
    if hocbf:
        al = [0, 0.1, 0, 0.1]
        out.append(Z("chief_collision_hocbf", lambda x: x[0:3] @ x[3:6] / np.linalg.norm(x[0:3]) + poly(al, np.linalg.norm(x[0:3]) - R), al, scale=100.))
    else:
        out.append(Z("chief_collision", collision(R, a), [0, 0.01, 0, 0.001], scale=10.))
    return out


def inspection_discrete(**kw):
    out = {c.name: c for c in inspection1(**kw)}
    for nm, al in (("rel_vel", [0, 0.01, 0, 0.001]), ("sun", [0, 0.001, 0, 0.001]), ("r_max", [0, 0.001, 0, 0.001]), ("PSM", [0, 0.001, 0, 0.001])):
        out[nm].alpha = al
    return list(out.values())


def inspection3(k, m=M, n=N, rc=5., rd=5., v0=0.2, v1c=2, v0d=0., rmax=1000., fov=np.pi / 3, vlim=1., sun=None):
    """k spacecraft, own state first, sun angle last"""
    sun = -n if sun is None else sun
    a = a_max(m, n, v0, v1c, rmax, vlim)
    R = rc + rd
    ax = sunaxis(-1)
    out = [Z("chief_collision", collision(R, a), [0, 0.01, 0, 0.001], scale=10.), Z("rel_vel", relvel(3, v0, v1c * n, v0d), [0, 0, 0, 0.1], bias=-2e-3),
           Z("chief_sun", cone(a, fov, lambda x: x[0:3], lambda x: x[3:6], ax, sun), [0, 0.001, 0, 0.0001], bias=-1e-3, scale=10.),
           Z("r_max", maxdist(rmax, a), [0, 0.01, 0, 0.001], scale=10.), Z("PSM", psm(R, n), [0, 0.01, 0, 0.001], scale=100.)]
    for i, nm in enumerate("xyz"):
        out.append(Z(nm + "_vel", mag(3 + i, vlim), [0, 0.1, 0, 0.01], bias=-1e-3))
    for j in range(1, k):
        def sgn(x, j=j):
            return 1. if (x[0:3] - x[6 * j:6 * j + 3]) @ ax(x) >= 0 else -1.
        out.append(Z(f"deputy_collision_{j}", collision(2 * rd, a, j=j, k=2.), [0, 0.01, 0, 0.001], scale=10.))
        out.append(Z(f"deputy_sun_{j}", cone(a, fov, lambda x, j=j, s=sgn: s(x) * (x[0:3] - x[6 * j:6 * j + 3]),
                                             lambda x, j=j, s=sgn: s(x) * (x[3:6] - x[6 * j + 3:6 * j + 6]), ax, sun), [0, 0, 0, 0.1], bias=-1e-3, scale=10.))
        out.append(Z(f"deputy_PSM_{j}", psm(R, n, j=j), [0, 0.01, 0, 0.001], scale=100.))
    return out
