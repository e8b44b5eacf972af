"""C23 sample testing: all scripted safe/unsafe histories, sample streams and generator configurations against the documented verdict."""
import ast
import contextlib
import csv
import io
import itertools
import os
import tempfile
from collections import OrderedDict

import jax.numpy as jnp
import numpy as np

from mc import fleet, rigs, zoo
from run_time_assurance.constraint import ConstraintModule
from run_time_assurance.rta.base import ConstraintBasedRTA
from run_time_assurance.utils import SolverError
from run_time_assurance.utils.sample_testing import (
    BaseSampleTestingModule,
    DataTrackingSampleTestingModule,
    LatinHypercubeRandomSampleTestingModule,
    ParametricRandomSampleTestingModule,
    SafetyAssuranceSampleTestingModule,
)

BOUNDS = ("scripted plant and filter with two constraints: all histories over {safe, boundary, first/second constraint violated, first/second enforced-only violated} of 0-3 steps after the "
          "start x a solver error at any step or none x end of episode by time or by a custom condition; the same with margins from 2^-30 to 2^24; all durations n, n + 1/4, n + 1/1024 steps (n <= 6) at step sizes 2^-14..2^9; all orders of safe and unsafe initial samples up to length 6 x up to 4 episodes; "
          "data tracking: all control / intervention patterns of 1-4 steps x rejected starts (up to 60 in a row); real filters and plants on grids of initial states x desired controllers; "
          "supplied docking sample tests from an enumerated grid of starts; all generator configurations (pdf combinations of 3 components, stratified designs up to 6x3 points in 1-3 dimensions)")
ASSUMPTIONS = ["parametric generators: numpy's global random source is replaced by a script whose draws are enumerated; a generator that used another source would be judged by bounds and zero-spread exactness only (counted undecided)",
               "step sizes of scripted episodes are powers of two, so that accumulated time is exact"]

# value pairs (phi, h) of one constraint
VAL = {"S": (1., 1.), "Z": (0., 0.), "P": (-0.5, 1.), "H": (1., -0.5), "B": (-1., -1.),
       "s": (2.**-16, 2.**-16), "p": (-2.**-12, 1.), "q": (-2.**-30, 1.), "h": (1., -2.**-12), "k": (1., -2.**-30), "X": (-2.**24, 1.)}  # narrow and wide margins
STATES = ["SS", "ZZ", "PS", "SP", "HS", "SH"]
NARROW = ["ss", "pS", "Sq", "Sh", "ks", "XS"]


class Scripted(ConstraintModule):
    """the state carries the constraint's reported and enforced value"""

    def __init__(self, i, **kw):
        self.i = i
        super().__init__(**kw)

    def _compute(self, state, params):
        return state[2 * self.i + 1]

    def _phi(self, state, params):
        return state[2 * self.i]


class ScriptedRTA(ConstraintBasedRTA):
    """fails where the script says so; otherwise shifts the desired control so that its use can be recognised"""

    def __init__(self, errors=(), flags=None, **kw):
        self.errors, self.flags, self.seen = set(errors), flags, []
        super().__init__(**kw)

    def _setup_constraints(self):
        return OrderedDict([("a", Scripted(0)), ("b", Scripted(1))])

    def _filter_control(self, state, step_size, control):
        tag = int(state[4])
        self.seen.append((tag, float(step_size)))
        if tag in self.errors:
            raise SolverError()
        if self.flags is not None:
            self.intervening = self.flags(tag)
        return control + 0.5


def vec(pat, tag):
    return np.array([*VAL[pat[0]], *VAL[pat[1]], float(tag)])


def wanted(tag):
    return np.array([tag * 0.25, -tag * 0.5])


class Script:
    """mixin: the plant follows the scripted histories; tag = 8 * history index + step"""

    def prepare(self, hist, done=None, shift=0.):
        self.hist, self.i, self.done, self.shift = hist, 0, done, shift
        self.log = []

    def _get_initial_state(self):
        if self.i >= len(self.hist):
            raise IndexError("more initial states drawn than there are requested episodes and unsafe samples")
        k = self.i
        self.i += 1
        return vec(self.hist[k][0], 8 * k) - self.shift

    def _desired_control(self, state):
        return wanted(int(state[4]))

    def _pred_state(self, state, step_size, control):
        tag = int(state[4])
        ok = np.allclose(control, wanted(tag) + 0.5, atol=1e-3) and step_size == self.step_size
        k, j = divmod(tag, 8)
        nxt = vec(self.hist[k][j + 1] if j + 1 < len(self.hist[k]) else "SS", tag + 1)
        self.log.append((tag, bool(ok)))
        return nxt


class SafetyScript(Script, SafetyAssuranceSampleTestingModule):
    def _transform_state(self, state):
        return np.asarray(state) + self.shift

    def _check_done_conditions(self, state, time):
        if self.done is None:
            return super()._check_done_conditions(state, time)
        k, j = divmod(int(state[4]), 8)
        if time != j * self.step_size:
            self.log.append((-1, False))
        return j >= self.done(k)


def run(module):
    """run_sample_test in a scratch directory; returns the rows"""
    with tempfile.TemporaryDirectory() as d, contextlib.redirect_stdout(io.StringIO()):
        out = os.path.join(d, "a", "b")
        module.run_sample_test(out)
        files = [f for f in os.listdir(out) if f.endswith(".csv")]
        if len(files) != 1:
            raise AssertionError(f"{len(files)} result files")
        with open(os.path.join(out, files[0]), newline="", encoding="utf-8") as f:
            rows = list(csv.reader(f))
    return [(r[0], np.array(ast.literal_eval(r[1]), float)) for r in rows]


def verdict(hist, err, n):
    """reference: None unsafe start, else True / False; and number of plant steps made"""
    bad = lambda p, ks: any(VAL[c][0] < 0 or ("h" in ks and VAL[c][1] < 0) for c in p)  # noqa
    if bad(hist[0], "ph"):
        return None, 0
    for j in range(n):
        if err == j:
            return False, j
        if bad(hist[j + 1], "p"):
            return False, j + 1
    return True, n


def histories(rep, n, part, parts, jit, mode, pats):
    """all histories of n steps x solver error positions in one sample test"""
    cases = []
    for seq in itertools.product(pats, repeat=n + 1):
        for err in (None, *range(n)):
            cases.append((seq, err))
    cases = cases[part::parts]
    exp = [verdict(h, e, n) for h, e in cases]
    keep = [k for k, (v, _) in enumerate(exp) if v is not None]
    if not keep:
        return
    last = keep[-1]
    cases, exp = cases[:last + 1], exp[:last + 1]
    errs = {8 * k + e for k, (_, e) in enumerate(cases) if e is not None}
    rta = ScriptedRTA(errors=errs, jit_enable=jit)
    m = SafetyScript(n * 0.5, 0.5, 2, 5, rta=rta, n_points=len(keep))
    m.prepare([h for h, _ in cases], done=(lambda k: n) if mode == "done" else None, shift=0.25 if mode == "done" else 0.)
    rows = run(m)
    if rep.check(len(rows) == len(keep), "not one row per requested episode", rows=len(rows), requested=len(keep)):
        for k, (got, state) in zip(keep, rows):
            want, _ = exp[k]
            rep.step(f"{mode}:{want}")
            rep.count_states()
            rep.check(got == str(want), "verdict does not match the constraint values along the trajectory", history=cases[k][0], solver_error_at=cases[k][1], got=got, expected=want)
            rep.check(np.array_equal(state, vec(cases[k][0][0], 8 * k)), "initial state in the row is not the one used", history=cases[k][0], got=state)
    steps = {}
    for tag, ok in m.log:
        rep.check(ok, "plant was not driven by the filtered control (or the step / time is wrong)", history=cases[max(tag, 0) // 8][0], step=tag % 8)
        steps[tag // 8] = steps.get(tag // 8, 0) + 1
    for k, (want, cnt) in enumerate(exp):
        # episodes may stop early once unsafe, but never later than their end nor before their verdict is settled
        got = steps.get(k, 0)
        rep.check(got == cnt if want is not False else got >= cnt and got <= n, "episode does not have the requested length", history=cases[k][0], steps=got, expected=cnt)
    rep.check(all(dt == 0.5 for _, dt in rta.seen), "the filter was given a wrong step size")
    rep.trace(len(cases))


def stream(rep, maxlen):
    """all orders of safe and unsafe initial samples: unsafe ones are redrawn"""
    rta = ScriptedRTA()
    for n in range(1, 5):
        for seq in itertools.product(["SS", "ZZ", "PS", "SH", "BB"], repeat=min(maxlen, n + 2)):
            safe = [k for k, p in enumerate(seq) if p in ("SS", "ZZ")]
            if len(safe) < n or safe[n - 1] != len(seq) - 1:
                continue
            rta.seen = []
            m = SafetyScript(0.5, 0.5, 2, 5, rta=rta, n_points=n)
            m.prepare([[p, "SS"] for p in seq])
            rows = run(m)
            rep.step(f"stream n={n}")
            rep.count_states()
            rep.trace()
            rep.check(len(rows) == n, "not one row per requested episode", stream=seq, rows=len(rows), n=n)
            for k, (got, st) in zip(safe, rows):
                rep.check(got == "True" and np.array_equal(st, vec(seq[k], 8 * k)), "row does not describe the next safe sample", stream=seq, got=got, state=st)
            used = sorted({t // 8 for t, _ in rta.seen})
            rep.check(used == safe[:n], "simulated a start that is unsafe, or skipped a safe one", stream=seq, used=used)
    for n in (0, 5, 7, 10, 11, 20):
        m = SafetyScript(0.5, 0.5, 2, 5, rta=rta, n_points=n)
        m.prepare([["SS", "SS"]] * n)
        rep.step("count")
        rep.check(len(run(m)) == n, "not one row per requested episode", n=n)


class TrackScript(Script, DataTrackingSampleTestingModule):
    def _update_status(self, state, time):
        self.status = getattr(self, "status", []) + [(int(state[4]), float(time))]

    def _check_done_conditions(self, state, time):
        if self.done is None:
            return super()._check_done_conditions(state, time)
        return int(state[4]) % 8 >= self.done


def tracking(rep, nmax, jit):
    pats = ["SS", "PS", "SH"]
    rta = ScriptedRTA(jit_enable=jit)
    for n in range(1, nmax + 1):
        for flags in itertools.product([False, True], repeat=n):
            for seq in itertools.product(pats, repeat=n):
                for rej in (0, 1, 3) if n > 1 else (0, 1, 2, 3, 4, 6, 9, 10, 11, 12, 16, 17, 25, 40, 60):
                    for chk in (True, False):
                        if rej and not chk:
                            continue
                        rta.intervening = False
                        rta.flags = lambda tag, f=flags: f[tag % 8]  # noqa
                        m = TrackScript(n * 0.5, 0.5, 2, 5, rta=rta, **({} if chk else {"check_init_state": False}))
                        start = "SS" if chk or n % 2 else "PS"
                        hist = [["PS" if i % 2 else "SH"] for i in range(rej)] + [[start, *seq]]
                        m.prepare(hist, done=n if rej == 1 else None)
                        xs, us, fl = m.simulate_episode()
                        k = 8 * rej
                        rep.step(f"track {n} rejected={rej}")
                        rep.count_states()
                        info = dict(history=hist, flags=flags, check=chk)
                        ex = np.array([vec(p, k + j) for j, p in enumerate([start, *seq])])
                        rep.check(np.array_equal(np.asarray(xs, float), ex), "recorded states are not the visited ones", got=xs, expected=ex, **info)
                        eu = np.array([np.zeros(2)] + [wanted(k + j) + 0.5 for j in range(n)])
                        rep.check(np.shape(us) == eu.shape and np.allclose(us, eu, atol=1e-3), "recorded controls are not the applied ones", got=us, expected=eu, **info)
                        rep.check(list(map(bool, fl)) == [False, *flags], "recorded intervention flags are wrong", got=fl, **info)
                        rep.check(all(ok for _, ok in m.log) and len(m.log) == n, "plant was not driven by the filtered control", **info)
                        rep.check(m.status == [(k + j, j * 0.5) for j in range(1, n + 1)], "status hook not called with the state and time of each step", got=m.status, **info)
                        rep.trace()
    # unsafe starts are redrawn, but not for ever
    m = TrackScript(1., 0.5, 2, 5, rta=rta)
    m.prepare([["PS"]] * 100000)
    try:
        m.simulate_episode()
        rep.violation("an episode was simulated although no safe start exists")
    except ValueError:
        rep.step("no safe start")
    for pat, want in (("SS", True), ("ZZ", True), ("PS", False), ("SP", False), ("HS", False), ("SH", False), ("BB", False), ("ZH", False), ("PZ", False), ("ss", True), ("pS", False), ("Sp", False),
                      ("qs", False), ("Sq", False), ("hS", False), ("Sh", False), ("ks", False), ("Sk", False), ("XS", False)):
        rep.step("check_if_safe_state")
        rep.check(bool(m.check_if_safe_state(vec(pat, 0))) == want, "check_if_safe_state is wrong", pattern=pat)
    m = TrackScript(1., 0.5, 2, 5, rta=rta)
    m.prepare([["PS", "SS"], ["SS"]])
    m.run_one_step()
    rep.step("one step")
    rep.check(m.log == [(0, True)], "run_one_step does not make exactly one filtered step", log=m.log)


# ------------------------------------------------------------------------------------------------------- real filters
class Episode:
    """mixin: gives the start states of a list, follows a real plant and records the trajectory"""

    def prepare(self, starts, plant, ctl):
        self.starts, self.plant, self.ctl, self.k = starts, plant, ctl, 0
        self.trajs = []

    def _get_initial_state(self):
        s = np.array(self.starts[self.k], float)
        self.k += 1
        return s

    def _desired_control(self, state):
        return self.ctl(np.asarray(state, float))

    def _pred_state(self, state, step_size, control):
        state = np.asarray(state, float)
        nxt = self.plant.step(np, state, step_size, np.asarray(control, float))
        self.trajs.append((state, np.asarray(control, float), nxt))
        return nxt


class SafetyEp(Episode, SafetyAssuranceSampleTestingModule):
    """safety assurance with a real plant"""


class TrackEp(Episode, DataTrackingSampleTestingModule):
    """data tracking with a real plant"""


CTLS = {"zero": lambda x, m: np.zeros(m), "push": lambda x, m: np.ones(m) * 0.9, "wave": lambda x, m: np.cos(3 * x[0]) * np.ones(m) - 0.25 * x[-1]}


def real(rep, kind, deep):
    sysm = fleet.ALL[kind]()
    plant, specs = sysm.plant, sysm.specs
    g = (-0.75, -0.25, 0.25, 0.875, 1.25) if deep else (-0.75, 0.25, 0.875, 1.25)
    starts = [np.array(s) for s in itertools.product(g, repeat=plant.n)]
    for cname, c in CTLS.items():
        for T, dt in ((1., 0.25), (0.5, 0.125)):
            ctl = lambda x, c=c: c(x, plant.m)  # noqa
            # reference: an identical filter driven by our own loop
            ref = sysm.build()
            exp, amb = [], False
            used = []
            for s in starts:
                vals = [(sp.h(s), sp.hb(s)) for sp in specs]
                if min(min(v) for v in vals) < -1e-5:
                    continue
                if min(min(v) for v in vals) < 1e-5:
                    amb = True
                    continue
                x, v, states = s, True, []
                for _ in range(int(T / dt)):
                    try:
                        u = ref.filter_control(x, dt, ctl(x))
                    except SolverError:
                        v = False
                        break
                    x = plant.step(np, x, dt, np.asarray(u, float))
                    states.append(x)
                    lo = min(sp.h(x) for sp in specs)
                    if abs(lo) < 1e-5:
                        v = None
                        break
                    if lo < 0:
                        v = False
                        break
                if v is None:
                    rep.skip()
                    continue
                used.append(s)
                exp.append((v, s, states))
            if not used:
                continue
            unsafe = [s for s in starts if min(min(sp.h(s), sp.hb(s)) for sp in specs) < -1e-5]
            mix = []
            for i, s in enumerate(used):  # interleave with unsafe starts
                if unsafe:
                    mix.append(unsafe[i % len(unsafe)])
                mix.append(s)
            m = SafetyEp(T, dt, plant.m, plant.n, rta=sysm.build(), n_points=len(used))
            m.prepare(mix, plant, ctl)
            rows = run(m)
            rep.check(len(rows) == len(exp), "not one row per requested episode", rows=len(rows), n=len(exp))
            for (got, st), (v, s, _) in zip(rows, exp):
                rep.step(f"{kind}:{v}")
                rep.count_states()
                rep.check(got == str(v) and np.allclose(st, s), "verdict does not match an independent simulation of filter and plant", filter=kind, controller=cname, start=s, got=got, row=st, expected=v)
            visited = [x for _, _, st in exp for x in st]
            reached = [t[2] for t in m.trajs]
            rep.check(len(reached) == len(visited) and all(np.allclose(a, b, atol=2e-3) for a, b in zip(reached, visited)), "simulated trajectories differ from filter and plant", filter=kind, controller=cname)
            # data tracking of the same episodes
            r2 = sysm.build()
            for v, s, states in exp[::3]:
                m = TrackEp(T, dt, plant.m, plant.n, rta=r2)
                m.prepare([s], plant, ctl)
                try:
                    xs, us, fl = m.simulate_episode()
                except SolverError:
                    continue
                n = len(xs) - 1
                rep.step(f"{kind} tracked")
                rep.check(n == int(T / dt) and len(us) == n + 1 and len(fl) == n + 1, "episode record has the wrong length", filter=kind, lengths=[len(xs), len(us), len(fl)])
                rep.check(np.allclose(xs[0], s) and all(np.allclose(xs[j + 1], plant.step(np, np.asarray(xs[j], float), dt, np.asarray(us[j + 1], float)), atol=1e-5) for j in range(n)),
                          "recorded controls do not produce the recorded states", filter=kind, start=s)
                rep.check(all(np.allclose(us[j + 1], m.trajs[j][1], atol=1e-6) for j in range(n)), "recorded controls are not those applied to the plant", filter=kind, start=s)
            if amb:
                rep.skip()
    rep.trace()


def supplied(rep, cls, deep):
    from run_time_assurance.zoo.cwh import docking_2d, random_sample_testing as mod
    base = getattr(mod, cls)

    class Rec(base):
        def _pred_state(self, state, step_size, control):
            n = super()._pred_state(state, step_size, control)
            self.log = getattr(self, "log", []) + [(np.array(state, float), float(step_size), np.array(control, float), np.array(n, float))]
            return n

        def _get_initial_state(self):
            own = np.asarray(super()._get_initial_state(), float)  # the generator runs, but the episodes start from the enumerated states
            rep.check(own.shape == (4,) and np.all(np.isfinite(own)), "supplied generator gives no state vector", got=own)
            if cls.startswith("Docking2DLatin"):
                rep.check(np.all(np.abs(own) <= [300., 300., .6, .6]), "initial state outside the requested bounds", got=own)
            return np.array(next(self.script))

    A, B = zoo.cwh(2)
    cons = zoo.docking(2)
    # fast starts: some unsafe (redrawn), some just recoverable
    grid = list(itertools.product([-300., -40., 5., 210.], [-120., 0., 77.], [-.6, -.25, .1, .45], [-.4, 0., .3]))
    for seed in range(8 if deep else 3):
        if cls.startswith("Docking2DLatin"):
            kw = dict(bounds=np.array([[-300., -300., -.6, -.6], [300., 300., .6, .6]]), multiplier=20)
        else:
            kw = dict(state_pdfs=["uniform", "gaussian", "uniform", "constant"], distribution_params=np.array([[-300., 50., -.7, .2], [300., 80., .7, 0.]]))
        for T, dt in ((3., 1.), (1., .5)):
            m = Rec(rta=docking_2d.Docking2dExplicitOptimizationRTA(), n_points=5, simulation_time=T, step_size=dt, **kw)
            m.script = iter(grid[(17 * seed + int(T)) % 7::7] * 3)
            rows = run(m)
            rep.check(len(rows) == 5, "not one row per requested episode", rows=len(rows))
            starts = [k for k, e in enumerate(m.log) if any(np.allclose(e[0], st, atol=1e-9) for _, st in rows)]
            rep.check(len(starts) == 5, "the rows' initial states are not those simulated", starts=len(starts))
            for x, d, u, nx in m.log:
                rep.check(d == dt, "wrong step size", step=d)
                rep.check(np.allclose(nx, zoo.zoh(A, B, x, dt, u), rtol=1e-4, atol=1e-3), "sample test plant is not the relative-orbit plant", state=x, control=u, got=nx)
                rep.step("plant")
            for (got, st), k, k2 in zip(rows, starts, starts[1:] + [len(m.log)]):
                lo = [min(c.phi(e[3]) for c in cons) for e in m.log[k:k2]]
                hz = min(min(c.phi(st), c.hb(st)) for c in cons)
                rep.check(hz > -1e-4, "an unsafe start was simulated", start=st)
                rep.step(f"{cls}:{got}")
                rep.count_states()
                if any(abs(v) < 1e-5 for v in lo):
                    rep.skip()
                    continue
                want = all(v > 0 for v in lo)
                rep.check(got == str(want) and (not want or k2 - k == int(T / dt)), "verdict does not match the trajectory", start=st, got=got, margins=lo)
    m = base(rta=docking_2d.Docking2dExplicitOptimizationRTA())
    rep.check((m.n_points, m.simulation_time, m.step_size) == (100, 100., 1.), "documented defaults changed")
    rep.trace()


# --------------------------------------------------------------------------------------------------------- generators
class Lhs(LatinHypercubeRandomSampleTestingModule):
    def _pred_state(self, state, step_size, control):
        return state


class Par(ParametricRandomSampleTestingModule):
    def _pred_state(self, state, step_size, control):
        return state


def latin(rep, nmax):
    rta = ScriptedRTA()
    LO, HI = np.array([-1., 3., -1000.]), np.array([-0.5, 8., 1000.])
    for n in range(1, nmax + 1):
        for mult in (1, 2, 3):
            for d in (1, 2, 3):
                m = Lhs(1., 0.5, 1, d, rta=rta, n_points=n, bounds=np.array([LO[:d], HI[:d]]), multiplier=mult)
                N = n * mult
                pts = np.array([m._get_initial_state() for _ in range(N)])
                rep.step(f"latin {d}d")
                rep.count_states()
                rep.trace()
                info = dict(n_points=n, multiplier=mult, dim=d, points=pts)
                if not rep.check(pts.shape == (N, d), "initial states have the wrong dimension", **info):
                    continue
                rep.check(np.all(pts >= LO[:d]) and np.all(pts <= HI[:d]), "initial state outside the requested bounds", **info)
                for i in range(d):
                    strata = np.floor((pts[:, i] - LO[i]) / (HI[i] - LO[i]) * N).astype(int)
                    rep.check(sorted(strata) == list(range(N)), "not a Latin hypercube: some stratum is not used exactly once", component=i, strata=strata, **info)


DRAWS = [(-3., 0.), (-1., 0.25), (0., 0.5), (0.5, 0.75), (2., 1 - 2**-20)]  # (standard normal, standard uniform)


@contextlib.contextmanager
def scripted_random(draw):
    """numpy's global random source replaced by a script; counts the draws taken"""
    used = [0]

    def shaped(v, size):
        return v if size is None else np.full(size, v)

    def nxt(j):
        used[0] += 1
        return draw[(used[0] - 1) % len(draw)][j] if draw else 0.5 * j

    fs = {"normal": lambda loc=0., scale=1., size=None: shaped(loc + scale * nxt(0), size),
          "standard_normal": lambda size=None: shaped(nxt(0), size),
          "randn": lambda *size: shaped(nxt(0), size or None),
          "uniform": lambda low=0., high=1., size=None: shaped(low + (high - low) * nxt(1), size),
          "random": lambda size=None: shaped(nxt(1), size), "random_sample": lambda size=None: shaped(nxt(1), size),
          "rand": lambda *size: shaped(nxt(1), size or None)}
    old = {k: getattr(np.random, k) for k in fs}
    try:
        for k, f in fs.items():
            setattr(np.random, k, f)
        yield used
    finally:
        for k, f in old.items():
            setattr(np.random, k, f)


def parametric(rep):
    rta = ScriptedRTA()
    par = {"gaussian": (np.array([10., 20., 30.]), np.array([0.5, 1., 2.])), "constant": (np.array([4., 5., 6.]), np.array([9., 9., 9.])), "uniform": (np.array([-3., 1., 7.]), np.array([-1., 2., 10.]))}
    for pdfs in itertools.product(par, repeat=3):
        dp = np.array([[par[p][0][i] for i, p in enumerate(pdfs)], [par[p][1][i] for i, p in enumerate(pdfs)]])
        m = Par(1., 0.5, 1, 3, rta=rta, n_points=1, state_pdfs=list(pdfs), distribution_params=dp)
        rep.count_states()
        nrand = sum(p != "constant" for p in pdfs)
        for draw in itertools.product(DRAWS, repeat=nrand):
            with scripted_random(draw) as used:
                x = np.asarray(m._get_initial_state(), float)
            rep.step("+".join(pdfs))
            info = dict(pdfs=pdfs, params=dp, draw=draw, state=x)
            if not rep.check(x.shape == (3,), "initial state has the wrong dimension", **info):
                break
            it, want, exact = iter(draw), [], used[0] == nrand
            for i, p in enumerate(pdfs):
                a, b = dp[:, i]
                want.append(a if p == "constant" else a + b * next(it)[0] if p == "gaussian" else a + (b - a) * next(it)[1])
                if p == "uniform":
                    rep.check(a <= x[i] <= b, "uniform component outside its bounds", component=i, **info)
                if p == "constant":
                    rep.check(x[i] == a, "constant component varies", component=i, **info)
            if exact:  # every draw was taken from the scripted source, component by component
                rep.check(np.allclose(x, want, rtol=1e-12, atol=1e-12), "component is not the requested transform of its random draw", want=want, **info)
            else:
                rep.skip()
        rep.trace()
        # zero spread is exact
        dp0 = np.array([dp[0], [dp[0][i] if p == "uniform" else 0. for i, p in enumerate(pdfs)]])
        m = Par(1., 0.5, 1, 3, rta=rta, n_points=1, state_pdfs=list(pdfs), distribution_params=dp0)
        rep.step("no spread")
        rep.check(np.allclose(np.asarray(m._get_initial_state(), float), dp[0], atol=1e-12), "a distribution without spread does not give its mean", pdfs=pdfs)
    for bad in ("normal", "", "Gaussian"):
        for i in range(3):
            pdfs = ["constant"] * 3
            pdfs[i] = bad
            m = Par(1., 0.5, 1, 3, rta=rta, n_points=1, state_pdfs=pdfs, distribution_params=np.zeros((2, 3)))
            rep.step("invalid pdf")
            try:
                m._get_initial_state()
                rep.violation("an unknown distribution is accepted", pdfs=pdfs)
            except ValueError:
                pass


def defaults(rep):
    """the base module's documented defaults"""
    class M(BaseSampleTestingModule):
        def _get_initial_state(self):
            return np.zeros(2)

        def _pred_state(self, state, step_size, control):
            return state
    for T in (0., 1., 2.5):
        m = M(T, 0.5, 3, 2)
        rep.check(np.array_equal(m._desired_control(np.ones(2)), np.zeros(3)), "default desired control is not zero")
        for t in np.arange(0., 4., 0.25):
            rep.step("done")
            rep.count_states()
            rep.check(bool(m._check_done_conditions(np.ones(2), t)) == (t >= T), "default end condition is not reaching the simulation time", T=T, t=t)
    for T in (2.**-14, 2.**-6, 1., 100., 4096.):
        m = M(T, T / 4, 3, 2)
        for k in (2, 4, 6, 10, 16):
            for t in (T * (1 - 2.**-k), T * (1 + 2.**-k)):
                rep.step("done near")
                rep.count_states()
                rep.check(bool(m._check_done_conditions(np.ones(2), t)) == (t >= T), "default end condition is not reaching the simulation time", T=T, t=t)
    rep.trace()


def lengths(rep):
    """episodes of all step sizes and durations, also durations that are no multiple of the step: ceil(duration / step) steps are simulated and judged"""
    rta = ScriptedRTA()
    for k in (-14, -10, -7, -3, 0, 4, 9):
        dt = 2.**k
        for n in range(1, 7):
            for frac in (0., 1 / 4, 1 / 1024):
                steps = n + (frac > 0)
                for last, want in (("SS", "True"), ("PS", "False")):
                    rta.seen, rta.intervening = [], False
                    m = SafetyScript((n + frac) * dt, dt, 2, 5, rta=rta, n_points=1)
                    m.prepare([["SS"] * steps + [last]])
                    rows = run(m)
                    rep.step(f"length {steps}")
                    rep.count_states()
                    info = dict(simulation_time=(n + frac) * dt, step_size=dt)
                    rep.check([r[0] for r in rows] == [want], "the state at the end of the episode is not judged", got=[r[0] for r in rows], expected=want, **info)
                    rep.check([t for t, _ in m.log] == list(range(steps)) and all(ok for _, ok in m.log), "episode does not have the requested length", log=m.log, expected=steps, **info)
                    rep.check(all(d == dt for _, d in rta.seen), "the filter was given a wrong step size", **info)
                m = TrackScript((n + frac) * dt, dt, 2, 5, rta=rta)
                m.prepare([["SS"] * (steps + 1)])
                xs, us, fl = m.simulate_episode()
                rep.step("length tracked")
                rep.check((len(xs), len(us), len(fl)) == (steps + 1,) * 3, "episode record has the wrong length", lengths=[len(xs), len(us), len(fl)], expected=steps + 1, **info)
                rep.check(m.status == [(j, j * dt) for j in range(1, steps + 1)], "status hook not called with the state and time of each step", got=m.status, **info)
    rep.trace()


def shards(tier):
    deep = tier == "thorough"
    out = [("supplied", dict(cls=c, deep=deep)) for c in ("Docking2DLatinHypercubeRandomSampleTest", "Docking2DParametricRandomSampleTest")]
    out += [("real", dict(kind=k, deep=deep)) for k in ("esimplex", "isimplex", "easif", "dasif")]
    for mode in ("time", "done"):
        for jit in (True, False):
            for n in (1, 2):
                out.append(("histories", dict(n=n, part=0, parts=1, jit=jit, mode=mode, pats=STATES)))
            out.append(("histories", dict(n=2, part=0, parts=1, jit=jit, mode=mode, pats=NARROW)))
        parts = 8 if deep else 4
        out += [("histories", dict(n=3, part=p, parts=parts, jit=mode == "time", mode=mode, pats=STATES if deep else ["SS", "ZZ", "SP", "PS", "SH"])) for p in range(parts)]
    if deep:
        out += [("histories", dict(n=4, part=p, parts=16, jit=True, mode="time", pats=["SS", "ZZ", "PS", "SP", "SH"])) for p in range(16)]
    out += [("stream", dict(maxlen=7 if deep else 5)), ("tracking", dict(nmax=4 if deep else 3, jit=True)), ("tracking", dict(nmax=2, jit=False)), ("latin", dict(nmax=12 if deep else 6)), ("parametric", {}), ("defaults", {}), ("lengths", {})]
    return out
