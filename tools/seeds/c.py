import os, sys
sys.path.insert(0, os.path.dirname(__file__))
from pre import PRE
SEEDS = []


def S(**k):
    SEEDS.append(k)


VMAX = 'lambda: [("v", ConstraintMaxStateLimit(limit_val=1., state_index=1, alpha=P([0, 1.])))]'

S(id="window-capped", property="C06",
  needs="a backup window of more than 100 steps in which the first violation comes after step 100",
  breaks="the look-ahead of implicit switching silently stops after 100 steps",
  edits=[("rta/simplex.py", "        for _ in range(Nsteps):\n", "        for _ in range(min(Nsteps, 100)):\n")],
  demo=PRE + '''
r = make(ImplicitSimplexModule, lambda: [("p", ConstraintMaxStateLimit(limit_val=12., state_index=0))], backup_controller=Ctl(lambda x: jnp.array([0.])), backup_window=15.)
r.filter_control(np.array([0., 1.]), .125, np.array([0.]))     # drifts to 12 after 96 steps, beyond it at 97..120
a = r.intervening
r.filter_control(np.array([0., .875]), .125, np.array([0.]))   # reaches 12.25 only after 112 steps
if not (a and r.intervening):
    fail(a, r.intervening)
''')

S(id="trajectory-memo", property="C22",
  needs="two consecutive calls from the same state with different desired controls on an implicit switching filter",
  breaks="the predicted trajectory is memoised on state and step size only, so a repeated state with another desired control reuses the old prediction",
  edits=[("rta/simplex.py", "        traj_states = self._integrate_fn(state, step_size, control)\n",
          "        key = (np.asarray(state).tobytes(), step_size)\n        if getattr(self, '_memo_key', None) != key:\n            self._memo_key = key\n            self._memo = self._integrate_fn(state, step_size, control)\n        traj_states = self._memo\n"),
         ("rta/simplex.py", "import jax.numpy as jnp\n", "import jax.numpy as jnp\nimport numpy as np\n")],
  demo=PRE + f'''
def mk():
    return make(ImplicitSimplexModule, {VMAX}, backup_controller=Ctl(), backup_window=1.)
x = np.array([0., .5])
r = mk()
r.filter_control(x, 1., np.array([0.]))
r.filter_control(x, 1., np.array([1.]))
s = mk()
s.filter_control(x, 1., np.array([1.]))
if r.intervening != s.intervening:
    fail(r.intervening, s.intervening)
''')

S(id="fifth-spacecraft", property="C19",
  needs="a multi-agent inspection filter with five spacecraft (the default), the last one close",
  breaks="the sun keep-out and collision constraints of the last of five spacecraft read the wrong state block",
  edits=[("zoo/cwh/inspection_3d.py", "                collision_radius=self.deputy_radius * 2, a_max=self.a_max, deputy=i\n",
          "                collision_radius=self.deputy_radius * 2, a_max=self.a_max, deputy=min(i, 3)\n")],
  demo=PRE + '''
from run_time_assurance.zoo.cwh.inspection_3d import InspectionRTA
r = InspectionRTA()
x = np.zeros(31)
for i in range(5):
    x[6 * i:6 * i + 3] = [100 * (i + 1), 50, 10]
x[24:27] = [101., 50, 10]
r.update_constraint_values(x)
if r.generate_info()["constraints"]["deputy_collision_4"] > 0:
    fail(r.generate_info())
''')

S(id="rows-per-chunk", property="C23",
  needs="a sample test of more than ten episodes",
  breaks="only the rows since the last ten per cent mark are written",
  edits=[("utils/sample_testing.py", "newarray.writerows(results_array)", "newarray.writerows(results_array[-10:])")],
  demo=PRE + '''
import glob, tempfile, csv
from run_time_assurance.utils.sample_testing import SafetyAssuranceSampleTestingModule as M
class T(M):
    def _get_initial_state(self):
        return np.array([0., 0.])
    def _pred_state(self, state, step_size, control):
        return state
r = make(ExplicitSimplexModule, lambda: [("v", ConstraintMaxStateLimit(limit_val=1., state_index=1))], backup_controller=Ctl())
with tempfile.TemporaryDirectory() as d:
    T(.5, .5, 1, 2, rta=r, n_points=20).run_sample_test(d)
    rows = list(csv.reader(open(glob.glob(d + "/*.csv")[0])))
if len(rows) != 20:
    fail(len(rows))
''')

S(id="resample-gives-up", property="C23",
  needs="data tracking with a generator that yields more than ten unsafe starts in a row",
  breaks="after ten unsafe starts in a row the simulation starts from an unsafe state",
  edits=[("utils/sample_testing.py", "                safe_state = self.check_if_safe_state(state)\n", "                safe_state = self.check_if_safe_state(state) or check_counter > 10\n")],
  demo=PRE + '''
from run_time_assurance.utils.sample_testing import *
from run_time_assurance.utils import sample_testing as st
cls = [c for c in vars(st).values() if isinstance(c, type) and "simulate_episode" in vars(c)][0]
class T(cls):
    k = 0
    def _get_initial_state(self):
        self.k += 1
        return np.array([0., 2. if self.k < 30 else 0.])
    def _pred_state(self, state, step_size, control):
        return state
r = make(ExplicitSimplexModule, lambda: [("v", ConstraintMaxStateLimit(limit_val=1., state_index=1))], backup_controller=Ctl())
s, u, i = T(1., .5, 1, 2, rta=r).simulate_episode()
if s[0][1] != 0.:
    fail(s)
''')

S(id="dv-horizon-capped", property="C24",
  needs="the default horizon of 500 steps with a limit exceeded late in the manoeuvre",
  breaks="the fuel prediction stops after 100 steps",
  edits=[("zoo/cwh/inspection_1v1.py", "            for _ in range(self.n_steps):\n", "            for _ in range(min(self.n_steps, 100)):\n")],
  demo=PRE + '''
import scipy.linalg
scipy.linalg.solve_continuous_are = lambda A, B, Q, R: np.vstack((np.hstack((np.eye(6) * 1e4, np.eye(6) * 1e1)), np.hstack((np.eye(6) * 1e1, np.eye(6)))))
from run_time_assurance.zoo.cwh.inspection_1v1 import SwitchingDeltaVLimitRTA
def used(n):
    r = SwitchingDeltaVLimitRTA()
    p = r._pred_state(np.array([100., 0, 0, 0, 0, 0, 0, 0]), 1., np.zeros(3))
    e = np.zeros(6)
    for _ in range(n):
        u, e = r.backup_control(p, 1., e)
        p = r._pred_state(p, 1., u)
    return p[7]
full, less = used(500), used(150)
if full <= less:
    fail("no fuel", full, less)
r = SwitchingDeltaVLimitRTA()
r.filter_control(np.array([100., 0, 0, 0, 0, 0, 0, r.delta_v_limit - (full + less) / 2]), 1., np.zeros(3))
if not r.intervening:
    fail("not switched")
''')

S(id="disabled-single-precision", property="C02",
  needs="a disabled filter and a desired control that is not representable in single precision",
  breaks="a disabled filter rounds the desired control to single precision",
  edits=[("rta/base.py", "            self.control_actual = np.copy(control_desired)\n\n        return", "            self.control_actual = np.array(control_desired, dtype=np.float32)\n\n        return")],
  demo=PRE + f'''
r = make(ExplicitSimplexModule, {VMAX}, backup_controller=Ctl())
r.enable = False
u = r.filter_control(np.array([0., 0.]), 0.1, np.array([0.1]))
if u[0] != 0.1:
    fail(repr(u))
''')

S(id="direct-toggle-cached", property="C15",
  needs="a direct inequality that is disabled after the first call",
  breaks="enabling or disabling a direct inequality after the first call has no effect",
  edits=[("rta/asif.py", "            self.direct_inequality_enabled_dict[k] = c.enabled\n",
          "            if self.direct_inequality_enabled_dict[k] is None or self.constraints_causing_intervention is None:\n                self.direct_inequality_enabled_dict[k] = c.enabled\n"),
         ("rta/asif.py", "        self._update_direct_inequality_params()\n        self.constraints_causing_intervention = None\n", "        self.constraints_causing_intervention = None\n        self._update_direct_inequality_params()\n")],
  demo=PRE + f'''
class D(DirectInequalityConstraint):
    def ineq_weight(self, state, params):
        return jnp.array([-1.])
    def ineq_constant(self, state, params):
        return jnp.array(-.5)      # u <= 0.5
class M(ExplicitASIFModule):
    def _setup_direct_constraints(self):
        return OrderedDict(d=D())
r = make(M, {VMAX}, control_dim=1)
r.filter_control(np.array([0., 0.]), 1., np.array([.8]))
r.direct_inequality_constraints["d"].enabled = False
u = r.filter_control(np.array([0., 0.]), 1., np.array([.8]))
if abs(u[0] - .8) > 1e-4:
    fail(u)
''')

S(id="slack-index-order", property="C11",
  needs="slack on a constraint that follows one without slack in a discrete filter, or two slacks with different priorities of which one is disabled",
  breaks="all constraints with slack share the first slack variable in the explicit filter",
  edits=[("rta/asif.py", "                slack = slack.at[slack_counter].set(-1.)\n                slack_counter += 1\n            temp1", "                slack = slack.at[slack_counter].set(-1.)\n            temp1")],
  demo=PRE + '''
r = make(ExplicitASIFModule, lambda: [("a", ConstraintMaxStateLimit(limit_val=0., state_index=1, alpha=P([0, 1.]), slack_priority_scale=1e2)),
    ("b", ConstraintMinStateLimit(limit_val=1., state_index=1, alpha=P([0, 1.]), slack_priority_scale=1e6, alpha_negative=P([0, 1.])))], control_dim=1)
u = r.filter_control(np.array([0., 0.]), 1., np.array([0.]))   # a wants u <= 0, b (higher priority) wants u >= 1.01
if u[0] < 0.8:
    fail(u)
''')

S(id="subsample-keep-last-first", property="C13",
  needs="subsampling with keep_last on a filter with several constraints of which a later one is binding at its last point",
  breaks="the kept last point of every constraint is taken from the last constraint's block",
  edits=[("rta/asif.py", "(tmp_ineq_constant_barrier, ineq_constant_barrier[num_steps * (i + 1) - 1][None]), axis=0", "(tmp_ineq_constant_barrier, ineq_constant_barrier[-1][None]), axis=0"),
         ("rta/asif.py", "(tmp_ineq_weight_barrier, ineq_weight_barrier[num_steps * (i + 1) - 1, :][None]), axis=0", "(tmp_ineq_weight_barrier, ineq_weight_barrier[-1, :][None]), axis=0")],
  demo=PRE + '''
def cons():
    k = dict(num_check_all=0, skip_length=100, keep_last=True)
    return [("a", ConstraintMaxStateLimit(limit_val=1., state_index=1, alpha=P([0, 1.]), **k)), ("b", ConstraintMinStateLimit(limit_val=-9., state_index=1, alpha=P([0, 1.]), **k))]
r = make(ImplicitASIFModule, cons, control_dim=1, backup_window=2., backup_controller=Ctl(lambda x: jnp.array([.25])), integration_method="Euler")
u = r.filter_control(np.array([0., .5]), .5, np.array([2.]))
# last point: v = 0.5 + 4 * 0.125 = 1: the condition there is u <= 0
if u[0] > 1e-3:
    fail(u)
''')

S(id="psm-horizon", property="C19",
  needs="a passive orbit whose closest approach lies in the last step of the horizon",
  breaks="the passive-safety horizon of another spacecraft ends one step early",
  edits=[("zoo/cwh/inspection_3d.py", 'jnp.linspace(params["dt"], self.steps * params["dt"], self.steps)', 'jnp.linspace(0, (self.steps - 1) * params["dt"], self.steps)')],
  demo=PRE + '''
from run_time_assurance.zoo.cwh.inspection_3d import InspectionRTA
r = InspectionRTA(num_deputies=2)
c = r.constraints["deputy_PSM_1"]
x = np.zeros(13)
x[0:3] = [200, 0, 0]
x[3:6] = [-.5, 0, 0]
a = np.array(c.get_array(jnp.array(x), c.params))
if abs(float(c.phi(jnp.array(x), c.params)) - a[1:].min()) > 1e-2:
    fail(float(c.phi(jnp.array(x), c.params)), a.min())
''')

S(id="mass-ignored", property="C20",
  needs="a docking filter configured with a mass different from the default",
  breaks="the discrete inspection filter's input matrix ignores the configured mass",
  edits=[("zoo/cwh/inspection_1v1.py", "                ]\n            )\n            / self.m\n", "                ]\n            )\n            / defaults.M_DEFAULT\n")],
  demo=PRE + '''
from run_time_assurance.zoo.cwh.inspection_1v1 import DiscreteInspection1v1RTA
r = DiscreteInspection1v1RTA(m=24.)
y = np.array(r.next_state_differentiable(jnp.zeros(8), 1., jnp.array([0., 0., 1.])))
if abs(y[5] - 1 / 24.) > 1e-4:
    fail(y)
''')

S(id="shared-constraint", property="C22",
  needs="two integrator filters alive at once, one of which changes or disables its constraint",
  breaks="all explicit integrator filters share one constraint object, so a change in one filter changes the other",
  edits=[("zoo/integrators/integrator_1d.py", '        return OrderedDict(\n            [("rel_vel", ConstraintIntegrator1dDockingCollisionExplicit())]\n        )\n',
          '        shared = Integrator1dDockingRTAMixin.__dict__.get("_explicit_constraint")\n        if shared is None:\n            shared = ConstraintIntegrator1dDockingCollisionExplicit()\n            Integrator1dDockingRTAMixin._explicit_constraint = shared\n        return OrderedDict([("rel_vel", shared)])\n')],
  demo=PRE + '''
from run_time_assurance.zoo.integrators.integrator_1d import Integrator1dDockingExplicitSwitchingRTA as R
a, b = R(), R()
a.constraints["rel_vel"].enabled = False
b.filter_control(np.array([-1., 5.]), 1., np.array([1.]))
if not b.intervening:
    fail("other filter's constraint disabled")
''')

S(id="docking-bias-sign", property="C21",
  needs="a docking trajectory driven along the speed limit; single calls away from the limit look normal",
  breaks="the margin of the docking speed limit has the wrong sign and size, so the closed loop settles slightly beyond the limit",
  edits=[("zoo/cwh/docking_2d.py", "bias=-1e-4", "bias=1e-2")],
  demo=PRE + '''
from run_time_assurance.zoo.cwh.docking_2d import Docking2dExplicitSwitchingRTA as R
r = R(integration_method="RK45")
x = jnp.array([60., 0., -.3, 0.])
low = 9.
for _ in range(60):
    u = r.filter_control(np.array(x), 1., np.array([-1., 0.]))
    x = r._pred_state(x, 1., jnp.array(u))
    r.update_constraint_values(np.array(x))
    low = min(low, r.generate_info()["constraints"]["rel_vel"])
if low < -2e-6:
    fail(low)
''')
