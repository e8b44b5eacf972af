import os, sys
sys.path.insert(0, os.path.dirname(__file__))
from pre import PRE
SEEDS = []


def S(**k):
    SEEDS.append(k)


S(id="latch-boundary", property="C07",
  needs="a latched simplex filter whose monitor stays unsafe when the latch expires, i.e. at least latch_time/step_size + 2 consecutive calls",
  breaks="the latch is released one step late: when the latch time has elapsed the timer keeps the old value minus the latch time instead of restarting",
  edits=[("rta/simplex.py", "            if self.latched_elapsed >= self.latch_time:\n                self.latched_elapsed = 0\n",
          "            if self.latched_elapsed > self.latch_time:\n                self.latched_elapsed = 0\n")],
  demo=PRE + '''
r = make(ExplicitSimplexModule, lambda: [("v", ConstraintMaxStateLimit(limit_val=1., state_index=1))], backup_controller=Ctl(), latch_time=0.5,
         control_bounds_high=1., control_bounds_low=-1.)
r.filter_control(np.array([0., 0.95]), 0.25, np.array([1.]))
if not r.intervening:
    fail("not intervening")
out = []
for _ in range(5):
    r.filter_control(np.array([0., 0.]), 0.25, np.array([0.1]))
    out.append(r.intervening)
if out != [True, True, False, False, False]:
    fail(out)
''')

S(id="recovery-alpha-ignored", property="C10",
  needs="a constraint whose value is negative (unsafe start) together with a user supplied alpha_negative",
  breaks="outside the safe set the recovery rate is computed with the nominal strengthening function, so the filter no longer drives the system back at the requested rate",
  edits=[("constraint.py", "        return self._alpha_negative(x)\n", "        return self._alpha_negative(x) if x is None else self._alpha(x) * 10\n")],
  demo=PRE + '''
r = make(ExplicitASIFModule, lambda: [("v", ConstraintMaxStateLimit(limit_val=1., state_index=1, alpha=P([0, 1.]), alpha_negative=P([0, 3.])))], control_dim=1)
u = r.filter_control(np.array([0., 1.5]), 0.1, np.array([1.]))
if abs(u[0] - (3 * -0.5 - 0.01)) > 1e-3:
    fail(u)
''')

S(id="one-sided-clip", property="C01",
  needs="per-element bounds in an ASIF filter where the lower bound array is asymmetric to the upper one and the QP is infeasible",
  breaks="clipping is skipped when only one of the two bounds is given",
  edits=[("rta/base.py", "        if self.control_bounds_low is not None or self.control_bounds_high is not None:\n            control = np.clip(",
          "        if self.control_bounds_low is not None and self.control_bounds_high is not None:\n            control = np.clip(")],
  demo=PRE + '''
warnings.simplefilter("ignore")
r = make(ExplicitASIFModule, lambda: [("v", ConstraintMaxStateLimit(limit_val=1., state_index=1, alpha=P([0, 1.])))], control_dim=1, control_bounds_low=-1.)
u = r.filter_control(np.array([0., 9.]), 0.1, np.array([-4.]))   # no admissible control satisfies the barrier condition
if u[0] < -1:
    fail(u)
''')

S(id="cascade-last-flag", property="C17",
  needs="a cascade of at least two filters where an earlier one intervenes and a later one does not",
  breaks="the cascade reports only its last filter's intervention",
  edits=[("rta/base.py", "            if rta.intervening:\n                self.intervening = True\n", "            self.intervening = bool(rta.intervening)\n")],
  demo=PRE + '''
class C(CascadedRTA):
    def _setup_rta_list(self):
        return [make(ExplicitASIFModule, lambda: [("v", ConstraintMaxStateLimit(limit_val=1., state_index=1, alpha=P([0, 1.])))], control_dim=1),
                make(ExplicitASIFModule, lambda: [("p", ConstraintMaxStateLimit(limit_val=50., state_index=1, alpha=P([0, 1.])))], control_dim=1)]
r = C()
r.filter_control(np.array([0., 1.]), 0.1, np.array([1.]))
if not r.intervening:
    fail("intervention of the first filter not reported")
''')

S(id="implicit-last-point", property="C06",
  needs="an implicit switching filter whose backup trajectory violates a constraint only at the very last point of the window",
  breaks="the end point of the backup trajectory is not checked",
  edits=[("rta/simplex.py", "            control = self.backup_control(state, step_size)\n            state = self._pred_state_fn(state, step_size, control)\n            traj_states.append(state)\n",
          "            traj_states.append(state)\n            control = self.backup_control(state, step_size)\n            state = self._pred_state_fn(state, step_size, control)\n")],
  demo=PRE + '''
r = make(ImplicitSimplexModule, lambda: [("p", ConstraintMaxStateLimit(limit_val=1., state_index=0))], backup_controller=Ctl(lambda x: 0. * x[1:2]), backup_window=2.,
         control_bounds_high=1., control_bounds_low=-1.)
# coasts at speed .5: positions .05, .55, 1.05 after 0, 1, 2 further steps
r.filter_control(np.array([-0.45, 0.5]), 1., np.array([0.]))
if not r.intervening:
    fail("violation at the end of the backup window not detected")
''')

S(id="subsample-argsort-order", property="C13",
  needs="an implicit ASIF constraint using both skip_length > 1 and subsample_constraints_num_least, with the closest points not among the first ones",
  breaks="the least constraint values are looked up in the unskipped trajectory, so other points than the closest ones are enforced",
  edits=[("rta/asif.py", "            tmp_constraint_vals = tmp_constraint_vals[check_points]\n", "            tmp_constraint_vals = tmp_constraint_vals[0:len(check_points)]\n")],
  demo=PRE + '''
def con():
    return [("p", ConstraintMaxStateLimit(limit_val=2., state_index=0, alpha=P([0, 1.]), skip_length=2, subsample_constraints_num_least=1))]
r = make(ImplicitASIFModule, con, backup_controller=Ctl(lambda x: jnp.array([-1.])), backup_window=6., control_dim=1, integration_method="Euler")
x = np.array([0., 1.5])
u = r.filter_control(x, 1., np.array([5.]))
# reference: all (skipped) points, the one with the least value
pts, s = [], jnp.eye(2)
st = x.copy()
A = np.array([[0., 1.], [0., 0.]])
traj = [(st.copy(), np.eye(2))]
S = np.eye(2)
for _ in range(6):
    st = st + np.array([st[1], -1.])
    S = S + A @ S
    traj.append((st.copy(), S.copy()))
pts = [(2. - p[0], q) for p, q in traj[::2]]
h, q = min(pts, key=lambda t: t[0])
w = -(q @ np.array([0., 1.]))[0]
c = -((q @ np.array([1.5, 0.]))[0]) + h
ref = 5. if w * 5. + c >= 0 else -c / w
if abs(u[0] - ref) > 1e-3:
    fail(u, ref)
''')

S(id="sample-verdict-last-step", property="C23",
  needs="a sample test episode whose only violation is at the state reached on its final step",
  breaks="an episode that becomes unsafe exactly when it ends is reported as safe",
  edits=[("utils/sample_testing.py", "            for c in self.rta.constraints.values():\n                if c.phi(to_jnp_array_jit(state), c.params) < 0:\n                    return False\n",
          "            for c in () if done else self.rta.constraints.values():\n                if c.phi(to_jnp_array_jit(state), c.params) < 0:\n                    return False\n")],
  demo=PRE + '''
import csv, os, tempfile
from run_time_assurance.utils.sample_testing import SafetyAssuranceSampleTestingModule
class M(SafetyAssuranceSampleTestingModule):
    def _get_initial_state(self):
        return np.array([0., 0.5])
    def _pred_state(self, state, step_size, control):
        return state + np.array([0., 0.2])
rta = make(ExplicitASIFModule, lambda: [("v", ConstraintMaxStateLimit(limit_val=1., state_index=1, alpha=P([0, 1.])))], control_dim=1)
with tempfile.TemporaryDirectory() as d:
    M(3., 1., 1, 2, rta=rta, n_points=1).run_sample_test(d)
    rows = list(csv.reader(open(os.path.join(d, os.listdir(d)[0]))))
if rows[0][0] != "False":
    fail(rows)
''')
