import os, sys
sys.path.insert(0, os.path.dirname(__file__))
from pre import PRE
SEEDS = []


def S(**k):
    SEEDS.append(k)


VMAX = 'lambda: [("v", ConstraintMaxStateLimit(limit_val=1., state_index=1, alpha=P([0, 1.])))]'

S(id="latched-not-clipped-memory", property="C09",
  needs="a backup controller with memory, saved, advanced, restored and then advanced again before a second restore",
  breaks="saving a controller with dictionary memory keeps a reference, so an in-place controller corrupts its saved memory during look-ahead",
  edits=[("controller.py", "        elif isinstance(controller_state, dict):\n            copied_state = {k: jnp.copy(v) for k, v in controller_state.items()}\n",
          "        elif isinstance(controller_state, dict):\n            copied_state = controller_state\n")],
  demo=PRE + '''
class Mem(RTABackupController):
    def _generate_control(self, state, step_size, controller_state=None):
        controller_state["k"] = controller_state["k"] + 1
        return jnp.array([1.]) * controller_state["k"], controller_state
c = Mem(controller_state_initial={"k": jnp.array(0.)}, jit_enable=False)
c.generate_control(jnp.zeros(2), 1.)
c.save()
c.generate_control(jnp.zeros(2), 1.)
c.restore()
if float(c.generate_control(jnp.zeros(2), 1.)[0]) != 2.:
    fail("restore")
c.reset()
if float(c.generate_control(jnp.zeros(2), 1.)[0]) != 1.:
    fail("reset")
''')

S(id="disabled-clips", property="C02",
  needs="a filter with bounds that is switched off and given a desired control outside them",
  breaks="a disabled filter clips the desired control to the bounds",
  edits=[("rta/base.py", "            self.control_actual = np.copy(control_desired)\n\n        return", "            self.control_actual = np.array(self._clip_control(control_desired))\n\n        return")],
  demo=PRE + f'''
r = make(ExplicitSimplexModule, {VMAX}, backup_controller=Ctl(), control_bounds_high=1., control_bounds_low=-1.)
r.enable = False
u = r.filter_control(np.array([0., 0.]), 0.1, np.array([3.]))
if u[0] != 3.:
    fail(u)
''')

S(id="returned-control-shared", property="C03",
  needs="a caller that overwrites the returned control and reads the filter's report afterwards",
  breaks="the returned array is the one kept for telemetry, so overwriting it changes what the filter reports about the call",
  edits=[("rta/base.py", "        return np.copy(self.control_actual)\n", "        return self.control_actual\n")],
  demo=PRE + f'''
r = make(ExplicitSimplexModule, {VMAX}, backup_controller=Ctl())
u = r.filter_control(np.array([0., 0.]), 0.1, np.array([.5]))
u *= 100.
if abs(float(r.generate_info()["control_actual"][0]) - .5) > 1e-6:
    fail(r.generate_info())
''')

S(id="telemetry-biased", property="C04",
  needs="a constraint with a bias, so that enforced and reported value differ",
  breaks="the info record reports the enforced (biased) instead of the unbiased constraint value",
  edits=[("rta/base.py", "{k: float(v.phi(state, v.params)) for k, v", "{k: float(v.compute(state, v.params)) for k, v")],
  demo=PRE + '''
r = make(ExplicitSimplexModule, lambda: [("v", ConstraintMaxStateLimit(limit_val=1., state_index=1, bias=-0.25))], backup_controller=Ctl())
r.filter_control(np.array([0., 0.]), 0.1, np.array([0.]))
if abs(r.generate_info()["constraints_at_last_state"]["v"] - 1.) > 1e-6:
    fail(r.generate_info())
''')

S(id="intervening-vs-clipped", property="C04",
  needs="a quadratic-programming filter with bounds and a desired control beyond them that is otherwise safe",
  breaks="the intervening flag compares the optimised control with the clipped desired control, so a pure actuator-limit intervention is not reported",
  edits=[("rta/asif.py", "        self.intervening = self.monitor(desired_control, actual_control)\n", "        self.intervening = self.monitor(self._clip_control(desired_control), actual_control)\n")],
  demo=PRE + f'''
r = make(ExplicitASIFModule, {VMAX}, control_dim=1, control_bounds_high=1., control_bounds_low=-1.)
r.filter_control(np.array([0., -5.]), 0.1, np.array([1.5]))
if not r.generate_info()["intervening"]:
    fail("not reported")
''')

S(id="boundary-unsafe", property="C05",
  needs="a predicted state exactly on the boundary of an enabled constraint",
  breaks="the boundary counts as unsafe (two cooperating edits: strict comparison, and disabled constraints evaluate to one)",
  edits=[("rta/simplex.py", "set(jnp.any(traj_constraint_vals < 0))", "set(jnp.any(traj_constraint_vals <= 0))"),
         ("rta/simplex.py", "        return jnp.zeros(traj_constraint_vals.shape)\n", "        return jnp.ones(traj_constraint_vals.shape)\n")],
  demo=PRE + f'''
r = make(ExplicitSimplexModule, {VMAX}, backup_controller=Ctl())
u = r.filter_control(np.array([0., .5]), .5, np.array([1.]))
if u[0] != 1. or r.intervening:
    fail(u)
''')

S(id="lookahead-current-memory-lost", property="C06",
  needs="a backup controller with memory that has already been advanced by applied backup steps",
  breaks="the look-ahead of implicit switching starts from the controller's initial memory instead of its current one",
  edits=[("rta/simplex.py", "        self.backup_controller_save()\n\n        for _ in range(Nsteps):\n",
          "        self.backup_controller.save()\n        self.backup_controller.reset()\n\n        for _ in range(Nsteps):\n")],
  demo=PRE + '''
class Fade(RTABackupController):
    """brakes ever less"""
    def _generate_control(self, state, step_size, controller_state=None):
        return jnp.array([-1.]) * (controller_state < 1.5), controller_state + 1
r = make(ImplicitSimplexModule, lambda: [("p", ConstraintMaxStateLimit(limit_val=2., state_index=0))],
         backup_controller=Fade(controller_state_initial=jnp.array(0.), jit_enable=False), backup_window=2., jit_enable=False)
for _ in range(2):
    r.filter_control(np.array([3., 0.]), 1., np.array([0.]))     # unsafe: two backup steps applied
u = r.filter_control(np.array([0., 1.]), 1., np.array([0.]))     # the exhausted controller cannot stop any more: 1, 2, 3
if not r.intervening:
    fail(u)
''')

S(id="reset-keeps-controller", property="C08",
  needs="a switching filter on a controller with memory: intervene, reset, intervene again",
  breaks="reset restores the controller's last look-ahead memory instead of its initial memory",
  edits=[("controller.py", "        self.controller_state = self._copy_controller_state(self.controller_state_initial)\n        self._compose()\n\n    def _copy",
          "        if self.controller_state_saved is None:\n            self.controller_state = self._copy_controller_state(self.controller_state_initial)\n        else:\n            self.restore()\n        self._compose()\n\n    def _copy")],
  demo=PRE + '''
class Cnt(RTABackupController):
    def _generate_control(self, state, step_size, controller_state=None):
        return -controller_state, controller_state + 1
def mk():
    return make(ImplicitSimplexModule, lambda: [("v", ConstraintMaxStateLimit(limit_val=1., state_index=1))],
         backup_controller=Cnt(controller_state_initial=jnp.array([1.]), jit_enable=False), backup_window=1., jit_enable=False)
r = mk()
for _ in range(3):
    r.filter_control(np.array([0., 2.]), 1., np.array([0.]))
r.reset()
a = r.filter_control(np.array([0., 2.]), 1., np.array([0.]))
b = mk().filter_control(np.array([0., 2.]), 1., np.array([0.]))
if a[0] != b[0]:
    fail(a, b)
''')

S(id="slack-priority-reversed", property="C11",
  needs="two conflicting constraints with slack of different priorities",
  breaks="a higher slack priority makes a constraint yield more instead of less",
  edits=[("rta/asif.py", "= np.sqrt(c.slack_priority_scale)", "= 1 / np.sqrt(c.slack_priority_scale)")],
  demo=PRE + '''
r = make(ExplicitASIFModule, lambda: [("a", ConstraintMaxStateLimit(limit_val=0., state_index=1, alpha=P([0, 1.]), slack_priority_scale=1e2)),
    ("b", ConstraintMinStateLimit(limit_val=1., state_index=1, alpha=P([0, 1.]), slack_priority_scale=1e6, alpha_negative=P([0, 1.])))], control_dim=1)
u = r.filter_control(np.array([0., 0.]), 1., np.array([0.]))   # a wants u <= 0, b (higher priority) wants u >= 1.01
if u[0] < 0.8:
    fail(u)
''')

S(id="infeasible-drops-attribution", property="C12",
  needs="direct inequality constraints together with barriers, the direct one binding",
  breaks="the names of barriers and direct inequalities are listed in the wrong order, so an intervention is attributed to the wrong constraint",
  edits=[("rta/asif.py", "        self.constraint_names += list(self.constraints.keys()) + list(self.direct_inequality_constraints.keys())\n",
          "        self.constraint_names += list(self.direct_inequality_constraints.keys()) + list(self.constraints.keys())\n")],
  demo=PRE + f'''
class D(DirectInequalityConstraint):
    def ineq_weight(self, state, params):
        return jnp.array([-1.])
    def ineq_constant(self, state, params):
        return jnp.array(-.5)      # u <= 0.5
class M(ExplicitASIFModule):
    def _setup_direct_constraints(self):
        return OrderedDict(d=D())
r = make(M, {VMAX}, control_dim=1)
r.filter_control(np.array([0., 0.]), 1., np.array([.8]))
if r.constraints_causing_intervention != ["d"]:
    fail(r.constraints_causing_intervention)
''')

S(id="sensitivity-late-input", property="C13",
  needs="an implicit optimisation filter on a system whose input matrix depends on the state",
  breaks="the input matrix is taken at the trajectory point instead of the present state, so the effect of the present control is wrong for state-dependent inputs",
  edits=[("rta/asif.py", "        g_x0 = self.state_transition_input(initial_state)\n", "        g_x0 = self.state_transition_input(traj_state_array)\n")],
  demo=PRE + '''
class G(ImplicitASIFModule):
    pass
r = make(G, lambda: [("v", ConstraintMaxStateLimit(limit_val=1., state_index=1, alpha=P([0, 1.])))], control_dim=1, backup_window=1.,
         backup_controller=Ctl(lambda x: jnp.array([0.])), integration_method="Euler")
def g(state):
    return jnp.array([[0.], [1. + state[0]]])
r.state_transition_input = g
class R2(type(r)):
    def state_transition_input(self, state):
        return jnp.array([[0.], [1. + state[0]]])
r = R2(control_dim=1, backup_window=1., backup_controller=Ctl(lambda x: jnp.array([0.])), integration_method="Euler")
u = r.filter_control(np.array([0., .5]), 1., np.array([2.]))   # 1 * u <= 0.5 at the present point and along the drift
if abs(u[0] - .5) > 1e-3:
    fail(u)
''')

S(id="discrete-step-scale", property="C14",
  needs="a step size different from one second",
  breaks="the discrete barrier no longer divides the change of the constraint by the step size",
  edits=[("constraint.py", "        h = (self.constraint(next_state, params) - self.constraint(state, params)) / step_size + self.constraint.alpha(",
          "        h = (self.constraint(next_state, params) - self.constraint(state, params)) / max(step_size, 1) + self.constraint.alpha("),
         ("constraint.py", "        self.cbf = jit(self.cbf_fn)\n        self.jac = jit(jacrev(self.cbf_fn))\n",
          "        self.cbf = jit(self.cbf_fn, static_argnames=['step_size'], static_argnums=[2])\n        self.jac = jit(jacrev(self.cbf_fn), static_argnames=['step_size'], static_argnums=[2])\n")],
  demo=PRE + f'''
r = make(DiscreteASIFModule, {VMAX}, control_dim=1)
u = r.filter_control(np.array([0., .5]), .25, np.array([1.]))   # -u >= -h = -.5
if abs(u[0] - .5) > 1e-3:
    fail(u)
''')

S(id="params-first-seen", property="C15",
  needs="a constraint whose parameter dictionary is replaced (not modified in place) between calls",
  breaks="the filter keeps using the parameter dictionary it saw first",
  edits=[("rta/base.py", "            self.params[k] = c.params\n", "            if self.params[k] is None:\n                self.params[k] = c.params\n")],
  demo=PRE + f'''
r = make(ExplicitSimplexModule, {VMAX}, backup_controller=Ctl())
r.filter_control(np.array([0., 0.]), 1., np.array([.5]))
r.constraints["v"].params = dict(limit_val=.25)
r.filter_control(np.array([0., 0.]), 1., np.array([.5]))
if not r.intervening:
    fail("old limit still used")
''')

S(id="nojit-unbiased", property="C16",
  needs="a switching filter with compilation switched off and a constraint with a bias",
  breaks="without compilation the switching decision ignores the constraints' bias",
  edits=[("rta/simplex.py", "            traj_constraint_vals.append(constraint.compute(state, params))\n", "            traj_constraint_vals.append(constraint.phi(state, params))\n")],
  demo=PRE + '''
out = []
for j in (True, False):
    r = make(ExplicitSimplexModule, lambda: [("v", ConstraintMaxStateLimit(limit_val=1., state_index=1, bias=-0.25))], backup_controller=Ctl(), jit_enable=j)
    r.filter_control(np.array([0., 0.]), 1., np.array([.875]))
    out.append(bool(r.intervening))
if out != [True, True]:
    fail(out)
''')

S(id="recovery-default-scaled", property="C18",
  needs="a nonlinear strengthener without a separate recovery strengthener, outside the safe set",
  breaks="the default recovery strengthening scales the argument instead of the result, which differs for nonlinear strengtheners",
  edits=[("constraint.py", "            return self._alpha(x) * 10\n", "            return self._alpha(x * 10)\n")],
  demo=PRE + '''
c = ConstraintMaxStateLimit(limit_val=1., state_index=0, alpha=P([0, 1., 0, 2.]))
x = -0.5
if abs(float(c.alpha_negative(x)) - 10 * (x + 2 * x**3)) > 1e-5:
    fail(c.alpha_negative(x))
''')

S(id="hocbf-reports-derived", property="C18",
  needs="a higher-order barrier constraint whose report is read",
  breaks="a higher-order barrier reports its enforced barrier value instead of the original constraint",
  edits=[("constraint.py", "        return self.initial_constraint.phi(state, params)\n", "        return self.final_constraint.phi(state, params)\n")],
  demo=PRE + '''
c = HOCBFConstraint(ConstraintMaxStateLimit(limit_val=1., state_index=0), relative_degree=2, state_transition_system=lambda x: jnp.array([x[1], 0.]), alpha=P([0, 1.]))
x = jnp.array([.25, .5])
if abs(float(c.phi(x, c.params)) - .75) > 1e-6:
    fail(c.phi(x, c.params))
''')

S(id="deputy-collision-index", property="C19",
  needs="an inspection filter with at least three spacecraft, the third one close",
  breaks="the sign of a relative pair is taken from the first other deputy, so the sun keep-out between deputies is wrong for the others",
  edits=[("zoo/cwh/inspection_3d.py", "        vel = state[3:6] - state[6 * i + 3 : 6 * i + 6]\n        sign = self.get_sign(i, state)\n",
          "        vel = state[3:6] - state[6 * i + 3 : 6 * i + 6]\n        sign = self.get_sign(1, state)\n")],
  demo=PRE + '''
from run_time_assurance.zoo.cwh.inspection_3d import InspectionRTA
r = InspectionRTA(num_deputies=3)
x = np.zeros(19)
x[0:6] = [100, 50, 10, .1, .2, -.3]
x[6:12] = [200, 50, 10, 0, 0, 0]
x[12:18] = [0, 50, 20, 0, 0, 0]
s = jnp.array(x)
p, v = np.array(r.get_p1_p2(2, s)), np.array(r.get_v1_v2(2, s))
d, w = x[0:3] - x[12:15], x[3:6] - x[15:18]
if np.sign(p @ d) != np.sign(v @ w):
    fail(p, v)
''')

S(id="dv-horizon-short", property="C24",
  needs="a fuel level for which exactly the last step of the backup manoeuvre exceeds the limit",
  breaks="the fuel prediction of the backup manoeuvre leaves out the last step of the horizon",
  edits=[("zoo/cwh/inspection_1v1.py", "            for _ in range(self.n_steps):\n", "            for _ in range(1, self.n_steps):\n")],
  demo=PRE + '''
import scipy.linalg
scipy.linalg.solve_continuous_are = lambda A, B, Q, R: np.vstack((np.hstack((np.eye(6) * 1e4, np.eye(6) * 1e1)), np.hstack((np.eye(6) * 1e1, np.eye(6)))))
from run_time_assurance.zoo.cwh.inspection_1v1 import SwitchingDeltaVLimitRTA
def used(n):
    r = SwitchingDeltaVLimitRTA(n_steps=n)
    x = np.array([100., 0, 0, 0, 0, 0, 0, 0])
    p = r._pred_state(x, 1., np.zeros(3))
    e = np.zeros(6)
    for _ in range(n):
        u, e = r.backup_control(p, 1., e)
        p = r._pred_state(p, 1., u)
    return p[7]
full, less = used(3), used(2)
if full <= less:
    fail("no fuel", full, less)
r = SwitchingDeltaVLimitRTA(n_steps=3)
x = np.array([100., 0, 0, 0, 0, 0, 0, r.delta_v_limit - (full + less) / 2])
r.filter_control(x, 1., np.zeros(3))
if not r.intervening:
    fail("not switched")
''')

S(id="combined-agent-order", property="C17",
  needs="a combined filter of at least three agents",
  breaks="the other agents are appended in cyclic instead of listed order",
  edits=[("zoo/cwh/inspection_3d.py", "        x_old = np.delete(state, np.s_[6 * i : 6 * i + 6], 0)\n",
          "        x_old = np.concatenate((state[6 * i + 6 : 6 * self.num_deputies], state[: 6 * i], state[6 * self.num_deputies :]))\n")],
  demo=PRE + '''
from run_time_assurance.zoo.cwh.inspection_3d import CombinedInspectionRTA
class Rec(RTAModule):
    seen = []
    def compute_filtered_control(self, input_state, step_size, control_desired):
        self.seen.append(np.array(input_state))
        return control_desired
r = CombinedInspectionRTA(num_deputies=3, deputy_rta=Rec())
x = np.arange(19.)
r.filter_control(x, 1., np.zeros(9))
want = np.concatenate((x[6:12], x[0:6], x[12:19]))
if not np.array_equal(Rec.seen[1], want):
    fail(Rec.seen[1])
''')
