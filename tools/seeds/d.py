import os, runpy
PRE = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "pre.py"))["PRE"]
S, B, A = "rta/simplex.py", "rta/base.py", "rta/asif.py"
SEEDS = [
dict(id="compiled-monitor-per-class", property="C22", needs="two differently configured instances of one switching filter class in one process", breaks="the compiled safety monitor of the first instance of a class is reused by later instances, which then judge with the first one's plant and configuration",
     edits=[(S, "            self._constraint_violation_fn = jit(self._constraint_violation)\n", "            cls = type(self)\n            if '_compiled_violation' not in cls.__dict__:\n                cls._compiled_violation = staticmethod(jit(self._constraint_violation))\n            self._constraint_violation_fn = cls._compiled_violation\n")],
     demo=PRE + '''
class Limit(DI, ExplicitSimplexModule):
    """speed or position limit, chosen per instance"""

    def __init__(self, axis, **kw):
        self.axis = axis
        super().__init__(backup_controller=Ctl(), **kw)

    def _setup_constraints(self):
        return OrderedDict([("lim", ConstraintMaxStateLimit(1., self.axis))])


x, u = np.array([1.5, -0.5]), np.array([0.])
pos = Limit(0)
pos.filter_control(x, 0.5, u)
if not pos.intervening:
    fail("position limit not enforced")
speed = Limit(1)
speed.filter_control(x, 0.5, u)
if speed.intervening:
    fail("the speed filter judges positions")
'''),
dict(id="params-same-sum", property="C15", needs="two parameters of one constraint changed between calls such that their sum stays the same", breaks="the change is not seen by the running filter",
     edits=[(B, "            self.params[k] = c.params\n", "            last = self.params[k]\n            if last is None or last.keys() != c.params.keys() or sum(last.values()) != sum(c.params.values()):\n                self.params[k] = dict(c.params)\n")],
     demo=PRE + '''
class Two(ConstraintModule):
    def __init__(self):
        super().__init__(params={"limit": 2., "gain": 1.}, alpha=P([0., 1.]))

    def _compute(self, state, params):
        return params["limit"] - params["gain"] * state[1]


x, u = np.array([0., 0.5]), np.array([3.])
a = make(ExplicitASIFModule, lambda: {"c": Two()}, control_dim=1)
first = float(a.filter_control(x, 1., u)[0])
a.constraints["c"].params = {"limit": 1., "gain": 2.}
got = float(a.filter_control(x, 1., u)[0])
if abs(first - 1.5) > 1e-3 or abs(got) > 1e-3:
    fail("parameter change not followed", first, got)
'''),
dict(id="selection-by-prefix", property="C15", needs="a selection naming a constraint whose name is a prefix of another's", breaks="constraints that were not selected stay in force",
     edits=[(B, "                if k in constraints_to_use:\n", "                if k.startswith(tuple(constraints_to_use)):\n")],
     demo=PRE + '''
from run_time_assurance.zoo.cwh.docking_2d import Docking2dExplicitOptimizationRTA as R
one = R(constraints_to_use=["x_vel"])
if set(one.constraints) != {"x_vel"}:
    fail(list(one.constraints))


def cons():
    return {"v": ConstraintMaxStateLimit(1., 1, alpha=P([0., 1.])), "vmin": ConstraintMinStateLimit(-1., 1, alpha=P([0., 1.]))}


r = make(ExplicitASIFModule, cons, control_dim=1, constraints_to_use=["v"])
u = np.array(r.filter_control(np.array([0., -1.]), 1., np.array([-3.])))
if set(r.constraints) != {"v"} or abs(u[0] + 3.) > 1e-3:
    fail(list(r.constraints), u)
'''),
dict(id="slack-priority-capped", property="C11", needs="two conflicting constraints whose slack priorities are above 1e9", breaks="very high priorities are treated as equal",
     edits=[(A, "np.sqrt(c.slack_priority_scale)", "np.sqrt(min(c.slack_priority_scale, 1e9))")],
     demo=PRE + '''
def cons(s, t):
    return lambda: {"hi": ConstraintMaxStateLimit(-1., 1, alpha=P([0., 1.]), slack_priority_scale=s), "lo": ConstraintMinStateLimit(1., 1, alpha=P([0., 1.]), slack_priority_scale=t)}


out = []
for s, t in ((1e9, 1e11), (1e4, 1e6)):
    r = make(ExplicitASIFModule, cons(s, t), control_dim=1)
    out.append(float(r.filter_control(np.array([0., 0.]), 1., np.array([0.]))[0]))
if abs(out[0] - out[1]) > 1e-2 * (1 + abs(out[1])):
    fail("the same ratio of priorities gives different compromises", out)
'''),
dict(id="near-violation-tolerated", property="C06", needs="a predicted constraint value that is negative by less than 1e-4", breaks="the switching filters apply a control whose predicted trajectory violates a constraint by a small amount",
     edits=[(S, "jnp.any(traj_constraint_vals < 0)", "jnp.any(traj_constraint_vals < -1e-4)")],
     demo=PRE + '''
def cons():
    return {"p": ConstraintMaxStateLimit(1., 0)}


for base, kw in ((ExplicitSimplexModule, {}), (ImplicitSimplexModule, dict(backup_window=1.))):
    r = make(base, cons, backup_controller=Ctl(lambda x: 0. * x[1:2]), **kw)
    r.filter_control(np.array([1. + 2.**-14, 0.]), 0.5, np.array([0.5]))
    if not r.intervening:
        fail(base.__name__, "predicted violation tolerated")
    r.filter_control(np.array([1., 0.]), 0.5, np.array([0.]))
    if r.intervening:
        fail(base.__name__, "boundary is not a violation")
'''),
]
