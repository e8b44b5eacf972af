PRE = '''
import sys
import warnings
from collections import OrderedDict
import jax.numpy as jnp
import numpy as np
from run_time_assurance.constraint import *
from run_time_assurance.controller import RTABackupController
from run_time_assurance.rta import *
P = PolynomialConstraintStrengthener


def fail(*a):
    print("FAIL", *a)
    sys.exit(1)


class Ctl(RTABackupController):
    def __init__(self, fn=lambda x: -x[1:2], **kw):
        self.fn = fn
        super().__init__(**kw)

    def _generate_control(self, state, step_size, controller_state=None):
        return self.fn(state), controller_state


class DI:
    """double integrator"""
    cons = None

    def _setup_constraints(self):
        return OrderedDict(type(self).cons())

    def _pred_state(self, state, step_size, control):
        return jnp.array([state[0] + step_size * state[1], state[1] + step_size * control[0]])

    def state_transition_system(self, state):
        return jnp.array([state[1], 0.])

    def state_transition_input(self, state):
        return jnp.array([[0.], [1.]])

    def next_state_differentiable(self, state, step_size, control):
        return self._pred_state(state, step_size, control)


def make(base, cons, **kw):
    cls = type("T", (DI, base), {"cons": staticmethod(cons)})
    return cls(**kw)
'''
