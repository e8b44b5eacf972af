"""Differently configured filters of the same classes in one fresh process, built and probed in a given order:
python -m mc.twins GROUP fwd|rev prints a table of the observable results.  Used by C22: the table must not depend on the order."""
import json
import sys
import warnings
from collections import OrderedDict

import numpy as np

from mc import core

GROUPS = {"int": ["int_es", "int_is", "int_ea", "int_ia"], "d2": ["d2_es", "d2_is", "d2_ea"], "d2i": ["d2_ia"], "d3": ["d3_es", "d3_is", "d3_ea"], "insp1": ["insp1"], "insp1d": ["insp1d"],
          "insp3": ["insp3"], "toys": ["esimplex", "isimplex", "easif"], "toyi": ["iasif", "dasif"]}
DOCK = dict(m=6., n=0.002, v0=0.4, v1_coef=3., v0_distance=30., x_vel_limit=1.5, y_vel_limit=2.5)
INSP = dict(m=20., n=0.0005, chief_radius=8., deputy_radius=3., v0=0.4, v1_coef=3., v0_distance=20., r_max=500., fov=0.6, vel_limit=0.5, sun_vel=0.002)


def variants(name):
    """constructor arguments of the two differently configured instances of a supplied filter"""
    low = dict(control_bounds_low=-0.5, control_bounds_high=0.25)
    if name.startswith("int"):
        b = dict(m=2., **low)
    elif name.startswith("d"):
        b = dict(DOCK, **low)
        if name.startswith("d3"):
            b["z_vel_limit"] = 3.
    elif name == "insp3":
        b = dict({k: v for k, v in INSP.items() if k != "sun_vel"}, num_deputies=2, **low)
    else:
        b = dict(INSP, **low)
    if name.endswith(("_is", "_ia")):
        b["backup_window"] = 2.
    if name.endswith("_es"):
        b["integration_method"] = "Euler"
    return [{}, b]


def toy_classes():
    """filter classes shared by their instances; what differs are instance attributes"""
    import jax.numpy as jnp
    from mc import rigs

    out = {}
    for kind, base in rigs.BASES.items():
        def __init__(self, plant, specs, direct=(), _b=base, **kw):  # noqa
            self.plant, self.specs, self.direct = plant, specs, direct
            _b.__init__(self, **kw)
        ns = {"__init__": __init__, "_setup_constraints": lambda self: OrderedDict((c.name, c.build()) for c in self.specs), "__module__": __name__}
        if "simplex" in kind:
            ns["_pred_state"] = lambda self, state, step_size, control: self.plant.step(jnp, state, step_size, control)
        if kind in ("easif", "iasif"):
            ns["state_transition_system"] = lambda self, state: self.plant.f(jnp, state)
            ns["state_transition_input"] = lambda self, state: self.plant.g(jnp, state)
            ns["_setup_direct_constraints"] = lambda self: OrderedDict((d.name, d.build()) for d in self.direct)
        if kind == "dasif":
            ns["next_state_differentiable"] = lambda self, state, step_size, control: self.plant.step(jnp, state, step_size, control)
        out[kind] = type("Twin_" + kind, (base,), ns)
    return out


def toy(kind, cls, second):
    from mc.rigs import CSpec, DI, DSpec, LIN2, NLDI, SI2, LinearBackup
    if "simplex" in kind:
        plant = NLDI if second else DI
        specs = [CSpec("p", "min" if second else "max", -1.5 if second else 2., idx=0), CSpec("v", "mag", 1.5 if second else 2., idx=0 if second else 1, bias=-0.25 if second else 0.)]
        kw = dict(backup_controller=LinearBackup([[1., 1.]], [-0.25]) if second else LinearBackup([[0., 2.]], [0.25]), control_bounds_low=-0.5 if second else -1., control_bounds_high=0.25 if second else 1.)
    else:
        plant = SI2 if second else LIN2
        specs = [CSpec("a", "min" if second else "max", -0.25 if second else 1., idx=1 if second else 0, alpha=(0., 2.) if second else (0., 1.)),
                 CSpec("b", "aff", 0.75 if second else 1., vec=[1., -0.5] if second else [0.5, 1.], alpha=(0., 1.) if second else (0., 0.5, 0., 0.25), bias=-0.25 if second else -0.125,
                       alpha_neg=(0., 3.) if second and kind == "easif" else None)]
        kw = dict(control_dim=2, control_bounds_low=[-0.5, -1.] if second else [-1., -0.5], control_bounds_high=0.5 if second else 1., epsilon=0.5 if second else 0.01)
        if kind in ("easif", "iasif"):
            kw["direct"] = [DSpec("d", [1., -1.], -0.25)] if second else [DSpec("d", [1., 1.], -0.75)]
        if kind == "iasif":
            kw.update(backup_controller=LinearBackup([[1., 0.], [0., 0.5]]) if second else LinearBackup([[0.25, 0.], [0., 0.25]]), integration_method="Euler")
    if kind in ("isimplex", "iasif"):
        kw["backup_window"] = 2. if second else 1.
    return cls(plant, specs, **kw)


def probe(r, calls):
    out = []
    for x, dt, u in calls:
        c = r.filter_control(np.array(x, float), dt, np.array(u, float))
        out.append([[float(v) for v in np.ravel(c)], bool(r.intervening), {k: float(v) for k, v in r.constraint_values.items()}])
    return out


def main(group, order):
    core.setup_paths()
    warnings.simplefilter("ignore")
    from mc import fleet, zoofleet
    todo, classes = [], None
    for name in GROUPS[group]:
        if name in zoofleet.FLEET:
            mk, calls = zoofleet.FLEET[name]
            for i, kw in enumerate(variants(name)):
                cs = list(calls.values())
                if name == "insp3" and i:
                    cs = [(np.concatenate([x[:12], x[-1:]]), dt, u) for x, dt, u in cs]
                todo.append((f"{name}/{i}", lambda mk=mk, kw=kw: mk(**kw), cs))
        else:
            classes = classes or toy_classes()
            cs = list((fleet.CALLS1 if "simplex" in name else fleet.CALLS2).values())[:4]
            cs += [([-1.25, -0.5], .5, [-0.75] * len(cs[0][2])), ([1.25, 0.75], 1., [0.5] * len(cs[0][2]))]
            for i in (0, 1):
                todo.append((f"{name}/{i}", lambda n=name, i=i: toy(n, classes[n], i), cs))
    if order == "rev":
        todo.reverse()
    built, res = [], {}
    for key, mk, cs in todo:
        r = mk()
        res[key] = [probe(r, cs)]
        built.append((key, r, cs))
    for key, r, cs in built:
        res[key].append(probe(r, cs))
    print("TWINS " + json.dumps(res))


if __name__ == "__main__":
    main(*sys.argv[1:3])
