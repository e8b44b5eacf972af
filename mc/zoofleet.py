"""The supplied filters with characteristic calls (state, step size, desired control) covering pass / clip / intervene."""
import contextlib

import numpy as np


@contextlib.contextmanager
def care_stub():
    """the delta-v filter's default gains cannot be computed by scipy (known finding); a fixed stabilising P stands in"""
    import scipy.linalg
    orig = scipy.linalg.solve_continuous_are

    def solve(a, b, q, r, *args, **kw):
        if np.asarray(a).shape == (12, 12):
            P = np.zeros((12, 12))
            for i in range(3):
                P[3 + i, 3 + i] = 12. * 2e5 * (0.9 + 0.1 * i)
                P[3 + i, 9 + i] = P[9 + i, 3 + i] = 12. * 1e3
            P[3, 4] = P[4, 3] = 12. * 5e3
            return P
        return orig(a, b, q, r, *args, **kw)

    from run_time_assurance.zoo.cwh import inspection_1v1 as m
    names = [k for k, v in vars(m).items() if v is orig]
    scipy.linalg.solve_continuous_are = solve
    for k in names:
        setattr(m, k, solve)
    try:
        yield
    finally:
        scipy.linalg.solve_continuous_are = orig
        for k in names:
            setattr(m, k, orig)


def from_care(e):
    """the exception was raised by scipy's Riccati solver itself"""
    import traceback
    return any(f.name == "solve_continuous_are" for f in traceback.extract_tb(e.__traceback__))


def _int(cls):
    def mk(**kw):
        from run_time_assurance.zoo.integrators import integrator_1d as m
        return getattr(m, cls)(**kw)
    return mk


def _d2(cls):
    def mk(**kw):
        from run_time_assurance.zoo.cwh import docking_2d as m
        return getattr(m, cls)(**kw)
    return mk


def _d3(cls):
    def mk(**kw):
        from run_time_assurance.zoo.cwh import docking_3d as m
        return getattr(m, cls)(**kw)
    return mk


def _i1(cls):
    def mk(**kw):
        from run_time_assurance.zoo.cwh import inspection_1v1 as m
        return getattr(m, cls)(**kw)
    return mk


def _i3(**kw):
    from run_time_assurance.zoo.cwh import inspection_3d as m
    kw.setdefault("num_deputies", 3)
    return m.InspectionRTA(**kw)


def _comb(**kw):
    from run_time_assurance.zoo.cwh import inspection_3d as m
    return m.CombinedInspectionRTA(num_deputies=3, deputy_rta=m.InspectionRTA(num_deputies=3), **kw)


def _casc(**kw):
    from run_time_assurance.zoo.cwh import inspection_1v1 as m
    with care_stub():
        return m.InspectionCascadedRTA(**kw)


def _dv(**kw):
    from run_time_assurance.zoo.cwh import inspection_1v1 as m
    with care_stub():
        return m.SwitchingDeltaVLimitRTA(**kw)


A = np.array
CALLS_INT = {"safe": (A([-3., 0.1]), 1., A([0.25])), "clip": (A([-3., 0.1]), 1., A([4.])), "unsafe": (A([-0.6, 1.]), 1., A([1.]))}
CALLS_D2 = {"safe": (A([300., -100., 0.05, 0.1]), 1., A([0.25, -0.5])), "clip": (A([300., -100., 0.05, 0.1]), 1., A([0.25, -5.])),
            "unsafe": (A([100., 50., 0.3, 0.29]), 1., A([1., 1.])), "out": (A([10., 5., 0.3, 0.3]), 1., A([0.5, 1.]))}
CALLS_D3 = {"safe": (A([300., -100., 50., 0.05, 0.1, 0.]), 1., A([0.25, -0.5, 0.1])),
            "clip": (A([300., -100., 50., 0.05, 0.1, 0.]), 1., A([0.25, -5., 2.])),
            "unsafe": (A([50., 50., 20., 0.3, 0.3, 0.2]), 1., A([1., 1., 1.])), "out": (A([10., 5., 1., 0.3, 0.3, 0.1]), 1., A([0.5, 1., -1.]))}
CALLS_I1 = {"safe": (A([300., -100., 50., 0.05, 0.1, 0., 0.5, 1.]), 1., A([0.25, -0.5, 0.1])),
            "clip": (A([300., -100., 50., 0.05, 0.1, 0., 0.5, 1.]), 1., A([0.25, -5., 2.])),
            "unsafe": (A([50., 50., 20., 0.18, 0.18, 0.1, 0.5, 1.]), 1., A([1., 1., 1.])),
            "coll": (A([16., 1., 2., -0.15, 0.02, 0., 0.5, 1.]), 1., A([-1., 0., 0.]))}
_dep = [[300., -100., 50., 0.05, 0.1, 0.], [-200., 150., 80., 0.02, -0.05, 0.01], [60., 200., -90., -0.03, 0.02, 0.04]]
_dep2 = [[50., 50., 20., 0.18, 0.18, 0.1], [61., 55., 24., 0.1, 0.1, 0.05], [60., 200., -90., -0.03, 0.02, 0.04]]


def _st(d):
    return A([v for x in d for v in x] + [0.5])


CALLS_I3 = {"safe": (_st(_dep), 1., A([0.25, -0.5, 0.1])), "clip": (_st(_dep), 1., A([0.25, -5., 2.])), "unsafe": (_st(_dep2), 1., A([1., 1., 1.]))}
CALLS_COMB = {"safe": (_st(_dep), 1., A([0.25, -0.5, 0.1] * 3)), "clip": (_st(_dep), 1., A([0.25, -5., 2.] + [0.] * 6)),
              "unsafe": (_st(_dep2), 1., A([1., 1., 1., -1., 0., 0.5, 0.1, 0.2, 0.3]))}

FLEET = {
    "int_es": (_int("Integrator1dDockingExplicitSwitchingRTA"), CALLS_INT), "int_is": (_int("Integrator1dDockingImplicitSwitchingRTA"), CALLS_INT),
    "int_ea": (_int("Integrator1dDockingExplicitOptimizationRTA"), CALLS_INT), "int_ia": (_int("Integrator1dDockingImplicitOptimizationRTA"), CALLS_INT),
    "d2_es": (_d2("Docking2dExplicitSwitchingRTA"), CALLS_D2), "d2_is": (_d2("Docking2dImplicitSwitchingRTA"), CALLS_D2),
    "d2_ea": (_d2("Docking2dExplicitOptimizationRTA"), CALLS_D2), "d2_ia": (_d2("Docking2dImplicitOptimizationRTA"), CALLS_D2),
    "d3_es": (_d3("Docking3dExplicitSwitchingRTA"), CALLS_D3), "d3_is": (_d3("Docking3dImplicitSwitchingRTA"), CALLS_D3),
    "d3_ea": (_d3("Docking3dExplicitOptimizationRTA"), CALLS_D3), "d3_ia": (_d3("Docking3dImplicitOptimizationRTA"), CALLS_D3),
    "insp1": (_i1("Inspection1v1RTA"), CALLS_I1), "insp1d": (_i1("DiscreteInspection1v1RTA"), CALLS_I1),
    "insp3": (_i3, CALLS_I3), "comb3": (_comb, CALLS_COMB), "casc": (_casc, CALLS_I1),
}
