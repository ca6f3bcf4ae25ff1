COMMON = '''
from disc_solver.file_format import SolutionInput, ConfigInput
import numpy as np


def make(**kw):
    args = dict(
        start=0.0, stop=5.0, taylor_stop_angle=0.001, max_steps=10000,
        num_angles=200, relative_tolerance=1e-6, absolute_tolerance=1e-10,
        γ=0.001, nwalkers=8, iterations=3, threads=1, target_velocity=0.9,
        split_method="v_θ_deriv", v_rin_on_c_s=1.0, v_a_on_c_s=1.0,
        c_s_on_v_k=0.03, η_O=0.001, η_H=0.0001, η_A=0.0005, η_derivs=True)
    args.update(kw)
    return SolutionInput(**args)
'''
BUGS = [
    dict(
        id="c01-rejection-without-internal", property="C01",
        file="solve/solution.py", edits=[(
            '''                problems[θ].append("negative density")
            return 1
''', '''                problems[θ].append("negative density")
                return 1
''')],
        needs="a state with negative density where no internal data is stored",
        breaks="negative densities are only rejected when internal data is "
        "stored",
        demo=COMMON + '''
from disc_solver.solve.config import define_conditions
from disc_solver.solve.solution import ode_system
from disc_solver.utils import ODEIndex
ic = define_conditions(make())
for store in (True, False):
    rhs, _ = ode_system(
        γ=ic.γ, a_0=ic.a_0, norm_kepler_sq=ic.norm_kepler_sq,
        init_con=ic.init_con, store_internal=store)
    state = ic.init_con.copy()
    state[ODEIndex.v_θ] = 0.1
    state[ODEIndex.ρ] = -1e-3
    assert rhs(0.01, state, np.zeros(11)) == 1, store
'''),
    dict(
        id="c02-initial-E_r-hall-sign", property="C02",
        file="solve/config.py", edits=[(
            "    η_perp_sq = η_P ** 2 + η_H ** 2\n",
            "    η_perp_sq = η_P ** 2 + η_H * abs(η_H)\n")],
        needs="use_E_r with a negative Hall diffusivity",
        breaks="the initial radial electric field is not the one of Ohm's law",
        demo=COMMON + '''
from disc_solver.solve.config import define_conditions
from disc_solver.utils import ODEIndex
inp = make(η_H=-0.01, use_E_r=True)
init = define_conditions(inp).init_con
v_r, v_φ = init[ODEIndex.v_r], init[ODEIndex.v_φ]
# J_r = -B_φ', J_φ from E_φ = 0; E_r = -v_φ B_θ + η_P J_r + η_H (J × b)_r
p, h = inp.η_O + inp.η_A, inp.η_H
b_φ_prime = v_φ * v_r / (2 * inp.v_a_on_c_s ** 2)
want = -v_φ - v_r / p * (h + (p * p + h * h) * v_φ / (
    2 * inp.v_a_on_c_s ** 2))
assert abs(init[ODEIndex.E_r] - want) < 1e-9 * abs(want)
'''),
    dict(
        id="c03-taylor-integration-η", property="C03",
        file="solve/solution.py", edits=[(
            '''                taylor_stop_angle=taylor_stop_angle, η_derivs=η_derivs,
                store_internal=store_internal, θ_scale=θ_scale,
''', '''                taylor_stop_angle=taylor_stop_angle,
                store_internal=store_internal, θ_scale=θ_scale,
''')],
        needs="use_taylor_jump off and constant diffusivities",
        breaks="diffusivities vary up to the taylor stop angle although they "
        "are to be constant",
        demo=COMMON + '''
from disc_solver.solve.config import define_conditions
from disc_solver.solve.solution import solution
from disc_solver.utils import ODEIndex
inp = make(use_taylor_jump=False, η_derivs=False, stop=1.0,
           taylor_stop_angle=0.05)
soln = solution(inp, define_conditions(inp))
η = soln.solution[:, ODEIndex.η_O]
assert np.all(η == η[0]), (η.min(), η.max())
'''),
    dict(
        id="c04-hydro-η-scale", property="C04",
        file="solve/hydrostatic.py", edits=[(
            '''            deriv_η_H = deriv_η_scale * η_H_0
''', '''            deriv_η_H = deriv_η_scale * max(η_H_0, 0)
''')],
        needs="a negative Hall diffusivity in the hydrostatic mode",
        breaks="a negative Hall diffusivity stays constant instead of "
        "following B²/ρ",
        demo=COMMON + '''
from disc_solver.solve.hydrostatic import (
    hydrostatic_define_conditions, ode_system)
from disc_solver.utils import ODEIndex
ic = hydrostatic_define_conditions(make(η_H=-0.0002))
rhs, _ = ode_system(a_0=ic.a_0, norm_kepler_sq=ic.norm_kepler_sq,
                    init_con=ic.init_con)
state = ic.init_con.copy()
state[ODEIndex.B_r] = 0.05
state[ODEIndex.B_φ] = -0.05
derivs = np.zeros(11)
assert rhs(0.01, state, derivs) == 0
a = derivs[ODEIndex.η_H] / -0.0002
b = derivs[ODEIndex.η_O] / 0.001
assert b != 0 and abs(a - b) < 1e-9 * abs(b), (a, b)
'''),
    dict(
        id="c05-no-solution-accepted", property="C05",
        file="solve/config.py", edits=[(
            '''        for i in np.isnan(init_con).nonzero()[0]:
            nan_names.append(ODEIndex(i).name)
        raise SolverError("Input implies NaN: {}".format(nan_names))
''', '''        for i in np.isnan(init_con).nonzero()[0]:
            nan_names.append(ODEIndex(i).name)
        if ODEIndex.B_φ_prime.name in nan_names:
            raise SolverError("Input implies NaN: {}".format(nan_names))
''')],
        needs="an input without a solution, with use_E_r",
        breaks="B_φ_prime and E_r share an index: an input with no real v_φ "
        "is still refused, unless it is the name of the alias that counts",
        demo=""),
    dict(
        id="c06-internal-order", property="C06",
        file="solve/solution.py", edits=[(
            "            internal_data = taylor_internal + internal_data\n",
            "            internal_data = internal_data + taylor_internal\n")],
        needs="use_taylor_jump off and stored internal data",
        breaks="the stored derivatives of the first part come after those of "
        "the rest",
        demo=COMMON + '''
from disc_solver.solve.config import define_conditions
from disc_solver.solve.solution import solution
inp = make(use_taylor_jump=False, stop=1.0, taylor_stop_angle=0.05)
data = solution(inp, define_conditions(inp)).internal_data
assert data.angles[0] < data.angles[-1], data.angles[[0, -1]]
'''),
    dict(
        id="c07-interpolated-η", property="C07",
        file="solve/solution.py", edits=[(
            '''            relative_tolerance=relative_tolerance,
            absolute_tolerance=absolute_tolerance, max_steps=max_steps,
            θ_scale=θ_scale, use_E_r=use_E_r, store_internal=store_internal,
            interp_slice=interp_slice, after_sonic=(
                sonic_interp_size if after_sonic is None else after_sonic
            ), base_internal_data=internal_data,
''', '''            relative_tolerance=relative_tolerance,
            absolute_tolerance=absolute_tolerance, max_steps=max_steps,
            θ_scale=θ_scale, use_E_r=use_E_r, store_internal=store_internal,
            interp_slice=interp_slice, after_sonic=(
                sonic_interp_size if after_sonic is None
                else min(after_sonic, sonic_interp_size)
            ), base_internal_data=internal_data,
''')],
        needs="an interpolated crossing asked to end further past the sonic "
        "point than it starts before it",
        breaks="after_sonic is cut to sonic_interp_size",
        demo=COMMON + '''
import disc_solver.solve.solution as s
from disc_solver.solve.config import define_conditions
seen = []
old = s.interp_cross_sonic


def spy(**kw):
    seen.append(kw["after_sonic"])
    return None, None, None, None


s.interp_cross_sonic = spy
inp = make(sonic_interp_size=0.9, after_sonic=0.95, num_angles=2000)
s.solution(inp, define_conditions(inp))
assert seen == [0.95], seen
'''),
    dict(
        id="c08-roots-of-shock-input", property="C08",
        file="file_format/_loaders.py", edits=[(
            '''        derivatives=ensure_fully_loaded(group["derivatives"]),
        is_post_shock_only=group.attrs["is_post_shock_only"],
    )
''', '''        derivatives=ensure_fully_loaded(group["derivatives"]),
        is_post_shock_only=(
            bool(group.attrs["is_post_shock_only"]) and y_roots is None
        ),
    )
''')],
        needs="a solution of only the part beyond a shock, with a root found",
        breaks="such a solution reads back as one of the whole disc",
        demo=COMMON + '''
import os, tempfile
import disc_solver.file_format as ff
from h5preserve import open as h5open
with tempfile.TemporaryDirectory() as d:
    soln = ff.Solution(
        solution_input=make(), angles=np.arange(3.), flag=0,
        solution=np.ones((3, 11)), coordinate_system="x", internal_data=None,
        initial_conditions=None, t_roots=np.ones(1),
        y_roots=np.ones((1, 11)), sonic_point=None, sonic_point_values=None,
        is_post_shock_only=True)
    with h5open(os.path.join(d, "a"), ff.registries, mode="x") as f:
        f["s"] = soln
    with h5open(os.path.join(d, "a"), ff.registries, mode="r") as f:
        assert f["s"].is_post_shock_only
'''),
]
BUGS = [b for b in BUGS if b["demo"]]
BUGS += [
    dict(
        id="c09-β-as-float", property="C09",
        file="file_format/_utils.py", edits=[(
            '''    return str(Fraction("5/4") - Fraction(β))
''', '''    return str(Fraction("5/4") - Fraction(β).limit_denominator(10000))
''')],
        needs="an old configuration whose β has more than four decimals",
        breaks="γ of old configurations is rounded",
        demo='''
from fractions import Fraction
from disc_solver.file_format._utils import _str_β_to_γ
assert abs(float(Fraction(_str_β_to_γ("1.249987"))) - 0.000013) < 1e-12
'''),
    dict(
        id="c10-after-sonic-not-written", property="C10",
        file="file_format/_containers.py", edits=[(
            '''            cfg["config"]["v_θ_sonic_crit"] = self.v_θ_sonic_crit
        if self.after_sonic is not None:
            cfg["config"]["after_sonic"] = self.after_sonic
        if self.sonic_interp_size is not None:
            cfg["config"]["sonic_interp_size"] = self.sonic_interp_size
''', '''            cfg["config"]["v_θ_sonic_crit"] = self.v_θ_sonic_crit
        if self.sonic_interp_size is not None:
            cfg["config"]["sonic_interp_size"] = self.sonic_interp_size
        elif self.after_sonic is not None:
            cfg["config"]["after_sonic"] = self.after_sonic
''')],
        needs="a configuration with both after_sonic and sonic_interp_size",
        breaks="after_sonic is not written with sonic_interp_size",
        demo='''
import pathlib, tempfile
from disc_solver.solve.config import get_input_from_conffile
with tempfile.TemporaryDirectory() as d:
    config = get_input_from_conffile(config_file=None, overrides={
        "after_sonic": "0.1", "sonic_interp_size": "0.2"})
    path = pathlib.Path(d) / "a.cfg"
    with path.open("w") as f:
        config.to_conf_file(f)
    assert get_input_from_conffile(config_file=path) == config
'''),
    dict(
        id="c11-cleared-fields", property="C11",
        file="solve/config.py", edits=[(
            '''        elif val != soln_dict[key]:
''', '''        elif soln_dict[key] is not None and val != soln_dict[key]:
''')],
        needs="solving again a solution whose input leaves open a field its "
        "configuration has, such as one beyond a shock",
        breaks="fields cleared in the stored input come back",
        demo='''
from disc_solver.solve.config import (
    get_input_from_conffile, new_inputs_with_overrides)
config = get_input_from_conffile(
    config_file=None, overrides={"jump_before_sonic": "0.1"})
inp = config.to_soln_input().new_without_sonic_taylor()
_, new = new_inputs_with_overrides(config, inp, {"stop": "3"})
assert new.jump_before_sonic is None
assert new.interp_slice is None
'''),
    dict(
        id="c08-problem-text", property="C08",
        file="file_format/_loaders.py", edits=[],
        needs="", breaks="", demo=""),
]
BUGS = [b for b in BUGS if b["demo"]]
