# -*- coding: utf-8 -*-
"""C19: the searches across the sonic point, as whole solvers."""
import contextlib
import io
from collections import namedtuple
from unittest import mock

import numpy as np
from hypothesis import strategies as st

from engine import relation, fail
import gens
import phys
import profiles
import storage
from gens import flt, mag, sig

from disc_solver.file_format import Run, Solution, InternalData, Problems
from disc_solver.solve import stepper, single, fast_crosser, sonic_root
from disc_solver.solve.config import define_conditions
from disc_solver.solve.utils import SolverError
from scikits.odes.sundials.cvode import StatusEnum

ASSUMPTIONS = [
    "the integrations are stand-ins whose outcome is a known function of the "
    "input: the searches are judged, the integrations are judged elsewhere",
    "kinds of solutions are told apart by their velocity and recorded "
    "problems; what the derivatives among stored internal data imply is left "
    "open",
]
VT = phys.VT
CONFIG = (
    ("start", "0"), ("stop", "5"), ("taylor_stop_angle", "0.001"),
    ("max_steps", "500"), ("num_angles", "10"), ("label", "label"),
    ("relative_tolerance", "1e-6"), ("absolute_tolerance", "1e-10"),
    ("γ", "0.001"), ("nwalkers", "8"), ("iterations", "3"),
    ("threads", "1"), ("target_velocity", "0.9"),
    ("split_method", "v_θ_deriv"), ("v_rin_on_c_s", "1"),
    ("v_a_on_c_s", "1"), ("c_s_on_v_k", "0.05"), ("η_O", "0.1"),
    ("η_H", "0.1"), ("η_A", "0.1"), ("jump_before_sonic", "None"),
    ("η_derivs", "True"), ("use_taylor_jump", "True"),
    ("use_E_r", "False"), ("v_θ_sonic_crit", "None"),
    ("after_sonic", "None"), ("interp_slice", "-1000,-100"),
    ("sonic_interp_size", "None"), ("interp_range", "10"),
    ("mcmc_vars", "None"),
)


def new_run():
    return Run(
        config_input=storage.build_config(CONFIG), config_filename="a.cfg",
        disc_solver_version="1", float_type="float64", sonic_method="step",
        use_E_r=False,
    )


def silent():
    return contextlib.redirect_stdout(io.StringIO())


def plain(inp):
    return dict(vars(inp))


def same_conditions(cons, inp):
    want = define_conditions(inp)
    return np.array_equal(cons.init_con, want.init_con) and np.array_equal(
        cons.angles, want.angles) and all(
            getattr(cons, n) == getattr(want, n)
            for n in ("γ", "a_0", "norm_kepler_sq")
        )


PROFILES = {
    # passes the sound speed
    "diverge": (0.2, 0.91, 0.92, 0.96, 1.2, 2.0),
    # comes close to it, faster and faster
    "near": (0.2, 0.5, 0.91, 0.93, 0.96, 0.995),
    # falls back
    "flip": (0.2, 0.5, 0.7, 0.6, 0.4, 0.1),
    # falls back after coming close
    "near flip": (0.2, 0.5, 0.93, 0.95, 0.92, 0.1),
    # never comes close
    "slow": (0.1, 0.2, 0.3, 0.4, 0.5, 0.6),
    # what is looked for
    "best": (0.2, 0.5, 0.91, 0.94, 0.96, 0.97),
}
ABOVE = ("diverge", "near")
BELOW = ("flip", "near flip", "slow")


def made(inp, cons, kind, internal=None):
    v = np.array(PROFILES[kind])
    p = np.ones((len(v), 11))
    p[:, VT] = v
    return Solution(
        solution_input=inp, initial_conditions=cons,
        flag=StatusEnum.SUCCESS, coordinate_system="c",
        internal_data=internal, angles=np.linspace(0, 1, len(v)), solution=p,
        t_roots=None, y_roots=None, sonic_point=None, sonic_point_values=None,
    )


Search = namedtuple("Search", [
    "γ", "where", "width", "above", "below", "seed", "num", "search",
    "internal", "keep", "fails",
])


@relation(
    st.builds(
        Search, γ=mag(-4, 0).map(lambda x: sig(x, 5)),
        # in steps from the start
        where=st.one_of(flt(-6, 12), flt(-1, 3)),
        width=st.one_of(st.just(0.0), mag(-6, -0.5)),
        above=st.lists(st.sampled_from(ABOVE), min_size=1, max_size=3),
        below=st.lists(st.sampled_from(BELOW), min_size=1, max_size=3),
        seed=st.integers(0, 99), num=st.integers(1, 80),
        search=st.sampled_from([20, 20, 5, 2]), internal=st.booleans(),
        keep=st.booleans(),
        fails=st.one_of(st.none(), st.none(), st.integers(0, 12)),
    ), quick=250, thorough=10000, cost=2,
    rule="the search turned at least once",
)
def stepping(case):
    """What the stepper tries, writes and settles on."""
    c = case
    start = gens.soln_input(
        gens.Mid(c.γ, 1.0, 1.0, 0.05, 0.1, 0.1, 0.1, True),
        split_method="v_θ_deriv",
    )
    try:
        define_conditions(start)
    except SolverError:
        return None
    step = 0.1 * start.γ
    target = start.γ + c.where * step
    calls, solved = [], []

    def solve(inp, cons, *, store_internal):
        calls.append(plain(inp))
        if c.fails == len(calls) - 1:
            raise SolverError("planned")
        if store_internal != c.internal:
            fail("whether to store internal data is not passed on",
                 key="internal")
        if not same_conditions(cons, inp):
            fail(f"solved {inp!r} from {cons!r}", key="conditions")
        if abs(inp.γ - target) < c.width * step:
            kind = "best"
        elif inp.γ >= target:
            kind = c.above[len(calls) % len(c.above)]
        else:
            kind = c.below[len(calls) % len(c.below)]
        solved.append((made(inp, cons, kind), kind))
        return solved[-1][0]

    run = new_run()
    before = plain(start)
    got = None
    with silent(), mock.patch.object(stepper, "solution", solve):
        try:
            got = stepper.solver(
                start, run, store_internal=c.internal, num_attempts=c.num,
                max_search_steps=c.search, no_final_solution=not c.keep,
            )
        except SolverError as e:
            # no conditions for that γ, or what could not be solved
            got = e
    if plain(start) != before:
        fail(f"the input changed from {before!r} to {start!r}", key="changed")
    tried = [d["γ"] for d in calls]
    what = f"search for {target!r}, tried {tried!r} of {case!r}"
    for n, d in enumerate(calls):
        if {**d, "γ": 0} != {**before, "γ": 0}:
            fail(f"{what}: attempt {n} was made with {d!r}", key="others")
    # every solution is written, in order, with what it was made with
    stored = [run.solutions[str(n)] for n in range(len(run.solutions))]
    if [id(s) for s in stored] != [id(s) for s, _ in solved] or [
        s.solution_input.γ for s in stored
    ] != tried[:len(solved)]:
        fail(f"{what}: wrote {[s.solution_input.γ for s in stored]!r}",
             key="written")
    kinds = [k for _, k in solved]
    if not tried or tried[0] != start.γ:
        fail(f"{what}: starts at {tried[:1]!r}", key="start")
    if any(k == "best" for k in kinds[:-1]):
        fail(f"{what}: went on from what was looked for", key="went on")
    turned = next(
        (n for n in range(1, len(kinds))
         if (kinds[n] in ABOVE) != (kinds[0] in ABOVE)), None)
    for n in range(1, len(tried)):
        halvings = 0 if turned is None else max(n - turned, 0)
        size = step / 2 ** halvings
        sign = -1 if kinds[n - 1] in ABOVE else 1
        moved = tried[n] - tried[n - 1]
        if abs(moved - sign * size) > 1e-9 * size + 3 * np.spacing(tried[n]):
            fail(f"{what}: from {kinds[n - 1]!r} at {tried[n - 1]!r} to "
                 f"{tried[n]!r}, not by {sign * size!r}", key="step")
    if turned is None and len(tried) > c.search + 1:
        fail(f"{what}: {len(tried)} attempts without turning, with "
             f"{c.search} allowed", key="search steps")
    ulp = 3 * np.spacing(abs(target) + step)
    final = run.final_solution if c.keep or isinstance(
        run.final_solution, Solution) else None
    if isinstance(got, SolverError):
        if c.fails == len(calls) - 1:
            return ["failed"] if turned else None
        if not unsolvable(solved[-1][0].solution_input, kinds[-1], step):
            fail(f"{what}: {got!r}", key="error")
        return None
    if not c.keep:
        if isinstance(run.final_solution, Solution) or got is not True:
            fail(f"{what}: {got!r}, final solution {run.final_solution!r}",
                 key="not kept")
        return ["not kept"] if turned else None
    if kinds[-1] == "best":
        if got is not True or final is not solved[-1][0]:
            fail(f"{what}: found it, {got!r}, {final!r}", key="found")
        return ["found"] if turned else None
    if got:
        if final is not solved[-1][0] or kinds[-1] not in ABOVE or (
            abs(tried[-1] - target) > ulp
        ):
            fail(f"{what}: stopped at {tried[-1]!r} with {final!r}",
                 key="limit")
        return ["limit"]
    if final is not None:
        fail(f"{what}: nothing found but {final!r}", key="nothing")
    # all attempts used up, or never turned
    if len(tried) < c.num and not (turned is None and len(tried) > c.search):
        if turned is None or len(tried) <= c.search:
            fail(f"{what}: gave up after {len(tried)}", key="gave up")
    return ["narrowed"] if turned else None


def unsolvable(inp, kind, step):
    """Whether a further step has no initial conditions."""
    return any(
        not conditions_exist(inp, inp.γ + (-1 if kind in ABOVE else 1) * s)
        for s in step * 0.5 ** np.arange(60)
    )


def conditions_exist(inp, γ):
    new = type(inp)(**{**plain(inp), "γ": γ})
    try:
        define_conditions(new)
    except SolverError:
        return False
    return True


Split = namedtuple("Split", ["profile", "cutoff", "problems"])


@relation(
    st.builds(
        Split, profile=profiles.profiles(st.integers(1, 14)),
        cutoff=st.sampled_from([0.9, 0.9, 0.5, 0.99]),
        problems=st.one_of(st.none(), st.none(), st.lists(st.sampled_from([
            "negative velocity", "negative density", "invalid values",
        ]), min_size=1, max_size=3)),
    ), quick=500, thorough=20000, rule="comes near the sound speed",
)
def splitting(case):
    """Which way the solution is missed."""
    soln = profiles.build(case.profile)
    v = soln.solution[:, VT]
    if case.problems is not None:
        soln.internal_data = internal(case.problems)
        if "negative velocity" not in case.problems:
            return None
        want = "sign flip"
    else:
        near = [x for x in v if case.cutoff < x < 1]
        # never came close, or turned back on the way
        if not near:
            want = "sign flip"
        elif max(v) > 1:
            want = "diverge"
        else:
            want = "diverge" if all(
                b >= a for a, b in zip(near, near[1:])) else "sign flip"
    got = stepper.v_θ_deriv_splitter(soln, cutoff=case.cutoff)
    if got != stepper.SplitterStatus(want):
        fail(f"{got!r}, not {want!r}, for v_θ={v!r}, cutoff={case.cutoff!r}, "
             f"problems {case.problems!r}", key="kind")
    return bool(any(case.cutoff < x < 1 for x in v)) or None


def internal(names):
    problems = Problems()
    for n, name in enumerate(names):
        problems[n / 100].append(name)
    data = InternalData()
    data.problems = problems
    data.derivs = np.zeros((3, 11))
    return data


Cross = namedtuple("Cross", [
    "v", "peak", "broken", "num", "slope", "stop", "steps", "internal",
])


@relation(
    st.builds(
        Cross, v=mag(-1, 0.5).map(lambda x: sig(x, 5)), peak=flt(-5, 8),
        # v_r further than this from the start can not be solved
        broken=st.one_of(st.none(), st.integers(0, 4)),
        num=st.sampled_from([20, 30, 1]), slope=flt(-0.5, 0.5),
        stop=st.sampled_from([90, 60]), steps=st.sampled_from([900, 50]),
        internal=st.booleans(),
    ), quick=60, thorough=2000, cost=6,
    rule="something could be solved",
)
def crossing(case):
    """The fast crosser, around its two solvers."""
    c = case
    step = 0.01 * c.v
    peak = c.v + c.peak * step
    start = gens.soln_input(
        gens.Mid(0.01, c.v, 1.0, 0.05, 0.1, 0.1, 0.1, True),
        split_method="v_θ_deriv",
    )
    log = []

    def solvable(inp):
        return c.broken is None or abs(
            inp.v_rin_on_c_s - c.v) < (c.broken + 0.5) * step

    def target(inp):
        return 0.01 * (1.2 + c.slope * (inp.v_rin_on_c_s / c.v - 1))

    def solve(inp, cons, *, store_internal, where):
        log.append((where, plain(inp)))
        if store_internal != c.internal:
            fail("whether to store internal data is not passed on",
                 key="internal")
        if not solvable(inp):
            raise SolverError("planned")
        if not same_conditions(cons, inp):
            fail(f"solved {inp!r} from {cons!r}", key="conditions")
        soln = made(
            inp, cons, "diverge" if inp.γ >= target(inp) else "flip")
        if where == "single":
            soln.angles = soln.angles * (
                1 - abs(inp.v_rin_on_c_s - peak) / c.v)
        return soln

    run = new_run()
    before = plain(start)
    with silent(), mock.patch.object(
        stepper, "solution", lambda *a, **k: solve(*a, where="step", **k),
    ), mock.patch.object(
        single, "solution", lambda *a, **k: solve(*a, where="single", **k),
    ):
        got = fast_crosser.solver(
            start, run, store_internal=c.internal, num_attempts=c.num,
            final_stop=c.stop, final_steps=c.steps,
        )
    if plain(start) != before:
        fail(f"the input changed from {before!r} to {start!r}", key="changed")
    what = f"crossing from {c.v!r} by {step!r}, best at {peak!r}"
    # attempts with their inflows
    attempts = []
    for where, d in log:
        if not attempts or attempts[-1][0] != d["v_rin_on_c_s"] or (
            attempts[-1][2]
        ):
            attempts.append((d["v_rin_on_c_s"], [], []))
        attempts[-1][1 if where == "step" else 2].append(d)
    for v, steps, lasts in attempts:
        for d in steps:
            if {**d, "v_rin_on_c_s": 0, "γ": 0} != {
                **before, "v_rin_on_c_s": 0, "γ": 0,
            }:
                fail(f"{what}: stepped with {d!r}", key="stepped with")
        if not lasts:
            continue
        # the last of the steps, as far as can be
        want = {**steps[-1], "stop": c.stop, "num_angles": c.steps}
        if lasts != [want]:
            fail(f"{what}: finished with {lasts!r}, not {want!r}",
                 key="finished")
        aim = 0.01 * (1.2 + c.slope * (v / c.v - 1))
        if abs(steps[-1]["γ"] - aim) > 1e-9:
            fail(f"{what}: γ={steps[-1]['γ']!r} is not at {aim!r}, for "
                 f"{v!r}", key="γ")
    inflows = [a[0] for a in attempts]
    if inflows[0] != c.v:
        fail(f"{what}: starts at {inflows[0]!r}", key="start")
    if len(inflows) > 1 and not 0 < abs(inflows[1] - c.v) < 0.1 * c.v:
        fail(f"{what}: goes on with {inflows[1]!r}", key="first step")
    if len(inflows) > c.num:
        fail(f"{what}: {len(inflows)} attempts of {c.num}", key="number")
    # everything solved is written, repeats aside
    written = [plain(s.solution_input) for s in run.solutions.values()]
    want = [d for _, d in log if solvable(start.__class__(**d))]
    if unrepeated(written) != unrepeated(want):
        fail(f"{what}: wrote {len(written)} of {len(want)}", key="written")
    if not want:
        if got or isinstance(run.final_solution, Solution):
            fail(f"{what}: {got!r} with nothing solved", key="none")
        return None
    if not got or run.final_solution is not run.solutions.get_last_solution():
        fail(f"{what}: {got!r}, {run.final_solution!r}", key="final")
    if run.final_solution.solution_input.stop != c.stop:
        fail(f"{what}: final solution is not followed to the end",
             key="final stop")
    return ["some"]


def unrepeated(dicts):
    return [
        d for n, d in enumerate(dicts) if n == 0 or d != dicts[n - 1]
    ]


Root = namedtuple("Root", [
    "seed", "rows", "θ", "slopes", "bad", "γ", "internal", "iterations",
])


@relation(
    st.builds(
        Root, seed=st.integers(0, 2 ** 20), rows=st.integers(3, 8),
        θ=flt(0.02, 0.5).map(lambda x: sig(x, 4)),
        slopes=st.sampled_from([0, 0.01, 0.3]),
        bad=st.one_of(st.none(), st.integers(1, 6).flatmap(
            lambda n: st.tuples(st.just(n), st.sampled_from(
                ["error", "nan", "empty", "negative"])))),
        γ=mag(-3, -1).map(lambda x: sig(x, 4)),
        internal=st.sampled_from(
            ["both", "none", "midplane", "sonic"]),
        iterations=st.integers(1, 60),
    ), quick=150, thorough=5000, cost=3,
    rule="solutions from the sonic point were compared",
)
def sonic_roots(case):
    """Matching solutions from the midplane and the sonic point."""
    c = case
    rng = np.random.default_rng(c.seed)
    inp = gens.soln_input(
        gens.Mid(c.γ, 1.0, 1.0, 0.05, 0.1, 0.1, 0.1, True),
        iterations=c.iterations, target_velocity=0.9,
    )
    # from the midplane, slowing down a little before the sonic point
    angles = np.linspace(0, 0.9 * c.θ, c.rows)
    mid = np.ones((c.rows, 11))
    for i in range(11):
        mid[:, i] = (1 + rng.uniform()) * (
            1 + rng.uniform(-0.2, 0.2) * angles / c.θ)
    mid[:, VT] = np.linspace(0, 0.9, c.rows)
    mid[:, phys.RHO] = np.exp(-np.linspace(0, 1, c.rows))
    slopes = c.slopes * rng.uniform(-1, 1, 11)
    calls, mods, sonics = [], [], []

    def solve(soln_input, cons, *, store_internal, **kw):
        calls.append(kw)
        if soln_input is not inp:
            fail("solved something else", key="input")
        if len(calls) == 1:
            check_stop(kw)
            a, p, stored = angles, mid, c.internal in ("both", "midplane")
            flag = StatusEnum.ROOT_RETURN
        else:
            if kw.get("with_taylor") is not False:
                fail("sonic point taken for the midplane", key="taylor")
            mod = kw["modified_initial_conditions"]
            check_sonic_start(mod, cons, angles[-1])
            mods.append(mod)
            stored = c.internal in ("both", "sonic")
            a, flag = mod.angles[:c.rows], StatusEnum.SUCCESS
            a = np.linspace(mod.angles[0], mod.angles[-1], c.rows)
            p = mod.init_con + (a - a[0])[:, None] * slopes
            kind = c.bad[1] if c.bad and c.bad[0] == len(calls) - 1 else None
            if kind == "error" or np.max(np.abs(mod.init_con)) > 1e50 or (
                abs(a[0]) > 1e50
            ):
                raise SolverError("planned")
            if kind == "nan":
                p[-1, 3] = np.nan
            if kind == "negative":
                p[-1, phys.RHO] = -1
            if kind == "empty":
                a, p = a[:0], p[:0]
            sonics.append((a.copy(), p.copy(), kind))
        return Solution(
            solution_input=soln_input, initial_conditions=cons, flag=flag,
            coordinate_system="c", angles=a, solution=p, t_roots=None,
            y_roots=None, sonic_point=None, sonic_point_values=None,
            internal_data=data(len(calls)) if stored else None,
        )

    run = new_run()
    with silent(), np.errstate(all="ignore"), \
            mock.patch.object(sonic_root, "solution", solve):
        got = sonic_root.solver(inp, run, store_internal=True)
    stored = [run.solutions[str(n)] for n in range(len(run.solutions))]
    if len(stored) != len(sonics) + 1 or not np.array_equal(
        stored[0].solution, mid
    ):
        fail(f"{len(stored)} solutions of {len(sonics) + 1}", key="written")
    for s, (a, p, _) in zip(stored[1:], sonics):
        if not np.array_equal(
            s.angles, np.concatenate((angles, a[::-1]))
        ) or not np.array_equal(
            s.solution, np.concatenate((mid, p[::-1])), equal_nan=True,
        ):
            fail("solutions from both sides are not joined", key="joined")
        n = {"both": 2, "none": 0}.get(c.internal, 1)
        rows = 0 if s.internal_data is None else len(s.internal_data.params)
        if rows != 2 * n:
            fail(f"internal data has {rows} rows, not {2 * n}",
                 key="internal")
    if run.final_solution is not stored[-1]:
        fail("the final solution is not the last", key="final")
    # first guess is where the velocity extrapolates to the sonic point
    first = mods[0] if mods else None
    if first is not None:
        d = mid[-1] - mid[-2]
        want = mid[-1] + d * (0.1 / d[VT])
        for i in (0, 1, 2, 3, 4):
            if abs(first.init_con[i] - want[i]) > 1e-9:
                fail(f"first guess {first.init_con[i]!r} of component {i} is "
                     f"not {want[i]!r}", key="guess")
        slope = np.log(mid[-1, phys.RHO] / mid[-2, phys.RHO]) / d[VT]
        ρ = mid[-1, phys.RHO] * np.exp(slope * 0.1)
        if abs(first.init_con[phys.RHO] / ρ - 1) > 1e-9:
            fail("first guess of the density", key="guess ρ")
        if abs(first.angles[0] - c.θ) > 1e-9:
            fail(f"first guess of the angle {first.angles[0]!r}, not "
                 f"{c.θ!r}", key="guess θ")
    if got:
        a, p, kind = sonics[-1]
        off = [p[-1, i] - mid[-1, i] for i in range(6)]
        if kind is not None or max(np.abs(off)) > 1e-4 or abs(
            p[-1, phys.RHO] / mid[-1, phys.RHO] - 1
        ) > 1e-4:
            fail(f"says it found a match, off by {off!r}", key="match")
        return ["matched"]
    return ["not matched"] if sonics else None


def check_stop(kw):
    out = np.zeros(1)
    p = np.zeros(11)
    p[VT] = 0.9
    kw["root_func"](0.1, p, out)
    if out[0] != 0 or kw["root_func_args"] != 1:
        fail("does not stop at the target velocity", key="stop")


def check_sonic_start(mod, cons, stop):
    if mod.init_con[VT] != 1:
        fail("does not start at the sonic point", key="sonic")
    if mod.angles[-1] != stop:
        fail(f"goes to {mod.angles[-1]!r}, not {stop!r}", key="stop angle")
    if mod.init_con is cons.init_con or cons.init_con[VT] != 0:
        fail("conditions at the midplane were changed", key="changed")


def data(n):
    d = InternalData()
    for name in ("derivs", "params"):
        setattr(d, name, np.full((2, 11), float(n)))
    for name in ("angles", "v_r_normal", "v_φ_normal", "ρ_normal",
                 "v_r_taylor", "v_φ_taylor", "ρ_taylor"):
        if hasattr(d, name):
            setattr(d, name, np.full(2, float(n)))
    d.problems = Problems()
    return d
