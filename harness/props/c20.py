# -*- coding: utf-8 -*-
"""C20: the Monte Carlo search weighs solutions and keeps the best."""
import contextlib
import io
import math
from collections import namedtuple
from unittest import mock

import numpy as np
from hypothesis import strategies as st

from engine import relation, fail
import gens
import phys
import storage
from gens import flt, mag, sig

from disc_solver.file_format import MCMCVars, Run, Solution
from disc_solver.solve import mcmc
from disc_solver.solve.config import define_conditions
from disc_solver.solve.utils import SolverError

ASSUMPTIONS = [
    "integrations are stand-ins whose outcome is a known function of the "
    "input, in whole searches",
]
VT = phys.VT
NAMES = {"r": "v_rin_on_c_s", "a": "v_a_on_c_s", "k": "c_s_on_v_k"}
CHOICES = st.one_of(
    st.none(), st.tuples(st.booleans(), st.booleans(), st.booleans()))


def wanted_names(chosen):
    chosen = (True,) * 3 if chosen is None else chosen
    return ["γ"] + [n for n, c in zip(NAMES.values(), chosen) if c]


def the_input(m, chosen, **kw):
    return gens.soln_input(
        m, mcmc_vars=None if chosen is None else MCMCVars(*chosen), **kw)


def plain(inp):
    return {
        k: tuple(vars(v).items()) if isinstance(v, MCMCVars) else v
        for k, v in vars(inp).items()
    }


@relation(
    st.tuples(
        gens.midplanes(), CHOICES, st.lists(
            st.one_of(mag(-6, 3), flt(-2, 2)), min_size=4, max_size=4),
        st.integers(2, 40), st.integers(0, 2 ** 20),
    ), quick=400, thorough=20000, rule="some but not all variables are varied",
)
def variables(case):
    """Only what is to be varied is, and it is all of what is walked over."""
    m, chosen, values, walkers, seed = case
    inp = the_input(m, chosen, nwalkers=walkers)
    before = plain(inp)
    names = wanted_names(chosen)
    if not all(before[n] for n in names):
        return None  # a spread relative to nothing
    enum = mcmc.generate_sysvars_enum(inp)
    if sorted(v.name for v in enum) != sorted(names) or sorted(
        int(v) for v in enum
    ) != list(range(len(names))):
        fail(f"{list(enum)!r} is varied with {chosen!r}", key="names")
    there = mcmc.solution_input_to_sys_vars(inp, enum)
    if {v.name: there[v] for v in enum} != {n: before[n] for n in names}:
        fail(f"{there!r} for {inp!r}", key="there")
    new = np.array(values[:len(names)])
    back = mcmc.sys_vars_to_solution_input(new, inp, enum)
    want = {**before, **{v.name: new[v] for v in enum}}
    if plain(back) != want:
        fail(f"{back!r} from {new!r} of {list(enum)!r}", key="back")
    if mcmc.solution_input_to_sys_vars(back, enum) != list(new):
        fail("no round trip", key="round trip")
    np.random.seed(seed)
    positions = np.asarray(mcmc.generate_initial_positions(inp, enum))
    if positions.shape != (walkers, len(names)):
        fail(f"{positions.shape!r} positions", key="shape")
    for v in enum:
        off = positions[:, v] / before[v.name] - 1
        # spread of a tenth
        if not np.all(np.abs(off) < 0.7) or len(set(off)) < walkers:
            fail(f"walkers start {off!r} off in {v.name}", key="spread")
        if walkers >= 20 and not 0.03 < np.std(off) < 0.3:
            fail(f"walkers start {off!r} off in {v.name}", key="spread")
    if len(names) > 1 and len(
        set(np.round(positions[0] / there, 12))
    ) < len(names):
        fail(f"variables of a walker move together: {positions[0]!r}",
             key="together")
    if plain(inp) != before:
        fail(f"the input was changed to {inp!r}", key="changed")
    return 1 < len(names) < 4 or None


def made(inp, cons, v):
    p = np.ones((len(v), 11))
    p[:, VT] = v
    return Solution(
        solution_input=inp, initial_conditions=cons, flag=0,
        coordinate_system="c", internal_data=None,
        angles=np.linspace(0, 0.1, len(v)), solution=p, t_roots=None,
        y_roots=None, sonic_point=None, sonic_point_values=None,
    )


@relation(
    st.tuples(
        st.lists(flt(0, 3), min_size=3, max_size=12), mag(-3, 0.5),
        mag(-2, 1), st.integers(0, 11),
    ), quick=300, thorough=10000, rule="the velocity is not a straight line",
)
def weights(case):
    """Faster is likelier, and so is smoother."""
    v, more, rough, i = case
    inp = gens.soln_input(gens.Mid(
        0.1, 1.0, 1.0, 0.05, 0.1, 0.1, 0.1, True))
    v = np.array(v)

    def logprob(values):
        return mcmc.get_logprob_of_soln(made(inp, None, values))
    p = logprob(v)
    if not p < 0 or not math.isfinite(p):
        fail(f"{p!r} for {v!r}", key="size")
    if logprob(v + more) - p < 0.5 * 10 * math.exp(-max(v)) * (
        1 - math.exp(-more)
    ) - 1e-9 * abs(p):
        fail(f"{v!r} more likely by {p - logprob(v + more)!r} than the same "
             f"{more!r} faster", key="faster")
    # same fastest, without the structure
    straight = np.linspace(v.max() - 0.1, v.max(), len(v))
    if logprob(straight) < p - 1e-9 * abs(p):
        fail(f"{v!r} more likely than {straight!r}", key="smoother")
    # more of the structure, as fast
    wild = v.max() - (v.max() - v) * (1 + rough)
    if logprob(wild) > p + 1e-9 * abs(p):
        fail(f"{wild!r} more likely than {v!r}", key="wilder")
    return bool(np.ptp(np.diff(v)) > 1e-3) or None


Hist = namedtuple("Hist", [
    "m", "chosen", "points", "internal", "existing",
])
KINDS = ["good", "good", "good", "error", "nan", "negative", "no conditions"]


@relation(
    st.builds(
        Hist, m=gens.midplanes(), chosen=CHOICES,
        points=st.lists(st.tuples(
            st.sampled_from(KINDS), st.sampled_from([0.5, 1.0, 2.0]),
            st.lists(flt(0, 3).map(lambda x: sig(x, 3)), min_size=3,
                     max_size=5),
        ), min_size=1, max_size=10), internal=st.booleans(),
        existing=st.integers(0, 2),
    ), quick=300, thorough=10000,
    rule="solved several times, with failures in between",
)
def probabilities(case):
    """Every solution counted is recorded, the best of them is kept."""
    inp = the_input(case.m, case.chosen)
    try:
        define_conditions(inp)
    except SolverError:
        return None
    if not inp.γ:
        return None
    before = plain(inp)
    enum = mcmc.generate_sysvars_enum(inp)
    run = new_run()
    for _ in range(case.existing):
        run.solutions.add_solution(made(inp, None, [9.0, 9.0, 9.0]))
    log = mcmc.LogProbGenerator(
        inp, run, store_internal=case.internal, sys_vars_enum=enum)
    if log.best_solution is not None:
        fail("best of none", key="none")
    expected = []
    kind, v = None, None

    def solve(new, cons, *, store_internal):
        want = {**before, **{x.name: at[x] for x in enum}}
        if plain(new) != want:
            fail(f"solved {new!r}, not {want!r}", key="input")
        if store_internal != case.internal:
            fail("whether to store internal data", key="internal")
        theirs = define_conditions(new)
        if not np.array_equal(theirs.init_con, cons.init_con):
            fail("not from its own conditions", key="conditions")
        if kind == "error":
            raise SolverError("planned")
        values = np.array(v)
        if kind == "nan":
            values[-1] = np.nan
        solved.append(made(new, cons, values))
        return solved[-1]

    def conditions(new):
        if kind == "no conditions":
            raise SolverError("planned")
        return real(new)

    real = mcmc.define_conditions
    for kind, scale, v in case.points:
        solved = []
        at = np.array(mcmc.solution_input_to_sys_vars(inp, enum)) * (
            1 + 1e-3 * scale)
        if kind == "negative":
            at[int(scale * 2) % len(at)] *= [-1, 0][len(v) % 2]
        if kind != "negative" and min(at) <= 0:
            continue
        try:
            define_conditions(mcmc.sys_vars_to_solution_input(at, inp, enum))
        except SolverError:
            if kind in ("good", "error", "nan"):
                continue
        with mock.patch.object(mcmc, "solution", solve), \
                mock.patch.object(mcmc, "define_conditions", conditions), \
                np.errstate(all="ignore"):
            got = log(at)
        if kind != "good":
            if got != -math.inf:
                fail(f"{kind} has the log probability {got!r}", key=kind)
            if kind in ("negative", "no conditions") and solved:
                fail(f"{kind} was solved", key="solved")
        else:
            want = mcmc.get_logprob_of_soln(solved[0])
            if got != want:
                fail(f"{got!r}, not {want!r}", key="value")
            expected.append((got, solved[0]))
        stored = [
            run.solutions[str(n)] for n in range(len(run.solutions))
        ][case.existing:]
        # what has no probability need not be kept
        stored = [s for s in stored if np.all(np.isfinite(s.solution))]
        if [id(s) for s in stored] != [id(s) for _, s in expected]:
            fail(f"{len(stored)} solutions recorded of {len(expected)}",
                 key="recorded")
        best = log.best_solution
        if not expected:
            if best is not None:
                fail(f"best of none is {best!r}", key="none")
        elif not any(
            s is best for p, s in expected
            if p == max(q for q, _ in expected)
        ):
            fail(f"best of {[p for p, _ in expected]!r} is "
                 f"{mcmc.get_logprob_of_soln(best)!r}", key="best")
    if plain(inp) != before:
        fail(f"the input was changed to {inp!r}", key="changed")
    return 1 < len(expected) < len(case.points) or None


Whole = namedtuple("Whole", [
    "m", "chosen", "walkers", "iterations", "seed", "limit", "peak",
])


@relation(
    st.builds(
        Whole, chosen=CHOICES, m=gens.midplanes().map(lambda m: m._replace(
            γ=m.γ + 0.001, η_O=m.η_O + 0.1)),
        walkers=st.sampled_from([8, 10]), iterations=st.integers(1, 6),
        seed=st.integers(0, 2 ** 20),
        # what is further off than this from where it starts fails
        limit=st.sampled_from([10, 10, 0.2, 0.1, 0.0]), peak=flt(-0.3, 0.3),
    ), quick=40, thorough=1000, cost=3,
    rule="some of the walks could be solved",
)
def searches(case):
    inp = the_input(
        case.m, case.chosen, nwalkers=case.walkers,
        iterations=case.iterations,
    )
    enum = mcmc.generate_sysvars_enum(inp)
    names = wanted_names(case.chosen)
    before = plain(inp)
    solved, tried = [], []

    def solve(new, cons, *, store_internal):
        off = [getattr(new, n) / before[n] - 1 for n in names]
        tried.append(plain(new))
        if max(map(abs, off)) > case.limit:
            raise SolverError("planned")
        v = 2 - sum((x - case.peak) ** 2 for x in off)
        solved.append(made(new, cons, np.linspace(0, v, 4)))
        return solved[-1]

    run = new_run()
    np.random.seed(case.seed)
    with mock.patch.object(mcmc, "solution", solve), \
            mock.patch("tqdm.std.tqdm.display", lambda *a, **k: None), \
            contextlib.redirect_stderr(io.StringIO()), \
            contextlib.redirect_stdout(io.StringIO()), \
            np.errstate(all="ignore"):
        mcmc.solver(inp, run, store_internal=True)
    if plain(inp) != before:
        fail(f"the input was changed to {inp!r}", key="changed")
    for d in tried:
        if {**d, **{n: 0 for n in names}} != {
            **before, **{n: 0 for n in names}
        }:
            fail(f"tried {d!r} from {before!r}, varying {names!r}",
                 key="others")
        if any(d[n] <= 0 for n in ["γ", *NAMES.values()]):
            fail(f"tried {d!r}", key="negative")
    if len(tried) > case.walkers * (case.iterations + 1):
        fail(f"tried {len(tried)}", key="number")
    stored = [run.solutions[str(n)] for n in range(len(run.solutions))]
    if [id(s) for s in stored] != [id(s) for s in solved]:
        fail(f"{len(stored)} solutions recorded of {len(solved)}",
             key="recorded")
    final = run.final_solution
    if not solved:
        if final is not None:
            fail(f"final solution of none is {final!r}", key="none")
        return None
    fastest = max(s.solution[-1, VT] for s in solved)
    if final is None or abs(final.solution[-1, VT] - fastest) > 1e-12:
        fail("final solution is not the best", key="best")
    return len(enum) > 0 or None


def new_run():
    from props.c19 import CONFIG
    return Run(
        config_input=storage.build_config(CONFIG), config_filename="a.cfg",
        disc_solver_version="1", float_type="float64", sonic_method="mcmc",
        use_E_r=False,
    )
