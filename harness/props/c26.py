# -*- coding: utf-8 -*-
"""C26: which solutions are valid, which are best, and their ranking."""
import io
from collections import namedtuple
from pathlib import Path

import numpy as np
from hypothesis import strategies as st
from scikits.odes.sundials.cvode import StatusEnum

import figures
import phys
import profiles
from engine import relation, fail
from gens import flt
from storage import opened, scratch_dir

ASSUMPTIONS = ["profiles hold no NaN"]

FLAGS = (0, 0, 0, 0, 1, 2, 99, -1, -4, -27)
CUTOFF = 0.9

Touch = namedtuple("Touch", ["what", "row", "size"])
Case = namedtuple("Case", [
    "profile", "flag", "as_enum", "touches", "through_file", "approach",
])


def touches():
    return st.builds(
        Touch, st.sampled_from([
            "v negative", "v dips", "v flat", "v zero", "v minus zero",
            "ρ negative", "ρ zero", "other", "v is cutoff", "v is one",
        ]), st.integers(0, 60),
        flt(-16, 0).map(lambda x: float("%.3g" % 10 ** x)))


cases = st.builds(
    Case, profiles.profiles(
        rows=st.integers(1, 30), kinds=("rising",) * 3 + profiles.KINDS),
    st.sampled_from(FLAGS), st.booleans(),
    st.lists(touches(), max_size=2), st.booleans(),
    # how the velocity goes to the sound speed, if it does
    st.sampled_from([None, None, "slowing", "speeding", "straight", "bump"]),
)


def make(case):
    soln = profiles.build(case.profile._replace(
        rows=max(case.profile.rows, 2)))
    p = soln.solution
    n = len(p)
    if case.approach is not None:
        x = np.linspace(0, 1, n)
        level = min(case.profile.level, 1.2)
        p[:, phys.VT] = level * {
            "slowing": np.sqrt(x), "speeding": x ** 2, "straight": x,
            "bump": x + 0.3 * np.sin(6 * x) / 6,
        }[case.approach]
    for t in case.touches:
        i = t.row % n
        if t.what == "v negative":
            p[i, phys.VT] = -t.size
        elif t.what == "v dips" and i:
            p[i, phys.VT] = p[i - 1, phys.VT] - t.size
        elif t.what == "v flat" and i:
            p[i, phys.VT] = p[i - 1, phys.VT]
        elif t.what == "v zero":
            p[:i + 1, phys.VT] = 0.0
        elif t.what == "v minus zero":
            p[0, phys.VT] = -0.0
        elif t.what == "ρ negative":
            p[i, phys.RHO] = -t.size
        elif t.what == "ρ zero":
            p[i, phys.RHO] = 0.0
        elif t.what == "other":
            p[i, [phys.BR, phys.BP, phys.VR, phys.VP, phys.X7]] *= -1
        elif t.what == "v is cutoff":
            p[i, phys.VT] = CUTOFF
        elif t.what == "v is one":
            p[i:, phys.VT] = np.maximum(p[i:, phys.VT], 1.0)
    if case.profile.rows == 1:
        soln.solution, soln.angles = p[:1], soln.angles[:1]
    flag = case.flag
    if case.as_enum and not case.through_file:
        try:
            flag = StatusEnum(flag)
        except ValueError:
            pass
    soln.flag = flag
    return soln


def physical(soln):
    v = [float(x) for x in soln.solution[:, phys.VT]]
    ρ = [float(x) for x in soln.solution[:, phys.RHO]]
    return (
        int(soln.flag) == 0 and all(x >= 0 for x in v)
        and all(x >= 0 for x in ρ) and all(a <= b for a, b in zip(v, v[1:]))
    )


def near_sonic(soln):
    return [
        float(x) for x in soln.solution[:, phys.VT] if CUTOFF < x < 1
    ]


def best(soln):
    """True, False, or None if it is a matter of rounding"""
    if not physical(soln):
        return False
    v = near_sonic(soln)
    if not v:
        return False
    unclear = False
    for a, b, c in zip(v, v[1:], v[2:]):
        gain = (c - b) - (b - a)
        if abs(gain) <= 4e-16:
            unclear = unclear or gain != 0
        elif gain > 0:
            return False
    return None if unclear else True


@relation(
    cases, quick=900, thorough=60000, cost=1,
    rule="the flag says success",
)
def validity(case):
    """A solution is valid, or the best there is, when its contents say so."""
    from disc_solver.solve.stepper import is_solution_best
    from disc_solver.solve.utils import validate_solution
    soln = make(case)
    if case.through_file:
        with scratch_dir() as d:
            path = Path(d) / "a.hdf5"
            with opened(str(path), "x") as f:
                f["run"] = figures.make_run([soln])
            with opened(str(path), "r") as f:
                return judge(
                    case, f["run"].solutions["0"], soln, validate_solution,
                    is_solution_best)
    return judge(case, soln, soln, validate_solution, is_solution_best)


def judge(case, soln, wanted, validate_solution, is_solution_best):
    before = np.array(soln.solution)
    got, valid = validate_solution(soln)
    if got is not soln:
        fail("it is another solution which is returned", key="other")
    if bool(valid) != physical(wanted):
        fail(f"valid: {valid}, with flag {wanted.flag!r}, "
             f"v_θ {wanted.solution[:, phys.VT].tolist()!r} and "
             f"ρ {wanted.solution[:, phys.RHO].tolist()!r}", key="valid")
    got, is_best = is_solution_best(soln)
    if got is not soln:
        fail("it is another solution which is returned", key="other")
    want = best(wanted)
    if want is not None and bool(is_best) != want:
        fail(f"best: {is_best}, with flag {wanted.flag!r} and "
             f"v_θ {wanted.solution[:, phys.VT].tolist()!r}", key="best")
    if not np.array_equal(before, soln.solution):
        fail("the solution was changed", key="changed")
    if int(wanted.flag) != 0:
        return None
    return ["valid" if valid else "invalid", "best" if is_best else "",
            "near sonic" if near_sonic(wanted) else ""]


Ranking = namedtuple("Ranking", ["profiles", "order", "group"])


@relation(
    st.builds(
        Ranking, st.lists(
            profiles.profiles(rows=st.integers(2, 12)), min_size=1,
            max_size=12),
        st.randoms(use_true_random=False).map(lambda r: r.randrange(2 ** 20)),
        st.booleans(),
    ), quick=80, thorough=3000, cost=15, rule="more than two solutions",
)
def ranking(case):
    """Solutions are listed from the least to the most likely one."""
    from disc_solver.analyse.info import info, sort_solutions
    from disc_solver.solve.mcmc import get_logprob_of_soln
    solutions = [profiles.build(c) for c in case.profiles]
    order = np.random.default_rng(case.order).permutation(len(solutions))
    likely = [float(get_logprob_of_soln(s)) for s in solutions]
    with scratch_dir() as d:
        for arrangement in (range(len(solutions)), order):
            path = Path(d) / "a.hdf5"
            run = figures.make_run([solutions[i] for i in arrangement])
            if case.group:
                with opened(str(path), "w") as f:
                    f["run"] = run
                out = io.StringIO()
                info(str(path), group="solutions", soln_range=None,
                     output_file=out)
                names = out.getvalue().split()
            else:
                pairs = sort_solutions(run.solutions)
                names = [n for n, _ in pairs]
                for n, p in pairs:
                    want = likely[arrangement[int(n)]]
                    if abs(p - want) > 1e-12 * abs(want):
                        fail(f"{n} has a likelihood of {p!r}, not {want!r}",
                             key="likelihood")
            if sorted(names) != sorted(
                str(i) for i in range(len(solutions))
            ):
                fail(f"{names!r} are ranked, of {len(solutions)}", key="names")
            ranked = [likely[arrangement[int(n)]] for n in names]
            if any(b < a for a, b in zip(ranked, ranked[1:])):
                fail(f"the order is {names!r}, of likelihoods {ranked!r}",
                     key="order")
    return ["info" if case.group else "function"] if len(
        solutions) > 2 else None
