# -*- coding: utf-8 -*-
"""C17: searches find what they claim to find, and stop."""
import math
from collections import namedtuple

import numpy as np
from hypothesis import strategies as st

from engine import relation, fail
import gens
from gens import flt, mag, sig

from disc_solver.solve import fast_crosser, stepper
from disc_solver.solve.stepper import SplitterStatus, StepperError, StepperStop
from disc_solver.utils import (
    deduplicate_and_interpolate, first_closest_index,
    get_closest_value_sorted, interp_for_value, is_monotonically_increasing,
)

ASSUMPTIONS = [
    "values not in order are searched from the start; unknown values (NaN) "
    "come before the others, as they do where a ratio is not defined at the "
    "midplane",
]
# few distinct values, so that they repeat and are hit exactly
VALUE = st.one_of(
    st.integers(-3, 3).map(float), st.integers(-3, 3).map(lambda x: x / 2),
    flt(-3, 3), mag(-12, -1), st.sampled_from([math.inf, -math.inf]),
)


# ------------------------------------------------------------------- lookups

def first_passage(ys, y):
    """Index of the first value at or on the other side of y."""
    known = [i for i, v in enumerate(ys) if not math.isnan(v)]
    if not known:
        return None
    side = ys[known[0]] > y
    for i in known:
        if ys[i] == y or (ys[i] > y) != side:
            return i
    return None


Lookup = namedtuple("Lookup", ["ys", "nans", "y", "pick", "seed"])


@relation(
    st.builds(
        Lookup, ys=st.lists(VALUE, min_size=1, max_size=12).map(tuple),
        nans=st.sampled_from([0, 0, 0, 1, 2]), y=VALUE,
        pick=st.one_of(st.none(), st.integers(0, 11)),
        seed=st.integers(0, 10 ** 6),
    ), quick=1500, thorough=60000,
    rule="the value is passed after the first row",
)
def passages(case):
    ys = [math.nan] * case.nans + list(case.ys)
    y = case.y if case.pick is None else case.ys[case.pick % len(case.ys)]
    want = first_passage(ys, y)
    arr = np.array(ys)
    index = first_closest_index(arr, y)
    if (index is None) != (want is None) or (
        want is not None and int(index) != want
    ):
        fail(f"{y!r} is first passed in {ys!r} at {want!r}, not {index!r}",
             key="index")
    rng = np.random.default_rng(case.seed)
    xs = np.cumsum(rng.uniform(0.1, 1, len(ys)))
    if case.seed % 2:
        xs = xs[::-1].copy()
    if want is not None and want and (
        math.isinf(ys[want]) or math.isinf(ys[want - 1])
    ):
        return None  # nothing to interpolate
    with np.errstate(invalid="ignore"):
        x = interp_for_value(xs=xs, ys=arr, y=y)
    what = f"{ys!r} at {xs!r} takes the value {y!r} at"
    if want is None:
        if x is not None:
            fail(f"{what} {x!r}, it never does", key="interp none")
        return None
    if x is None:
        fail(f"{what} no place, but does at row {want}", key="interp absent")
    if ys[want] == y:
        if x != xs[want]:
            fail(f"{what} {x!r}, not {xs[want]!r}", key="interp exact")
    else:
        lo, hi = sorted((xs[want - 1], xs[want]))
        if not lo <= x <= hi:
            fail(f"{what} {x!r}, not between {lo!r} and {hi!r}",
                 key="interp where")
        t = (y - ys[want - 1]) / (ys[want] - ys[want - 1])
        line = xs[want - 1] + t * (xs[want] - xs[want - 1])
        known = 1e-9 + 1e-14 * (abs(y) + abs(ys[want])) / abs(
            ys[want] - ys[want - 1])
        if abs(x - line) > known * (hi - lo) + 1e-12:
            fail(f"{what} {x!r}, not {line!r}", key="interp where")
    return (["exact" if ys[want] == y else "between"] + (
        ["after NaN"] if case.nans else [])) if want else None


@relation(
    st.tuples(
        st.lists(VALUE.filter(math.isfinite), min_size=1, max_size=10).map(
            lambda l: tuple(sorted(l))),
        st.one_of(VALUE.filter(math.isfinite), st.integers(0, 20)),
        st.integers(0, 10 ** 6),
    ), quick=1500, thorough=60000,
    rule="between two rows, not equally far from both",
)
def closest_value(case):
    xs, x, seed = case
    if isinstance(x, int):  # around the rows and half way between them
        i = x // 2 % len(xs)
        x = xs[i] if x % 2 else (xs[i] + xs[(i + 1) % len(xs)]) / 2
    ys = np.random.default_rng(seed).permutation(len(xs)) + 0.5
    arr = np.array(xs)
    try:
        got = get_closest_value_sorted(xs=arr, ys=ys, x=x)
    except IndexError:
        if x <= xs[-1]:
            fail(f"no value in {xs!r} near {x!r}", key="refused")
        return None
    if x > xs[-1]:
        # what follows trajectories relies on this to know it left the disc
        fail(f"{x!r} is beyond {xs!r}, but gave {got!r}", key="beyond")
    away = np.abs(arr - x)
    near = ys[away <= away.min() * (1 + 1e-12) + 1e-15]
    if got not in near:
        fail(f"{x!r} in {xs!r} gave {got!r} of {ys!r}, closest are {near!r}",
             key="closest")
    return (0 < away.min() and len(near) == 1 and x > xs[0]) or None


@relation(
    st.tuples(
        st.lists(st.tuples(VALUE, VALUE).filter(
            lambda t: all(map(math.isfinite, t))), min_size=2, max_size=10
        ).map(tuple), st.lists(flt(0, 1), max_size=4).map(tuple),
        st.booleans(),
    ).filter(lambda t: len({x for x, _ in t[0]}) > 1),
    quick=500, thorough=20000, rule="some abscissae are repeated",
)
def interpolation_of_repeated_points(case):
    """As values met more than once while integrating, and in any order."""
    points, at, rising = case
    xs, ys = (np.array(v) for v in zip(*points))
    increasing = bool(np.all(ys[1:] >= ys[:-1]))
    if bool(is_monotonically_increasing(ys)) != increasing:
        fail(f"{ys!r} is called {'not ' * increasing}increasing",
             key="monotonic")
    if rising:
        xs = np.sort(xs)
    f = deduplicate_and_interpolate(xs, ys)
    values = {}
    for x, y in zip(xs, ys):
        values.setdefault(float(x), []).append(float(y))
    for x, options in values.items():
        got = float(f(x))
        if min(abs(got - y) for y in options) > 1e-9 * (1 + abs(got)):
            fail(f"interpolation of {points!r} gives {got!r} at {x!r}",
                 key="points")
    keys = sorted(values)
    for t in at:
        x = min(keys[0] + t * (keys[-1] - keys[0]), keys[-1])
        i = min(max(np.searchsorted(keys, x), 1), len(keys) - 1)
        lo, hi = keys[i - 1], keys[i]
        if hi - lo < 1e-6:
            continue
        y0, y1 = float(f(lo)), float(f(hi))
        want = y0 + (y1 - y0) * (x - lo) / (hi - lo)
        if abs(float(f(x)) - want) > 1e-6 * (1 + abs(y0) + abs(y1)):
            fail(f"interpolation of {points!r} gives {float(f(x))!r} at "
                 f"{x!r}, not {want!r}", key="between")
    return len(keys) < len(points) or None


# ----------------------------------------------------------------- searching

OUTCOME = st.sampled_from(
    ["fail"] * 8 + ["pass", "error", "stop"])


@relation(
    st.tuples(st.lists(OUTCOME, max_size=12).map(tuple), st.integers(1, 12)),
    quick=500, thorough=10000, rule="more than one attempt",
)
def attempts(case):
    """Each attempt is made with what the one before asked for."""
    outcomes, num = case
    log = []

    def outcome(i):
        return outcomes[i] if i < len(outcomes) else "fail"

    def func(inp):
        log.append(("func", inp))
        return ("out", inp), outcome(inp) == "pass"

    def passed(out, attempt):
        log.append(("pass", out, attempt))
        return "passed"

    def failed(out, attempt):
        log.append(("fail", out, attempt))
        if outcome(attempt) == "error":
            raise StepperError("no")
        if outcome(attempt) == "stop":
            raise StepperStop("end")
        return attempt + 1

    def final(attempt):
        log.append(("final", attempt))
        return "final"

    got = stepper.binary_searcher(
        func, passed, failed, final, 0, num_attempts=num)
    want, result = [], None
    for i in range(num):
        want.append(("func", i))
        if outcome(i) == "pass":
            want.append(("pass", ("out", i), i))
            result = "passed"
            break
        want.append(("fail", ("out", i), i))
        if outcome(i) == "error":
            break
        if outcome(i) == "stop":
            want.append(("final", i))
            result = "final"
            break
    if log != want:
        fail(f"outcomes {outcomes!r} in {num} attempts: {log!r}, not "
             f"{want!r}", key="order")
    if got != result:
        fail(f"outcomes {outcomes!r} gave {got!r}, not {result!r}",
             key="result")
    return len([x for x in want if x[0] == "func"]) > 1 or None


class Attempt:
    """What a search sees of a solution."""
    def __init__(self, inp, angles=None):
        self.solution_input = inp
        self.angles = angles


def plain(inp):
    return {k: v for k, v in vars(inp).items()}


Bisection = namedtuple("Bisection", [
    "γ", "target", "fraction", "max_search", "num", "on_grid",
])


@relation(
    st.builds(
        Bisection, γ=mag(-4, 0),
        # steps away; whether on one of the values which get tried
        target=flt(-9, 30), fraction=st.sampled_from([0.1, 0.1, 0.05, 0.3]),
        max_search=st.integers(1, 25), num=st.integers(1, 120),
        on_grid=st.booleans(),
    ), quick=300, thorough=10000, rule="the search was narrowed down",
)
def bisection(case):
    """Stepping finds where solutions stop flipping and start diverging."""
    step = case.fraction * case.γ
    target = case.γ + step * (
        round(case.target * 4) / 4 if case.on_grid else case.target)
    tried, inputs = [], []

    def func(inp):
        tried.append(inp.γ)
        inputs.append((inp, plain(inp)))
        return Attempt(inp), False

    def kind(soln):
        γ = soln.solution_input.γ
        return (
            SplitterStatus.DIVERGE if γ > target else SplitterStatus.SIGN_FLIP)

    written = []
    limit = []
    start = gens.soln_input(gens.Mid(
        case.γ, 1.0, 1.0, 0.05, 0.1, 0.1, 0.1, True))
    got = stepper.binary_searcher(
        func, None, stepper.stepper_creator(
            lambda soln, attempt: written.append((soln, attempt)),
            stepper.step_input(), kind, initial_step_size=step,
            max_search_steps=case.max_search,
        ), lambda attempt: limit.append(attempt) or "limit", start,
        num_attempts=case.num,
    )
    what = f"search from {case.γ!r} by {step!r} for {target!r}"
    if len(tried) > case.num:
        fail(f"{what}: {len(tried)} attempts of {case.num}", key="number")
    if [a for _, a in written] != list(range(len(tried))) or any(
        s.solution_input is not i for (s, _), (i, _) in zip(written, inputs)
    ):
        fail(f"{what}: attempts {written!r} are not those made", key="written")
    for n, (inp, then) in enumerate(inputs):
        if plain(inp) != then:
            fail(f"{what}: attempt {n} was made with γ={then['γ']!r}, its "
                 f"input now says {inp.γ!r}", key="changed")
        if {**then, "γ": 0} != {**plain(start), "γ": 0}:
            fail(f"{what}: attempt {n} changed {then!r}", key="others")
    above = [γ > target for γ in tried]
    switch = next(
        (i for i, a in enumerate(above) if a != above[0]), None)
    first = len(tried) if switch is None else switch + 1
    # steps of one size until the other kind of solution
    sign = -1 if above[0] else 1
    for i in range(first):
        if abs(tried[i] - (case.γ + sign * i * step)) > 1e-12 * case.γ:
            fail(f"{what}: tried {tried!r}", key="steps")
    if switch is None or switch >= case.max_search:
        if len(tried) > case.max_search + 1:
            fail(f"{what}: {len(tried)} steps, at most {case.max_search}",
                 key="max search")
        if len(tried) < min(case.num, case.max_search + 1):
            fail(f"{what}: gave up after {len(tried)} of {case.num} "
                 f"attempts, {case.max_search} steps", key="gave up")
        if got is not None:
            fail(f"{what}: {got!r} though nothing was found", key="found")
        return None
    # then halved each time
    ulp = np.spacing(abs(target)) * 2
    for n, γ in enumerate(tried[switch:]):
        if abs(γ - target) > step / 2 ** n * (1 + 1e-9) + 3 * ulp:
            fail(f"{what}: {γ!r} after halving {n} times, of {tried!r}",
                 key="halving")
    if got == "limit":
        if abs(tried[-1] - target) > 3 * ulp or not above[-1]:
            fail(f"{what}: ended at {tried[-1]!r}", key="limit")
    elif len(tried) < case.num:
        fail(f"{what}: gave up at {tried[-1]!r}", key="gave up")
    return ["limit" if got == "limit" else "narrowed"]


Golden = namedtuple("Golden", ["v", "peak", "power", "skew", "num"])


@relation(
    st.builds(
        Golden, v=mag(-1.5, 0.5), peak=flt(-40, 60),
        power=st.sampled_from([1, 1, 2, 0.5]), skew=mag(-1, 1),
        num=st.integers(100, 200),
    ), quick=300, thorough=10000, rule="the best was between the limits",
)
def golden_section(case):
    """The fast crosser finds the inflow for which solutions go furthest."""
    step = 0.01 * case.v
    peak = case.v + case.peak * step

    def quality(v):
        d = abs(v - peak) / case.v
        return 10 - d ** case.power * (case.skew if v > peak else 1)

    inputs = []

    def func(inp):
        inputs.append((inp, plain(inp)))
        # what is solved in the end is given another grid
        tail = type(inp)(**plain(inp))
        tail.stop, tail.num_angles = 90, 900000
        return Attempt(
            tail, np.array([0, quality(inp.v_rin_on_c_s), np.nan])), False

    start = gens.soln_input(gens.Mid(
        0.1, case.v, 1.0, 0.05, 0.1, 0.1, 0.1, True))
    written = []
    got = stepper.binary_searcher(
        func, None, fast_crosser.stepper_creator(
            lambda soln, attempt: written.append((
                soln, plain(soln.solution_input))),
            step_size=step, solution_input=start,
        ), lambda attempt: "limit", start, num_attempts=case.num,
    )
    tried = [then["v_rin_on_c_s"] for _, then in inputs]
    what = f"search from {case.v!r} by {step!r} for {peak!r}: {tried!r}"
    for n, (inp, then) in enumerate(inputs):
        if plain(inp) != then:
            fail(f"{what}: the input of attempt {n} changed", key="changed")
        if {**then, "v_rin_on_c_s": 0} != {**plain(start), "v_rin_on_c_s": 0}:
            fail(f"{what}: attempt {n} was made with {then!r}", key="others")
    for n, (soln, then) in enumerate(written):
        if plain(soln.solution_input) != then:
            fail(f"{what}: solution {n} was made with {then!r}, it now says "
                 f"{soln.solution_input!r}", key="changed")
    if [s["v_rin_on_c_s"] for _, s in written] != tried:
        fail(f"{what}: wrote {written!r}", key="written")
    if len(tried) > case.num:
        fail(f"{what}: {len(tried)} attempts", key="number")
    at = [quality(v) for v in tried]
    improved = {0}
    # up while it improves, then down while it improves
    n = 1
    limits = {}
    for name, sign in (("max", 1), ("min", -1)):
        v, best = tried[0], at[0]
        while n < len(tried):
            if abs(tried[n] - (v + sign * step)) > 1e-9 * step:
                fail(f"{what}: looking for the {name}, attempt {n}",
                     key="limits")
            n += 1
            if at[n - 1] <= best:
                break
            v, best = tried[n - 1], at[n - 1]
            improved.add(n - 1)
        limits[name] = v
    lo, hi = limits["min"], limits["max"]
    if lo == hi:
        if got is not None or n != len(tried):
            fail(f"{what}: {got!r}, with nothing better than the start",
                 key="no limits")
        return None
    inside = tried[n:]
    if any(not lo - 1e-9 * step <= v <= hi + 1e-9 * step for v in inside):
        fail(f"{what}: not all between the limits {lo!r} and {hi!r}",
             key="inside")
    if got is None and len(tried) < case.num:
        fail(f"{what}: gave up", key="gave up")
    if got == "limit" and len(inside) < 25:
        fail(f"{what}: ended between {lo!r} and {hi!r} after {len(inside)} "
             "sections", key="too early")
    # what the limits allow, as well as 60 sections and rounding allow
    if len(inside) < 60:
        return ["few"]
    best = min(max(peak, lo), hi)
    tol = (hi - lo) * 0.63 ** (min(len(inside), 60) - 2) + 2e-6 * case.v
    if abs(inside[-1] - best) > tol:
        fail(f"{what}: ended at {inside[-1]!r}, between {lo!r} and {hi!r} "
             f"{best!r} is best", key="best")
    return ["inside" if lo < peak < hi else "at a limit"]
