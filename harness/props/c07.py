# -*- coding: utf-8 -*-
"""C07: crossing the sonic point continues the solution, or is refused."""
from collections import namedtuple

import numpy as np
from hypothesis import strategies as st
from scipy.interpolate import make_interp_spline

import gens
import phys
import solving
from engine import relation, fail
from solving import SolverError

from disc_solver.solve.utils import (
    velocity_stop_generator, onroot_continue,
)

ASSUMPTIONS = [
    "real sonic points are hard to hit with random inputs: the requested "
    "distances before and after are chosen so that 1 - before is a velocity "
    "the solution reaches",
    "crossings whose threshold is never reached are excluded",
    "θ_scale = 1",
]
Cross = namedtuple("Cross", [
    "c", "frac", "gain", "slice", "by_default", "past",
])
slices = st.sampled_from([
    slice(None), slice(-60, -1), slice(-200, None), slice(-1000, -100),
    slice(-40, -5),
])
by_default = st.sampled_from([False, False, False, True])
short = lambda x: gens.sig(x, 4)  # noqa: E731
crossings = st.builds(
    Cross, c=solving.cases(("full",), num=st.integers(6, 20)),
    frac=gens.flt(0.05, 0.7).map(short),
    gain=gens.flt(0.01, 0.5).map(short), slice=slices,
    by_default=by_default, past=st.none(),
)
# real ones: from below the sonic point to above it
real_crossings = st.builds(
    Cross, c=solving.near_sonic(), frac=gens.flt(0.5, 0.97).map(short),
    gain=st.just(0), slice=slices, by_default=by_default,
    past=gens.flt(0.02, 0.6).map(short),
)
any_crossings = st.one_of(crossings, real_crossings)


def attempt(inp, **kw):
    try:
        return solving.solve("full", inp, **kw)
    except SolverError as e:
        if "Taylor solver" in str(e) or "Insufficient angles" in str(e):
            return None
        raise


def prepared(x, rtol=1e-7):
    """
    (plain solution, velocity at which to cross, velocity after, the solution
    stopped at that velocity)
    """
    c = x.c
    inp = solving.make_input(c, relative_tolerance=rtol)
    plain = attempt(inp, store_internal=False)
    if plain is None or len(plain.angles) < 5:
        return None
    v = plain.solution[:, phys.VT]
    rising = np.all(np.diff(v[2:]) >= 0)
    if not rising or not np.all(np.isfinite(plain.solution)):
        return None
    # somewhere inside the stepped part, clear of its ends
    lo, hi = v[3], v[-1]
    if not hi > lo * 1.05 > 0:
        return None
    at = lo + (hi - lo) * x.frac
    before = 1 - at
    at = 1 - before
    after = at * (1 + x.gain) - 1 if x.past is None else x.past
    if x.by_default:
        after = None
    # so close to the singularity a root is not located well
    if at > 0.97:
        return None
    stopped = attempt(
        inp, root_func=velocity_stop_generator(at), root_func_args=1,
    )
    if stopped is None or int(stopped.flag) != 2:
        return None
    return plain, at, before, after, stopped


def check_prefix(soln, stopped, at):
    n = len(stopped.angles)
    if len(soln.angles) < n or not np.array_equal(
        soln.angles[:n], stopped.angles
    ) or not np.array_equal(soln.solution[:n], stopped.solution):
        fail("solution before the crossing is changed by asking for it")
    if len(stopped.t_roots) != 1 or not np.isclose(
        stopped.y_roots[0, phys.VT], at, rtol=1e-3, atol=0
    ):
        fail("stops at {}, asked for v_θ = {}".format(stopped.y_roots, at))
    if soln.flag != stopped.flag:
        fail("flag {!s} instead of {!s}".format(soln.flag, stopped.flag))
    if not (
        np.array_equal(soln.t_roots, stopped.t_roots)
        and np.array_equal(soln.y_roots, stopped.y_roots)
    ):
        fail("roots are {}, not {}".format(soln.t_roots, stopped.t_roots))
    if not soln.t_roots[0] >= soln.angles[n - 1]:
        fail("root at {}, solution up to {}".format(
            soln.t_roots, soln.angles[n - 1]
        ))
    return n


def requested(inp):
    return np.linspace(
        np.radians(inp.start), np.radians(inp.stop), inp.num_angles
    )


def is_prefix(a, want):
    return len(a) <= len(want) and np.allclose(
        a, want[:len(a)], rtol=1e-12, atol=1e-14
    )


def defects(rhs, a, s):
    """Largest defect of the pieces of s, and how many there were."""
    scale = np.max(np.abs(s), axis=0) + 1e-6
    worst, done = 0, 0
    for i in range(len(a) - 1):
        if a[i + 1] - a[i] < 1e-12 or not (
            1e-6 < s[i, phys.VT] < 0.9 or s[i, phys.VT] > 1.02
        ):
            continue
        try:
            end = solving.reference(rhs, a[i], s[i], a[i + 1], calls=1500)
        except solving.Budget:
            continue
        worst = max(worst, np.max(np.abs(end - s[i + 1]) / scale))
        done += 1
    return worst, done


@relation(
    any_crossings, quick=90, thorough=3000,
    rule="jump taken and integration continued over at least one grid point",
    cost=8,
)
def jump(x):
    """Unchanged before, extrapolated across, integrated after."""
    ready = prepared(x)
    if ready is None:
        return None
    plain, at, before, after, stopped = ready
    rhs_inp = solving.make_input(x.c)
    rhs = solving.rhs_of("full", rhs_inp)
    y, θ = stopped.y_roots[0], stopped.t_roots[0]
    flag, d = rhs(θ, y)
    dθ = (before + (before if after is None else after)) / d[phys.VT]
    inp = solving.make_input(
        x.c, relative_tolerance=1e-7, jump_before_sonic=before,
        after_sonic=after,
    )
    grid = requested(inp)
    if flag or not np.all(np.isfinite(d)) or θ + dθ >= grid[-1]:
        return None
    out = {}
    for store in (True, False):
        soln = out[store] = attempt(inp, store_internal=store)
        if soln is None:
            # no requested angle left to integrate to
            if np.sum(grid > θ + dθ * (1 + 1e-9)) >= 1:
                fail("crossing refused with grid points left")
            return None
        n = check_prefix(soln, stopped, at)
        if len(soln.angles) == n:
            return None
        if not np.isclose(soln.angles[n], θ + dθ, rtol=1e-9):
            fail("goes on from {}, the jump leads to {}".format(
                soln.angles[n], θ + dθ
            ))
        want = y + d * dθ
        if not np.allclose(soln.solution[n], want, rtol=1e-9, atol=1e-12):
            fail("goes on from {}, the jump leads to {}".format(
                soln.solution[n], want
            ))
        v_after = soln.solution[n, phys.VT]
        if not np.isclose(
            v_after, 1 + (before if after is None else after), rtol=1e-4,
        ):
            fail("v_θ after the jump is {}".format(v_after))
        rest = grid[grid > soln.angles[n] + 1e-12]
        if not is_prefix(soln.angles[n + 1:], rest):
            fail("after the jump on {}, requested {}".format(
                soln.angles[n + 1:], rest
            ))
    if not np.array_equal(out[True].solution, out[False].solution):
        fail("crossing depends on whether internal data is stored")
    tail = out[True].angles[n:], out[True].solution[n:]
    if x.by_default:
        return ["default distance"]
    worst, done = defects(rhs, *tail)
    if worst > 1e-2:
        # stiff: only the tight solution tells
        tight = attempt(solving.make_input(
            x.c, relative_tolerance=1e-10, absolute_tolerance=1e-13,
            max_steps=50000, jump_before_sonic=before, after_sonic=after,
        ))
        if tight is None:
            return None
        m = int(np.argmin(np.abs(tight.angles - out[True].angles[n])))
        rest, done = defects(rhs, tight.angles[m:], tight.solution[m:])
        if rest > 1e-2 and rest > worst / 10:
            fail("after the jump the derivatives are not followed")
    internal = out[True].internal_data
    if not np.array_equal(
        internal.params[:len(stopped.internal_data.params)],
        stopped.internal_data.params,
    ) or len(internal.angles) != len(internal.derivs):
        fail("internal data does not start with that before the jump")
    after_angles = internal.angles[len(stopped.internal_data.angles):]
    if len(after_angles) and not np.isclose(
        after_angles[0], θ + dθ, rtol=1e-9
    ):
        fail("internal data after the jump starts at {}".format(
            after_angles[0]
        ))
    label = ["jump"] if x.past is None else ["jump", "sonic point crossed"]
    return label if done or x.past is not None else None


@relation(
    any_crossings, quick=90, thorough=3000,
    rule="crossing interpolated and integration continued after it", cost=8,
)
def interpolated(x):
    """v_θ' is the interpolated one across, the equations' own after."""
    ready = prepared(x)
    if ready is None:
        return None
    plain, at, before, after, stopped = ready
    inp = solving.make_input(
        x.c, relative_tolerance=1e-7, sonic_interp_size=before,
        after_sonic=after, interp_slice=x.slice,
    )
    data = stopped.internal_data
    pairs = {}
    for θ, d in zip(data.angles[x.slice], data.derivs[x.slice]):
        pairs.setdefault(θ, []).append(d[phys.VT])
    soln = attempt(inp)
    if soln is None:
        return None
    n = check_prefix(soln, stopped, at)
    if len(pairs) < 4 or not all(np.isfinite(v).all() for v in pairs.values()):
        if len(pairs) < 4 and len(soln.angles) != n:
            fail("crossed without data to interpolate")
        return None
    xs = sorted(pairs)
    spline = make_interp_spline(xs, [max(pairs[k]) for k in xs], k=3)
    θ = stopped.t_roots[0]
    a, s = soln.angles[n:], soln.solution[n:]
    if not len(a):
        return None
    if a[0] != θ or not np.array_equal(s[0], stopped.y_roots[0]):
        fail("goes on from {}, reached {}".format(a[0], θ))
    # the part up to the velocity asked for, and the rest
    target = 1 + (before if after is None else after)
    reached = np.flatnonzero(np.isclose(
        s[:, phys.VT], target, rtol=1e-6, atol=0,
    ))
    # where the interpolation leads to, up to the velocity asked for
    integral = spline.antiderivative()

    def leads_to(angle):
        return s[0, phys.VT] + integral(angle) - integral(θ)

    dense = np.linspace(θ, max(requested(inp)[-1], a[-1]), 2000)
    # a negative v_θ is refused, and a small one too sensitive to compare
    led = leads_to(dense)
    over = np.flatnonzero((led >= target) | (led < 0.1 * s[0, phys.VT]))
    end = dense[max(0, over[0] - 1)] if len(over) else dense[-1]
    # noisy data make the interpolation too sensitive to compare
    size = np.max(np.abs([max(pairs[k]) for k in xs]))
    probe = spline(np.linspace(θ, end, 50))
    if np.max(np.abs(probe)) > 10 * size:
        return None
    for k in range(len(a)):
        want = leads_to(a[k])
        if a[k] < end and abs(s[k, phys.VT] - want) > 1e-3 * (
            abs(want) + abs(target)
        ):
            fail("v_θ at {} while crossing is {}, interpolating leads to {}"
                 .format(a[k], s[k, phys.VT], want))
    # the same in what was recorded while crossing
    there = soln.internal_data
    for k in range(len(data.angles), len(there.angles)):
        if there.angles[k] >= end:
            break
        if abs(
            there.derivs[k, phys.VT] - spline(there.angles[k])
        ) > 1e-5 * size:
            fail("v_θ' at {} while crossing is {}, interpolated {}".format(
                there.angles[k], there.derivs[k, phys.VT],
                spline(there.angles[k]),
            ))
    if not len(reached):
        # how well a root is located depends on the tolerances
        if np.any(np.isclose(s[:, phys.VT], target, rtol=1e-2, atol=0)):
            return None
        if len(over) and led[over[0]] >= target and int(soln.flag) >= 0:
            after_it = dense[min(over[0] + 1, len(dense) - 1)]
            if np.sum(requested(inp) > after_it) >= 2 and np.any(
                a >= after_it
            ) and leads_to(after_it) > target * 1.01:
                fail("interpolates past v_θ = {}".format(target))
        return None
    j = reached[0]
    rest = requested(inp)
    rest = rest[rest > a[j] + 1e-12]
    m = j + 1
    while m < len(a) and np.isclose(a[m], a[j], rtol=0, atol=1e-12):
        if not np.allclose(s[m], s[j], rtol=1e-6, atol=1e-10):
            fail("goes on after the crossing from another state")
        m += 1
    if not is_prefix(a[m:], rest):
        fail("after the crossing on {}, requested {}".format(a[m:], rest))
    if m == len(a):
        return None
    rhs = solving.rhs_of("full", solving.make_input(x.c))
    worst, done = defects(rhs, a[m - 1:], s[m - 1:])
    if worst > 1e-2:
        tight = solving.make_input(
            x.c, relative_tolerance=1e-10, absolute_tolerance=1e-13,
            max_steps=50000,
        )
        ic = solving.initial("full", tight)
        try:
            again = solving.full.solution(
                tight, ic, with_taylor=False, store_internal=False,
                modified_initial_conditions=type(
                    "ic", (), {"angles": a[m - 1:], "init_con": s[m - 1]},
                ),
            )
        except SolverError:
            return None
        worst_tight, done = defects(rhs, again.angles, again.solution)
        if worst_tight <= 1e-2 or worst_tight < worst / 10:
            return None
        fail("after the crossing the derivatives are not followed")
    if len(soln.internal_data.angles) <= len(data.angles):
        fail("internal data of the crossing is missing")
    if not np.array_equal(
        soln.internal_data.params[:len(data.params)], data.params
    ):
        fail("internal data does not start with that before the crossing")
    label = ["interpolated"]
    if x.past is not None:
        label.append("sonic point crossed")
    return label if done or x.past is not None else None


ROOT = dict(root_func=velocity_stop_generator(0.5), root_func_args=1)
BAD = {
    "root_func and jump": (dict(jump_before_sonic=0.1), ROOT),
    "onroot_func and jump": (
        dict(jump_before_sonic=0.1), dict(onroot_func=onroot_continue),
    ),
    "two sonic methods": (
        dict(jump_before_sonic=0.1, sonic_interp_size=0.1), {},
    ),
    "interp and root_func": (dict(sonic_interp_size=0.1), ROOT),
    "interp without internal data": (
        dict(sonic_interp_size=0.1), dict(store_internal=False),
    ),
    "root_func without size": ({}, dict(root_func=ROOT["root_func"])),
}


@relation(
    crossings, quick=30, thorough=1000, rule="default distance jumped",
    cost=3,
)
def default_distance(x):
    """Where only the distance before is given, it is that after as well."""
    x = x._replace(by_default=False, c=x.c._replace(use_taylor_jump=True))
    ready = prepared(x)
    if ready is None:
        return None
    plain, at, before, after, stopped = ready
    y, θ = stopped.y_roots[0], stopped.t_roots[0]
    flag, d = solving.rhs_of("full", solving.make_input(x.c))(θ, y)
    dθ = 2 * before / d[phys.VT]
    if flag or not np.all(np.isfinite(d)) or dθ > 1e6:
        return None
    # far away, on a grid that reaches there
    inp = solving.make_input(
        x.c, relative_tolerance=1e-7, jump_before_sonic=before,
    )
    inp.stop = float(np.degrees(2 * (θ + dθ)))
    inp.num_angles = 4
    soln = attempt(inp, store_internal=False)
    # the first step, and with it the root, depends on the grid
    if soln is None or soln.t_roots is None:
        return None
    y, θ = soln.y_roots[0], soln.t_roots[0]
    flag, d = solving.rhs_of("full", inp)(θ, y)
    dθ = 2 * before / d[phys.VT]
    if flag or not np.all(np.isfinite(d)) or soln.angles[-1] <= θ:
        return None
    i = int(np.argmin(np.abs(soln.angles - (θ + dθ))))
    if not np.isclose(soln.angles[i], θ + dθ, rtol=1e-6):
        fail("goes on at {}, the jump leads to {}".format(
            soln.angles, θ + dθ
        ))
    if not np.isclose(soln.solution[i, phys.VT], 1 + before, rtol=1e-4):
        fail("v_θ after the jump is {}, the distance before was {}".format(
            soln.solution[i, phys.VT], before
        ))
    return ["default"]


@relation(
    st.tuples(
        solving.cases(("full",)), st.sampled_from(sorted(BAD)),
        st.sampled_from([1, 0.01, 3.0]),
    ),
    quick=60, thorough=1000, rule="combination of options that cannot work",
)
def refused(case):
    """Options that exclude one another are a solver error."""
    c, what, factor = case
    fields, args = BAD[what]
    inp = solving.make_input(c._replace(use_taylor_jump=True), **{
        k: v * factor for k, v in fields.items()
    })
    try:
        soln = solving.solve("full", inp, **args)
    except SolverError as e:
        if "Insufficient" in str(e):
            return None
        return what
    fail("{} accepted, flag {!s}".format(what, soln.flag))


@relation(
    st.builds(
        Cross, c=solving.cases(
            ("full", "full", "hydrostatic", "mod_hydro"),
            num=st.integers(6, 20),
        ), frac=gens.flt(0.05, 0.95).map(lambda x: gens.sig(x, 4)),
        gain=st.just(0), slice=st.none(), by_default=st.booleans(),
        past=st.none(),
    ), quick=40, thorough=1500, rule="stopped at the requested velocity",
    cost=4,
)
def stops_at_velocity(x):
    """A velocity to stop at is met, and what was there before is kept."""
    c = x.c
    if c.mode == "hydrostatic":
        c = c._replace(use_E_r=False)
    inp = solving.make_input(c)
    try:
        plain = solving.solve(c.mode, inp, store_internal=False)
    except SolverError:
        return None
    # in the hydrostatic modes there is no v_θ: stop at a density instead
    i = phys.VT if c.mode == "full" else phys.RHO
    v = plain.solution[:, i]
    if len(v) < 5 or not np.all(np.isfinite(v)):
        return None
    change = np.diff(v[2:])
    if not (np.all(change > 0) or np.all(change < 0)):
        return None
    at = v[3] + (v[-1] - v[3]) * x.frac

    def root(θ, params, out):
        out[0] = at - params[i]
        return 0

    kw = dict(
        root_func=velocity_stop_generator(at) if i == phys.VT else root,
        root_func_args=1, store_internal=False,
    )
    soln = solving.solve(c.mode, inp, **kw)
    if int(soln.flag) != 2:
        fail("passes {} from {} to {} without stopping".format(
            phys.NAMES[i], v[3], v[-1]
        ))
    n = len(soln.angles)
    if not np.array_equal(soln.angles[:n], plain.angles[:n]):
        fail("grid before the root changed")
    if not np.array_equal(soln.solution[:n], plain.solution[:n]):
        same = np.allclose(soln.solution[:n], plain.solution[:n], rtol=1e-6)
        if not same and not (c.mode == "mod_hydro" and c.use_E_r):
            fail("solution before the root changed")
    if len(soln.t_roots) != 1 or not np.isclose(
        soln.y_roots[0, i], at, rtol=1e-4, atol=1e-9
    ):
        fail("stopped at {} instead of {} = {}".format(
            soln.y_roots, phys.NAMES[i], at
        ))
    if not plain.angles[n - 1] <= soln.t_roots[0] <= plain.angles[n]:
        fail("stopped outside the interval of the root")
    return [c.mode]
