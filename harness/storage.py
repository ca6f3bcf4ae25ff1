# -*- coding: utf-8 -*-
"""
Generated contents of output files, and a strict comparison of them.

A case is made of plain values only (tuples, strings, numbers); `build_*` turn
it into the objects of the code under test.
"""
import os
import shutil
import sys
import tempfile
import warnings
from contextlib import contextmanager

import attr
import numpy as np
from hypothesis import strategies as st

from gens import flt, sig

NUMERIC_TEXT = st.one_of(
    st.integers(-3, 100000).map(str),
    flt(-10, 10).map(lambda x: repr(sig(x, 6))),
    flt(-14, 3).map(lambda e: repr(sig(10 ** e, 5))),
    st.sampled_from(["0", "1e-3", "5/4", "1/3", ".5", "-2.5E-7"]),
)
POSITIVE_INT_TEXT = st.integers(0, 10 ** 6).map(str)
TEXT = st.one_of(
    st.text(
        st.characters(min_codepoint=0x20, max_codepoint=0x3c9,
                      blacklist_categories=("Cs", "Cc", "Cn")),
        max_size=12,
    ),
    st.sampled_from(["default", "", "None", "η_test", "a b", "x/y", "#1"]),
)
FLOAT = st.one_of(
    flt(-10, 10), flt(-300, 300).map(lambda e: 10.0 ** e),
    st.sampled_from([0.0, -0.0, 1.0, 5e-324, 1e-6]),
)
WEIRD = st.one_of(FLOAT, st.sampled_from([
    float("nan"), float("inf"), float("-inf"),
]))
BOOL_TEXT = st.sampled_from(["True", "False", "true", "no", "1", "0"])
SPLITS = ("v_θ_deriv",)
MCMC_TEXT = st.sampled_from([
    "v_r,v_a,v_k", "v_r", "v_a", "v_k", "v_r,v_a", "v_k,v_r", "v_a,v_k",
])
SLICE_TEXT = st.one_of(
    st.tuples(st.integers(-5000, 5000), st.integers(-5000, 5000)).map(
        lambda t: "%d,%d" % t),
    st.tuples(
        st.integers(-5000, 5000), st.integers(-5000, 5000),
        st.integers(1, 50)).map(lambda t: "%d,%d,%d" % t),
    st.integers(-5000, 5000).map(str),
)


def optional(s):
    return st.one_of(st.none(), s)


def fixed(**kw):
    """A dictionary strategy giving sorted (name, value) pairs."""
    return st.fixed_dictionaries(kw).map(lambda d: tuple(d.items()))


CONFIG_FLOATS = (
    "start", "stop", "taylor_stop_angle", "relative_tolerance",
    "absolute_tolerance", "γ", "target_velocity", "v_rin_on_c_s",
    "v_a_on_c_s", "c_s_on_v_k", "η_O", "η_H", "η_A",
)
CONFIG_INTS = (
    "max_steps", "num_angles", "nwalkers", "iterations", "threads",
)
OPTIONAL_FLOATS = (
    "jump_before_sonic", "v_θ_sonic_crit", "after_sonic", "sonic_interp_size",
)

config_specs = fixed(
    **{name: NUMERIC_TEXT for name in CONFIG_FLOATS},
    **{name: POSITIVE_INT_TEXT for name in CONFIG_INTS},
    label=TEXT, split_method=st.sampled_from(SPLITS),
    η_derivs=BOOL_TEXT, use_taylor_jump=BOOL_TEXT, use_E_r=BOOL_TEXT,
    **{name: optional(st.one_of(NUMERIC_TEXT, st.just("None")))
       for name in OPTIONAL_FLOATS},
    mcmc_vars=optional(st.one_of(MCMC_TEXT, st.just("None"))),
    interp_range=st.one_of(POSITIVE_INT_TEXT, st.just("None")),
    interp_slice=st.one_of(SLICE_TEXT, st.just("None")),
)

MCMC = st.tuples(st.booleans(), st.booleans(), st.booleans())
SLICE = st.tuples(
    optional(st.integers(-5000, 5000)), optional(st.integers(-5000, 5000)),
    optional(st.integers(1, 50)),
)

input_specs = fixed(
    **{name: FLOAT for name in CONFIG_FLOATS},
    **{name: st.integers(0, 10 ** 6) for name in CONFIG_INTS},
    split_method=st.sampled_from(SPLITS),
    η_derivs=st.booleans(), use_taylor_jump=st.booleans(),
    use_E_r=st.booleans(),
    **{name: optional(st.one_of(FLOAT, st.just(0.0)))
       for name in OPTIONAL_FLOATS},
    mcmc_vars=optional(MCMC),
    interp_range=optional(st.integers(0, 10 ** 5)),
    interp_slice=optional(SLICE),
    # whether numbers are the solver's float type, or plain python ones
    numpy_floats=st.booleans(),
)

PROBLEM_TEXT = st.sampled_from([
    "negative density", "negative velocity", "cusp", "Überschall", "θ>5", "",
])
problem_specs = st.lists(
    st.tuples(
        # h5py names: a slash would mean a subgroup
        st.one_of(
            flt(0, 1).map(lambda x: repr(sig(x, 8))),
            st.sampled_from(["0", "a", "θ"]),
        ),
        st.lists(PROBLEM_TEXT, min_size=1, max_size=3).map(tuple),
    ), max_size=3, unique_by=lambda t: t[0],
).map(tuple)

# (seed, rows, special values): contents of an array
ARRAY = st.tuples(
    st.integers(0, 2 ** 16), st.integers(0, 6), st.lists(WEIRD, max_size=3),
).map(lambda t: (t[0], t[1], tuple(t[2])))

internal_specs = st.one_of(
    st.none(), st.just("empty"),
    fixed(
        main=ARRAY, jacobian=ARRAY, taylor=ARRAY, problems=problem_specs,
        as_lists=st.booleans(),
    ),
)

solution_specs = fixed(
    solution_input=input_specs, data=ARRAY,
    flag=st.integers(-12, 12),
    coordinate_system=st.sampled_from([
        "spherical midplane 0", "spherical", "cartesian",
    ]),
    internal=internal_specs,
    norm_kepler_sq=FLOAT, a_0=FLOAT, γ=FLOAT, initial=ARRAY,
    roots=optional(ARRAY), sonic_point=optional(ARRAY),
    derivatives=optional(ARRAY),
    is_post_shock_only=st.booleans(),
)

run_specs = fixed(
    config=config_specs, config_filename=optional(TEXT),
    disc_solver_version=st.sampled_from(["0.1", "1.0+5.gabc", "0+unknown"]),
    float_type=st.just("<class 'numpy.float64'>"),
    sonic_method=st.sampled_from([
        "single", "step", "mcmc", "sonic_root", "hydrostatic", "mod_hydro",
        "fast_crosser",
    ]),
    time=optional(st.integers(0, 10 ** 9)),
    use_E_r=st.booleans(), is_post_shock_only=st.booleans(),
    based_on_solution_filename=optional(TEXT),
    based_on_solution_solution_name=optional(TEXT),
    solutions=st.lists(solution_specs, min_size=1, max_size=3).map(tuple),
    final=st.integers(0, 2),
)


# ---------------------------------------------------------------- building

def array(spec, *shape):
    """The array a spec describes, with `rows` rows of the given shape."""
    seed, rows, special = spec
    rng = np.random.default_rng(seed)
    size = (rows,) + shape
    arr = rng.standard_normal(size) * 10.0 ** rng.integers(-8, 8, size)
    flat = arr.reshape(-1)
    for i, x in enumerate(special):
        if flat.size:
            flat[(seed + 7 * i) % flat.size] = x
    return arr


def build_config(spec):
    from disc_solver.file_format import ConfigInput
    return ConfigInput(**dict(spec))


def build_mcmc(spec):
    from disc_solver.file_format import MCMCVars
    if spec is None:
        return None
    return MCMCVars(
        with_v_r=spec[0], with_v_a=spec[1], with_v_k=spec[2])


def build_input(spec):
    from disc_solver.file_format import SolutionInput
    d = dict(spec)
    numpy_floats = d.pop("numpy_floats")
    if numpy_floats:
        for key, val in d.items():
            if isinstance(val, float):
                d[key] = np.float64(val)
    d["mcmc_vars"] = build_mcmc(d["mcmc_vars"])
    if d["interp_slice"] is not None:
        d["interp_slice"] = slice(*d["interp_slice"])
    return SolutionInput(**d)


def build_problems(spec):
    from disc_solver.file_format import Problems
    problems = Problems()
    for key, vals in spec:
        problems[key] = list(vals)
    return problems


def build_jacobian(spec, as_lists=False):
    from disc_solver.file_format._containers import JacobianData
    seed, rows, special = spec

    def arr(i, *shape):
        a = array((seed + i, rows, special), *shape)
        return list(a) if as_lists else a
    return JacobianData(
        jacobians=arr(1, 11, 11), derivs=arr(2, 11), params=arr(3, 11),
        angles=arr(4),
    )


def build_internal(spec):
    from disc_solver.file_format import InternalData
    if spec is None:
        return None
    if spec == "empty":
        return InternalData()
    d = dict(spec)
    seed, rows, special = d["main"]
    as_lists = d["as_lists"]

    def arr(i, *shape, taylor=False):
        s = d["taylor"] if taylor else d["main"]
        a = array((s[0] + i, s[1], s[2]), *shape)
        return list(a) if as_lists else a
    return InternalData(
        derivs=arr(1, 11), params=arr(2, 11), angles=arr(3),
        v_r_normal=arr(4), v_φ_normal=arr(5), ρ_normal=arr(6),
        v_r_taylor=arr(7, taylor=True), v_φ_taylor=arr(8, taylor=True),
        ρ_taylor=arr(9, taylor=True),
        jacobian_data=build_jacobian(d["jacobian"], as_lists),
        problems=build_problems(d["problems"]),
    )


def build_solution(spec):
    from disc_solver.file_format import Solution, InitialConditions
    d = dict(spec)
    seed, rows, special = d["data"]

    def opt(key, i, *shape):
        if d[key] is None:
            return None
        s = d[key]
        return array((s[0] + i, s[1], s[2]), *shape)

    init = array((d["initial"][0], 11, d["initial"][2]))
    init = np.where(np.isfinite(init), init, 1.0)
    return Solution(
        solution_input=build_input(d["solution_input"]),
        angles=array((seed, rows, ())), solution=array(
            (seed + 1, rows, special), 11),
        flag=d["flag"], coordinate_system=d["coordinate_system"],
        internal_data=build_internal(d["internal"]),
        initial_conditions=InitialConditions(
            norm_kepler_sq=d["norm_kepler_sq"], a_0=d["a_0"], γ=d["γ"],
            init_con=init, angles=array(d["initial"]),
        ),
        t_roots=opt("roots", 0), y_roots=opt("roots", 1, 11),
        sonic_point=opt("sonic_point", 0),
        sonic_point_values=opt("sonic_point", 1, 11),
        derivatives=opt("derivatives", 0, 11),
        is_post_shock_only=d["is_post_shock_only"],
    )


def build_run(spec):
    """The run without its solutions, which are returned separately."""
    from disc_solver.file_format import Run
    d = dict(spec)
    solutions = [build_solution(s) for s in d.pop("solutions")]
    final = d.pop("final") % len(solutions)
    d["config_input"] = build_config(d.pop("config"))
    return Run(**d), solutions, final


# --------------------------------------------------------------- comparing

def kind(x):
    if x is None:
        return "None"
    if isinstance(x, (bool, np.bool_)):
        return "bool"
    if isinstance(x, (int, np.integer)):
        return "int"
    if isinstance(x, (float, np.floating)):
        return "float"
    if isinstance(x, str):
        return "str"
    if isinstance(x, (list, np.ndarray)):
        return "array"
    if isinstance(x, slice):
        return "slice"
    return type(x).__name__


MISSING = object()


def difference(a, b, path=""):
    """
    The first place where two values differ, None if there is none.  `a` is
    what was stored, `b` what was read.
    """
    # pylint: disable=too-many-return-statements,too-many-branches
    ka, kb = kind(a), kind(b)
    if ka != kb:
        return f"{path}: {a!r} ({ka}) became {b!r} ({kb})"
    if ka == "None":
        return None
    if ka == "float":
        if np.float64(a).tobytes() == np.float64(b).tobytes() or (
            np.isnan(a) and np.isnan(b)
        ):
            return None
        return f"{path}: {a!r} became {b!r}"
    if ka in ("bool", "int", "str"):
        return None if a == b else f"{path}: {a!r} became {b!r}"
    if ka == "array":
        x, y = np.asarray(a), np.asarray(b)
        if x.shape != y.shape and not (x.size == 0 and y.size == 0):
            return f"{path}: shape {x.shape} became {y.shape}"
        if x.size and x.dtype != y.dtype:
            return f"{path}: type {x.dtype} became {y.dtype}"
        if x.size and not np.array_equal(x, y, equal_nan=x.dtype.kind == "f"):
            return f"{path}: {a!r} became {b!r}"
        return None
    if ka == "slice":
        return difference(
            (a.start, a.stop, a.step), (b.start, b.stop, b.step), path)
    if ka == "tuple":
        for i, (x, y) in enumerate(zip(a, b)):
            diff = difference(x, y, f"{path}[{i}]")
            if diff is not None:
                return diff
        return None if len(a) == len(b) else f"{path}: length"
    if ka in ("Problems", "Solutions"):
        if sorted(a) != sorted(b):
            return f"{path}: keys {sorted(a)} became {sorted(b)}"
        for key in sorted(a):
            x, y = a[key], b[key]
            if ka == "Problems":
                if list(x) != list(y):
                    return f"{path}[{key}]: {x!r} became {y!r}"
                continue
            diff = difference(x, y, f"{path}[{key}]")
            if diff is not None:
                return diff
        return None
    if attr.has(type(a)):
        for field in attr.fields(type(a)):
            diff = difference(
                getattr(a, field.name, MISSING),
                getattr(b, field.name, MISSING),
                f"{path}.{field.name}",
            )
            if diff is not None:
                return diff
        return None
    return f"{path}: do not know how to compare {type(a)}"


# -------------------------------------------------------------------- files

@contextmanager
def scratch_dir():
    """A directory which is removed afterwards, in memory where possible."""
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    path = tempfile.mkdtemp(prefix="ds-vp-", dir=base)
    try:
        yield path
    finally:
        shutil.rmtree(path, ignore_errors=True)


@contextmanager
def opened(path, mode):
    from h5preserve import open as h5open
    from disc_solver.file_format import registries
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with h5open(path, registries, mode=mode) as f:
            yield f


class Streams:
    """What was written to the standard output."""
    text = None


@contextmanager
def standard_streams(given=""):
    """
    Give the standard input and keep the standard output, whichever object the
    code under test knows them by.
    """
    streams = Streams()
    sys.stdout.flush()
    with tempfile.TemporaryFile("w+b") as source, \
            tempfile.TemporaryFile("w+b") as sink:
        source.write(given.encode("utf-8"))
        source.flush()
        os.lseek(source.fileno(), 0, os.SEEK_SET)
        old_in, old_out = os.dup(0), os.dup(1)
        try:
            os.dup2(source.fileno(), 0)
            os.dup2(sink.fileno(), 1)
            try:
                yield streams
            finally:
                sys.stdout.flush()
        finally:
            os.dup2(old_in, 0)
            os.dup2(old_out, 1)
            os.close(old_in)
            os.close(old_out)
        sink.seek(0)
        streams.text = sink.read().decode("utf-8")
