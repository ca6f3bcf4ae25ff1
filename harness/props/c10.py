# -*- coding: utf-8 -*-
"""
C10: configurations keep their meaning through files and conversions.
"""
import configparser
import contextlib
import io
import os
from collections import namedtuple
from fractions import Fraction
from pathlib import Path

from hypothesis import strategies as st

from engine import relation, fail
import storage
from storage import (
    build_config, build_input, difference, opened, scratch_dir,
    standard_streams,
    CONFIG_FLOATS, CONFIG_INTS, OPTIONAL_FLOATS,
)

# What each option is when a file does not give it, and its section
SECTIONS = {
    "config": {
        "start": "0", "stop": "5", "taylor_stop_angle": "0.001",
        "max_steps": "10000", "num_angles": "10000", "label": "default",
        "relative_tolerance": "1e-6", "absolute_tolerance": "1e-10",
        "jump_before_sonic": "None", "v_θ_sonic_crit": "None",
        "after_sonic": "None", "interp_range": "10",
        "sonic_interp_size": "None", "interp_slice": "-1000,-100",
        "η_derivs": "True", "nwalkers": "8", "iterations": "3",
        "threads": "1", "mcmc_vars": "v_r,v_a,v_k", "target_velocity": "0.9",
        "split_method": "v_θ_deriv", "use_taylor_jump": "True",
        "use_E_r": "False",
    },
    "initial": {
        "γ": "0.001", "v_rin_on_c_s": "1", "v_a_on_c_s": "1",
        "c_s_on_v_k": "0.03", "η_O": "0.001", "η_H": "0.0001",
        "η_A": "0.0005",
    },
}
DEFAULTS = {k: v for d in SECTIONS.values() for k, v in d.items()}
OPTIONS = sorted(DEFAULTS)
TRUE = {"True", "true", "1", "yes"}


def value_for(name):
    """Text for one option, as it would stand in a file."""
    if name == "label":
        return storage.TEXT.map(str.strip)
    if name in CONFIG_INTS or name == "interp_range":
        return storage.POSITIVE_INT_TEXT
    if name in ("η_derivs", "use_taylor_jump", "use_E_r"):
        return storage.BOOL_TEXT
    if name == "split_method":
        return st.sampled_from(storage.SPLITS)
    if name == "mcmc_vars":
        return st.one_of(storage.MCMC_TEXT, st.just("None"))
    if name == "interp_slice":
        return st.one_of(storage.SLICE_TEXT, st.just("None"))
    if name in OPTIONAL_FLOATS:
        return st.one_of(storage.NUMERIC_TEXT, st.just("None"))
    return storage.NUMERIC_TEXT


def some_options(max_size=len(OPTIONS)):
    return st.lists(
        st.sampled_from(OPTIONS).flatmap(
            lambda n: st.tuples(st.just(n), value_for(n))),
        max_size=max_size, unique_by=lambda t: t[0],
    ).map(tuple)


def normal(value):
    """An option given as nothing is an option not used."""
    return "None" if value == "" else value


EMPTY_IS_NONE = OPTIONAL_FLOATS + ("mcmc_vars", "interp_range", "interp_slice")


def expect_config(config, want, where):
    for name in OPTIONS:
        got = getattr(config, name)
        value = want[name]
        if name in EMPTY_IS_NONE:
            value = normal(value)
        if got != value:
            fail(f"{where}: {name} should be {value!r}, is {got!r}")


ConfFile = namedtuple("ConfFile", ["options", "overrides", "style", "given"])
conf_files = st.builds(
    ConfFile, some_options(),
    st.one_of(st.none(), some_options(max_size=4)),
    st.sampled_from(["{} = {}", "{}={}", "{}: {}", "{}   =  {}"]),
    st.booleans(),
)


def conf_text(options, style):
    lines = []
    for section, names in SECTIONS.items():
        inside = [(k, v) for k, v in options if k in names]
        if not inside:
            continue
        lines.append(f"[{section}]")
        lines.append("# a comment")
        for k, v in inside:
            lines.append(style.format(k, v.replace("%", "%%")))
        lines.append("")
    return "\n".join(lines)


@relation(conf_files, quick=400, cost=1)
def reading(case):
    """
    A file's options replace the defaults, overrides replace both, and nothing
    else changes.
    """
    from disc_solver.solve.config import get_input_from_conffile
    want = dict(DEFAULTS)
    path = None
    with scratch_dir() as d:
        if case.given:
            path = Path(d) / "in.cfg"
            path.write_text(
                conf_text(case.options, case.style), encoding="utf-8")
            want.update(dict(case.options))
        kw = {}
        if case.overrides is not None:
            kw["overrides"] = dict(case.overrides)
            want.update(dict(case.overrides))
        config = get_input_from_conffile(config_file=path, **kw)
    expect_config(config, want, "read")
    out = []
    if case.given and case.options:
        out.append("options")
    if case.overrides:
        out.append("overrides")
        if case.given and {k for k, _ in case.options} & {
            k for k, _ in case.overrides
        }:
            out.append("both")
    return out


full_options = st.fixed_dictionaries(
    {name: value_for(name) for name in OPTIONS}
).map(lambda d: tuple(d.items()))


def read_back(config):
    """Through a config file and back."""
    from disc_solver.solve.config import get_input_from_conffile
    with scratch_dir() as d:
        path = Path(d) / "out.cfg"
        with path.open("w", encoding="utf-8") as f:
            config.to_conf_file(f)
        # other programs have to be able to read it too
        parser = configparser.ConfigParser()
        parser.optionxform = str
        parser.read(path, encoding="utf-8")
        if parser["config"]["label"] != config.label:
            fail(f"label {config.label!r} was written as something else")
        return get_input_from_conffile(config_file=path)


@relation(full_options, quick=300, cost=1)
def writing(case):
    """A configuration that was read can be written and read again."""
    config = build_config(case)
    expect_config(read_back(config), dict(case), "written and read")
    expect_config(config, dict(case), "after writing")
    return [
        name for name, value in case if value != DEFAULTS[name]
        and name in ("label", "mcmc_vars", "interp_slice") + OPTIONAL_FLOATS
    ]


@relation(storage.config_specs, quick=200, cost=1)
def writing_partial(case):
    """So can one which leaves options open, as those from tables do."""
    d = dict(case)
    d["label"] = d["label"].strip()
    config = build_config(tuple(d.items()))
    back = read_back(config)
    want = {
        name: "None" if value is None else value for name, value in d.items()
    }
    expect_config(back, want, "written and read")
    return [name for name, value in d.items() if value is None]


def parsed_slice(text):
    if text in (None, "None"):
        return None
    if text.startswith("slice("):
        parts = text[len("slice("):-1].split(",")
        return slice(*(
            None if p.strip() == "None" else int(p) for p in parts))
    return slice(*(int(p) for p in text.split(",")))


def expect_input(inp, want, where):
    """`want`: option texts; `inp`: what the solver gets."""
    for name in CONFIG_FLOATS:
        value = float(Fraction(want[name]))
        got = getattr(inp, name)
        if storage.kind(got) != "float" or not (
            abs(got - value) <= 1e-15 * abs(value)
        ):
            fail(f"{where}: {name} = {want[name]} is {got!r} for the solver")
    for name in CONFIG_INTS:
        got = getattr(inp, name)
        if storage.kind(got) != "int" or got != int(want[name]):
            fail(f"{where}: {name} = {want[name]} is {got!r} for the solver")
    for name in OPTIONAL_FLOATS + ("interp_range",):
        text = want[name]
        got = getattr(inp, name)
        if text in (None, "None", ""):
            if got is not None:
                fail(f"{where}: {name} is not given, but {got!r} is used")
            continue
        value = float(Fraction(text))
        if storage.kind(got) != (
            "int" if name == "interp_range" else "float"
        ) or not abs(got - value) <= 1e-15 * abs(value):
            fail(f"{where}: {name} = {text} is {got!r} for the solver")
    for name in ("η_derivs", "use_taylor_jump", "use_E_r"):
        got = getattr(inp, name)
        if got is not (want[name] in TRUE):
            fail(f"{where}: {name} = {want[name]} is {got!r} for the solver")
    if inp.split_method != want["split_method"]:
        fail(f"{where}: split_method is {inp.split_method}")
    text = want["mcmc_vars"]
    if text in (None, "None", ""):
        if inp.mcmc_vars is not None:
            fail(f"{where}: mcmc_vars invented")
    else:
        names = text.split(",")
        got = tuple(bool(getattr(inp.mcmc_vars, f"with_{n}")) for n in (
            "v_r", "v_a", "v_k"))
        if got != tuple(n in names for n in ("v_r", "v_a", "v_k")):
            fail(f"{where}: mcmc_vars = {text} is {got}")
    if inp.interp_slice != parsed_slice(want["interp_slice"]):
        fail(f"{where}: interp_slice = {want['interp_slice']} is "
             f"{inp.interp_slice}")


@relation(st.one_of(full_options, storage.config_specs), quick=400, cost=1)
def meaning(case):
    """Every option reaches the solver with its type and value."""
    config = build_config(case)
    inp = config.to_soln_input()
    expect_input(inp, dict(case), "to_soln_input")
    if config != build_config(case):
        fail("converting changed the configuration")
    return True


def unsigned_zeros(d):
    """Numbers in configurations are rationals, whose zero has no sign."""
    return {
        k: v + 0.0 if isinstance(v, float) else v for k, v in d.items()
    }


@st.composite
def solver_inputs(draw):
    d = unsigned_zeros(dict(draw(storage.input_specs)))
    d["split_method"] = "v_θ_deriv"
    if d["mcmc_vars"] == (False, False, False):
        # stands for no choice at all
        d["mcmc_vars"] = (True, False, False)
    return tuple(d.items())


def same_input(want, got, where):
    diff = difference(want, got, where)
    if diff:
        fail(diff)


Back = namedtuple("Back", ["spec", "label"])


@relation(st.builds(Back, solver_inputs(), value_for("label")), quick=400,
          cost=1)
def solver_input_round_trip(case):
    """
    A solver input written as a configuration, to a file or not, describes the
    same solver input.
    """
    inp = build_input(case.spec)
    config = inp.to_config_input(case.label)
    if config.label != case.label:
        fail(f"label {case.label!r} became {config.label!r}")
    same_input(build_input(case.spec), config.to_soln_input(), "converted")
    same_input(
        build_input(case.spec), read_back(config).to_soln_input(),
        "written, read and converted")
    same_input(build_input(case.spec), inp, "after converting")
    d = dict(case.spec)
    return [
        f"{name} {'given' if d[name] is not None else 'absent'}"
        for name in OPTIONAL_FLOATS + ("interp_slice", "mcmc_vars")
    ]


@relation(solver_inputs(), quick=100, cost=1)
def without_sonic_taylor(spec):
    """
    The input for the other side of a shock drops the options about the
    midplane and the sonic point, keeps the rest, and can be written as well.
    """
    inp = build_input(spec)
    new = inp.new_without_sonic_taylor()
    d = dict(spec)
    d.update(
        use_taylor_jump=False, interp_range=None, interp_slice=None,
        **{name: None for name in OPTIONAL_FLOATS})
    same_input(build_input(tuple(d.items())), new, "without")
    same_input(build_input(spec), inp, "after")
    same_input(
        build_input(tuple(d.items())),
        read_back(new.to_config_input("x")).to_soln_input(), "written")
    return True


Dump = namedtuple("Dump", ["run", "which", "stdout", "label"])


def dumpable(spec):
    d = dict(spec)
    solutions = []
    for soln in d["solutions"]:
        s = dict(soln)
        i = unsigned_zeros(dict(s["solution_input"]))
        if i["mcmc_vars"] == (False, False, False):
            i["mcmc_vars"] = (False, True, False)
        s["solution_input"] = tuple(i.items())
        solutions.append(tuple(s.items()))
    d["solutions"] = tuple(solutions)
    return tuple(d.items())


@relation(st.builds(
    Dump, storage.run_specs.map(dumpable),
    st.sampled_from(["0", "1", "2", "final", "latest", None]), st.booleans(),
    value_for("label"),
), quick=80, cost=4)
def dumping(case):
    """
    Dumping the configuration of a stored solution gives a file from which the
    solution's own input is read.
    """
    from disc_solver.analyse.dump_config import dump_cfg, dump_main
    from disc_solver.solve.config import get_input_from_conffile
    spec = dict(case.run)
    config = dict(spec["config"])
    config["label"] = case.label
    spec["config"] = tuple(config.items())
    run, solutions, final = storage.build_run(tuple(spec.items()))
    which = case.which
    if which in ("1", "2"):
        which = str(int(which) % len(solutions))
    index = {
        "final": final, "latest": final, None: 0,
    }.get(which, int(which) if which and which.isdigit() else None)
    with scratch_dir() as d:
        path = os.path.join(d, "run.hdf5")
        for soln in solutions:
            run.solutions.add_solution(soln)
        run.final_solution = solutions[final]
        with opened(path, "x") as f:
            f["run"] = run
        out = Path(d) / "out.cfg"
        if case.stdout:
            with standard_streams() as streams:
                dump_main(["-q", path, which or "0"])
            out.write_text(streams.text, encoding="utf-8")
        else:
            dump_cfg(path, soln_range=which, output_file=str(out))
        back = get_input_from_conffile(config_file=out)
    if back.label != case.label:
        fail(f"label {case.label!r} became {back.label!r}")
    same_input(
        build_input(dict(spec["solutions"][index])["solution_input"]),
        back.to_soln_input(), "dumped")
    return ["stdout" if case.stdout else "file", str(case.which)]
