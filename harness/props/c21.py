# -*- coding: utf-8 -*-
"""C21: every run becomes one new file which says what was done."""
import contextlib
import csv
import io
import os
from collections import namedtuple
from pathlib import Path
from unittest import mock

import numpy as np
from hypothesis import strategies as st

from engine import relation, fail
import storage
from storage import difference
from props import c10, c11

from disc_solver import __version__, solve as package
from disc_solver.file_format import CONFIG_FIELDS, Solution
from disc_solver.float_handling import float_type
from disc_solver.solve import hdf5runner, resolve
from disc_solver.solve.config import get_input_from_conffile
from disc_solver.solve.utils import SolverError

ASSUMPTIONS = [
    "the methods are stand-ins which end in a known way",
    "runs in the same process and microsecond with the same label are not "
    "told apart by their default names",
]
METHODS = [
    "single", "step", "mcmc", "sonic_root", "hydrostatic", "mod_hydro",
    "fast_crosser",
]
OUTCOMES = [
    # what is said, and what the final solution is
    "final", "final", "first is final", "no final", "false", "none",
    "raises", "crashes",
]
OPTIONS = st.lists(
    st.sampled_from([n for n in c10.OPTIONS if n != "label"]).flatmap(
        lambda n: st.tuples(st.just(n), c10.value_for(n))),
    max_size=4, unique_by=lambda t: t[0],
)


class Planned(Exception):
    """Something no one expected."""


def stand_in(calls, outcome, solutions):
    def solver(soln_input, run, *, store_internal, **kwargs):
        calls.append((soln_input, store_internal, kwargs))
        for spec in solutions:
            run.solutions.add_solution(storage.build_solution(spec))
        if outcome == "raises":
            raise SolverError("planned")
        if outcome == "crashes":
            raise Planned
        if outcome == "final":
            run.final_solution = run.solutions.get_last_solution()
        elif outcome == "first is final":
            run.final_solution = run.solutions["0"]
        elif outcome == "none":
            run.final_solution = None
        return outcome not in ("none", "false")
    return solver


def check_contents(run, outcome, solutions, what, **wanted):
    for name, value in wanted.items():
        got = getattr(run, name)
        diff = difference(value, got, name)
        if diff:
            fail(f"{what}: {diff}", key=name)
    if list(sorted(run.solutions, key=int)) != [
        str(n) for n in range(len(solutions))
    ]:
        fail(f"{what}: solutions are {list(run.solutions)!r} of "
             f"{len(solutions)}", key="solutions")
    built = [storage.build_solution(spec) for spec in solutions]
    for n, want in enumerate(built):
        diff = difference(want, run.solutions[str(n)], f"solutions[{n}]")
        if diff:
            fail(f"{what}: {diff}", key="solution")
    final = run.final_solution
    which = {
        "final": -1, "no final": -1, "false": -1, "first is final": 0,
    }.get(outcome)
    if which is None:
        if isinstance(final, Solution):
            fail(f"{what}: a final solution after {outcome}", key="no final")
    else:
        diff = difference(built[which], final, "final")
        if diff:
            fail(f"{what}: {diff}", key="final")


def check_config(config, want, what):
    for name in (*CONFIG_FIELDS, "label"):
        if getattr(config, name) != getattr(want, name):
            fail(f"{what}: {name} is {getattr(config, name)!r}, not "
                 f"{getattr(want, name)!r}", key="config")


Call = namedtuple("Call", [
    "options", "label", "overrides", "bad", "method", "output", "folder",
    "internal", "outcome", "solutions", "existing",
])


@relation(
    st.builds(
        Call, options=OPTIONS, label=st.sampled_from(["a", "b c", "ü", ""]),
        overrides=OPTIONS, bad=st.sampled_from([None] * 9 + ["nothing", "Γ"]),
        method=st.sampled_from([None, *METHODS, "other"]),
        output=st.sampled_from([None, "o.hdf5", "ö b.hdf5"]),
        folder=st.sampled_from([None, "out", "."]),
        internal=st.sampled_from([None, True, False]),
        outcome=st.sampled_from(OUTCOMES),
        solutions=st.lists(storage.solution_specs, min_size=1, max_size=3),
        existing=st.sampled_from([None] * 4 + ["text", "run"]),
    ), quick=120, thorough=5000, cost=4, rule="a run was started",
)
def single_runs(case):
    """ds-soln, from its arguments to its file."""
    c = case
    calls = []
    argv = ["-q"]
    for flag, value in (
        ("--sonic-method", c.method), ("--output-file", c.output),
        ("--output-dir", c.folder),
    ):
        if value is not None:
            argv += [flag, value]
    if c.internal is not None:
        argv.append(
            "--store-internal" if c.internal else "--no-store-internal")
    for name, value in c.overrides:
        # values may look like options
        if value.startswith("-"):
            return None
        argv += ["--override", name, value]
    if c.bad:
        argv += ["--override", c.bad, "1"]
    where = os.getcwd()
    out = io.StringIO()
    said = error = None
    with storage.scratch_dir() as d:
        d = Path(d)
        (d / "out").mkdir()
        conf = d / "in.cfg"
        conf.write_text(c10.conf_text(
            tuple(c.options) + (("label", c.label),), "{} = {}"), encoding="utf-8")
        folder = d / (c.folder or ".")
        old = None
        if c.existing and c.output:
            old = folder / c.output
            if c.existing == "text":
                old.write_bytes(b"something else")
            else:
                with storage.opened(old, "w") as f:
                    f["run"] = np.arange(3)
            bytes_before = old.read_bytes()
        argv.append("in.cfg")
        want = get_input_from_conffile(
            config_file=conf, overrides=dict(c.overrides))
        solvers = {
            name: stand_in(calls, c.outcome, c.solutions)
            for name in METHODS
        }
        chosen = solvers[c.method or "single"] if c.method != "other" else None
        for name in METHODS:
            if solvers[name] is not chosen:
                solvers[name] = unwanted
        os.chdir(d)
        try:
            with mock.patch.dict(package.SONIC_METHOD_MAP, solvers), \
                    mock.patch.dict(os.environ, {
                        "DISC_SOLVER_DISABLE_THREADING": "true"}), \
                    contextlib.redirect_stdout(out), \
                    contextlib.redirect_stderr(io.StringIO()), \
                    storage.warnings.catch_warnings():
                storage.warnings.simplefilter("ignore")
                said = package.main(argv)
        except (SolverError, Planned, OSError, SystemExit) as e:
            error = e
        finally:
            os.chdir(where)
        files = sorted(
            p for p in d.rglob("*") if p.is_file() and p != conf)
        what = f"ds-soln {argv!r}"
        if c.bad or c.method == "other":
            if error is None or calls or files != ([old] if old else []):
                fail(f"{what}: {said!r}, {error!r}, wrote {files!r}",
                     key="refused")
            return None
        if old is not None:
            if error is None or calls or files != [old] or (
                old.read_bytes() != bytes_before
            ):
                fail(f"{what}: {said!r}, {error!r}, with a file there "
                     "already", key="existing")
            return ["existing"]
        expected = {"raises": SolverError, "crashes": Planned}.get(c.outcome)
        if type(error) is not (expected or type(None)):
            fail(f"{what}: {error!r} when it {c.outcome}", key="error")
        if len(files) != 1:
            fail(f"{what}: wrote {files!r}", key="files")
        path = files[0]
        if path.parent != folder.absolute() and (
            path.parent.resolve() != folder.resolve()
        ):
            fail(f"{what}: wrote {path!r}", key="folder")
        if c.output is None:
            if not path.name.startswith(want.label) or (
                path.suffix != ".hdf5"
            ):
                fail(f"{what}: wrote {path.name!r}", key="name")
        elif path.name != c.output:
            fail(f"{what}: wrote {path.name!r}", key="name")
        if len(calls) != 1:
            fail(f"{what}: {len(calls)} solved", key="calls")
        inp, internal, kwargs = calls[0]
        if internal != (c.internal is not False) or kwargs:
            fail(f"{what}: solved with {internal!r}, {kwargs!r}",
                 key="internal")
        diff = difference(want.to_soln_input(), inp, "input")
        if diff:
            fail(f"{what}: {diff}", key="input")
        if error is None:
            failed = c.outcome in ("none", "false")
            if bool(said) != failed:
                fail(f"{what}: exits with {said!r} when {c.outcome}",
                     key="exit")
            printed = Path(out.getvalue().strip().split("\n")[-1])
            if printed.resolve() != path.resolve():
                fail(f"{what}: printed {out.getvalue()!r} for {path!r}",
                     key="printed")
        with storage.opened(path, "r") as f:
            run = f["run"]
            check_config(run.config_input, want, what)
            check_contents(
                run, c.outcome, c.solutions, what,
                config_filename=run.config_filename,
                disc_solver_version=__version__,
                float_type=str(float_type),
                sonic_method=c.method or "single",
                use_E_r=bool(inp.use_E_r),
                is_post_shock_only=False, based_on_solution_filename=None,
                based_on_solution_solution_name=None,
            )
            if Path(d, run.config_filename).resolve() != conf.resolve():
                fail(f"{what}: from {run.config_filename!r}",
                     key="config_filename")
    return [c.outcome]


Again = namedtuple("Again", [
    "merge", "run", "which", "method", "output", "folder", "internal",
    "outcome", "solutions", "existing", "bad",
])


@relation(
    st.builds(
        Again, merge=c11.merges(), run=storage.run_specs,
        which=st.sampled_from(["0", "1", "2", "final", "latest"]),
        method=st.sampled_from([None, *METHODS]),
        output=st.sampled_from([None, "o.hdf5", "ö b.hdf5"]),
        folder=st.sampled_from([None, "out", "."]),
        internal=st.sampled_from([None, True, False]),
        outcome=st.sampled_from(OUTCOMES),
        solutions=st.lists(storage.solution_specs, min_size=1, max_size=3),
        existing=st.sampled_from([False] * 5 + [True]),
        bad=st.sampled_from([None] * 9 + ["Γ"]),
    ), quick=100, thorough=2000, cost=8, rule="a run was started",
)
def solved_again(case):
    """ds-resoln, from its arguments to its file."""
    c = case
    calls = []
    argv = ["-q"]
    for flag, value in (
        ("--sonic-method", c.method), ("--output-file", c.output),
        ("--output-dir", c.folder),
    ):
        if value is not None:
            argv += [flag, value]
    if c.internal is not None:
        argv.append(
            "--store-internal" if c.internal else "--no-store-internal")
    for name, value in c.merge.overrides or ():
        if value.startswith("-"):
            return None
        if name == "label" and ("/" in value or "\0" in value or len(
                value.encode()) > 100):
            return None
        argv += ["--override", name, value]
    if c.bad:
        argv += ["--override", c.bad, "1"]
    label = c11.expected(c.merge)[0].label
    stored_label = dict(c.merge.config)["label"]
    for part in (label, stored_label):
        if "/" in part or "\0" in part or len(part.encode()) > 100 or (
            part.startswith("~") or "$" in part
        ):
            return None
    where = os.getcwd()
    out = io.StringIO()
    said = error = None
    with storage.scratch_dir() as d:
        d = Path(d)
        (d / "out").mkdir()
        source = d / "old.hdf5"
        run, which = c11.stored_run(c)
        with storage.opened(str(source), "x") as f:
            f["run"] = run
        before = source.read_bytes()
        folder = d / (c.folder or ".")
        old = None
        if c.existing and c.output:
            old = folder / c.output
            old.write_bytes(b"something else")
        argv += ["old.hdf5", which]
        solvers = {
            name: stand_in(calls, c.outcome, c.solutions)
            if name == (c.method or "single") else unwanted
            for name in METHODS
        }
        os.chdir(d)
        try:
            with mock.patch.dict(package.SONIC_METHOD_MAP, solvers), \
                    contextlib.redirect_stdout(out), \
                    contextlib.redirect_stderr(io.StringIO()), \
                    storage.warnings.catch_warnings():
                storage.warnings.simplefilter("ignore")
                said = resolve.main(argv)
        except (SolverError, Planned, OSError, SystemExit) as e:
            error = e
        finally:
            os.chdir(where)
        what = f"ds-resoln {argv!r}"
        if source.read_bytes() != before:
            fail(f"{what}: the file solved again was changed", key="source")
        files = sorted(
            p for p in d.rglob("*") if p.is_file() and p != source)
        if c.bad:
            if error is None or calls or files != ([old] if old else []):
                fail(f"{what}: {said!r}, {error!r}, wrote {files!r}",
                     key="refused")
            return None
        if old is not None:
            if error is None or calls or files != [old] or (
                old.read_bytes() != b"something else"
            ):
                fail(f"{what}: {said!r}, {error!r}, with a file there "
                     "already", key="existing")
            return ["existing"]
        expected = {"raises": SolverError, "crashes": Planned}.get(c.outcome)
        if type(error) is not (expected or type(None)):
            fail(f"{what}: {error!r} when it {c.outcome}", key="error")
        if len(files) != 1 or files[0].parent.resolve() != folder.resolve():
            fail(f"{what}: wrote {files!r}", key="files")
        path = files[0]
        if c.output is None:
            if path.suffix != ".hdf5" or not (
                path.name.startswith(stored_label) or
                path.name.startswith(label)
            ):
                fail(f"{what}: wrote {path.name!r}", key="name")
        elif path.name != c.output:
            fail(f"{what}: wrote {path.name!r}", key="name")
        if len(calls) != 1:
            fail(f"{what}: {len(calls)} solved", key="calls")
        inp, internal, kwargs = calls[0]
        if internal != (c.internal is not False) or kwargs:
            fail(f"{what}: solved with {internal!r}, {kwargs!r}",
                 key="internal")
        want_config, want_inp = c11.expected(c.merge)
        diff = difference(want_inp, inp, "input")
        if diff:
            fail(f"{what}: {diff}", key="input")
        if error is None:
            failed = c.outcome in ("none", "false")
            if bool(said) != failed:
                fail(f"{what}: exits with {said!r} when {c.outcome}",
                     key="exit")
            printed = Path(out.getvalue().strip("\n").split("\n")[-1])
            if printed.resolve() != path.resolve():
                fail(f"{what}: printed {out.getvalue()!r} for {path!r}",
                     key="printed")
        with storage.opened(path, "r") as f:
            run = f["run"]
            diff = difference(want_config, run.config_input, "config_input")
            if diff:
                fail(f"{what}: {diff}", key="config")
            check_contents(
                run, c.outcome, c.solutions, what,
                config_filename=dict(c.run)["config_filename"],
                disc_solver_version=__version__,
                float_type=str(float_type),
                sonic_method=c.method or "single",
                use_E_r=bool(inp.use_E_r), is_post_shock_only=False,
                based_on_solution_filename=run.based_on_solution_filename,
                based_on_solution_solution_name=which,
            )
            if Path(
                d, run.based_on_solution_filename
            ).resolve() != source.resolve():
                fail(f"{what}: from {run.based_on_solution_filename!r}",
                     key="based on")
    return [c.outcome]


def unwanted(*args, **kwargs):
    fail("another method was used", key="method")


Batch = namedtuple("Batch", [
    "rows", "label", "method", "overrides", "workers", "internal", "columns",
])
ROW = st.fixed_dictionaries({
    "outcome": st.sampled_from([o for o in OUTCOMES if o != "crashes"]),
    "filename": st.sampled_from(["", "/a/b.hdf5", "c d.hdf5"]),
    "solution_name": st.sampled_from(["", "0", "final"]),
    "label": st.sampled_from(["", "x", "y z"]),
    "stop": st.sampled_from(["5", "7.5", "45"]),
    "use_E_r": st.sampled_from(["True", "False"]),
})


@relation(
    st.builds(
        Batch, rows=st.lists(ROW, min_size=1, max_size=4),
        label=st.sampled_from(["", "", "batch"]),
        method=st.sampled_from(METHODS),
        overrides=st.lists(
            st.tuples(st.sampled_from(["η_O", "num_angles"]),
                      st.sampled_from(["3", "17"])),
            max_size=2, unique_by=lambda t: t[0]),
        workers=st.integers(1, 3), internal=st.booleans(),
        columns=st.lists(st.sampled_from(
            ["filename", "solution_name", "label", "stop", "use_E_r"]),
            unique=True, max_size=5),
    ), quick=40, thorough=1000, cost=6, rule="several runs in the batch",
)
def batches(case):
    """ds-hdf5runner: each row of the table is a run with its own file."""
    c = case
    base = {
        k: v for k, v in c10.DEFAULTS.items() if k != "label"
    }
    lines = []
    for n, row in enumerate(c.rows):
        values = {**base, **{k: row[k] for k in c.columns}}
        values["max_steps"] = str(n + 1)
        lines.append(values)

    def solver(soln_input, run, *, store_internal, **kwargs):
        # workers report by what they write
        n = soln_input.max_steps - 1
        if store_internal != c.internal or kwargs:
            raise Planned
        return stand_in([], c.rows[n]["outcome"], [solution(soln_input)])(
            soln_input, run, store_internal=store_internal)

    solvers = {m: unwanted for m in METHODS}
    solvers[c.method] = solver
    argv = [
        "-q", "--sonic-method", c.method, "-n", str(c.workers),
        "--output-dir", "out",
        "--store-internal" if c.internal else "--no-store-internal",
    ]
    if c.label:
        argv += ["--label", c.label]
    for name, value in c.overrides:
        argv += ["--override", name, value]
    where = os.getcwd()
    found = {}
    out = io.StringIO()
    with storage.scratch_dir() as d:
        os.mkdir(os.path.join(d, "out"))
        with open(os.path.join(d, "in.csv"), "w", newline="",
                  encoding="utf-8") as f:
            table = csv.DictWriter(f, fieldnames=list(lines[0]),
                                   dialect="unix")
            table.writeheader()
            table.writerows(lines)
        os.chdir(d)
        try:
            with mock.patch.dict(package.SONIC_METHOD_MAP, solvers), \
                    mock.patch.dict(
                        hdf5runner.SONIC_METHOD_MAP, solvers), \
                    contextlib.redirect_stdout(out), \
                    storage.warnings.catch_warnings():
                storage.warnings.simplefilter("ignore")
                hdf5runner.main([*argv, "in.csv"])
        finally:
            os.chdir(where)
        what = f"ds-hdf5runner {argv!r} of {c.rows!r}"
        for name in sorted(os.listdir(os.path.join(d, "out"))):
            with storage.opened(os.path.join(d, "out", name), "r") as f:
                run = f["run"]
                n = int(run.config_input.max_steps) - 1
                if n in found or not 0 <= n < len(c.rows):
                    fail(f"{what}: {n} is there twice", key="twice")
                found[n] = name
                check_row(case, lines[n], c.rows[n], name, run, what)
    if sorted(found) != list(range(len(c.rows))):
        fail(f"{what}: wrote {found!r}", key="files")
    failed = sum(
        row["outcome"] in ("none", "false", "raises") for row in c.rows)
    if out.getvalue().count("Solver failed for input") != failed:
        fail(f"{what}: {failed} failed, said {out.getvalue()!r}",
             key="failed")
    return len(c.rows) > 1 or None


def check_row(case, line, row, name, run, what):
    want = {**line, **dict(case.overrides)}
    label = case.label or line.get("label", "")
    for option in CONFIG_FIELDS:
        if option == "label":
            continue
        if getattr(run.config_input, option) != want[option]:
            fail(f"{what}: {option} is "
                 f"{getattr(run.config_input, option)!r}, not "
                 f"{want[option]!r}", key="config")
    if run.config_input.label != label or not name.startswith(label):
        fail(f"{what}: label {run.config_input.label!r}, file {name!r}, not "
             f"{label!r}", key="label")
    check_contents(
        run, row["outcome"], [solution(run.config_input.to_soln_input())],
        what, config_filename=None, disc_solver_version=__version__,
        float_type=str(float_type), sonic_method=case.method,
        use_E_r=want["use_E_r"] == "True", is_post_shock_only=False,
        based_on_solution_filename=line.get("filename"),
        based_on_solution_solution_name=line.get("solution_name"),
    )


def solution(inp):
    """A small solution, as described for storage."""
    array = (int(inp.max_steps), 3, ())
    return tuple(dict(
        solution_input=tuple(dict(
            {n: getattr(inp, n) for n in vars(inp)}, numpy_floats=False,
            mcmc_vars=None, interp_slice=None,
        ).items()), data=array, flag=0, coordinate_system="spherical",
        internal=None, norm_kepler_sq=1.0, a_0=1.0, γ=float(inp.γ),
        initial=array, roots=None, sonic_point=None, derivatives=None,
        is_post_shock_only=False,
    ).items())
