# -*- coding: utf-8 -*-
"""C12: tables of inputs written are the inputs read, row for row."""
import contextlib
import csv
import io
from collections import namedtuple
from pathlib import Path

from hypothesis import strategies as st

from engine import relation, fail
import storage
from props import c10
from storage import (
    build_input, difference, opened, scratch_dir, standard_streams,
)

ASSUMPTIONS = [
    "values are the texts the options take; text cells hold no line breaks",
    "cells are quoted as the unix dialect does",
]


def read(path, **kw):
    from disc_solver.solve.utils import get_csv_inputs
    return get_csv_inputs(path, **kw)


def as_solver_input(row):
    """What the batch solvers make of a row."""
    from disc_solver.file_format import ConfigInput
    row = dict(row)
    row.pop("filename", None)
    row.pop("solution_name", None)
    return ConfigInput(**row).to_soln_input()


def expect_inputs(rows, inputs, where):
    if len(rows) != len(inputs):
        fail(f"{where}: {len(inputs)} inputs became {len(rows)} rows")
    for i, (row, inp) in enumerate(zip(rows, inputs)):
        diff = difference(inp, as_solver_input(row), f"{where}, row {i}")
        if diff:
            fail(diff)


def plain_floats(spec):
    d = dict(spec)
    d["numpy_floats"] = True
    return tuple(d.items())


inputs = c10.solver_inputs().map(plain_floats)
Dumped = namedtuple("Dumped", ["run", "inputs", "which", "header", "times", "how"])
dumped = st.builds(
    Dumped, storage.run_specs, st.lists(inputs, min_size=3, max_size=3),
    st.sampled_from(["0", "1", "2", "final", "latest", None]),
    st.booleans(), st.integers(1, 2),
    st.sampled_from(["called", "file", "stdout"]),
)


def stored(case, path):
    """A file with the inputs as solutions' inputs: (inputs, final, run)"""
    run, solutions, final = storage.build_run(case.run)
    wanted = [build_input(spec) for spec in case.inputs][:len(solutions)]
    for soln, inp in zip(solutions, wanted):
        soln.solution_input = inp
        run.solutions.add_solution(soln)
    run.final_solution = solutions[final]
    with opened(str(path), "x") as f:
        f["run"] = run
    return wanted, wanted[final]


@relation(dumped, quick=60, cost=5)
def dumping_one(case):
    """A dumped solution's row reads back as its input."""
    from disc_solver.analyse.dump_csv import dump_csv, dump_main
    with scratch_dir() as d:
        path, out = Path(d) / "run.hdf5", Path(d) / "out.csv"
        wanted, final = stored(case, path)
        which = case.which
        if which is None:
            want = wanted[0]
        elif which.isdigit():
            which = str(int(which) % len(wanted))
            want = wanted[int(which)]
        else:
            want = final
        before = path.read_bytes()
        for i in range(case.times):
            header = case.header and i == 0
            if case.how == "called":
                dump_csv(
                    str(path), soln_range=which, output_file=str(out),
                    with_header=header,
                )
                continue
            args = ["-q"] + ["--with-header"] * header
            if case.how == "file":
                args += ["--file", str(out)]
            with standard_streams() as streams:
                dump_main([*args, str(path), which or "0"])
            if case.how == "stdout":
                with out.open("a", encoding="utf-8") as f:
                    f.write(streams.text)
            elif streams.text:
                fail(f"{streams.text!r} was printed")
        if path.read_bytes() != before:
            fail("the file dumped was changed")
        expect_inputs(read(out), [want] * case.times, "dump")
        with out.open(encoding="utf-8", newline="") as f:
            first = next(csv.reader(f, dialect="unix"))
        if ("start" in first) is not case.header:
            fail(f"the first line is {first}, header: {case.header}")
    return ["header" if case.header else "no header", str(case.which), case.how]


Dumps = namedtuple("Dumps", ["first", "second"])


@relation(st.builds(Dumps, dumped, st.one_of(st.none(), dumped)), quick=40,
          cost=8)
def dumping_all(case):
    """The inputs of all solutions of all files read back, in order."""
    from disc_solver.analyse.stats import (
        dump_csv_inputs_main, get_all_solutions, write_inputs,
    )
    with scratch_dir() as d:
        paths, wanted = [], []
        for i, part in enumerate(case):
            if part is None:
                continue
            paths.append(Path(d) / f"{i}.hdf5")
            all_, final = stored(part, paths[-1])
            wanted += all_ + [final]
        out = Path(d) / "out.csv"
        paths = [str(p) for p in paths]
        how = case.first.how
        if how == "called":
            write_inputs(get_all_solutions(paths), output_file=str(out))
        elif how == "file":
            with standard_streams(paths[-1]):
                dump_csv_inputs_main(
                    ["-q", "--file", str(out), "--with-stdin", *paths[:-1]])
        else:
            with standard_streams() as streams:
                dump_csv_inputs_main(["-q", *paths])
            out.write_text(streams.text, encoding="utf-8")
        expect_inputs(read(out), wanted, "table")
    return [f"{len(paths)} files", how]


# ---------------------------------------------------------------- reading

COMMENT = st.text(
    st.characters(min_codepoint=0x20, max_codepoint=0x3c9,
                  blacklist_categories=("Cs", "Cc", "Cn", "Zl", "Zp")),
    max_size=10)
REQUIRED = storage.CONFIG_FLOATS + storage.CONFIG_INTS + ("split_method",)
EXTRA = ("x", "label", "filename", "solution_name", "note", "v_θ")
Table = namedtuple("Table", [
    "rows", "columns", "header", "comments", "label", "extra",
])


@st.composite
def tables(draw):
    from disc_solver.file_format import SOLUTION_INPUT_FIELDS
    header = draw(st.booleans())
    rows = draw(st.lists(inputs, min_size=0 if header else 1, max_size=4))
    optional = [
        "η_derivs", "use_taylor_jump", "mcmc_vars", "use_E_r", "interp_range",
        "interp_slice", *storage.OPTIONAL_FLOATS,
    ]
    if header:
        without = draw(st.lists(
            st.sampled_from(optional), max_size=4, unique=True))
        columns = [n for n in SOLUTION_INPUT_FIELDS if n not in without]
        columns += draw(st.lists(
            st.sampled_from(EXTRA), max_size=3, unique=True))
        columns = draw(st.permutations(columns))
    else:
        # tables of older versions end earlier
        n = draw(st.integers(0, 10))
        columns = SOLUTION_INPUT_FIELDS[:len(SOLUTION_INPUT_FIELDS) - n]
    return Table(
        rows=tuple(rows), columns=tuple(columns), header=header,
        comments=tuple(draw(st.lists(st.tuples(
            st.integers(0, 6), st.sampled_from(["", " ", "  "]), COMMENT,
        ), max_size=3))),
        label=draw(st.one_of(st.none(), storage.TEXT)),
        extra=draw(storage.TEXT),
    )


def cell(inp, name, extra, i):
    if name in EXTRA:
        return f"{extra}{i}"
    value = getattr(inp, name)
    if name == "mcmc_vars" and value is not None:
        return ",".join(v for v in ("v_r", "v_a", "v_k") if getattr(
            value, f"with_{v}"))
    if name == "interp_slice" and value is not None:
        parts = (value.start, value.stop, value.step)
        if None not in parts[:2]:
            return ",".join(str(p) for p in parts if p is not None)
        return "slice({}, {}, {})".format(*parts)
    return "" if value is None else str(value)


def write_table(case, path, rows):
    lines = []
    text = io.StringIO()
    out = csv.writer(text, dialect="unix")
    if case.header:
        out.writerow(case.columns)
    for i, inp in enumerate(rows):
        out.writerow([cell(inp, n, case.extra, i) for n in case.columns])
    lines = text.getvalue().split("\n")[:-1]
    for where, space, comment in sorted(case.comments, reverse=True):
        lines.insert(min(where, len(lines)), f"{space}#{comment}")
    path.write_text("".join(f"{x}\n" for x in lines), encoding="utf-8")


@relation(tables(), quick=300)
def reading(case):
    """
    Columns may be in any order, optional ones be missing and others be there;
    the header and comments may be there or not.
    """
    from disc_solver.file_format import SolutionInput
    rows = [build_input(spec) for spec in case.rows]
    defaults = SolutionInput(**{
        n: None for n in REQUIRED
    })
    with scratch_dir() as d:
        path = Path(d) / "in.csv"
        write_table(case, path, rows)
        got = read(path) if case.label is None else read(
            path, label=case.label)
    for i, row in enumerate(rows):
        for name in vars(row):
            if name not in case.columns:
                setattr(row, name, getattr(defaults, name))
    expect_inputs(got, rows, "table")
    for i, row in enumerate(got):
        for name in ("filename", "solution_name"):
            want = f"{case.extra}{i}" if name in case.columns else None
            if row.get(name) != want:
                fail(f"{name} is {row.get(name)!r}, not {want!r}")
        want = case.label or ""
        if "label" in case.columns and not want:
            want = f"{case.extra}{i}"
        if row.get("label") != want:
            fail(f"label is {row.get('label')!r}, not {want!r}")
    return [
        "header" if case.header else "no header",
        *(["comments"] if case.comments else []),
        *(["columns missing"] if len(case.columns) < 29 else []),
        *(["label column"] if "label" in case.columns else []),
    ] if rows else None


Mixed = namedtuple("Mixed", ["parts", "marker"])


@relation(
    st.builds(
        Mixed, st.lists(st.one_of(
            COMMENT.map(lambda t: ("comment", t)),
            st.tuples(
                st.just("meta"),
                st.sampled_from(["nworkers", "sonic_method", "η"]),
                st.sampled_from([None, 1, "step", True, "a=b"]),
            ),
            st.tuples(st.just("row"), storage.NUMERIC_TEXT, storage.TEXT),
        ), max_size=7).map(tuple), st.sampled_from(["#", "%%", ";"]),
    ), quick=300, rule="comments and rows mixed",
)
def comments(case):
    """Comments written are comments read, and rows are rows."""
    from disc_solver.solve.utils import CSVReaderHelper, CSVWriterHelper
    f = io.StringIO()
    helper = CSVWriterHelper(f, comment=case.marker)
    out = csv.writer(helper, dialect="unix")
    wanted, rows = [], []
    for part in case.parts:
        if part[0] == "comment":
            helper.add_comment(part[1])
            wanted.append(part[1])
        elif part[0] == "meta":
            helper.add_metadata({part[1]: part[2]})
            wanted.append(f"{part[1]}={part[2]}")
        else:
            out.writerow(part[1:])
            rows.append(list(part[1:]))
    f.seek(0)
    back = CSVReaderHelper(f, comment=case.marker)
    for _ in range(2):
        got = list(csv.reader(back, dialect="unix"))
        if got != rows:
            fail(f"rows {rows} became {got}")
        found = [c.strip() for c in back.comments]
        if found != [c.strip() for c in wanted]:
            fail(f"comments {wanted} became {found}")
        f.seek(0)
    if rows:
        dialect = back.get_dialect(delimiters=",")
        got = list(csv.reader(back, dialect))
        if [r[0] for r in got] != [r[0] for r in rows] and all(
            '"' not in r[1] for r in rows
        ):
            fail(f"with the dialect found, rows {rows} became {got}")
    return ["mixed"] if wanted and rows else None


# ------------------------------------------------------------- batch solving

Batch = namedtuple("Batch", [
    "table", "fates", "overrides", "workers", "main",
])
batches = st.builds(
    Batch, tables(),
    st.lists(st.sampled_from(["ok", "ok", "fails", "raises"]), min_size=4,
             max_size=4).map(tuple),
    c10.some_options(max_size=2), st.sampled_from([1, 2]), st.booleans(),
)


def fate_solver(inputs, fates, changed):
    """A solver to which something different happens for each input."""
    def solve(soln_input, run, *, store_internal, **kwargs):
        from disc_solver.solve.utils import SolverError
        i = soln_input.max_steps
        if fates[i] == "raises":
            raise SolverError("no such luck")
        soln = storage.build_solution(DUMMY)
        soln.solution_input = soln_input
        soln.solution_input.stop = changed
        run.solutions.add_solution(soln)
        if fates[i] == "ok":
            run.final_solution = run.solutions.get_last_solution()
        return fates[i] == "ok"
    return solve


DUMMY = None


@relation(st.tuples(batches, storage.solution_specs), quick=40, cost=10,
          rule="at least one input solved")
def batch(case):
    """
    A batch's table has the final input of each input solved, in order,
    and is itself a table of inputs.
    """
    global DUMMY
    from disc_solver.solve import SONIC_METHOD_MAP
    from disc_solver.solve.csvrunner import csvrunner, main
    case, DUMMY = case
    overrides = {
        k: v for k, v in case.overrides if k not in ("max_steps", "stop")
    }
    rows = [build_input(spec) for spec in case.table.rows]
    wanted = []
    for i, row in enumerate(rows):
        # which fate awaits it
        row.max_steps = i
    table = case.table
    if "max_steps" not in table.columns:
        return None
    old = SONIC_METHOD_MAP["step"]
    SONIC_METHOD_MAP["step"] = fate_solver(rows, case.fates, 12.5)
    try:
        with scratch_dir() as d:
            path, out = Path(d) / "in.csv", Path(d) / "out.csv"
            write_table(table, path, rows)
            for i, row in enumerate(read(path)):
                if case.fates[i] == "ok":
                    row = {**row, **overrides}
                    inp = as_solver_input(row)
                    inp.stop = 12.5
                    wanted.append(inp)
            args = [
                "-q", "-n", str(case.workers), "--output-file", str(out),
            ]
            for name, value in overrides.items():
                args += ["--override", name, value]
            if case.main and not any(
                value.startswith("-") for value in overrides.values()
            ) and not table.label:
                with standard_streams():
                    main([*args, str(path)])
            else:
                with contextlib.redirect_stdout(io.StringIO()):
                    csvrunner(
                        output_file=str(out), input_file=path,
                        nworkers=case.workers, store_internal=False,
                        sonic_method="step",
                        overrides=dict(overrides) or None,
                    )
            expect_inputs(read(out), wanted, "output")
            text = out.read_text(encoding="utf-8")
    finally:
        SONIC_METHOD_MAP["step"] = old
    if "#sonic_method=step\n" not in text:
        fail("the method used is not recorded")
    return [
        *(["overrides"] if overrides else []),
        *set(case.fates[:len(rows)]),
    ] if wanted else None
