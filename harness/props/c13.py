# -*- coding: utf-8 -*-
"""C13: containers behave as the histories of what was done to them."""
import os
from collections import namedtuple
from pathlib import Path

import numpy as np
from hypothesis import strategies as st

from engine import relation, fail
import gens
import storage
from storage import difference, opened, scratch_dir

ASSUMPTIONS = [
    "names of solutions are numbers, as everything in the package makes them",
    "in a file solutions are added and read, not removed",
]
NUM = st.integers(0, 6)
OPS = st.one_of(
    st.tuples(st.just("add"), st.just(0)),
    st.tuples(st.just("add"), st.just(0)),
    st.tuples(st.just("get"), NUM), st.tuples(st.just("del"), NUM),
    st.tuples(st.just("set"), NUM), st.tuples(st.just("pop"), NUM),
    st.tuples(st.just("last"), st.just(0)),
    st.tuples(st.just("update"), NUM),
    st.tuples(st.just("clear"), st.just(0)),
)


class Thing:
    """Stands for a solution."""
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return f"Thing({self.n})"


def expect(what, want, got):
    if want is not got:
        fail(f"{what} is {got!r}, not {want!r}")


def raises_key_error(what, f):
    try:
        got = f()
    except KeyError:
        return
    fail(f"{what} gave {got!r}")


@relation(
    st.tuples(st.integers(0, 3), st.lists(OPS, max_size=25).map(tuple)),
    quick=600, rule="solutions added after others were removed or replaced",
)
def solutions(case):
    """An ordered mapping in which every solution added is the last."""
    from disc_solver.file_format._containers import Solutions
    initial, ops = case
    model = {str(i): Thing(f"initial {i}") for i in range(initial)}
    real = Solutions(**model)
    model = dict(model)
    labels = set()
    for n, (op, k) in enumerate(ops):
        key, thing = str(k), Thing(n)
        if op == "add":
            got = real.add_solution(thing)
            if not isinstance(got, str) or got in model:
                fail(f"added as {got!r}, where {sorted(model)} are taken")
            if str(int(got)) != got:
                fail(f"{got!r} is no number")
            model[got] = thing
            expect("last after adding", thing, real.get_last_solution())
            if "del" in labels or "set" in labels:
                labels.add("added after")
        elif op == "set":
            real[key] = thing
            model[key] = thing
            labels.add(op)
        elif op == "update":
            real.update({key: thing, "9": thing})
            model.update({key: thing, "9": thing})
            labels.add("set")
        elif op == "get":
            if key in model:
                expect(key, model[key], real[key])
            else:
                raises_key_error(f"absent {key}", lambda: real[key])
        elif op in ("del", "pop"):
            if key in model:
                if op == "pop":
                    expect("popped", model[key], real.pop(key))
                else:
                    del real[key]
                del model[key]
                labels.add("del")
            else:
                raises_key_error(f"removing absent {key}", lambda: (
                    real.pop(key) if op == "pop" else real.__delitem__(key)))
        elif op == "clear":
            real.clear()
            model.clear()
        elif model:
            last = max(model, key=int)
            expect("last", model[last], real.get_last_solution())
        if list(real) != list(model) or len(real) != len(model):
            fail(f"holds {list(real)}, not {list(model)}")
        for name in model:
            expect(name, model[name], real[name])
            if name not in real:
                fail(f"{name} is not in it")
    return ["added after"] if "added after" in labels else None


POPS = st.tuples(
    st.sampled_from(["set", "append", "add", "del", "pop", "get", "update"]),
    st.one_of(
        st.integers(-1, 2), gens.flt(0, 1).map(lambda x: round(x, 1)),
        st.sampled_from(["0", "1", "0.5", "θ"]),
    ),
    st.lists(storage.PROBLEM_TEXT, max_size=3).map(tuple),
)


@relation(
    st.tuples(
        st.lists(st.tuples(
            st.sampled_from(["a", "0", "θ"]),
            st.lists(storage.PROBLEM_TEXT, max_size=2).map(tuple),
        ), max_size=3).map(tuple),
        st.lists(POPS, max_size=15).map(tuple),
    ), quick=600, rule="removal, or several additions to one key",
)
def problems(case):
    """A mapping from (the text of) where to all problems noted there."""
    from disc_solver.file_format import Problems
    start, ops = case
    given = {k: list(v) for k, v in start}
    real = Problems(**given)
    model = {k: list(v) for k, v in given.items()}
    labels = set()
    for op, key, vals in ops:
        text = str(key)
        if op == "set":
            real[key] = list(vals)
        elif op == "update":
            real.update({key: list(vals)})
        elif op == "append":
            for val in vals:
                real[key].append(val)
            if not vals:
                continue
        elif op == "add":
            for val in vals:
                real[key] = val
            if not vals:
                continue
        elif op == "get":
            # looking somewhere makes it a place
            got = list(real[key])
            if got != model.get(text, []):
                fail(f"at {text}: {got}, not {model.get(text)}")
            vals = ()
        else:
            if text in model:
                if op == "pop":
                    got = list(real.pop(key))
                    if got != model[text]:
                        fail(f"popped {got}, not {model[text]}")
                else:
                    del real[key]
                del model[text]
                labels.add("removed")
            elif op == "del":
                raises_key_error(
                    f"removing absent {text}", lambda: real.__delitem__(key))
            continue
        if text in model and vals:
            labels.add("added again")
        model.setdefault(text, []).extend(vals)
    found = {k: list(v) for k, v in real.items()}
    if found != model:
        fail(f"holds {found}, not {model}")
    if list(real) != list(model) or len(real) != len(model):
        fail(f"holds {list(real)}, not {list(model)}")
    if given != {k: list(v) for k, v in start}:
        fail("what it was made from was changed")
    return sorted(labels)


History = namedtuple("History", ["run", "ops", "no_cache", "in_file"])
histories = st.builds(
    History, run=storage.run_specs, ops=st.lists(st.sampled_from([
        "add", "add", "add", "get", "last", "list", "final", "free",
        "finalise", "size",
    ]), max_size=10).map(tuple), no_cache=st.booleans(), in_file=st.booleans(),
)


@relation(histories, quick=120, cost=3,
          rule="final solution set or finalised with several solutions")
def runs(case):
    """Solutions stay what they were; the final one is set at most once."""
    old = os.environ.pop("NO_CACHE", None)
    if case.no_cache:
        os.environ["NO_CACHE"] = "1"
    try:
        with scratch_dir() as d:
            path = Path(d) / "run.hdf5"
            if not case.in_file:
                run, specs, _ = storage.build_run(case.run)
                return history(case, run, len(specs))[2]
            with opened(str(path), "x") as f:
                run, specs, _ = storage.build_run(case.run)
                f["run"] = run
                added, final, labels = history(case, run, len(specs))
                if final is None and added:
                    run.finalise()
                    final = len(added) - 1
            if not added:
                return None
            with opened(str(path), "r") as f:
                check(case, f["run"], added, final, "read from the file")
    finally:
        os.environ.pop("NO_CACHE", None)
        if old is not None:
            os.environ["NO_CACHE"] = old
    return labels + ["in file"] if labels else None


def fresh(case, n):
    """The n-th solution added: as a new object each time."""
    specs = dict(case.run)["solutions"]
    soln = storage.build_solution(specs[n % len(specs)])
    soln.flag = n
    soln.angles = soln.angles + n
    return soln


def check(case, run, added, final, where):
    if sorted(run.solutions, key=int) != [str(i) for i in range(len(added))]:
        fail(f"{where}: solutions {list(run.solutions)}")
    for n in range(len(added)):
        diff = difference(
            fresh(case, n), run.solutions[str(n)], f"{where}, {n}")
        if diff:
            fail(diff)
    diff = difference(
        fresh(case, final), run.final_solution, f"{where}, final")
    if diff:
        fail(diff)


def history(case, run, _):
    added, final = [], None
    for op in case.ops:
        if op == "add":
            key = run.solutions.add_solution(fresh(case, len(added)))
            if key != str(len(added)):
                fail(f"solution {len(added)} added as {key!r}")
            added.append(key)
        elif op == "list":
            if list(run.solutions) != added:
                fail(f"solutions {list(run.solutions)}, added {added}")
        elif op == "size":
            if len(run.solutions) != len(added):
                fail(f"{len(run.solutions)} solutions, added {added}")
        elif op == "free" and added:
            run.solutions.free(added[0])
        elif op in ("get", "last") and added:
            n = len(added) // 2 if op == "get" else len(added) - 1
            got = run.solutions[str(n)] if op == "get" else (
                run.solutions.get_last_solution())
            diff = difference(fresh(case, n), got, f"solution {n}")
            if diff:
                fail(diff)
        elif op == "final" and added:
            n = len(added) // 2
            try:
                run.final_solution = run.solutions[str(n)]
            except RuntimeError:
                if final is None:
                    fail("the final solution cannot be set")
            else:
                if final is not None:
                    fail("the final solution was changed")
                final = n
        elif op == "finalise" and (added or final is not None):
            run.finalise()
            if final is None:
                final = len(added) - 1
        if final is not None:
            diff = difference(
                fresh(case, final), run.final_solution, "final solution")
            if diff:
                fail(diff)
    return added, final, ["final"] if final is not None and len(
        added) > 1 else []


@relation(
    st.tuples(storage.run_specs, storage.TEXT, storage.TEXT), quick=80, cost=2,
)
def shock_runs(case):
    """A run made for the shocks of another is that run, with no solutions."""
    spec, filename, name = case
    run, specs, _ = storage.build_run(spec)
    for soln in specs:
        run.solutions.add_solution(soln)
    run.final_solution = specs[0]
    new = run.create_shock_run(filename=filename, solution_name=name)
    want, _, _ = storage.build_run(spec)
    want.is_post_shock_only = True
    want.based_on_solution_filename = filename
    want.based_on_solution_solution_name = name
    for field in (
        "config_input", "config_filename", "disc_solver_version",
        "float_type", "sonic_method", "time", "use_E_r",
        "is_post_shock_only", "based_on_solution_filename",
        "based_on_solution_solution_name",
    ):
        diff = difference(getattr(want, field), getattr(new, field), field)
        if diff:
            fail(diff)
    if len(new.solutions):
        fail("it has solutions before any is added")
    new.solutions.add_solution(specs[-1])
    new.final_solution = specs[-1]
    if len(run.solutions) != len(specs) or (
        run.final_solution is not specs[0]
    ) or run.is_post_shock_only is not dict(spec)["is_post_shock_only"]:
        fail("the original run was changed")
    return True


FLOATS = st.tuples(*[gens.flt(-10, 10)] * 11)


@relation(
    st.tuples(
        FLOATS, FLOATS, st.tuples(*[gens.flt(-5, 5)] * 3),
        st.sampled_from(["given", "none", "some", "wrong", "old"]),
        st.sampled_from(["η_O", "η_A", "η_H"]),
    ), quick=300, rule="all",
)
def initial_conditions(case):
    """
    Diffusivities of initial conditions are those of their initial values, and
    modified ones share nothing else than what was not modified.
    """
    from disc_solver.file_format import InitialConditions
    first, second, (K2, a_0, γ), how, which = case
    first, second = np.array(first), np.array(second)
    angles = np.linspace(0, 1, 4)
    kw = dict(norm_kepler_sq=K2, a_0=a_0, γ=γ, angles=angles)
    names = ("η_O", "η_A", "η_H")
    η = dict(zip(names, first[8:]))
    init = first.copy()
    if how == "old":
        ic = InitialConditions(init_con=init[:8], **η, **kw)
    elif how == "wrong":
        η[which] = η[which] + 1
        try:
            InitialConditions(init_con=init, **η, **kw)
        except RuntimeError:
            return [how]
        fail("inconsistent {} accepted".format(which))
    elif how == "some":
        ic = InitialConditions(init_con=init, **{which: η[which]}, **kw)
    elif how == "given":
        ic = InitialConditions(init_con=init, **η, **kw)
    else:
        ic = InitialConditions(init_con=init, **kw)

    def check_ic(ic, values, angles, where):
        if not np.array_equal(ic.init_con, values) or not np.array_equal(
            ic.angles, angles
        ):
            fail(f"{where}: {ic.init_con} at {ic.angles}")
        for name, value in zip(names, values[8:]):
            if getattr(ic, name) != value:
                fail(f"{where}: {name} is {getattr(ic, name)}, not {value}")
        for name in ("norm_kepler_sq", "a_0", "γ"):
            if getattr(ic, name) != kw[name]:
                fail(f"{where}: {name} is {getattr(ic, name)}")

    check_ic(ic, first, angles, "original")
    new_angles = np.linspace(1, 2, 7)
    new = ic.create_modified(init_con=second.copy(), angles=new_angles)
    check_ic(new, second, new_angles, "modified")
    check_ic(ic, first, angles, "original after modifying")
    return [how]
