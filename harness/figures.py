# -*- coding: utf-8 -*-
"""Runs held in memory, and what a figure shows."""
import contextlib
import io
import os

os.environ["MPLBACKEND"] = "agg"

import numpy as np  # noqa: E402
from hypothesis import strategies as st  # noqa: E402

import storage  # noqa: E402
from gens import flt, sig  # noqa: E402

CONFIG = (
    ("start", "0"), ("stop", "5"), ("taylor_stop_angle", "0.001"),
    ("max_steps", "500"), ("num_angles", "10"), ("label", "label"),
    ("relative_tolerance", "1e-6"), ("absolute_tolerance", "1e-10"),
    ("γ", "0.001"), ("nwalkers", "8"), ("iterations", "3"),
    ("threads", "1"), ("target_velocity", "0.9"),
    ("split_method", "v_θ_deriv"), ("v_rin_on_c_s", "1"),
    ("v_a_on_c_s", "1"), ("c_s_on_v_k", "0.05"), ("η_O", "0.1"),
    ("η_H", "0.1"), ("η_A", "0.1"), ("jump_before_sonic", "None"),
    ("η_derivs", "True"), ("use_taylor_jump", "True"),
    ("use_E_r", "False"), ("v_θ_sonic_crit", "None"),
    ("after_sonic", "None"), ("interp_slice", "-1000,-100"),
    ("sonic_interp_size", "None"), ("interp_range", "10"),
    ("mcmc_vars", "None"),
)

# ranges of angles in degrees asked for
windows = st.one_of(
    st.just((0, 90)), st.just((0, 90)),
    st.tuples(flt(0, 30), flt(0, 90)).map(
        lambda x: (sig(x[0], 3), sig(x[1], 3))),
)


def make_run(solutions, final=None, use_E_r=False, **kw):
    """A run of the solutions given."""
    from disc_solver.file_format import Run
    args = dict(
        config_input=storage.build_config(CONFIG), config_filename="a.cfg",
        disc_solver_version="1", float_type="float64",
        sonic_method="single", use_E_r=use_E_r,
    )
    args.update(kw)
    run = Run(**args)
    for soln in solutions:
        run.solutions.add_solution(soln)
    if final is not None:
        run.final_solution = solutions[final]
    return run


def silent():
    return contextlib.redirect_stdout(io.StringIO())


def lines(ax):
    """{label: (x, y)} of an axis' labelled lines."""
    return {
        line.get_label(): (
            np.asarray(line.get_xdata(orig=True), dtype=float),
            np.asarray(line.get_ydata(orig=True), dtype=float),
        ) for line in ax.get_lines()
    }


def curves(ax):
    """[(x, y)] of an axis, in the order drawn."""
    return [(
        np.asarray(line.get_xdata(orig=True), dtype=float),
        np.asarray(line.get_ydata(orig=True), dtype=float),
    ) for line in ax.get_lines()]


@contextlib.contextmanager
def drawn(func, *args, **kw):
    """The figure the function draws, closed afterwards."""
    import matplotlib
    matplotlib.use("agg")
    import matplotlib.pyplot as plt
    plt.close("all")
    try:
        with silent():
            fig = func(*args, **kw)
        yield fig
    finally:
        plt.close("all")


def inside(angles, window):
    """Rows whose angle is in the range of degrees asked for."""
    deg = np.degrees(np.asarray(angles, dtype=float))
    return (window[0] <= deg) & (deg <= window[1])
