# -*- coding: utf-8 -*-
"""C27: figures show what is stored."""
import contextlib
from collections import namedtuple
from pathlib import Path

import numpy as np
from hypothesis import strategies as st

import figures
import phys
import profiles
from engine import relation, fail
from gens import flt, sig
from props import c15
from storage import opened, scratch_dir

from disc_solver.file_format import InternalData

ASSUMPTIONS = [
    "profiles are finite; the figure is looked at when it is saved",
    "each figure is drawn by its command, in one process after others",
    "how surface densities and rates of flow are found is taken from the "
    "package (C22): here, that they are those of the rows asked for",
]

Case = namedtuple("Case", [
    "kind", "profiles", "final", "which", "window", "options", "texts",
    "size", "seed", "use_E_r", "internal",
])

# how many of each are drawn
SINGLE = {
    "plot": 22, "params": 10, "derivs": 10, "component": 16, "combine": 14,
    "acc": 6, "surface": 6, "taylor": 10, "vert": 14,
}
MANY = {
    "compare": 10, "conserve": 10, "diverge": 16, "sonic_ratio": 12,
    "v_deriv": 10, "phys_ratio": 10,
}
FLAGS = ("slow", "alfven", "fast", "sonic", "portrait", "hide-roots",
         "hide-sonic-angle", "log", "nolog", "show-values", "only", "filter",
         "no-show-version", "hide-legend", "default window")
MAINS = {
    "plot": ("plot", "plot_main"), "params": ("params_plot", "params_main"),
    "derivs": ("derivs_plot", "derivs_main"),
    "component": ("component_plot", "plot_main"),
    "combine": ("combine_plot", "combine_main"),
    "acc": ("acc_plot", "acc_main"),
    "surface": ("surface_density_plot", "surface_density_main"),
    "taylor": ("taylor_plot", "taylor_main"),
    "vert": ("vert_plot", "plot_main"),
    "compare": ("compare_plot", "plot_main"),
    "conserve": ("conserve_plot", "conserve_main"),
    "diverge": ("diverge_plot", "diverge_main"),
    "sonic_ratio": ("sonic_ratio_plot", "plot_main"),
    "v_deriv": ("v_deriv_cmp", "plot_main"),
    "phys_ratio": ("phys_ratio_plot", "plot_main"),
}


def cases(kind):
    return st.builds(
        Case, st.just(kind), st.lists(
            profiles.profiles(rows=st.integers(2, 15)), min_size=1,
            max_size=4),
        st.one_of(st.none(), st.integers(0, 3)),
        st.one_of(st.integers(0, 3), st.just("final")),
        figures.windows, st.frozensets(st.sampled_from(FLAGS)),
        st.one_of(st.none(), st.text("abc αθ:", min_size=1, max_size=6)),
        st.one_of(st.none(), st.tuples(
            flt(3, 9).map(lambda x: sig(x, 3)),
            flt(3, 9).map(lambda x: sig(x, 3)))),
        st.integers(0, 2 ** 20), st.sampled_from([False, False, False, True]),
        st.sampled_from([True, True, True, False]),
    )


def internal(seed):
    rng = np.random.default_rng(seed)
    rows = int(rng.integers(1, 12))
    p = rng.standard_normal((rows, 11))
    p[rng.integers(rows), rng.integers(11)] = 0.0
    extras = {
        n: rng.standard_normal(rows) for n in (
            "v_r_normal", "v_φ_normal", "ρ_normal", "v_r_taylor",
            "v_φ_taylor", "ρ_taylor")
    }
    return InternalData(
        derivs=rng.standard_normal((rows, 11)) * 3, params=p,
        angles=np.sort(rng.uniform(0, 1.3, rows)), **extras,
    )


def make(case):
    solutions = []
    for i, c in enumerate(case.profiles):
        soln = profiles.build(c._replace(use_E_r=case.use_E_r))
        if case.internal:
            soln.internal_data = internal(case.seed + i)
        solutions.append(soln)
    final = None if case.final is None else case.final % len(solutions)
    if case.which == "final":
        if final is None:
            final = 0
        which, i = "final", final
    else:
        i = case.which % len(solutions)
        which = str(i)
    return solutions, final, which, i


Taken = namedtuple("Taken", ["axes", "title", "texts", "size", "legend"])


@contextlib.contextmanager
def saving():
    """The figures saved, which are not written anywhere"""
    from matplotlib.figure import Figure
    saved = []
    old = Figure.savefig

    def savefig(self, fname, *args, **kw):
        saved.append((str(fname), take(self)))

    Figure.savefig = savefig
    try:
        yield saved
    finally:
        Figure.savefig = old


Panel = namedtuple("Panel", ["ylabel", "xlabel", "title", "yscale", "lines"])


def take(fig):
    panels = []
    for ax in fig.axes:
        lines = [(
            str(l.get_label()),
            np.array(l.get_xdata(orig=True), dtype=float).reshape(-1),
            np.array(l.get_ydata(orig=True), dtype=float).reshape(-1),
            l.get_color(),
        ) for l in ax.get_lines()]
        panels.append(Panel(
            ax.get_ylabel(), ax.get_xlabel(), ax.get_title(),
            ax.get_yscale(), lines))
    return Taken(
        panels, fig.get_suptitle(), fig.get_supxlabel(),
        tuple(fig.get_size_inches()),
        any(ax.get_legend() is not None for ax in fig.axes),
    )


def run_command(case, args, out):
    """The figure the command makes"""
    import importlib
    import matplotlib
    matplotlib.use("agg")
    import matplotlib.pyplot as plt
    module, main = MAINS[case.kind]
    main = getattr(
        importlib.import_module("disc_solver.analyse." + module), main)
    plt.close("all")
    before = dict(matplotlib.rcParams)
    try:
        with figures.silent(), saving() as saved:
            main(["--quiet", "--filename", str(out)] + args)
    finally:
        plt.close("all")
    if dict(matplotlib.rcParams) != before:
        fail("the settings of figures are not what they were", key="settings")
    if [name for name, _ in saved] != [str(out)]:
        fail(f"figures saved are {[n for n, _ in saved]!r}", key="saved")
    return saved[0][1]


def arguments(case, which):
    """(arguments, window)"""
    args, o = [], case.options
    window = case.window
    if "default window" in o or case.kind in ("acc", "taylor"):
        window = (0, 90)
    else:
        args += ["--start", repr(window[0]), "--stop", repr(window[1])]
    for name, kinds in (
        ("slow", ("plot", "combine", "diverge")),
        ("alfven", ("plot", "combine", "diverge")),
        ("fast", ("plot", "combine", "diverge")),
        ("sonic", ("plot", "combine", "vert")),
    ):
        if name in o and case.kind in kinds:
            args.append(f"--with-{name}")
    for name, kinds in (
        ("portrait", ("plot",)), ("hide-roots", ("plot",)),
        ("hide-sonic-angle", ("plot",)), ("nolog", ("derivs",)),
        ("show-values", ("taylor",)), ("hide-legend", ("diverge",)),
    ):
        if name in o and case.kind in kinds:
            args.append("--" + name)
    if "log" in o and case.kind in ("plot", "compare"):
        args += ["--v_θ", "log"]
    if "no-show-version" in o:
        args.append("--no-show-version")
    if case.texts is not None:
        args += ["--title", case.texts]
    if case.size is not None:
        args += ["--figsize", *map(repr, case.size)]
    return args, window


def has(case, name):
    return name in case.options


# ---------------------------------------------------------------------------
# what figures are to show: {panel: (scale, [(label or None, x, y, error)])}

NAMES = [
    "$B_r/B_0$", "$B_φ/B_0$", "$B_θ/B_0$", "$v_r/c_s$", "$(v_φ - v_k)/c_s$",
    "$v_θ/c_s$", "$ρ/ρ_0$",
]


def wave_lines(case, soln):
    """[(label, speeds, error)]"""
    a_0 = soln.initial_conditions.a_0
    speeds = np.array([c15.waves(row, a_0) for row in soln.solution])
    lines = []
    for i, n in enumerate(("slow", "alfven", "fast")):
        if has(case, n):
            err = 1e-12 * speeds[:, i] + 1e-13 * speeds[:, 2] * (
                1 + speeds[:, 2] / speeds[:, i])
            lines.append((n, speeds[:, i], err))
    return lines


def expect_plot(case, soln, window):
    p = soln.solution.copy()
    rows = figures.inside(soln.angles, window)
    x = np.degrees(soln.angles)
    v_k = 1 / soln.solution_input.c_s_on_v_k
    panels = {}
    for i, name in enumerate(
        NAMES + ["$E_r/E_0$" if case.use_E_r else "$B_φ'/B_0$"]
    ):
        off = v_k if i == phys.VP else 0
        lines = [(None, x[rows], p[rows, i] - off, None)]
        if i == phys.VT:
            lines += [(n, x[rows], s[rows], e[rows])
                      for n, s, e in wave_lines(case, soln)]
            if has(case, "sonic"):
                lines.append(("sound", x[rows], np.ones(rows.sum()), None))
        if soln.sonic_point is not None and not has(case, "hide-sonic-angle"):
            lines.append((
                None, np.degrees([soln.sonic_point]),
                [soln.sonic_point_values[i] - off], None))
        if soln.t_roots is not None and not has(case, "hide-roots"):
            lines.append((
                None, np.degrees(soln.t_roots), soln.y_roots[:, i] - off,
                None))
        scale = "log" if i == phys.RHO or (
            i == phys.VT and has(case, "log")) else "linear"
        panels[name] = (scale, lines)
    return panels


def log_lines(x, y):
    return [(None, x[y >= 0], y[y >= 0], None), (None, x[y < 0], -y[y < 0],
                                                 None)]


def expect_internal(case, soln, window):
    data = soln.internal_data
    rows = figures.inside(data.angles, window)
    x = np.degrees(data.angles)[rows]
    values = data.params if case.kind == "params" else data.derivs
    panels = {}
    for i, name in enumerate(
        NAMES + ["$E_r/E_0$" if case.use_E_r else "$B_φ'/B_0$"]
    ):
        y = values[rows, i]
        if case.kind == "derivs" and has(case, "nolog"):
            panels[name] = ("linear", [(None, x, y, None)])
        else:
            panels[name] = ("log", log_lines(x, y))
    return panels


def expect_taylor(case, soln, window):
    data = soln.internal_data
    x = np.degrees(data.angles)
    panels = {}
    for n in ("v_r", "v_φ", "ρ"):
        a, b = (getattr(data, f"{n}_{w}") for w in ("normal", "taylor"))
        if has(case, "show-values"):
            panels[n] = ("log", log_lines(x, a) + log_lines(x, b))
        else:
            panels[n] = ("log", [(None, x, np.abs(a / b), None)])
    return panels


def parts(terms, *groups):
    """Sums of groups of terms, and of all of them, with their sizes"""
    out = [sum(-terms[i] for i in g) for g in groups]
    size = sum(np.abs(t) for t in terms)
    return out, size


def expect_component(case, soln, window):
    rows = figures.inside(soln.angles, window)
    θ, p = soln.angles[rows], soln.solution[rows]
    x = np.degrees(θ)
    γ = soln.initial_conditions.γ
    a_0, K2 = soln.initial_conditions.a_0, soln.solution_input.c_s_on_v_k ** -2
    q = p.T.copy()
    X7 = q[phys.X7]
    zero = np.zeros_like(x)
    dBr = phys.dB_r_from_E_φ(θ, q, X7, γ)
    d = np.zeros((11, len(x)))
    d[phys.BR] = dBr
    eqs = phys.residuals(θ, q, d, γ, a_0, K2, X7)
    panels = {}
    tan, vr, vt, vp = np.tan(θ), q[phys.VR], q[phys.VT], q[phys.VP]
    v, B = phys.fields(q)
    J = phys.currents(θ, q, dBr, X7, γ)
    η = q[phys.EO] + q[phys.EA] + np.abs(q[phys.EH])
    # how well the current which balances the field is known
    fuzz = 1e-12 * (
        sum(np.abs(a * b) for a in v for b in B) / q[phys.EO]
        + η / q[phys.EO] * (sum(np.abs(j) for j in J) + np.abs(dBr)
                            + (1 + tan) * sum(np.abs(b) for b in B))
    )
    m = a_0 / q[phys.RHO] * (np.abs(q[phys.BT]) + np.abs(q[phys.BR]))

    def add(name, lines, total, error):
        panels[name] = ("linear", [
            (label, x, y, error) for label, y in lines.items()
        ] + [("all terms", x, total, error)])

    t = eqs["radial momentum"]
    (a, b, c), size = parts(t, (1, 2, 5), (3, 4), (6, 7, 8))
    add("radial momentum", {
        "radial terms": a, "keplerian terms": b, "magnetic terms": c,
    }, a + b + c, 1e-11 * size + m * fuzz)
    t = eqs["azimuthal momentum"]
    (a, b), size = parts(t, (1, 2), (3, 4, 5))
    add("azimuthal momentum", {
        "non-magnetic terms": a, "magnetic terms": b,
    }, a + b, 1e-11 * size)
    t = eqs["polar momentum"]
    (c,), size = parts(t, (4, 5, 6, 7))
    a, b, c = vr / 2 * (vt ** 2 - 4 * γ), vt * tan * (vp ** 2 + 1), -vt * c
    polar_error = 1e-11 * (np.abs(vr) * (vt ** 2 + 4) + vt * (
        tan + size)) + vt * m * fuzz
    add("polar momentum", {
        "no-B no-v_φ terms": a, "no-B v_φ terms": b, "magnetic terms": c,
    }, a + b + c, polar_error)
    with np.errstate(all="ignore"):
        dvt = (a + b + c) / (1 - vt ** 2)
        a, b = vt * tan, -2 * γ * vr - dvt
        error = 1e-11 * (np.abs(a) + np.abs(b) + np.abs(dvt)) + (
            polar_error + 1e-14 * np.abs(dvt)) / np.abs(1 - vt ** 2)
        add("continuity", {"tan term": a, "non-tan terms": b}, a + b, error)
    a, b = q[phys.BT] * tan, -(γ + 3 / 4) * q[phys.BR]
    add("solenoid condition", {"B_θ terms": a, "B_r terms": b}, a + b,
        1e-11 * (np.abs(a) + np.abs(b)))
    # the current is a sum of what the velocity, B_φ' and the field give
    still = q.copy()
    still[[phys.VR, phys.VT, phys.VP]] = 0
    rest = phys.dB_r_from_E_φ(θ, still, zero, γ)
    a, b = dBr - phys.dB_r_from_E_φ(θ, still, X7, γ), \
        -q[phys.BT] * (1 / 4 - γ)
    c = phys.dB_r_from_E_φ(θ, still, X7, γ) - rest
    add("polar induction", {
        "v terms": a, "no-η terms": b, "$B_φ'$ terms": c,
        "$B_φ$ terms": rest - b,
    }, dBr, fuzz)
    if has(case, "only"):
        name = sorted(panels)[case.seed % len(panels)]
        return {name: panels[name]}
    return panels


def expect_combine(case, soln, window):
    from disc_solver.utils import get_normalisation
    rows = figures.inside(soln.angles, window)
    x = np.degrees(soln.angles)[rows]
    p = soln.solution
    norms = get_normalisation(soln.solution_input)
    km = norms["v_norm"] / 1e5
    v_k = 1 / soln.solution_input.c_s_on_v_k
    velocity = [
        ("$v_r$", x, p[rows, phys.VR] * km, None),
        ("$v_φ - v_k$", x, (p[rows, phys.VP] - v_k) * km,
         np.full(len(x), 1e-12 * v_k * km)),
        ("$v_θ$", x, p[rows, phys.VT] * km, None),
    ] + [(n, x, s[rows] * km, e[rows] * km)
         for n, s, e in wave_lines(case, soln)]
    if has(case, "sonic"):
        velocity.append(("$c_s$", x, np.full(len(x), km), None))
    return {
        "Velocity Field (km/s)": ("linear", velocity),
        "Density (g cm$^{-3}$)": ("log", [
            ("$ρ$", x, p[rows, phys.RHO] * norms["ρ_norm"], None)]),
        "Magnetic Field (G)": ("linear", [
            (n, x, p[rows, i] * norms["B_norm"], None) for n, i in (
                ("$B_r$", phys.BR), ("$B_φ$", phys.BP), ("$B_θ$", phys.BT))]),
    }


def expect_acc(case, soln, window):
    from disc_solver.constants import AU, KM, M_SUN, YEAR
    from disc_solver.utils import get_normalisation
    norms = get_normalisation(soln.solution_input)
    x = np.degrees(soln.angles)
    p = soln.solution
    unit = M_SUN / YEAR
    near = x < 1
    torque = p[:, phys.BT] * p[:, phys.BP] * norms["B_norm"] ** 2
    wind = p[:, phys.RHO] * p[:, phys.VT] * norms["ρ_norm"] * norms["v_norm"]
    return {
        0: ("linear", [(
            None, x[near], (torque * AU ** 2 / (30 * KM) / unit)[near],
            None)]),
        1: ("linear", [(
            None, x[near], (wind * np.pi * AU ** 2 / unit)[near], None)]),
    }


def expect_surface(case, soln, window):
    rows = figures.inside(soln.angles, window)
    x = np.degrees(soln.angles)
    total, sums = 0.0, []
    for ρ in soln.solution[:, phys.RHO]:
        total += float(ρ)
        sums.append(total)
    return {"σ": ("linear", [(None, x[rows], np.array(sums)[rows], None)])}


VERTICAL = [
    "$B_r/B_0$", "$B_φ/B_0$", "$B_z/B_0$", "$v_r/c_s$", "$(v_φ - v_k)/c_s$",
    "$v_z/c_s$", "$ρ/ρ_0$", "$B_φ'/B_0$",
]


def expect_vert(case, soln, window):
    θ, p = soln.angles, soln.solution
    h, γ = soln.solution_input.c_s_on_v_k, soln.solution_input.γ
    z = np.tan(θ) / h
    rows = (window[0] <= z) & (z <= window[1])
    # at cylindrical radius one, spherical radii are 1/cos
    R = 1 / np.cos(θ)
    B, v = R ** (γ - 5 / 4), R ** -0.5
    c, s = np.cos(θ), np.sin(θ)
    values = [
        B * (p[:, phys.BR] * c - p[:, phys.BT] * s), B * p[:, phys.BP],
        B * (p[:, phys.BT] * c + p[:, phys.BR] * s),
        v * (p[:, phys.VR] * c - p[:, phys.VT] * s),
        v * p[:, phys.VP] - v / h,
        v * (p[:, phys.VT] * c + p[:, phys.VR] * s),
        R ** (2 * γ - 3 / 2) * p[:, phys.RHO], B * p[:, phys.X7],
    ]
    panels = {}
    for i, (name, y) in enumerate(zip(VERTICAL, values)):
        size = 1e-12 * (
            np.abs(p).max(axis=1) if i not in (6,) else np.abs(y))
        lines = [(None, z[rows], y[rows], size[rows] * 10)]
        if i == 5 and has(case, "sonic"):
            lines.append(("sound", z[rows], np.ones(rows.sum()), None))
        panels[name] = ("log" if i == 6 else "linear", lines)
    return panels


SINGLE_EXPECTED = {
    "plot": expect_plot, "params": expect_internal, "derivs": expect_internal,
    "taylor": expect_taylor, "component": expect_component,
    "combine": expect_combine, "acc": expect_acc, "surface": expect_surface,
    "vert": expect_vert,
}


def compare_lines(what, got, want):
    """Every curve which is to be drawn is, and no other"""
    left = list(got)
    for label, x, y, err in want:
        x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
        tol = 1e-11 * np.abs(y) if err is None else err + 1e-300
        why = "none is left"
        for k, (name, gx, gy, _) in enumerate(left):
            if label is not None and name != label:
                continue
            if gx.shape != x.shape or gy.shape != y.shape:
                why = f"{len(gx)} points drawn of {len(x)}"
                continue
            if np.any(np.abs(gx - x) > 1e-11 * np.abs(x)):
                why = f"they are at {gx!r}, not {x!r}"
                continue
            with np.errstate(invalid="ignore"):
                bad = ~(np.abs(gy - y) <= tol) & ~(
                    ~np.isfinite(y) | ~np.isfinite(tol))
            if np.any(bad):
                i = int(np.argmax(bad))
                why = f"{gy[i]!r} is drawn at {x[i]!r}, not {y[i]!r}"
                continue
            del left[k]
            break
        else:
            fail(f"{what}: {label or 'the curve'}: {why}", key=what)
    if left:
        fail(f"{what}: also draws {[l[0] for l in left]!r}", key="more")


def compare_panels(kind, taken, want):
    panels = [p for p in taken.axes if p.lines or p.ylabel or p.title]
    found = {}
    for i, p in enumerate(panels):
        name = i if 0 in want else (p.ylabel or p.title)
        found[name] = p
    if kind == "component":
        found = {n: p for n, p in found.items() if p.lines}
    if set(found) != set(want):
        fail(f"{kind}: panels are {list(found)!r}, not {list(want)!r}",
             key="panels")
    for name, (scale, lines) in want.items():
        if found[name].yscale != scale:
            fail(f"{kind}: {name} is {found[name].yscale}, not {scale}",
                 key="scale")
        compare_lines(f"{kind} {name}", found[name].lines, lines)


def expect_frame(case, taken, title):
    if title is not None and taken.title != title:
        fail(f"the title is {taken.title!r}, not {title!r}", key="title")
    import disc_solver
    shown = disc_solver.__version__ in taken.texts
    if shown == has(case, "no-show-version"):
        fail(f"the version is {'' if shown else 'not '}shown", key="version")
    if case.size is not None and not np.allclose(taken.size, case.size):
        fail(f"the figure is {taken.size!r}, not {case.size!r}", key="size")


def store(path, solutions, final, case):
    with opened(str(path), "x") as f:
        f["run"] = figures.make_run(solutions, final, use_E_r=case.use_E_r)
    return path.read_bytes()


def one_solution(case):
    """Figures of one solution."""
    from disc_solver.utils import DiscSolverError
    solutions, final, which, i = make(case)
    soln = solutions[i]
    args, window = arguments(case, which)
    only = None
    kind = case.kind
    refused = (case.use_E_r and kind in ("params", "component", "vert")) or (
        kind in ("params", "derivs", "taylor") and not case.internal)
    want = None if refused else SINGLE_EXPECTED[kind](case, soln, window)
    if kind == "component" and has(case, "only"):
        if case.seed % 7 == 0:
            only, refused = "no such equation", True
        else:
            only = next(iter(want or ["continuity"]))
        args += ["--only", only]
    with scratch_dir() as d:
        path, out = Path(d) / "a.hdf5", Path(d) / "a.png"
        content = store(path, solutions, final, case)
        try:
            taken = run_command(case, args + [str(path), which], out)
        except DiscSolverError:
            if not refused:
                raise
            return ["refused"]
        if refused:
            fail(f"{kind}: drawn without what it needs", key="refused")
        if path.read_bytes() != content:
            fail("the file was changed", key="changed")
        expect_frame(case, taken, case.texts or f"{path}:{which}")
    compare_panels(kind, taken, want)
    return any(len(l[1]) for _, lines in want.values() for l in lines)


for _kind, _count in SINGLE.items():
    relation(
        cases(_kind), quick=_count * 2, thorough=_count * 60, cost=15,
        rule="some rows are within the range drawn",
        name=f"{_kind}_figure",
    )(one_solution)


def expect_many(case, chosen, window):
    """{panel: (scale, lines)} of [(label, solution)]"""
    panels = {}

    def add(name, scale, line):
        panels.setdefault(name, (scale, []))[1].append(line)

    for label, soln in chosen:
        p = soln.solution
        rows = figures.inside(soln.angles, window)
        x = np.degrees(soln.angles)[rows]
        if case.kind == "compare":
            v_k = 1 / soln.solution_input.c_s_on_v_k
            for i, name in enumerate(NAMES + [None]):
                scale = "log" if i == phys.RHO or (
                    i == phys.VT and has(case, "log")) else "linear"
                add(name, scale, (label, x, p[rows, i] - (
                    v_k if i == phys.VP else 0), None))
        elif case.kind == "conserve":
            add(0, "linear", (
                label, x, p[rows, phys.RHO] * p[rows, phys.VT], None))
        elif case.kind == "diverge":
            add(0, "linear", (label, x, p[rows, phys.VT], None))
            for n, s, e in wave_lines(case, soln):
                add(0, "linear", (n, x, s[rows], e[rows]))
        elif case.kind == "sonic_ratio":
            m, err = c15.machs(p, soln.initial_conditions.a_0)
            for n, name in (("alfven", "$v_θ/v_a$"), ("fast", "$v_θ/v_f$")):
                add(name, "linear", (label, x, m[n][rows], (
                    100 * err[n] * np.abs(m[n]) + 1e-12 * m[n])[rows]))
        elif case.kind == "v_deriv":
            data = soln.internal_data
            rows = figures.inside(data.angles, window)
            add(0, "linear", (
                label, np.degrees(data.angles)[rows],
                data.derivs[rows, phys.VT], None))
    return panels


def spelled(case, count):
    """(text, [numbers]) of a choice of solutions"""
    rng = np.random.default_rng(case.seed + 5)
    texts, numbers = [], []
    for _ in range(rng.integers(1, 3)):
        a, b = sorted(rng.integers(0, count, 2))
        new = list(range(a, b + 1))
        if set(new) & set(numbers):
            continue
        numbers += new
        gap = " " * rng.integers(0, 2)
        texts.append(gap + (f"{a}-{b}" if b > a or a % 2 else f"{a}") + gap)
    return ",".join(texts), [int(n) for n in numbers]


def many_solutions(case):
    """Figures of more than one solution."""
    from disc_solver.analyse.utils import AnalysisError
    solutions, final, _, _ = make(case)
    kind = case.kind
    args, window = arguments(case, None)
    refused = kind == "v_deriv" and not case.internal
    with scratch_dir() as d:
        path, out = Path(d) / "a.hdf5", Path(d) / "a.png"
        content = store(path, solutions, final, case)
        numbers = list(range(len(solutions)))
        if kind in ("conserve", "diverge"):
            if kind == "diverge" and has(case, "filter"):
                text, numbers = spelled(case, len(solutions))
                args += ["--solutions", text]
            chosen = [(str(i), solutions[i]) for i in numbers]
            args.append(str(path))
        else:
            # in any order, some of them twice
            rng = np.random.default_rng(case.seed)
            numbers = [int(i) for i in rng.permutation(numbers)] + [
                int(rng.integers(len(numbers)))]
            if kind == "phys_ratio":
                numbers = [
                    i for i in numbers
                    if solutions[i].initial_conditions.γ not in (0, 0.5)
                    and figures.inside(
                        solutions[i].angles, window).sum() > 2]
                if not numbers:
                    return None
            chosen = [(f"{path}:{i}", solutions[i]) for i in numbers]
            for i in numbers:
                args += ["-r", str(path), str(i)]
        try:
            taken = run_command(case, args, out)
        except AnalysisError:
            if not refused:
                raise
            return ["refused"]
        if refused:
            fail(f"{kind}: drawn without what it needs", key="refused")
        expect_frame(case, taken, case.texts)
        if kind == "phys_ratio":
            physical(case, chosen, window, taken, Path(d))
        else:
            want = expect_many(case, chosen, window)
            if kind == "compare":
                # what the last panel is called depends on the run
                panels = [p for p in taken.axes if p.lines]
                taken = taken._replace(axes=panels[:-1] + [
                    panels[-1]._replace(ylabel="last")])
                want["last"] = want.pop(None)
            compare_panels(kind, taken, want)
            colours(kind, taken, chosen)
        if kind == "diverge" and taken.legend == has(case, "hide-legend"):
            fail("the legend is not as asked for", key="legend")
        if path.read_bytes() != content:
            fail("the file was changed", key="changed")
    return len(chosen) > 1


for _kind, _count in MANY.items():
    relation(
        cases(_kind), quick=_count * 2, thorough=_count * 60, cost=15,
        rule="more than one solution is drawn", name=f"{_kind}_figure",
    )(many_solutions)


def colours(kind, taken, chosen):
    """Solutions can be told apart"""
    labels = {label for label, _ in chosen}
    for p in taken.axes:
        used = [str(c) for l, _, _, c in p.lines if l in labels]
        if len(used) != len(set(used)):
            fail(f"{kind}: solutions are drawn in {used!r}", key="colours")


def physical(case, chosen, window, taken, d):
    """
    Points of the ratios, which are what they are when there is nothing else
    in the solution than what is asked for.
    """
    cut = []
    for _, soln in chosen:
        rows = figures.inside(soln.angles, window)
        soln.angles, soln.solution = soln.angles[rows], soln.solution[rows]
        if soln.derivatives is not None:
            soln.derivatives = soln.derivatives[rows]
        cut.append(soln)
    panels = [p for p in taken.axes if p.lines]
    if len(panels) != 2:
        fail(f"{len(panels)} panels", key="panels")
    other = d / "b.hdf5"
    store(other, cut, None, case)
    args = []
    for i in range(len(cut)):
        args += ["-r", str(other), str(i)]
    again = run_command(case, args, d / "b.png")
    for k, (p, q) in enumerate(zip(panels, again.axes)):
        if len(p.lines) != len(chosen):
            fail(f"{len(p.lines)} points of {len(chosen)}", key="points")
        for (label, soln), got, want in zip(chosen, p.lines, q.lines):
            inp = soln.solution_input
            if got[0] != label:
                fail(f"{got[0]!r} is drawn, not {label!r}", key="label")
            η = soln.initial_conditions.init_con[phys.EA]
            near(f"{label} η_A", got[1], η / inp.c_s_on_v_k)
            near(f"{label} ratio {k}", got[2], float(want[2][0]))
            if k == 0:
                near(f"{label} B²/Σ", got[2], inp.v_a_on_c_s ** 2 / float(
                    np.sum(soln.solution[:, phys.RHO])))


def near(what, got, want):
    if got.shape != (1,) or not abs(got[0] - want) <= 1e-9 * abs(want):
        fail(f"{what} is drawn as {got!r}, not {want!r}", key="ratio")


@relation(
    st.lists(st.tuples(
        st.sampled_from(["E_r", "B_φ_prime", "E_r_vert", "B_φ_prime_vert"]),
        st.sampled_from(["log", "linear"]),
        st.sampled_from(["none", "kepler", "given"]),
        st.integers(1, 400), st.booleans(),
    ), min_size=2, max_size=6), quick=200, thorough=5000,
    rule="plots of different settings",
)
def settings(case):
    """What the panels of a figure are does not depend on earlier figures."""
    from disc_solver.analyse.utils import get_common_arguments, PlotOrdering

    class Conditions:
        def __init__(self, K2):
            self.norm_kepler_sq = K2

    for order, scale, offset, K2, extra in case:
        args = get_common_arguments(
            PlotOrdering(order), v_θ_scale=scale,
            initial_conditions=Conditions(K2),
            no_v_φ_offset=offset == "none",
            v_φ_offset=K2 + 0.5 if offset == "given" else None)
        vert = order.endswith("vert")
        names = list(VERTICAL if vert else NAMES + ["$B_φ'/B_0$"])
        if order.startswith("E_r"):
            names[-1] = "$E_r/E_0$"
        if [a["name"] for a in args] != names:
            fail(f"{order}: panels are {[a['name'] for a in args]!r}",
                 key="names")
        want = {"none": 0, "kepler": K2 ** 0.5, "given": K2 + 0.5}[offset]
        for i, a in enumerate(args):
            w = want if i == phys.VP else 0
            if not abs(a.get("offset", 0) - w) <= 1e-12 * abs(w):
                fail(f"{order}: {a['name']} is less {a.get('offset')!r}, not "
                     f"{w!r}", key="offset")
            w = "log" if i == phys.RHO else (
                scale if i == phys.VT and not vert else "linear")
            if a.get("scale", "linear") != w:
                fail(f"{order}: {a['name']} is {a.get('scale')!r}, not {w!r}",
                     key="scale")
            if a.get("extras", []):
                fail(f"{order}: {a['name']} comes with {a['extras']!r}",
                     key="extras")
        if extra:
            args[phys.VT]["extras"].append("more")
    return len({c[:3] for c in case}) > 1


@relation(
    st.integers(0, 200), quick=40, thorough=200, rule="more than ten colours",
)
def colour_map(size):
    """There is a different colour for everything to be told apart."""
    from disc_solver.analyse.utils import distinct_color_map
    colours = [tuple(np.round(c, 6)) for c in distinct_color_map(size)][:size]
    if len(set(colours)) != size:
        fail(f"{len(set(colours))} colours for {size}", key="colours")
    return size > 10


@relation(
    st.lists(st.one_of(flt(-3, 3), st.sampled_from([0.0, -0.0])), min_size=0,
             max_size=12), quick=60, thorough=3000, cost=5,
    rule="values of both signs",
)
def signs_apart(case):
    """Values of either sign are shown on logarithmic axes."""
    import matplotlib.pyplot as plt
    from disc_solver.analyse.utils import plot_log_lines
    y = np.array(case, dtype=float)
    x = np.arange(len(y)) + 0.5
    fig = plt.figure()
    try:
        ax = fig.subplots()
        plot_log_lines(ax, x.copy(), y.copy(), "o")
        curves, scale = figures.curves(ax), ax.get_yscale()
    finally:
        plt.close(fig)
    shown = sorted((a, b, k) for k, (xs, ys) in enumerate(curves)
                   for a, b in zip(xs, ys))
    if [s[:2] for s in shown] != [(a, abs(b)) for a, b in zip(x, y)]:
        fail(f"{case!r} is drawn as {shown!r}", key="points")
    for group in (y > 0, y < 0):
        if len({s[2] for s, g in zip(shown, group) if g}) > 1:
            fail("values of one sign are drawn apart", key="apart")
    signs = {np.sign(b): s[2] for s, b in zip(shown, y) if b}
    if len(signs) == 2 and signs[1] == signs[-1]:
        fail("values of different signs are drawn together", key="together")
    if scale != "log":
        fail(f"the axis is {scale}", key="scale")
    return len(signs) == 2
