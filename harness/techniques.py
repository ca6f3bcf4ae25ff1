# -*- coding: utf-8 -*-
"""The deciding method of each check, and what it leaves open."""
TECHNIQUES = {
    "C01": (
        "property-based testing against an independent vector MHD residual",
        "random states incl. zeroed components, both sides of sonic point; "
        "the listed curvature-sign deviation is checked against its exact "
        "model",
    ),
    "C02": (
        "differential property-based testing of the two formulations",
        "random states and inputs; compares formulations and Ohm's law",
    ),
    "C03": (
        "property-based testing against a Newton power-series solution",
        "random midplane inputs; ill-conditioned series systems are skipped "
        "and counted as trivial",
    ),
    "C04": (
        "property-based testing against an independent vector MHD residual",
        "random states of both approximations; derivatives an approximation "
        "drops or replaces are excluded; the listed sign deviation is checked "
        "against its exact model",
    ),
    "C05": (
        "property-based testing against the midplane force balance",
        "random inputs with and without a midplane, random grids",
    ),
    "C06": (
        "property-based testing: multiple shooting with an independent "
        "integrator, differential and metamorphic relations over options",
        "inputs of the kind that integrate; intervals too stiff for the "
        "reference within its budget are skipped",
    ),
    "C07": (
        "property-based testing: differential against a solve stopped at the "
        "threshold, extrapolation and shooting oracles",
        "thresholds are moved to velocities the solution reaches; crossings "
        "whose threshold is never reached are excluded",
    ),
    "C08": (
        "property-based testing of the file round trip",
        "generated runs, solutions, inputs and internal data, written whole "
        "and as the solvers do it, compared by value and type",
    ),
    "C09": (
        "property-based testing against a model of each earlier file version",
        "files of every version of every object, and mixes of versions, "
        "written by the harness with generated values",
    ),
    "C10": (
        "property-based testing of the configuration file and conversion "
        "round trips",
        "generated files, overrides, configurations, inputs and stored runs; "
        "no attempt at malformed numbers",
    ),
    "C11": (
        "property-based testing against a model of overriding",
        "generated stored inputs that differ from their configuration, with "
        "the solving itself replaced by a recorder",
    ),
    "C12": (
        "property-based testing of the CSV round trips",
        "generated tables, solutions and batches; solving is replaced by a "
        "recorder in the batch runs",
    ),
    "C13": (
        "stateful property-based testing against a model mapping",
        "generated operation sequences in memory, through the file and "
        "through reopening",
    ),
    "C14": (
        "stateful property-based testing against a model of lists",
        "generated pieces and sequences of joins, flips and finalisations",
    ),
    "C15": (
        "property-based testing against the MHD dispersion relation",
        "generated states and profiles",
    ),
    "C16": (
        "property-based testing of round trips and scaling relations",
        "generated angles, vectors, profiles and inputs; scaled angles are "
        "outside the normalisation relations",
    ),
    "C17": (
        "property-based testing of the searches against brute force",
        "generated sequences, functions and behaviours of the solver",
    ),
    "C18": (
        "property-based testing of conservation laws and post-shock runs",
        "generated profiles and bounds; the solving after the shock is "
        "recorded, and for some cases real",
    ),
    "C19": (
        "property-based testing of histories against generated solver "
        "behaviours",
        "the underlying solver is a generated stand-in; internal data is "
        "outside the splitter relations",
    ),
    "C20": (
        "property-based testing of the sampler's probability and its history",
        "generated variables, proposals and solver behaviours, with short "
        "chains of the sampler",
    ),
    "C21": (
        "property-based testing of the commands against the files they leave",
        "generated configurations, batches, name clashes and failures "
        "through the command line entry points",
    ),
    "C23": (
        "property-based testing against an independent vector MHD residual",
        "random states and derivatives that satisfy nothing, and real "
        "solutions; observed through the figures",
    ),
    "C22": (
        "property-based testing of reports against the contents of files",
        "generated runs written to files and read back from what the "
        "commands say; rates of flow and densities are compared between "
        "solutions, not with absolute values",
    ),
    "C24": (
        "property-based testing against complex-step derivatives",
        "random states of order one and steps between 1e-6 and 1e-4; "
        "observed through the functions and the figures",
    ),
    "C25": (
        "property-based testing of each step of the lines written and drawn",
        "generated profiles, starting points, step sizes and options, up to "
        "120 steps",
    ),
    "C26": (
        "property-based testing against the definitions",
        "generated profiles with values at and around the limits",
    ),
    "C27": (
        "property-based testing of the commands against the stored values",
        "generated solutions and combinations of options; figures are looked "
        "at when they are saved, not as pixels; surface densities are sums "
        "over rows, and the accretion figure's range is fixed",
    ),
}
NOT_APPLICABLE = {}
