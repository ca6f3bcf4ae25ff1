import json
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe=None):
    assert len(title)<=80,title
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=["src/disc_solver/"+f for f in files],mechanism=[dict(name=n,where="src/disc_solver/"+w) for n,w in mech],**({"observe_at":observe} if observe else {}))))

prop("C01","The integrated derivatives satisfy the disc equations",
"For every state of the disc away from the midplane and the sonic point, the derivatives handed to the integrator satisfy the steady self-similar MHD equations: solenoidality, mass conservation, the three momentum equations, the constancy of the azimuthal electric field and the radial induction equation with Ohmic, ambipolar and Hall diffusion. The diffusivities follow B²/ρ when they are allowed to vary and are constant otherwise. A state with a negative density or vertical velocity, or a non-finite derivative, is rejected with the matching flag, and an accepted state gives derivatives that do not depend on whether diagnostics are stored.",
["inputs","configurations"],"every 11-component state, angle, parameter set and option combination of the main formulation",
"tests pin a few numerical values of the derivatives (some of them wrong ones), at hand-picked states; the equations must hold at every state an integration can reach",
["solve/solution.py","solve/deriv_funcs.py","solve/utils.py"],
[("ode_system rhs","solve/solution.py"),("B_unit_derivs, C_func, A_func, dderiv_B_φ_soln, deriv_v_θ_func","solve/deriv_funcs.py")])

prop("C02","Using E_r as a variable solves the same equations",
"Integrating the radial electric field instead of the derivative of the toroidal field gives, at the same physical state, the same derivatives of every field, velocity, density and diffusivity, with the radial electric field changing so that the poloidal electric field is curl free. Starting from the same input, the initial radial electric field is the one Ohm's law gives for the initial state.",
["inputs","configurations"],"every state with a non-zero effective resistivity, both formulations",
"tests run each formulation on one input and pin the numbers, they never compare the two",
["solve/solution.py","solve/deriv_funcs.py","solve/config.py"],
[("deriv_B_φ_func, deriv_E_r_func","solve/deriv_funcs.py"),("ode_system with use_E_r","solve/solution.py")])

prop("C03","The step off the midplane follows the equations",
"The polynomial used to leave the singular midplane has, for every input with a midplane, the derivatives that the equations themselves imply there up to third order, and the same derivatives are used where the equations are integrated from the midplane with the singular terms expanded. Integration resumes at exactly the angle the polynomial was evaluated at, with exactly those values, and covers every requested angle beyond it.",
["inputs","configurations"],"every midplane input and taylor stop angle, both formulations, constant and varying diffusivities",
"the series coefficients are only exercised through the end result of one default input, where a wrong coefficient moves the answer by less than anything asserted",
["solve/deriv_midplane.py","solve/solution.py"],
[("Y_1..Y_7 and the taylor coefficients","solve/deriv_midplane.py"),("taylor_jump, taylor_solution","solve/solution.py")])

prop("C04","The hydrostatic approximations keep the equations they claim to keep",
"In the hydrostatic and modified hydrostatic modes every derivative the approximation does not drop satisfies its equation: the field stays solenoidal, the azimuthal electric field stays constant, the vertical force balance holds without the vertical inertia, the velocities in the plane follow the horizontal force balances where the approximation takes them from there, and the diffusivities follow B²/ρ. The vertical velocity stays zero in the purely hydrostatic mode, and states with a negative density, or for which the purely hydrostatic mode has no real azimuthal velocity, are rejected with the matching flag. (The expansions these modes use for the second derivative of B_φ and the accelerations in the plane, which are approximations of their own, are not part of this.)",
["inputs","configurations"],"every state and option combination of the hydrostatic modes",
"tests pin numbers at a few states; an error compensated at those states or absent from them passes",
["solve/hydrostatic.py","solve/mod_hydro.py"],
[("ode_system of each mode","solve/hydrostatic.py, solve/mod_hydro.py")])

prop("C05","Initial conditions put the disc in midplane force balance",
"For every input the starting state is the midplane state the input describes: unit density and poloidal field normalised by the Alfvén ratio, diffusivities as given, and an azimuthal velocity that balances the radial forces with the radial and azimuthal momentum equations satisfied. The requested angles run from the requested start to the requested stop with the requested number of points, in radians. An input with no real solution is refused with a solver error instead of producing NaN.",
["inputs","configurations"],"every physical input, including those with no solution",
"tests compute initial conditions from the default input only",
["solve/config.py"],[("define_conditions","solve/config.py")])

prop("C06","Solutions are the initial value problem's solution on the requested grid",
"A successful solve returns the state at each angle on the requested grid, from the start angle to where the integration ended, in order and without gaps, and the values agree with an independent integration of the same derivatives to the requested tolerance. Storing internal data, or solving again, gives the same solution, and stored derivatives are those of the stored states.",
["inputs","configurations"],"every input the solver accepts, with and without stored internal data",
"tests check that each method runs on the default input",
["solve/solution.py","solve/single.py","solve/hydrostatic.py","solve/mod_hydro.py","solve/utils.py"],
[("solution, main_solution, get_known_solver/ode calls","solve/solution.py")])

prop("C07","Crossing the sonic point continues the solution, or is refused",
"Where a jump across the sonic point is asked for and the requested distance before it is reached, the solution up to there is unchanged, the jump extrapolates the state with its own derivatives to where the vertical velocity is the requested distance past the sonic point, and the integration goes on from there over the rest of the grid. Where the crossing is interpolated instead, the velocity passes the sonic point and the solution goes on from there likewise. Combinations of options that cannot work are refused with a solver error.",
["inputs","configurations"],"every input, threshold and option combination",
"tests cover one input per option",
["solve/solution.py","solve/utils.py","solve/single.py"],
[("solution jump handling, closest_less_than_index, onroot functions","solve/solution.py, solve/utils.py")])

prop("C08","A run written to a file reads back identical",
"Every run that can be produced - any configuration, any number of solutions, whole or added one by one, with or without internal data, Jacobians, split inputs, and optional fields absent - can be written to its file and, once finalised, reads back with every value equal, including the types that distinguish absent from false or zero, and can be written again without change.",
["inputs","configurations"],"every run, solution and configuration value",
"tests never compare a file's contents with what was written; any field silently dropped or defaulted passes",
["file_format/_dumpers.py","file_format/_loaders.py","file_format/_containers.py"],
[("dumpers and loaders of the current version","file_format/_dumpers.py, file_format/_loaders.py")])

prop("C09","Files of every earlier format version load with their meaning kept",
"For each documented earlier version of the file format, a file with any values in the fields of that version loads: every value stored is found under its present name, and fields that version lacked take the value that describes the behaviour of the time, or are recorded as unknown (None) where nothing says what it was. A file with nothing unknown can be written in the present format and reads back the same.",
["inputs","histories"],"every version of every stored object and every value of its fields",
"tests hold a handful of files of a few versions",
["file_format/_loaders.py","file_format/_old_dict_loading.py"],
[("versioned loaders","file_format/_loaders.py")])

prop("C10","Configuration survives the trip through config files",
"Writing out the configuration of a run and reading it back gives the same configuration, for every configuration that can be read, and turning a configuration into solver input and back loses nothing. A configuration file's options override the defaults and nothing else, command line overrides win over both, and values reach the solver with the type and the meaning they were written with.",
["inputs","configurations"],"every configuration file and set of overrides",
"tests read one or two configuration files",
["solve/config.py","analyse/dump_config.py","file_format/_containers.py"],
[("get_input_from_conffile, config_input_to_soln_input, dump_cfg","solve/config.py, file_format/_containers.py, analyse/dump_config.py")])

prop("C12","CSV inputs and outputs keep rows, columns and values",
"A CSV table of inputs - written by hand or dumped from a solution, from all solutions of files or from a batch run, with or without a header and comments, in any column order and dialect - yields one solver input per row with each value in the field its column names; optional columns that are missing take their defaults, other columns are ignored, the file and solution named in a row are recorded as what it is based on, and the label comes from the option or the table. Bad files are reported as such. The CSV dump of a solution has one row per angle and one named column per quantity, whose values read back equal to the stored ones. The table a batch run writes holds the final input of each input solved, in order, without the failures.",
["inputs"],"every input table, column order and solution",
"tests use one hand-written table",
["solve/csvrunner.py","solve/utils.py","utils.py","analyse/dump_csv.py"],
[("CSV reading","utils.py, solve/csvrunner.py"),("CSV dump","analyse/dump_csv.py")])

prop("C13","Run containers keep what was put in, in order, and final once",
"Under any sequence of additions, lookups, replacements and deletions, in memory and through the file, a run's collection of solutions behaves as an ordered mapping numbered in order of addition, its recorded problems behave as a mapping from solution to lists of problems, and its final solution is one of its solutions once set and cannot be changed.",
["histories"],"every sequence of container operations",
"tests never mix operations on these containers",
["file_format/_containers.py"],[("Solutions, Problems, Run","file_format/_containers.py")])

prop("C14","Internal data pieces join and flip without loss or reordering",
"Joining the internal data of consecutive pieces of a solution gives, in every component, the concatenation of the pieces in order; joining is associative and joining nothing is neutral; flipping reverses every component and is its own inverse; finalising turns every component into an array of equal length.",
["inputs","histories"],"every sequence of joins, flips and finalisations",
"tests never join internal data",
["file_format/_containers.py"],[("InternalData","file_format/_containers.py")])

prop("C15","Critical points and wave speeds are those of ideal MHD",
"The Alfvén, slow and fast speeds satisfy the ideal MHD dispersion relation for waves travelling across the disc, with slow ≤ Alfvén ≤ fast and slow ≤ sound ≤ fast, and each reported critical angle is where, interpolated linearly between two stored rows, the vertical velocity first passes the corresponding speed; a point is reported as absent exactly when the velocity never reaches that speed.",
["inputs"],"every field, density and velocity profile",
"tests check one solution's points indirectly",
["critical_points.py","utils.py"],[("wave speeds and get_all_sonic_points","critical_points.py, utils.py")])

prop("C16","Scalings and unit conversions are consistent with one another",
"Conversions between angles and heights, scaled and unscaled angles, and spherical and cylindrical components are inverse to one another and preserve vector lengths. Scaling a solution with radius follows the self-similar powers of each variable, its conversion to a vertical profile is at constant cylindrical radius, and normalised solutions and diagnostics do not depend on the units the solution is normalised in, with the physical normalisations consistent with the ratios of the input.",
["inputs"],"every angle, scale, vector and solution",
"tests check single values",
["utils.py","solve/utils.py","analyse/utils.py"],[("coordinate conversion","utils.py, analyse/utils.py")])

prop("C17","Searches and splitters stop where they claim",
"The numerical searches (binary search and bisection over inputs, golden-section refinement, closest-angle lookups, growth detection, interpolation of crossings) return, for every function and sequence given, an answer with the property they promise, within the promised number of evaluations, and report failure exactly when there is none. They do not change what they were given.",
["inputs","histories"],"every monotone or non-monotone target function and data sequence",
"tests run searches on the default input",
["solve/utils.py","utils.py","solve/stepper.py","solve/fast_crosser.py"],[("binary search and splitters","solve/stepper.py, solve/utils.py")])

prop("C11","Solving again with overrides changes only what was overridden",
"When a stored solution is solved again, with or without overrides, the new solver input equals the stored solution's input except in the overridden fields, which take the override's value, and the recorded configuration says so. Overrides naming no option are refused, and the stored run is not modified.",
["inputs","configurations"],"every stored configuration, stored input and set of overrides",
"tests resolve one default solution with one override",
["solve/config.py","solve/utils.py","solve/resolve.py","solve/hdf5runner.py"],
[("new_inputs_with_overrides, add_overrides, validate_overrides","solve/config.py, solve/utils.py")])

prop("C18","Shock jumps conserve what a shock must conserve",
"At every candidate shock the isothermal hydrodynamic jump conserves the mass and momentum flux, the density grows, the flow is subsonic after, and everything else is unchanged. The candidates are the stored rows within the asked range of angles and velocities beyond the maximum, and the post-shock solution starts from exactly the values after the jump at the shock's angle. One new file is written for each shock that can be solved from, recording what it was derived from; the original solution is left unchanged.",
["inputs"],"every pre-shock state",
"tests run the shock finder on one solution",
["solve/shock.py"],[("shock conditions","solve/shock.py")])

prop("C19","Repeated solving ends with the right solution, in bounded time",
"The solvers that search for a solution by repeated solving (stepping, sonic root, fast crossing) try inputs that differ from the one given only in the value searched over, at most the promised number of times, move in the direction the last solution calls for with a step that halves once the kind of solution changes, keep every attempt in order with the input it was solved with, end with the solution found (or the last or best attempt) as the final solution, and report success exactly when the convergence criterion was met. The kind of a solution is judged by its velocity and by the problems met.",
["inputs","histories"],"every behaviour of the underlying solver",
"tests run each solver with the default input only, where the search takes one path",
["solve/stepper.py","solve/sonic_root.py","solve/fast_crosser.py"],[("stepper, sonic_root, fast_crosser loops","solve/stepper.py, solve/sonic_root.py, solve/fast_crosser.py")])

prop("C20","The MCMC explores only the variables it was asked to",
"The sampler's parameter vector holds exactly the enabled variables, each proposal is turned into solver input that differs from the base input in those variables only and turns back into the same proposal, proposals outside the physical bounds and solutions that fail get no probability, and the log-probability of a solution is a deterministic function of how far and how smoothly its velocity got, so that ranking puts faster and smoother solutions first. Every solution that counted is stored and the best one is kept as the final solution.",
["inputs","configurations"],"every subset of variables, proposal and solution",
"tests run three iterations on one input",
["solve/mcmc.py"],[("LogProb, get_logprob_of_soln","solve/mcmc.py")])

prop("C21","A run's file says what was run, and never replaces another",
"Solving, solving from a table, solving again from a file and searching for shocks each write one new file per input that records the configuration, version, method, float type, source and input used, contains every solution found, and has a final solution that is one of them; an existing file is never overwritten or changed. A run that fails says so, and leaves a readable file with the solutions so far. Batch runs produce one result for each input and one failing input does not affect the others.",
["inputs","configurations","fault_sequences"],"every input, output name and failing input in a batch",
"tests run each command once into an empty directory",
["solve/__init__.py","solve/csvrunner.py","solve/hdf5runner.py","solve/resolve.py","solve/shock.py"],
[("solve, csvrunner, hdf5runner, resolve","solve/__init__.py, solve/csvrunner.py, solve/hdf5runner.py, solve/resolve.py")])

prop("C22","Analysis output reports the stored solution",
"The information, configuration and statistics commands report values that agree with the file analysed, for the solution selected, and write them where they were asked to; they never change the file. Selecting a solution by name, range or default selects the same solution everywhere.",
["inputs","configurations"],"every stored run and selection",
"tests only check that the commands run",
["analyse/info.py","analyse/dump_config.py","analyse/stats.py","analyse/utils.py","utils.py"],
[("info, stats, dump","analyse/info.py, analyse/stats.py")])

prop("C23","Derived currents, fields and diagnostics follow from the state",
"The currents, electric fields and equation residuals computed for a solution are those Ampère's and Ohm's law and the equations give for its state, so that the diagnostic residual of an exact solution vanishes and a perturbed equation shows up in its own diagnostic.",
["inputs"],"every state and solution",
"tests check that the plots run",
["solve/j_e_funcs.py","analyse/utils.py","analyse/validate_plot.py"],[("J and E functions, validation terms","solve/j_e_funcs.py, analyse/validate_plot.py")])

prop("C24","The analytic Jacobian is the derivative of the equations",
"The Jacobian computed for a solution equals, at every stored row that is past the start, the derivative of the integrated right hand side with respect to the state, to the accuracy of the finite difference asked for; the eigenvalues, eigenvectors and coefficients drawn are those of that Jacobian at the row chosen, and the solution is not changed.",
["inputs"],"every state",
"tests check that it runs",
["analyse/compute_jacobian.py"],[("compute_jacobian","analyse/compute_jacobian.py")])

prop("C25","Streamlines and field lines follow the stored velocity and field",
"A streamline (or magnetic field line) of a solution starts where it was asked to; at each point its direction is that of the velocity (magnetic field) stored for the closest angle, turned to the point's own angle, and the next point is one step, of the size asked for, in that direction; it has no more points than allowed, and ends early only where the next step leaves the angles stored (after which one hundred times smaller steps are tried). The command that writes the lines to files, which also writes the angles of the critical points and the last angle, and the figure, with the angles asked for, show the same lines; files that exist are never overwritten.",
["inputs","configurations"],"every solution profile and starting point",
"tests check that it runs",
["analyse/trajectory.py"],[("trajectory integration","analyse/trajectory.py")])

prop("C26","Validity and ranking of solutions",
"A solution is reported valid exactly when its flag says success, its polar velocity is never negative and never falls, and its density is never negative; it is the best there is exactly when it is valid, and its velocity comes near the sound speed and is not accelerating there (non-positive second differences among the values between 0.9 and 1). Looking does not change the solution, and storing and loading it does not change the answer. Solutions are ranked from the least to the most likely, whatever order they are stored in.",
["inputs"],"every solution","tests look at one",["solve/utils.py","solve/stepper.py","analyse/info.py"],[("validate_solution","solve/utils.py"),("is_solution_best","solve/stepper.py"),("sort_solutions","analyse/info.py")])

prop("C27","Plots show the stored data",
"Every figure command draws, in the right panel, exactly the stored rows whose angle is in the range asked for, against their angle in degrees, with the offsets and units its labels say (or, for vertical figures, the cylindrical values at one radius against height): values, internal values, derivatives, wave speeds, Mach numbers, roots and sonic points, and the terms of each equation, which add up to the total drawn, and only those the options ask for. Solutions asked for are all drawn, labelled, and told apart. The file is not changed, the title, size and version are as asked for, data that is needed and not stored is refused, and drawing one figure does not affect the next.",
["inputs","configurations"],"every solution and combination of plotting options",
"tests compare pixel output, or nothing, for one solution",
["analyse/plot.py","analyse/params_plot.py","analyse/derivs_plot.py","analyse/component_plot.py","analyse/combine_plot.py","analyse/compare_plot.py","analyse/vert_plot.py","analyse/utils.py"],[("plot functions","analyse/*_plot.py, analyse/plot.py, analyse/utils.py")])
P.sort(key=lambda p:p["id"])
if __name__=="__main__":
    import sys
    keep=sys.argv[2:]
    with open(sys.argv[1],"w") as f:
        for p in P:
            if keep and p["id"] not in keep: continue
            f.write(json.dumps(p,ensure_ascii=False)+"\n")
