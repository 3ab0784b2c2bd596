NOT_APPLICABLE = []
NOTES = ("Contracts are sidecar Python in /verif/contracts over the function "
         "objects of /repo/src; see DESIGN.md.")
PROPS = []


def P(**k):
    PROPS.append(k)


P(id="C01", title="Jacobian entries are the derivatives of the component residuals",
  statement="For every component equation and every state of its connections, each derivative the component hands to the solver equals the partial derivative of that equation's residual with respect to that system variable, and a variable that gets no derivative does not influence the residual. No derivative is handed over for a quantity the user fixed, and fixing one quantity (or skipping one that has converged) leaves the derivatives of the others unchanged. This covers turbomachinery, valves, pipes, simple heat exchangers, solar collectors, heat exchangers, condensers, desuperheaters, moving boundary heat exchangers, merges, splitters, separators, droplet separators, drums, cycle closers and subsystem interfaces, including parameters that are themselves variables.",
  over=["inputs", "configurations"],
  for_all="all real states (mass flows of either sign, pressures, enthalpies, compositions), all parameter values, each specification of each listed component and selected combinations, one and two-fluid connections, shared mass flow branches",
  why="Tests solve a few networks; the Newton iteration often still converges with a wrong derivative, and each test fixes one state and one specification.",
  files=["src/tespy/components/component.py", "src/tespy/components/turbomachinery", "src/tespy/components/heat_exchangers", "src/tespy/components/piping", "src/tespy/components/nodes", "src/tespy/components/basics"],
  mech=[("Component.solve and *_deriv methods", "src/tespy/components/component.py"), ("Component.numeric_deriv", "src/tespy/components/component.py")],
  note="Proof over the reals of entry == exact derivative for every path; float rounding, truncation error of difference quotients (contract of the numeric helpers, C06) and fluid property back ends (uninterpreted, differentiable) are assumed. The fixed/converged-variable clause is bounded to the enumerated flag vectors at sampled states.")

P(id="C02", title="Component equations are the documented ones",
  statement="For every state of its connections, the residuals a component contributes are exactly its documented balance equations plus, for each parameter the user specified, the documented equation of that parameter, in the documented number. So a state with zero residuals conserves mass, energy and species at every component and meets every specification. This covers turbomachinery, valves, pipes, simple heat exchangers, solar collectors, heat exchangers, condensers, desuperheaters, moving boundary heat exchangers, merges, splitters, separators, droplet separators, drums, cycle closers and subsystem interfaces.",
  over=["inputs", "configurations"],
  for_all="all real states, all parameter values, each specification of each listed component and selected combinations; numbers of inlets/outlets/fluids up to those listed",
  why="Tests compare a handful of solved numbers; sign cases, reverse flow, zero flow, off-design characteristics and less used specifications are not sampled.",
  files=["src/tespy/components/component.py", "src/tespy/components/turbomachinery", "src/tespy/components/heat_exchangers", "src/tespy/components/piping", "src/tespy/components/nodes", "src/tespy/components/basics"],
  mech=[("*_func methods", "src/tespy/components"), ("get_parameters / get_mandatory_constraints", "src/tespy/components")],
  note="Proof over the reals that residual == documented equation on every path; fluid property back ends, friction factor and characteristic lines are uninterpreted (own contracts elsewhere); component arity bounded to the listed values.")

P(id="C03", title="Reported component results satisfy their defining equations",
  statement="For every state, the value a component reports after solving (power, heat, isentropic efficiency, pressure ratio, zeta, kA, terminal temperature differences, friction coefficients, thermal efficiencies and so on) is the value for which the component's own equation for that parameter has zero residual at that state, so specifying a reported value reproduces the state. This covers turbomachinery, valves, pipes, simple heat exchangers, solar collectors, heat exchangers, condensers, desuperheaters and moving boundary heat exchangers.",
  over=["inputs", "configurations"],
  for_all="all real states and each parameter that can be specified as well as reported",
  why="Post-processing duplicates the equations in other code; tests compare single reported numbers.",
  files=["src/tespy/components"],
  mech=[("calc_parameters", "src/tespy/components"), ("*_func", "src/tespy/components")],
  note="Proof over the reals; domain conditions (a result exists: flow of the documented direction, temperature differences of one sign) are preconditions. Fluid property back ends uninterpreted.")

P(id="C04", title="Connection specifications and connection results",
  statement="Specifying T, x, Td_bp, v, or a reference (m, p, h, T, v relative to another connection) on a connection adds exactly the documented equation, with residual and derivatives that agree; a full state given by p and T, p and x, p and Td_bp or T and x fixes the corresponding pressure and enthalpy. After solving, the reported T, v, vol, s, x, Td_bp of a connection are those of its m, p, h and composition, in the units of the connection; a property that does not exist at a state is reported as not available without affecting the others.",
  over=["inputs", "configurations"],
  for_all="all real states of pure fluids and binary mixtures, same or different mass flow branches, all values of references",
  why="Few combinations of specification, mixture and unit are sampled by tests.",
  files=["src/tespy/connections/connection.py"],
  mech=[("Connection.solve and *_func/*_deriv", "src/tespy/connections/connection.py"), ("Connection.calc_results", "src/tespy/connections/connection.py"), ("Connection.simplify_specifications", "src/tespy/connections/connection.py")],
  note="Proof over the reals; property functions uninterpreted. Composition derivatives of the volumetric flow equation are not handed over by the code and not required.")

P(id="C05", title="User units and SI values agree",
  statement="Every supported unit converts to SI and back without change of value and preserves order. A value specified on a connection or network (property, reference difference, value range, starting value, design value, ambient temperature, pressure drop) is used as that value in the unit in force, results are reported in that unit, and neither a design case nor a starting-value file written in other units changes the meaning of a number or the units of the network.",
  over=["inputs", "configurations"],
  for_all="all real values, all units of all properties",
  why="Tests use bar, degC and kJ/kg almost exclusively.",
  files=["src/tespy/tools/helpers.py", "src/tespy/tools/global_vars.py", "src/tespy/networks/network.py", "src/tespy/components/component.py"],
  mech=[("convert_to_SI/convert_from_SI", "src/tespy/tools/helpers.py"), ("init_set_properties, init_properties, init_conn_design_params, init_conn_params_from_path", "src/tespy/networks/network.py")],
  note="Proof over the reals against an independent unit table; files are represented by the data frame row handed to the reading function.")

P(id="C06", title="Numerical helpers: derivatives, root search, friction factor",
  statement="The numerical derivative helpers return the derivative (exact for polynomials of degree two, linear in mass fractions), restore the state they perturb, keep mass fractions within 0 and 1 and touch nothing else. The Newton search starts at the given value, only stops early when the function meets the target within the tolerance, stays within its bounds, and finds the root of affine functions. The Darcy friction factor satisfies the Hagen-Poiseuille, Blasius, Hanakov, Prandtl-Karman, Prandtl-Colebrook or Colebrook-White equation of its regime.",
  over=["inputs"],
  for_all="all real arguments, coefficients, bounds and start values",
  why="Helpers are only exercised through whole networks; errors there are masked by the outer iteration.",
  files=["src/tespy/tools/helpers.py", "src/tespy/tools/fluid_properties/helpers.py", "src/tespy/tools/fluid_properties/functions.py"],
  mech=[("_numeric_deriv, central_difference, newton_with_kwargs", "src/tespy/tools/helpers.py"), ("darcy_friction_factor", "src/tespy/tools/fluid_properties/helpers.py"), ("dT_mix_*, dv_mix_*", "src/tespy/tools/fluid_properties/functions.py")],
  note="Proof over the reals; the Newton search for an arbitrary function is proved for one-sided approach and a constant derivative, the search at a bound for its first two iterations (bounded).")

P(id="C07", title="Characteristic lines and maps interpolate their data",
  statement="Evaluating a characteristic line gives the piecewise linear interpolation of its points: the given y at each given x, between neighbours in between, the end values (or the linear continuation if extrapolation is on) outside. A characteristic map interpolates bilinearly between the neighbouring lines and points. Leaving the data range is reported. Shipped and user-supplied characteristics are loaded with exactly the data in their file, malformed data are refused, and evaluating a map for a component never modifies it.",
  over=["inputs"],
  for_all="all real coordinates and arguments; 2 to 5 points per line, maps up to 3x4",
  why="Tests evaluate a few shipped lines at few points.",
  files=["src/tespy/tools/characteristics.py", "src/tespy/components/turbomachinery/compressor.py"],
  mech=[("CharLine.evaluate, CharMap.evaluate", "src/tespy/tools/characteristics.py"), ("load_default_char, load_custom_char", "src/tespy/tools/characteristics.py")],
  note="Proof over the reals for the listed numbers of points; np.searchsorted by its contract. Loading of files is bounded (all shipped data enumerated; sampled custom data).")

P(id="C08", title="Busses: values, equation, derivatives and results",
  statement="The value a component contributes to a bus is its energy transfer of the selected kind (power, heat, thermal input, loss heat) multiplied by the efficiency at its load (bus base component) or divided by it (bus base bus), where the load is the ratio to the design value and 1 without a design value. A bus with a total power specified contributes exactly the equation 'total minus the sum of the component contributions', with the derivatives of that residual with respect to every system variable, at every iteration, in its own row of the system. After solving, the reported component values, bus values, efficiencies and total are those of the solved state; design calculations store the value of the bus base as design value, off-design calculations leave it. Components are added with the efficiency, parameter, base and reference the user gave, invalid input is refused.",
  over=["inputs", "configurations", "histories"],
  for_all="all real states, efficiencies (arbitrary function of the load), design values; every component type with a bus function and each of its bus parameters; both bases; two components per bus",
  why="Tests use one or two components at one load; wrong derivatives do not prevent convergence in the sampled cases.",
  files=["src/tespy/connections/bus.py", "src/tespy/components/component.py", "src/tespy/tools/helpers.py", "src/tespy/networks/network.py"],
  mech=[("Component.calc_bus_value/expr/efficiency, bus_func, bus_deriv", "src/tespy/components"), ("Bus.solve, Bus.add_comps", "src/tespy/connections/bus.py"), ("Network.solve_busses, process_busses", "src/tespy/networks/network.py")],
  note="Proof over the reals; efficiency lines are arbitrary differentiable functions, the Newton search for the bus value is replaced by its contract (a root; C06). Input checking of add_comps is bounded to sampled values, a plant with two busses at several loads to its listed states.")

P(id="C10", title="Mixture rules, inverse property functions and exergies",
  statement="For every mixture the properties are those of its mixing rule: ideal (partial pressures from the mole fractions, mass-weighted enthalpy and entropy, densities added at partial pressure, Herning-Zipperer viscosity), ideal with condensation (gas saturated with water, the rest liquid; mass, water and energy split consistently between the phases), incompressible (total pressure, mass weights). Species listed but absent do not matter. A fluid that is the only one present is evaluated by its own back end whatever the rule. Temperature from enthalpy or entropy inverts the property functions, whatever start value is passed, and entropy, specific volume, viscosity from pressure and enthalpy, and the isentropic change of state, are those at that temperature. Physical exergy is (h-h0)-T0(s-s0), split into thermal and mechanical part; chemical exergy is that of the tabulated species with the mixing term of the gas phase. Saturation functions on mixtures and unknown mixing rules are refused.",
  over=["inputs"],
  for_all="all real pressures, temperatures, molar masses, mass fractions; up to three species present, with and without water and condensation",
  why="Tests evaluate dry and humid air at a few points; condensing states of other properties than enthalpy are not sampled.",
  files=["src/tespy/tools/fluid_properties/mixtures.py", "src/tespy/tools/fluid_properties/functions.py", "src/tespy/tools/fluid_properties/helpers.py"],
  mech=[("*_mix_pT_*, cond_check, exergy_chemical_ideal_cond", "src/tespy/tools/fluid_properties/mixtures.py"), ("*_mix_ph, T_mix_ps, isentropic, calc_physical_exergy, calc_chemical_exergy", "src/tespy/tools/fluid_properties/functions.py"), ("inverse_temperature_mixture, get_molar_fractions", "src/tespy/tools/fluid_properties/helpers.py")],
  note="Proof over the reals with uninterpreted pure-fluid back ends (arbitrary molar masses, limits, saturation lines); the root search is replaced by its contract (C06). Number of species bounded to the listed sets; states with a liquid share or water vapour share below the precision of the code (1e-6) excluded. Inversion of condensing mixtures and the refusals are bounded (concrete).")

P(id="C11", title="Reactors conserve elements and energy",
  statement="Combustion chambers (adiabatic and diabatic), the combustion engine, the fuel cell and the water electrolyzer: for every inlet state and composition, zero residuals conserve mass, carbon, hydrogen, oxygen and every inert species, with complete combustion of the share of the fuel for which the oxygen suffices (excess oxygen or excess fuel, several fuels at once), and balance energy with the lower heating value from the enthalpies of formation (fuel cell and electrolyzer: reaction enthalpy of water). Every specified parameter (lambda, thermal input, efficiency, pressure ratio, zeta, heat flows, specific energy, engine characteristics) adds exactly its documented equation, the derivatives handed to the solver are those of the residuals (mass fraction derivatives of the combustion energy balance excepted), and the reported results satisfy the equations. The number of equations matches the equations whichever mass flows are fixed. All supported fuels are known with their atoms and heating value; missing fluids are refused.",
  over=["inputs", "configurations"],
  for_all="all real states and compositions, both sides of stoichiometry, all parameter values; one or two fuels at once, each fuel in turn",
  why="Tests burn methane with excess air in a handful of states; the fuel-rich branch and fixed mass flows on the fuel cell are not sampled.",
  files=["src/tespy/components/combustion", "src/tespy/components/reactors"],
  mech=[("stoichiometry, energy_balance_func, lambda_func, ti_func and their derivatives", "src/tespy/components/combustion/base.py"), ("characteristics of the engine", "src/tespy/components/combustion/engine.py"), ("mass_flow_func, energy_balance_func", "src/tespy/components/reactors/fuel_cell.py"), ("mass_flow_func, energy_balance_func", "src/tespy/components/reactors/water_electrolyzer.py")],
  note="Proof over the reals; fluid property back ends uninterpreted, constants compared to 1e-9. Fixed/converged flags and the table of fuels are bounded (enumerated), as are the element balances of the solved networks.")

P(id="C12", title="The system of equations is assembled, solved and judged correctly",
  statement="Every equation of every component, connection, bus and user defined equation occupies a row of its own in the system, holding exactly its residual and its derivatives in the columns of its own variables; every variable has a column of its own, quantities shared between connections have one column, fixed quantities have none. A calculation only starts if the number of equations equals the number of variables. One step solves J times increment = minus residual and adds each increment to its own variable only; pressures stay positive, mass fractions within 0 and 1, component variables within their bounds. A singular system leaves the values as they are and is reported. Convergence is only reported if the norms of the last two residuals are below 1e-3, after at least min_iter iterations, with a regular Jacobian; never because the iterations are exhausted, no progress is made or the system is singular, and the verdict belongs to this calculation.",
  over=["inputs", "configurations", "histories"],
  for_all="all residual and Jacobian entries, all increments, all values; listed layouts of objects, numbers of variables and equations, iteration limits",
  why="A wrong row, column or verdict often still converges on the sampled networks, or is only visible for a combination of objects no test contains.",
  files=["src/tespy/networks/network.py"],
  mech=[("solve_equations, solve_components, solve_connections, solve_busses, solve_user_defined_eq, matrix_inversion, update_variables, solve_loop, solve, solve_determination, _assign_variable_space", "src/tespy/networks/network.py")],
  note="Proof over the reals per layout: components, connections, busses and user equations are represented by their contract (solve leaves residual and derivatives, C01-C11); np.linalg.inv is represented by the contract A inv(A) = 1. Layouts, iteration limits and the fourteen whole networks solved end to end are bounded.")

P(id="C13", title="Branches share flow and composition; specifications survive calculations",
  statement="Connections linked by components that pass mass flow (or composition) through share one mass flow (or composition) variable, and exactly those do. Two mass flow specifications, two specifications of the same mass fraction, or mass fractions above 1 within a branch are refused; a missing last mass fraction closes the sum to 1, and if the specified ones sum to 1 all other fluids are absent. The mixing rule given at one connection holds for its fluid branch, also if changed later; two different ones are refused. After any calculation, whether successful, aborted, ended at the iteration limit, initialised only, repeated, started from scratch or after a change of the topology, every connection holds its own values again, the user's specifications (values, fluids, fluid engines, the power of a bus and which ones are specified) are unchanged, and the results are those of the solution. Ports used twice, missing connections, duplicate labels and over- or underdetermined problems are refused; deleting connections removes exactly the components left without connections. Busses, user defined equations and subsystems take part in the calculation while, and only while, they are in the network.",
  over=["inputs", "configurations", "histories"],
  for_all="all values; up to three connections and fluids per branch; listed topologies and histories",
  why="Tests solve each network once or twice in the order that works; states after aborted calculations and unusual topologies are not sampled.",
  files=["src/tespy/networks/network.py", "src/tespy/connections/connection.py", "src/tespy/components"],
  mech=[("create_massflow_and_fluid_branches, presolve_massflow_topology, presolve_fluid_topology, reset_topology_reduction_specifications, check_network, check_conns, del_conns", "src/tespy/networks/network.py"), ("propagate_to_target, propagate_wrapper_to_target", "src/tespy/components")],
  note="The two presolve functions and the reset are proved over all values per branch size; branch detection on listed topologies (all orders of a four-source grid, every pass-through component kind) and histories of fifteen networks are bounded runs of the real code.")

P(id="C09", title="Exergy and entropy balances of components and plants",
  statement="For every state and ambient temperature, the exergy destruction of a component is its fuel minus its product and equals the exergy entering minus the exergy leaving plus the exergy of its bus connection (turbomachines, valves, merges, heat exchangers, condensers, drums, simple heat exchangers, combustion chambers, combustion engine, water electrolyzer), with the documented fuel, product and bus exergy for each position of the temperatures relative to ambient, and the efficiency their ratio. In the entropy balances, production and entropy of heat transfer sum up to the total entropy change, temperatures of heat transfer are heat divided by entropy. The exergy analysis reports exactly these components; total fuel, product, loss, destruction and efficiency, destruction ratios, aggregated values and the inputs of functional groups follow from components and bus efficiencies (component or bus base, fuel, product, loss and internal busses); the balance closes when all boundaries are on busses, and repeating the analysis with another ambient state gives the result for that state. A component on two of the busses, reserved names and a missing fuel or product are refused.",
  over=["inputs", "configurations"],
  for_all="all real states, exergies and efficiencies; all positions relative to ambient temperature; merges with two or three inlets; the listed plants",
  why="Tests analyse a few plants well above ambient temperature; most temperature cases, loss and internal busses are not sampled.",
  files=["src/tespy/tools/analyses.py", "src/tespy/components"],
  mech=[("ExergyAnalysis.analyse, evaluate_busses, create_group_data", "src/tespy/tools/analyses.py"), ("exergy_balance, entropy_balance", "src/tespy/components")],
  note="Proof over the reals; exergies of streams are arbitrary values (their definition is C10). The analysis is proved for arbitrary values on fixed small plants whose components are represented by their contract. Bus exergy in the crossing cases of the simple heat exchanger (documentation ambiguous), merges with the outlet exactly at ambient temperature and the fuel cell are not covered. Whole networks are bounded runs.")

P(id="C14", title="Saving, exporting and loading keep the network",
  statement="Exporting a network and loading it gives the same network: the same components (class, ports, values, which parameters are specified or variable, bounds, characteristics with their data and settings, design and off-design lists, local design settings), the same connections (values, starting values, specified ones, references whether active or not, composition, fluid engines and back ends, state, mixing rule), busses (total, components, efficiency lines, base, parameter) and units and value ranges; solving it gives the same results, and it can be changed like any other network. This holds before and after solving, for any label and any kind of number, and whatever an earlier export left in the folder; exporting changes nothing in the network. Saved results read back are the starting and design values of exactly the connections, components and busses they were saved for.",
  over=["inputs", "configurations", "histories"],
  for_all="all real values; every component class with every parameter, flags in four patterns; the listed networks and histories",
  why="Tests export one network and compare a few attributes; most parameters, references that are switched off, unusual labels and repeated exports are not sampled.",
  files=["src/tespy/networks/network_reader.py", "src/tespy/networks/network.py", "src/tespy/tools/data_containers.py", "src/tespy/connections", "src/tespy/components/component.py", "src/tespy/tools/characteristics.py"],
  mech=[("load_network, _construct_*", "src/tespy/networks/network_reader.py"), ("export_*, save_*, init_read_connections", "src/tespy/networks/network.py"), ("_serialize", "src/tespy/tools/data_containers.py")],
  note="Proof for arbitrary values with json represented by its contract (also run with real files); flag patterns and numbers of objects are bounded; whole networks, labels and histories are bounded runs. Display settings of busses and networks (printout, iterinfo) and user defined equations are not part of an export. Two known findings are listed (folder shared between save and export with busses; component labelled P on a bus).")

P(id="C15", title="Specifying, unsetting and switching between design and off-design",
  statement="Specifying a value on a connection or component sets exactly that value and marks exactly that parameter as specified; None (and nan on connections) unsets it together with its reference, a starting value is only a starting value, a reference activates the reference; nothing else changes, neither on the object nor on any other object. Input of the wrong kind is refused and changes nothing. In an off-design calculation exactly the design parameters are unspecified and the off-design parameters specified at their values in the design point, those of objects kept in design mode stay; the design point is that of the network's path or the object's own one, including the bus reference values, converted from the units it was saved in, and is read again whenever a path changed or a design calculation came between. Returning to design mode restores what was specified; objects in local off-design use their own design point. Off-design at the design point reproduces the design, and an off-design result depends on the design point and the specifications, not on earlier calculations, nor on which connection of a branch carries the mass flow.",
  over=["inputs", "configurations", "histories"],
  for_all="all real values; every connection quantity, every component class with every parameter, four patterns of flags; five combinations of design and off-design lists; the listed networks and histories",
  why="Tests switch once with one set of lists; frames of set_attr, own design paths and repeated switching are not sampled.",
  files=["src/tespy/connections/connection.py", "src/tespy/components/component.py", "src/tespy/networks/network.py", "src/tespy/tools/data_containers.py"],
  mech=[("Connection.set_attr, _parameter_specification, _fluid_specification, Ref", "src/tespy/connections/connection.py"), ("Component.set_attr, set_parameters, preprocess", "src/tespy/components/component.py"), ("init_design, init_offdesign, init_offdesign_params, init_conn_design_params, solve", "src/tespy/networks/network.py")],
  note="Proof for arbitrary values; flag patterns and lists are enumerated (bounded). Reading csv files is represented by its contract (C14); simplify_specifications by its contract (C04). Whole networks and histories are bounded runs. Which value a design parameter has after returning from off-design (the last result) is not documented and not covered, nor toggling the local settings between calculations or a component in local off-design without a design path.")

P(id="C16", title="Fluid property wrappers return the property of the given state in SI units",
  statement="Every fluid property method of the CoolProp, IAPWS and pyromat wrappers returns the property of the fluid at the state given by its arguments, in SI units, whatever was evaluated before and whichever other wrappers exist: temperature, enthalpy, entropy, density and viscosity from pressure and enthalpy, entropy, temperature or vapour content, boiling point, vapour pressure and isentropic change of state. Above the critical point boiling point and vapour pressure are those at 99 % of the critical value. Vapour content and phase are those of the state (0 for liquid, 1 for gas, the mass fraction in between). The limits, critical point and molar mass of a wrapper are those of its fluid. A fluid is evaluated with the library and back end the user selected, also if the selection is changed between calculations, the solution strength of an incompressible mixture is respected, fluids, back ends or properties a library does not offer are refused, and a mixture can use different libraries for its fluids.",
  over=["inputs", "configurations", "histories"],
  for_all="all real states for the mapping between method and library; every method of every wrapper, two or three fluids and back ends each",
  why="Tests evaluate few methods of the non-default libraries at single states; unit factors and argument order of rarely used methods are not sampled.",
  files=["src/tespy/tools/fluid_properties/wrappers.py", "src/tespy/connections/connection.py"],
  mech=[("CoolPropWrapper, IAPWSWrapper, PyromatWrapper", "src/tespy/tools/fluid_properties/wrappers.py"), ("Connection._create_fluid_wrapper", "src/tespy/connections/connection.py")],
  note="Proof that each method asks the library for the right property of the right state in its units, the library being represented by its contract (a function of the state); the libraries themselves are run at random states against CoolProp's high level interface (bounded). Pyromat boiling functions and the vapour content of IAPWS-95 outside the dome are taken as documented by the library.")

P(id="C17", title="Starting values and corrections never alter what is fixed",
  statement="Starting values and the corrections made between iterations change free variables only: whatever the user specified, or what follows from the specifications before the iteration, keeps its value from the first to the last iteration. A state that is admissible is left alone: within the value ranges of the network, within the limits of the fluid, on the side of the two-phase region the user asked for, in the order of pressure and enthalpy of the turbomachine, within the flow range of the pump characteristic, with a plausible flue gas. A free value that is not admissible is brought into the range (or, for a pump, towards it), mass fractions stay non-negative and, if all are free, sum up to one. A starting value is the one the user or the starting value file gave, else the component's guess, else that of a specified reference, vapour content or temperature, and it lies in the phase the user specified. These corrections do not fail for states that have fluid properties.",
  over=["inputs", "configurations", "histories"],
  for_all="all real states, limits, ranges and starting values; which variables are free (arbitrary for turbomachines and combustion chambers, enumerated otherwise); iteration counts on both sides of each threshold",
  why="Corrections only act for poor starting values; a correction that overwrites a specified value still converges, to the wrong result.",
  files=["src/tespy/networks/network.py", "src/tespy/connections/connection.py", "src/tespy/components"],
  mech=[("init_properties, init_precalc_properties, init_val0, init_conn_params_from_path, check_connection_properties, check_variable_bounds", "src/tespy/networks/network.py"), ("check_pressure_bounds, check_enthalpy_bounds, check_two_phase_bounds, check_temperature_bounds", "src/tespy/connections/connection.py"), ("convergence_check", "src/tespy/components")],
  note="Proof over the reals with the property library as arbitrary functions (enthalpy rising with temperature and vapour content). Order corrections are claimed for positive enthalpies, the upper enthalpy limit for a positive one. Flue gas corrections are proved for two arbitrary species at a time. Whole networks from bad starting values are bounded runs.")

P(id="C18", title="Optimisation problem: variables, constraints and bookkeeping",
  statement="The optimisation problem passes the decision vector to the model exactly as the user declared it: each variable of the vector reaches the connection, component or custom parameter it is named after, with the bounds given for it. The fitness is the objective followed by the constraints in the order of their names, negative or zero exactly when the model's value respects the limit: upper limits as value minus limit, lower limits as limit minus value, limits that refer to another parameter taken from the solved model. Repeated evaluations are independent, the numbers of objectives and constraints match, the dictionaries of the user are not modified, and the table of individuals lists for each generation and individual the variables, objective and constraints that were evaluated, valid exactly if all constraints are met.",
  over=["inputs", "configurations", "histories"],
  for_all="all real bounds, limits, decision vectors and model values; six sets of variables times six sets of constraints; three evaluations in a row",
  why="The optimiser only sees numbers: swapped variables or a wrong sign give a plausible but wrong optimum.",
  files=["src/tespy/tools/optimization.py", "src/tespy/tools/helpers.py"],
  mech=[("OptimizationProblem", "src/tespy/tools/optimization.py"), ("merge_dicts", "src/tespy/tools/helpers.py")],
  note="Proof for arbitrary values; the sets of variables and constraints are enumerated (bounded). The user's model is represented by its contract; the table of individuals is checked on random populations and one pygmo run (bounded).")


P(id="C19", title="Result tables, printouts, diagram data and documentation show the solution",
  statement="After a calculation the result tables list every connection with its own values, units, composition and phase, every component with the value of each parameter that has a result (nothing for the others), and every component of every bus with its value, bus value, efficiency and design value. The printed tables show exactly the connections, components and busses whose printout is on, with these values (specified, variable and out of range ones are marked by colour only), the total of a bus is the sum over its components, and they refuse a network that was never solved. The plotting data of a component describe each of its changes of state from the right inlet to the right outlet along the right property. The exergy tables print what the analysis found. In the Sankey data of an exergy analysis every flow above the display threshold appears once, from its source to its target with its value, groups that pass on a single flow are left out, the values do not depend on the order of the nodes, and a node missing in the user's order is refused. The LaTeX documentation of a model lists every connection, component, bus, reference and user defined equation with the values of the solution in the units of the network, marks specified values and variables, shows exactly the equations of the specified parameters and of the mandatory constraints, only specified values if results are left out, and a figure for every characteristic used; every reference in its text resolves, and the format of one report does not affect the next. Reporting never changes a network, an analysis or later results.",
  over=["inputs", "configurations"],
  for_all="all real values for tables and plotting data of every component class; the listed networks and settings for printing; random flow nets of up to six groups for the Sankey data; the listed models, units and formats for the documentation",
  why="Tests call the printing functions and look only for exceptions; swapped ports or columns go unnoticed.",
  files=["src/tespy/networks/network.py", "src/tespy/components", "src/tespy/tools/analyses.py", "src/tespy/connections/connection.py", "src/tespy/tools/document_models.py"],
  mech=[("document_model and the functions it calls", "src/tespy/tools/document_models.py"), ("process_components, process_busses, print_results, print_components", "src/tespy/networks/network.py"), ("get_plotting_data, get_plotting_props", "src/tespy/components"), ("Connection.collect_results", "src/tespy/connections/connection.py"), ("ExergyAnalysis.generate_plotly_sankey_input, remove_transit_groups, print_results", "src/tespy/tools/analyses.py")],
  note="Plotting data and result tables are proved for arbitrary values (parameter sets enumerated); printing, the Sankey data and the documentation are bounded runs of the real code against an independent reading of the tables.")
