add('C01', "Caller-owned data is never modified",
 "No public function, constructor or method modifies an array, list, dictionary or object that the caller passed in (boreholes, pipes, networks, option dictionaries, flow rates, positions, loads, response factors, times). After any sequence of calls the caller's data holds what it held before; only the receiver of a method call may change, and never through data it was merely handed. (Documented exception: the dictionary given to Fluid.append_to_dict is its output.)",
 ['inputs','histories'], 'every public entry point, every argument that is mutable, every path through the call graph reachable from it',
 'Tests compare results, never the arguments after the call; an in-place update only shows for the argument types, flags and call sequences that reach it.',
 [pg+f for f in ('borefield.py','boreholes.py','gfunction.py','heat_transfer.py','load_aggregation.py','media.py','networks.py','pipes.py','utilities.py','solvers/_base_solver.py','solvers/detailed.py','solvers/equivalent.py','solvers/similarities.py')],
 [('inputs are copied or rebound before any in-place operation','all public functions')],
 observe=['argument contents before and after the call'])
add('C02', "Pipe results do not depend on call history",
 "Every temperature, heat extraction rate and coefficient matrix obtained from a pipe depends only on the pipe's parameters and on the arguments of that call. Earlier calls with other flow rates (including reversed flow), heat capacities, numbers of segments or segment ratios, other quantities asked before, earlier thermal resistance updates, and what the caller did with earlier results or argument arrays afterwards never change it.",
 ['histories','inputs'], 'all sequences of coefficient/temperature/heat-rate queries and thermal resistance updates on one pipe object, for every pipe class',
 'The tests query a fresh pipe once or twice per case; staleness needs a specific earlier call that fills the internal store followed by a specific different query.',
 [pg+'pipes.py'],
 [('store lookup guarded by a comparison with the stored inputs','_BasePipe._check_coefficients'),
  ('model variables revalidated before use','_BasePipe._check_model_variables'),
  ('stores reset when resistances change','update_thermal_resistances / _initialize_stored_coefficients')],
 [('_stored_*','per-quantity stored coefficients and the inputs they were computed for','_BasePipe'),
  ('_iInlet, _iOutlet, _m_flow_in, _beta*, _A, ...','model variables of the last flow configuration','pipe classes')])
add('C03', "Network results do not depend on call history",
 "Every temperature, heat extraction rate and coefficient matrix obtained from a network depends only on the boreholes, pipes and connectivity of the network and on the arguments of that call. Earlier calls with other total or per-circuit flow rates (including reversed flow), heat capacities, numbers of segments or segment ratios, other quantities asked before, and later changes by the caller to arrays it passed in or got back never change it.",
 ['histories','inputs'], 'all sequences of queries on one network object',
 'The tests build a network per case; staleness needs an interleaving of two flow configurations over two different quantities.',
 [pg+'networks.py'],
 [('store lookup guarded by a comparison with the stored inputs','Network._check_coefficients'),
  ('outlet mixing weights revalidated','Network._coefficients_mixing / _check_mixing_coefficients')],
 [('_stored_*, _mixing_m_flow, _mix_out','stored coefficients, mixing weights and their inputs','Network'),
  ('_m_flow_in, iInlets, iOutlets, _c_in, _c_out','flow configuration of the last formatted call','Network')])
add('C04', "Borehole internal resistances match the geometry asked for",
 "The delta-circuit thermal resistances returned for a set of pipe positions, radii, borehole radius, conductivities, fluid-to-pipe resistances and multipole order are those of exactly these values. A change of any one of them between two calls, in any order of calls, and any modification the caller makes to lists or arrays it passed or received before, is reflected in (or does not corrupt) the next result.",
 ['histories','inputs'], 'all sequences of resistance evaluations in one process, each input varied on its own',
 'Each test evaluates one geometry per call; the process-wide memory of the last evaluation is only wrong for specific pairs of consecutive geometries.',
 [pg+'pipes.py'],
 [('comparison with the last evaluated inputs','_compare_thermal_resistances_inputs'),('evaluation and storing','thermal_resistances')],
 [('_thermal_resistances_dict','inputs and results of the last evaluation','pipes.py')])
add('C05', "Every argument and option reaches the computation it controls",
 "Each parameter and option that a public function, constructor or convenience wrapper accepts is honoured on every path: it is forwarded unchanged to every inner computation that takes it, and is never dropped, replaced by a default, or replaced by another value. In particular the solution options of a g-function (line-source approximation, its number of terms, quadrature points, tolerances, segments, clusters, profiles) govern every response factor evaluated, for real and equivalent boreholes, same-borehole and cross-borehole, vertical and inclined. (Documented exception: the equivalent-borehole method applies the approximation to same-borehole responses only; its cross-borehole responses are always exact.)",
 ['configurations','inputs'], 'every public parameter / option, every call site on which it could be lost',
 'A dropped option silently falls back to a default that most tests also use; tests sample few option combinations.',
 [pg+f for f in ('gfunction.py','solvers/_base_solver.py','solvers/detailed.py','solvers/similarities.py','solvers/equivalent.py','heat_transfer.py','pipes.py','networks.py','borefield.py','boreholes.py','load_aggregation.py')],
 [('option forwarding','_BaseSolver.__init__ and thermal_response_factors of every solver'),('argument forwarding','wrappers and from_static_params')])
add('C06', "Physical quantities keep their role across every call",
 "A borehole's length, buried depth, radius, position, tilt and orientation, the fluid and ground properties, flow rates and temperatures are always delivered as that quantity and for that object to the computation that consumes them. Length is never taken for depth, position for radius, inlet for outlet, or the emitting borehole's value for the receiving one's.",
 ['inputs','programs'], 'every call between functions of the library and every attribute assignment, on every path',
 'With equal lengths, depths or properties for all boreholes, as most tests have, a swapped value is numerically invisible.',
 [pg+f for f in ('heat_transfer.py','borefield.py','boreholes.py','gfunction.py','networks.py','pipes.py','solvers/detailed.py','solvers/similarities.py','solvers/equivalent.py')],
 [('argument binding','all call sites of functions whose parameters name a physical quantity')])
add('C07', "Results are covariant under a change of units",
 "Every formula is dimensionally homogeneous: expressing all inputs in another consistent system of units (length, time, mass, temperature, energy) changes each returned quantity only by the power of units that its documented dimension implies, and leaves dimensionless results such as g-functions unchanged. Fluid properties and plots aside, no hidden constant carries a unit: tolerances, thresholds and defaults are relative to the inputs, so that the same case in other units takes the same branches.",
 ['inputs'], 'all input values, all paths through the heat transfer, pipe, network, borehole and load-aggregation formulas',
 'A misplaced or missing factor can coincide numerically with the right one for the sampled values (unit lengths, unit conductivities) or live on a branch no test takes.',
 [pg+f for f in ('heat_transfer.py','pipes.py','networks.py','boreholes.py','borefield.py','load_aggregation.py','utilities.py','solvers/_base_solver.py')],
 [('formulas','all arithmetic of these modules')])
add('C08', "Results are invariant under a horizontal shift of the whole field",
 "Line-source response factors, distances between boreholes, grouping of similar pairs and g-functions depend on horizontal positions only through differences between boreholes. Moving the whole field to another origin changes no result, whatever the tilt, method, options or position.",
 ['inputs','configurations'], 'all positions, all solution methods, vertical and inclined boreholes',
 'Test fields are all built at the same origin; an absolute coordinate that enters a formula or comparison is invisible there.',
 [pg+f for f in ('heat_transfer.py','boreholes.py','solvers/detailed.py','solvers/similarities.py','solvers/equivalent.py')],
 [('only coordinate differences are used','distance and line-source formulas')])
add('C09', "Diagnostics and plots never influence results",
 "Progress display, profile output requests and every visualisation are pure observers: g-functions, temperatures and heat rates have the same values whether display or profiles are on or off, and visualising or querying an object leaves its parameters and results unchanged.",
 ['configurations','histories'], 'display and profile switches on and off, any query or plot at any time, every solution method and boundary condition',
 'Tests run with one setting of these switches and do not re-read results after plotting.',
 [pg+f for f in ('gfunction.py','solvers/_base_solver.py','solvers/detailed.py','solvers/similarities.py','solvers/equivalent.py','borefield.py','boreholes.py','pipes.py')],
 [('profiles flag only selects what is stored','_BaseSolver.solve'),('visualize_* methods only read','gFunction, Borefield, pipes')])
add('C10', "Evaluating superposed loads has no side effects and uses current state",
 "With every load aggregation scheme, evaluating the temperature change is a pure query: repeating it without a new time step or load gives the same value, and setting the load of a step again replaces the previous value. Every scheme provides the same operations, uses each load exactly through the scheme's own history, never modifies the response factors it was given, and shares no state between instances.",
 ['histories'], 'all sequences of initialise, next step, set load and evaluate operations on any scheme',
 'No unit test covers load aggregation; the protocol is only exercised once, in order, by the examples.',
 [pg+'load_aggregation.py'],
 [('temporal_superposition only reads state','ClaessonJaved, MLAA, Liu'),('set_current_load overwrites the current cell','ClaessonJaved, MLAA, Liu')],
 [('q_b, Q0..Q4, _n0.._n4, dg, g_d','load history, aggregation counters and response factors','load_aggregation.py')])
add('C11', "Invalid configurations are rejected, never silently accepted",
 "An unknown method, boundary condition, pipe type or configuration name raises an error on every path instead of falling through to some default, and geometrically or physically impossible pipes (non-positive conductivities or resistances, pipe outside the borehole, overlapping pipes, inverted radii), inconsistent networks, mixed-sign or wrong-length flow vectors and unordered or duplicated inputs raise before any result is produced.",
 ['inputs','configurations'], 'every enumerated option value plus all others; every documented invalid input class',
 'Tests use valid configurations; a removed, weakened or bypassed check is not noticed.',
 [pg+f for f in ('pipes.py','networks.py','gfunction.py','solvers/_base_solver.py','enums.py')],
 [('geometry validation','_check_geometry'),('connectivity validation','Network._verify_bore_connectivity'),('input validation','_BaseSolver._check_inputs, gFunction.__init__'),('flow validation','_format_inputs')])
add('C12', "All representations of a bore field agree on every field",
 "A bore field keeps the length, buried depth, radius, position, tilt and orientation of each borehole, in order, when converted to and from a list of boreholes, written to and read from a file, indexed, sliced, concatenated or compared. Two fields that differ in any one of these quantities are unequal.",
 ['inputs'], 'all fields, all conversions and their compositions, each quantity varied on its own',
 'Round trips are tested on a few uniform fields where permuted or dropped columns of equal values are invisible.',
 [pg+'borefield.py', pg+'boreholes.py'],
 [('conversion','Borefield.from_boreholes/to_boreholes/__getitem__/__add__/__radd__'),('file format','Borefield.to_file/from_file, boreholes.field_from_file'),('comparison','Borefield.__eq__/__ne__')])
add('C13', "The library works without a plotting backend",
 "Importing the package and every computation work without the plotting library: it is loaded only inside functions that draw, never at import time nor on the path of a computation. No computation reads or changes plotting configuration.",
 ['configurations'], 'environments with and without the plotting library; every import path and every non-drawing entry point',
 'The test environment always has the plotting library installed.',
 ['pygfunction/_mpl.py','pygfunction/utilities.py','pygfunction/gfunction.py','pygfunction/pipes.py','pygfunction/borefield.py','pygfunction/boreholes.py'],
 [('lazy import','functions importing ._mpl')])
add('C14', "Real and mirror line-source contributions add up",
 "For every line-source solution (transient, approximate, steady-state, equivalent-borehole; vertical or inclined) the response with both the real and the mirror source equals the sum of the response with only the real source and the response with only the mirror source, and the response with neither is zero.",
 ['inputs'], 'all times, positions, lengths, depths, tilts and orientations, for each solution',
 'The tests compare each flag combination with stored numbers for a few geometries; a term altered in one branch where it is numerically small is not seen.',
 [pg+'heat_transfer.py'],
 [('source selection','the three-way branch on the source flags in each line-source function')])
add('C15', "Line-source responses are reciprocal",
 "For vertical boreholes the response of borehole j to borehole i, weighted by the length of j, equals the response of i to j, weighted by the length of i, in every transient, approximate and steady-state solution; wherever a solver fills one response from the opposite one it applies exactly the ratio of the corresponding lengths.",
 ['inputs'], 'all pairs of boreholes and segments of unequal lengths and depths',
 'Most test fields have equal lengths, for which a missing or inverted ratio is one.',
 [pg+f for f in ('heat_transfer.py','solvers/detailed.py','solvers/similarities.py','solvers/equivalent.py')],
 [('symmetric kernel','finite line source integrand'),('transposition with length ratio','thermal_response_factors of the solvers')])
add('C16', "Heat rates and temperatures are energy-consistent",
 "For pipes and networks the fluid heat extraction rate equals the flow heat capacity times the difference between outlet and inlet temperatures, the required-inlet-temperature relation inverts the heat-extraction relation, each evaluated quantity is its own linear relation applied to the given fluid and wall temperatures, and network totals are sums over boreholes (weighted by the number of boreholes represented). Heat rates of the segments of a borehole add up to that of its fluid; fluid temperatures run from the inlet to the outlet and meet at the bottom; each borehole of a network receives the fluid its connection says, and the network outlet is the mean of its circuits weighted by flow. This holds for either flow direction, any number of segments and any heat capacities.",
 ['inputs','configurations'], 'all flow rates, flow directions, inlet temperatures or heat rates and wall temperatures',
 'Tests compare stored numbers per case; sign, transposition or pairing errors between relations only show for specific flow configurations.',
 [pg+'pipes.py', pg+'networks.py'],
 [('linear relations','coefficients_* and get_* of pipes and networks')])
add('C17', "Results are deterministic and free of hidden global state",
 "Computed values depend on arguments and object state only: not on clocks, random numbers, environment, locale, object identities, hash order or module-level state other than validated memories, and module-level data and default argument values are never modified by use. Two identically built objects give identical results in any process and any order of use.",
 ['histories','configurations'], 'all sequences of uses in one process, across processes',
 'Tests run in one order in one process and would need the particular earlier call or environment.',
 [pg+f for f in ('borefield.py','boreholes.py','gfunction.py','heat_transfer.py','load_aggregation.py','media.py','networks.py','pipes.py','utilities.py','solvers/_base_solver.py','solvers/detailed.py','solvers/equivalent.py','solvers/similarities.py')],
 [('no global writes','module level of all modules')])
add('C18', "Pairs are treated as similar only when all that matters agrees",
 "Two borehole pairs share one evaluated response, and two boreholes one group, only if every quantity the response depends on agrees within tolerance: lengths, depths, radii, horizontal distance and, for inclined boreholes, tilts, orientations and relative position. No pair is assigned a response evaluated for a pair that differs beyond tolerance in any one of these quantities.",
 ['inputs'], 'all pairs of boreholes differing in a single quantity, for each comparison used by the similarity-based solutions',
 'Test fields vary few quantities at a time; two pairs that differ only in one quantity and meet in one comparison rarely occur.',
 [pg+'solvers/similarities.py', pg+'solvers/equivalent.py', pg+'utilities.py'],
 [('comparison predicates','_compare_* of Similarities and Equivalent'),('grouping','_map_axial/_find_similarities')])
add('C19', "Generated fields have the documented layout; duplicates are found exactly",
 "Every bore field generator (rectangle, staggered, dense, L, U, box and circle; class methods and functions alike) returns each borehole of the documented layout exactly once, in the documented order, with the length, buried depth and radius given, for any numbers of boreholes (single rows, columns and boreholes included), spacings and radius. With a tilt, each borehole leans away from the origin given (by default the documented centre), except one that lies at the origin, which stays vertical. The detection of duplicates returns exactly the pairs of boreholes closer than the largest borehole radius, wherever they are in the list, and their removal drops exactly the later borehole of each pair.",
 ['inputs','configurations'], 'all layouts, numbers of boreholes, spacings, tilts and origins; all lists of boreholes',
 'The tests build a few fields whose rows and columns differ, mostly vertical, and compare them among themselves; single rows, default origins, a borehole at the origin, pairs of duplicates at particular places in the list are not sampled.',
 [pg+'borefield.py', pg+'boreholes.py'],
 [('layouts','*_field of Borefield and of boreholes.py'),('pair indices','find_duplicates'),('removal','remove_duplicates')])
add('C20', "Segments, segment ratios and time vectors cover exactly what they divide",
 "Dividing a borehole (single or equivalent, vertical or inclined) into any number of segments, of equal or given ratios, yields consecutive segments that start at its head, follow its axis, end at its bottom and keep its radius, tilt and orientation; their edges and midpoints are those of these segments. Segment ratios generated for any number of segments and end ratio are positive, symmetric, start with the end ratio given, change by one factor towards the middle and add up to one. Generated time vectors increase from the time step, widen as documented and reach the maximum time (geometric ones exactly at the last of the steps asked for); the times a load aggregation scheme asks response factors for are whole numbers of time steps and cover the simulation.",
 ['inputs'], 'all boreholes, numbers of segments, ratios, time steps and maximum times',
 'Tests use vertical boreholes, a few numbers of segments and one or two maximum times; a maximum time that falls on the edge of a cell or before the first expansion is not sampled.',
 [pg+'boreholes.py', pg+'utilities.py', pg+'load_aggregation.py'],
 [('segments','segments, _segment_edges, _segment_midpoints of Borehole and _EquivalentBorehole'),('ratios','segment_ratios'),('time vectors','time_* of utilities.py, get_times_for_simulation')])
add('C21', "Equivalent ways to evaluate a thermal response give the same response",
 "The finite line source evaluated for lists of boreholes holds, for each pair, the value the same function gives for that pair alone (receiving boreholes along the first axis, emitting along the second). Segment-to-segment response factors do not depend on the order in which the boreholes of a field are listed (rows and columns move along), nor do its g-functions. The method of similarities gives the response factors and g-functions of the detailed method, for regular and irregular fields, equal and unequal boreholes, equal and unequal numbers of segments. Rotating or mirroring a field, tilts included, leaves its response factors unchanged.",
 ['inputs','configurations'], 'all fields, orders of boreholes, numbers of segments, inclinations, rotations',
 'Tests compare stored g-functions of a few fields in their natural order, at loose tolerances; a pair mapped to the wrong entry in an unusual order or an unequal field is not sampled.',
 [pg+'heat_transfer.py', pg+'solvers/_base_solver.py', pg+'solvers/detailed.py', pg+'solvers/similarities.py', pg+'boreholes.py'],
 [('line sources','finite_line_source'),('response factors','thermal_response_factors of Detailed and Similarities'),('g-functions','solve')])
