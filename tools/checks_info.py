X='exploration'; M='model_checking'; FE='fault_enumeration'
LAT='exhaustive lattice exploration of the real code against an independent oracle'
CFG='exhaustive enumeration of configurations of the real code'
BFS='explicit-state breadth-first search over operation sequences on real objects'
INFO={
'C01':(BFS,M,'All histories of setter/query operations up to the stated depth over a small alphabet of values; states merged on the exact content of the object; every state is compared to a reference turbine evaluated with independent Biot-Savart oracles. Beyond that depth, only repeated pairs of operations and series of different values of each setting. Nothing claimed for other values or longer histories.'),
'C02':(CFG,X,'Every public flow/solver function and turbine/farm method with every argument array, output overwritten, arguments re-used; sharing detected with memory maps and mutation.'),
'C03':(CFG,X,'All batch compositions (singletons, pairs, permutations, shapes, orders, dtypes, NaN neighbours, empties) over a set of control points hitting every branch, for every public velocity function and turbine/farm option.'),
'C04':(CFG,X,'All farms of up to the stated number of turbines over a turbine alphabet, in all orders x query options, vs the sum of single-turbine queries; plus all short edit histories of a farm, long repeated ones, and a list of large farms.'),
'C05':(BFS,M,'All farm-edit histories up to the stated depth over a small alphabet vs a list reference model, repeated pairs of operations and many successive layouts; all grid shapes and spacings of a bounded product vs set semantics.'),
'C09':(LAT,X,'Every branch of the closed forms on a multi-scale lattice (each decade around 0 and R), all output conventions, vs graded Biot-Savart quadrature; nothing claimed between lattice points nor within 3e-8 R of the rotor edge beyond finiteness.'),
'C10':(LAT,X,'Longitudinal sheet and root vortex on the multi-scale lattice x azimuths x all input/output conventions, vs graded Biot-Savart quadrature / cancellation-free line integral; nothing claimed between lattice points.'),
'C12':(LAT,X,'All ring formulations on the multi-scale lattice x ring positions x regularisations, vs graded Biot-Savart quadrature; nothing claimed between lattice points.'),
'C06':(CFG,X,'All rigid motions of a set of orthogonal and oblique frames x yaws (incl. full turns) x winds x loadings x models: velocities, angles and rotor outline vs the un-moved configuration and closed-form geometry. Nothing claimed for frames outside the set.'),
'C07':(CFG,X,'All combinations of model, skew, components, cylinders, hub height, orientation and ground settings vs an explicit image system built from independent oracles, and no normal flow on the ground.'),
'C08':(CFG,X,'All orientations, yaws, models and query options on a lattice of points on both sides (1e-4..1e-9 R) of each boundary of the stream tube, vs the masked oracle.'),
'C11':(LAT,X,'Skewed cylinder kernels on the multi-scale lattice x skews (both signs) x conventions vs independent Biot-Savart quadrature; turbines skewed by each decade of angle from 1e-8 rad; accuracy claimed only where the 180-node azimuthal rule of the code is resolved (>0.06 R of the sheet, with stated tolerances).'),
'C13':(LAT,X,'All doublet point/line functions on the multi-scale lattice x directions x lengths x moments vs high-precision integrals; nothing claimed between lattice points.'),
'C14':(LAT,X,'Points just inside/outside the cut-off sphere in many directions x cut-offs x orientations, kernel and turbine level, vs full cylinder/doublet oracles; batch-independence.'),
'C15':(LAT,X,'Multi-scale lattice of the self-similar model vs its formula; turbine level for all orientations.'),
'C16':(LAT,X,'All pairs of a lattice with each decade of n, m, 1-n, 1-m (both signs), in several batch shapes and with bad neighbours, vs mpmath at 60-130 digits.'),
'C17':(CFG,X,'All thrust vectors of a small alphabet per annulus (below/above the critical thrust, zero, negative), numbers of annuli, wind speeds and radii grids vs momentum theory per annulus, at solver and turbine level; nothing claimed for thrusts outside the alphabet.'),
'C18':(CFG,X,'All circulation vectors of a small alphabet x tip-speed ratios x grids vs an independent implementation of the published superposition relations; prescribed thrust reproduced. Known deviation of one equation recorded as a finding.'),
'C19':(CFG,X,'Every public function and turbine query on its lattice x length factors x velocity factors (powers of two and others) vs the unscaled result.'),
'C20':(CFG,X,'Every kernel and turbine model on its lattice x intensities (sign, zero), all sub-sets of cylinders, end-to-end stacks, ring stacks.'),
'C21':(CFG,X,'Complete product of models x skew x cylinders x components x ground x where the option is given x query options vs the sum of independent component oracles, or refusal.'),
'C22':(LAT,X,'All kernels/orders x vortex sets x orders x lattice of points and line directions vs closed-form kernels.'),
'C24':('exhaustive fault enumeration on the real code: every failing operation in every state, argument failing at its k-th use and error at the k-th solver line for all k',FE,'States: all pairs of operations; faults: all invalid arguments of a list, all use indices of failing arguments, all lines of the wake-vorticity computation; compared with an unaffected twin before, after and after the next operation.'),
'C23':('preemption-bounded exhaustive schedule enumeration of real threads under a controlled scheduler (stateless model checking)',M,'All schedules with one preemption at any line of the library, for all pairs of queries of an alphabet and each kernel with itself; two preemptions and three threads for stated tuples; a line repeated in a loop is a scheduling point at its first executions only; numpy/scipy calls are atomic. Bytecode granularity in the thorough tier.'),
'C25':(LAT,X,'Every decade of the radius next to the axis and to the edge x every decade of skew (both signs) vs the defining integral at 25 digits, and vs Biot-Savart velocities of the rotor plane.'),
'C26':(CFG,X,'All color sequences of a palette x transparencies x position grids x containers, all speed ranges of a set: the whole table vs piecewise-linear interpolation.'),
'C27':('explicit-state search over the state of the library modules (closed: one state), plus exhaustive call sequences in isolated processes',M,'Calls: variants of every public function, including failing ones. State: everything reachable from the modules. All pairs within a family of calls, triples for small families, every first call followed by every family.'),
'C28':(CFG,X,'All configurations of a set of frames x yaws x skews x loadings x ground x models x components, all boxes/loops of a list that stay away from the vorticity: flux and circulation by Gauss quadrature.'),
'C29':(CFG,X,'All thrust vectors of a small alphabet x numbers of cylinders x ways of loading x frames/winds/sizes: rotor, far wake, far upstream, axis and outer velocities vs momentum theory.'),
'C30':(CFG,X,'All configurations of a set of frames x yaws x loadings x prescribed skews x ground, at points inside/outside of the wake 1000 R downstream, vs the closed form of the ellipse of vorticity; nothing claimed for skews above 1.3 rad (azimuthal rule not resolved).'),
'C31':(CFG,X,'All set-ups of a product of thrusts, heights, tip-speed ratios, yaws, models, ways to specify the case; all small farms x orders of thrusts; synthetic data files for all thrusts by hundredths, neighbouring cases present; velocities vs the reference turbine, data vs the analytical field. The lateral components of OutputProj are not claimed.'),
'C32':(BFS,M,'All histories of operations up to the stated depth over a small alphabet of values (states not merged), the numbers of every line of the summaries vs the reference turbine; copies at lesser depth. Angles compared modulo a full turn.'),
'C33':(CFG,X,'All sub-sets of the optional arguments of 67 public functions, constructors and methods, with one non-default value each, given by name, in another order, by position, one default at a time; vs the call with all arguments by name.'),
'C34':('systematic fault injection (an interruption at the first visit of every line of the library, call by call) and exhaustive enumeration of calls x environments, with the complete environment compared before and after',M,'1600 calls (valid, refused, failing) of all functions, objects, article helpers and plots x three settings of the program; one interruption per line and call (restoring blocks excluded); imports of all modules. Environment: numpy/scipy error handling, printing, random generators, warnings, matplotlib, figures, directory, files, variables, streams, signals, threads, functions of numpy/math/builtins.'),
'C35':(CFG,X,'Every argument of 95 calls (functions, constructors, methods, turbine and farm settings) in every numeric type and memory layout, alone, all together, and all sub-sets (or pairs) of integer arguments; for the values of a table, the same rounded to whole numbers in several ways and to single precision; vs the call in double precision. Single precision compared to 5e-3; lists accepted only where documented (same or refused elsewhere).'),
}
