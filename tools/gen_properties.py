#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of truth for the property texts)."""
import json, os
W='wiz/WindTurbine.py'; F='wiz/WindFarm.py'; S='wiz/Solver.py'; VC='wiz/VortexCylinder.py'; SV='wiz/VortexCylinderSkewed.py'
D='wiz/VortexDoublet.py'; R='wiz/VortexRing.py'; L='wiz/VortexLine.py'; VP='wiz/VortexPoint.py'; SS='wiz/SelfSimilar.py'; EL='wiz/elliptic.py'; PF='wiz/plotting_functions.py'
KER=[VC,SV,D,R,L,VP,SS,EL]
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if state: a['state']=[{'name':n,'meaning':m,'where':w} for n,m,w in state]
    if observe: a['observe_at']=observe
    a['hook_needed']=None
    P.append({'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':text},'why_tests_cant':why,'anchors':a})

prop('C01','Turbine flow depends only on its current settings, never on its history',
 'After any sequence of yaw, wind, position, loading, skew, reference-frame and flow-query operations, the flow (and the yaw, wind, skew angles) reported by a wind turbine is the one of a freshly created turbine given the latest value of each setting. Each setting is absolute (not incremental), a loading update uses the wind and tip-speed ratio in force when it was made (a tip-speed ratio given once stays in force until another is given), and redefining the reference axes brings the yaw back to zero. A skew angle prescribed by the user stays in force until it is removed; otherwise the skew is the angle between the current wind and the current yaw.',
 ['histories'],'All operation sequences over small domains of each setting, interleaved with queries at any point of the sequence.',
 'The tests build one turbine, set it once in a fixed order, and query it; no test queries, changes a setting and queries again.',
 [W],[('update_* methods','WindTurbine.update_yaw_pos/update_wind/update_position/update_loading/set_yaw0_coord/set_chi'),('chi property','WindTurbine.chi'),('flow query','WindTurbine.compute_u')],
 [('yaw_pos/T_wt2g','current yaw and rotation','WindTurbine'),('U0_g, r_hub','wind, hub','WindTurbine'),('gamma_t/gamma_l/Gamma_r/r/Lambda','wake vorticity of last loading','WindTurbine')])
prop('C02','Computations never modify, or keep a hold on, the data of the caller',
 'No flow, induction or wake-vorticity computation modifies the arrays it is given, returns arrays sharing memory with them, or changes the turbine or farm that is queried. Arrays given when creating or updating a turbine can be modified afterwards by the caller without changing the turbine, and two turbines (or farms) never share state, even when created with default arguments. Repeating a query, including after its results were overwritten by the caller, gives the same result in memory of its own.',
 ['inputs','histories'],'Every public computation, every array argument, writable or read-only, and every setter followed by a modification of its argument.',
 'Tests pass fresh arrays once and never look at them again.',
 [W,F,S]+KER,[('copies made at the boundary','WindTurbine.update_*, set_yaw0_coord, update_loading'),('local arrays in kernels','all *_u functions'),('copies in the solver','Solver.InductionsFromCirculation_VC_Cont etc.')])
prop('C03','Velocity at a control point is independent of the other control points',
 'The velocity at a control point is the same whatever other control points are given in the same call, in whatever order, array shape, memory layout or real number type, and the results have the shape of the inputs (including no points at all). A control point with undefined (NaN) coordinates does not affect the other ones.',
 ['inputs'],'All subsets and orderings of a set of control points covering every special region of each model (axis, rim, sheet, wake, far field, NaN), all array shapes.',
 'Tests use one fixed grid per function; special-region masks are exercised in one combination only.',
 [W,F]+KER,[('masks isolating special regions','vc_tang_u, doublet_line_polar_u, ring_u, svc_root_u_polar'),('vectorised iteration to convergence','elliptic.ellipticPiCarlson'),('ravel/reshape','svc_*_u_polar, vc_tang_u_doublet')])
prop('C04','Wind farm flow is the free stream plus the sum of the turbine inductions',
 'The velocity field of a wind farm is, for every set of turbines, query option and order of the turbines, the sum of the induced velocities of each turbine queried alone with the same options, plus the free stream given to the query, counted once, if any. It follows additions, removals and changes of the turbines, an empty farm induces nothing, and only turbines can be appended.',
 ['configurations','histories'],'All farms of up to 3 turbines from a menu of distinct turbines (with repetitions, all orders), all query options, all sequences of additions/removals/updates to a bounded depth.',
 'No test calls the velocity field of a farm object.',
 [F,W],[('summation','WindFarm.velocity_field'),('type check','WindFarm.append')])
prop('C05','Farm layouts and grid layouts place every turbine where requested',
 'The layout reported by a farm is the list of the hub positions of its turbines in farm order, after any sequence of layout assignments, turbine moves, additions and removals; assigning a layout moves each turbine to its row, and a layout of the wrong shape is refused without moving any turbine. A grid layout has all combinations of the requested number of columns and rows exactly once, at the requested spacing (row spacing equal to the column spacing when not given) and hub height, columns contiguous around lateral position zero and rows starting at zero, followed by their mirror images below ground if requested.',
 ['histories','inputs'],'All sequences of layout operations to a bounded depth; all grid sizes up to 5x5, spacings, heights and mirror options.',
 'The only test is one 2x2 mirrored grid; the layout accessor is untested.',
 [F],[('layout getter/setter','WindFarm.layout'),('grid','gridLayout'),('grid of cylinders','windfarm_gridlayout_CTconst')])
prop('C06','Turbine flow follows rotations and translations of the frame',
 'Rotating and translating a whole configuration (turbine axes, hub, wind, control points) rotates the velocities accordingly and leaves the yaw, wind and skew angles unchanged. Yaw angles are periodic: adding full turns to the yaw changes nothing, the yaw error is the yaw minus the wind angle wrapped to half a turn on each side for horizontal winds, and yawing turns the shaft and rotor disk about the vertical by exactly that angle. The rotor disk outline is the circle of the rotor radius around the hub, normal to the shaft.',
 ['configurations','inputs'],'All 24 axis-aligned orientations plus oblique ones, all combinations of yaw, wind direction, hub position, flow component and control point on a lattice.',
 'Tests use one orientation (shaft along z) and at most one yaw angle.',
 [W],[('frame transforms','RotMat_AxisAngle, transform, transform_T, set_yaw0_coord, T_c2wt, T_wt2g'),('angles','yaw_wind, yaw_error, chi'),('disk','rotor_disk_points, orth_vect')])
prop('C07','Ground effect is an image turbine: no flow through the ground',
 'With ground effect, the induced velocity is the one without ground plus the one of the mirror image of the turbine below the ground plane (the horizontal plane through the origin), for each of the tangential, longitudinal and root vorticity components, aligned or yawed, with one or several cylinders and any hub height. As a consequence the induced velocity normal to the ground vanishes on the ground, and the ground setting of the query has precedence over the one of the turbine.',
 ['configurations','inputs'],'All combinations of component, skew, number of cylinders, model, hub height, frame and control points of a lattice.',
 'One test, hub at ground level, on-axis, tangential component only.',
 [W,VC,SV],[('mirror points','WindTurbine.compute_u Ylist'),('mirror in multi-cylinder routines','vcs_tang_u, vcs_longi_u, svcs_tang_u, svcs_longi_u')])
prop('C08','The no-wake option removes the induction exactly in the rotor stream tube',
 'With the no-wake option, the induced velocity is zero (the free stream being kept if requested) at every point closer to the rotor axis than the rotor radius (with a margin of 0.1%) and downstream of the plane located 0.6 rotor radius upstream of the rotor, and is unchanged everywhere else. This holds in the frame of the rotor whatever its orientation, yaw, position and model.',
 ['inputs','configurations'],'All points of a lattice bracketing the limits of the region, all orientations, yaws, positions, models and options.',
 'The option is never used in the tests.',[W],[('region masks','WindTurbine.compute_u no_wake')])
prop('C09','Right vortex cylinder velocity is that of its tangential vorticity',
 'The velocity induced by a semi-infinite or finite right cylinder of uniform tangential vorticity equals the Biot-Savart integral over its vortex sheet at every point not on the sheet, including on the axis, at the radius of the cylinder upstream of the rotor, and arbitrarily close to the sheet or far from it. On the sheet it is the finite average of both sides (the rotor edge is given a quarter of the sheet intensity axially and zero radially). The optional smoothing leaves the flow upstream of the rotor unchanged, keeps it finite, and vanishes as its parameter tends to zero.',
 ['inputs'],'All points of a multi-scale lattice of radial and axial positions covering each branch of the formulas on both sides, all radii and intensities of a small set.',
 'Tests check the axis, a few rows at two decimals, and three singular points.',
 [VC,EL],[('closed form with elliptic integrals','vc_tang_u'),('axis and rim branches','vc_tang_u'),('difference of semi-infinite cylinders','cylinder_tang_u')])
prop('C10','Straight longitudinal and root vorticity velocities obey Biot-Savart',
 'The velocity induced by the longitudinal vorticity of a right cylinder and by a straight semi-infinite root vortex equals the Biot-Savart integral over the vorticity at every point away from it, is purely azimuthal, vanishes on the axis, and is finite everywhere. Polar and Cartesian outputs and inputs agree.',
 ['inputs'],'All points of a multi-scale lattice covering each branch, all radii and intensities of a small set, both output conventions.',
 'No test of the longitudinal vorticity outside article plots; the root vortex is compared at two points.',
 [VC,L],[('closed form','vc_longi_u_polar'),('line vortex','vl_semiinf_straight_u_polar, vc_root_u')])
prop('C11','Skewed cylinder velocities obey Biot-Savart and tend to the right cylinder',
 'The velocities induced by the tangential, longitudinal and root vorticity of a skewed semi-infinite cylinder equal, up to the resolution of the azimuthal quadrature away from the sheet, the Biot-Savart integrals over the skewed vorticity for both signs of the skew, and tend to the ones of the right cylinder as the skew vanishes. Polar and Cartesian outputs describe the same vector, opposite skews give mirrored flows, and the superposition and article-style wrappers return the components of these fields.',
 ['inputs'],'All points of a lattice of radial, azimuthal and axial positions (axis, rotor plane, wake, upstream, far), all skews of a set of both signs and zero, all components and output conventions.',
 'Tests cover the far wake, one ring comparison and the rotor plane of the articles.',
 [SV,L],[('azimuthal quadrature','svc_tang_u_polar, svc_longi_u_polar'),('line vortex','svc_root_u_polar'),('projections','skew_components, polar_components, fV_*')])
prop('C12','Vortex ring velocities obey Biot-Savart in all formulations',
 'The velocity induced by a vortex ring equals the Biot-Savart integral at every point away from the ring, in all the formulations provided, for any position of the ring along its axis, with the exact value on the axis. On the ring it is finite, smoothing acts within the core only, and a set of rings induces the sum of its rings.',
 ['inputs'],'All points of a multi-scale lattice around and away from the ring, radii, intensities, positions, smoothing methods, output conventions, and all subsets of a set of rings.',
 'Tests compare the formulations on a few rows and check three singular points.',
 [R],[('elliptic-integral formulas','ring_u, ring_u_polar_singular, ring_u_polar_singularb'),('axis and core branches','ring_u, ring_u_polar'),('sum','rings_u')])
prop('C13','Doublet velocities: point, finite, semi-infinite, straight and skewed lines',
 'The velocity of a point doublet is the dipole field about its position, and the velocity of straight or skewed, finite or semi-infinite, lines of doublets is the integral of the dipole field along the line, at every point away from the singularity. Velocities are finite everywhere, the numerical variants converge to the closed forms, and polar and Cartesian forms agree.',
 ['inputs'],'All points of a lattice around the line (upstream, beside, beyond the end, on the extension of the axis), all skews, lengths and intensities of small sets.',
 'Tests use single points and 2 to 5 decimals.',
 [D],[('dipole','doublet_u, doublet_u_polar'),('closed forms','doublet_line_u, doublet_line_polar_u, _integrals_DL_finite, I30, tI50, tI51, tI52')])
prop('C14','Far-field model: cylinder inside the cut-off distance, doublet line outside',
 'The far-field variant of the vortex cylinder equals the full vortex cylinder at every point within the chosen distance of the rotor center and the equivalent doublet line beyond it, for each point independently, and upstream and outside of the wake its difference with the full model decays with the cut-off distance. A turbine uses the cut-off distance given to the query, in rotor radii.',
 ['inputs','configurations'],'All points of a lattice bracketing the cut-off sphere, cut-offs, radii, intensities and output conventions.',
 'The far-field model is only plotted.',
 [VC,W],[('selection','vc_tang_u_doublet'),('query option','compute_u R_far_field')])
prop('C15','Self-similar model: prescribed shape upstream, nothing in the wake',
 'The self-similar model induces an axial velocity only, equal on the axis upstream to the one of the vortex cylinder, decaying radially as the prescribed hyperbolic-secant shape with a half-width growing with the axial distance, even in the radial direction, and zero everywhere downstream of the rotor.',
 ['inputs'],'All points of a lattice of radial and axial positions on both sides of the rotor plane, radii, intensities and shape parameters.',
 'One on-axis comparison at three stations.',[SS,W],[('closed form','ss_u')])
prop('C16','Complete elliptic integral of the third kind is exact over its domain',
 'The complete elliptic integral of the third kind is returned with close to machine accuracy for all characteristics and parameters below one, of either sign, up to arbitrarily close to one (through their complements), whatever other values are given in the same call and whatever their array shape.',
 ['inputs'],'All pairs of characteristics and parameters on a multi-scale lattice approaching 0, 1 and minus infinity, alone and in batches.',
 'Tests compare with a reference at a few pairs.',
 [EL],[('Carlson duplication iterations','ellipticPiCarlson')])
prop('C17','Wake vorticity and induction from thrust satisfy momentum theory per annulus',
 'For a rotor without swirl, the induction of each annulus is the momentum-theory value of its own thrust coefficient (with the high-thrust correction above the critical thrust), independently of the other annuli, and the vorticity of each cylinder is minus twice the wind speed times the drop of induction across it, so that the vorticities outside a radius add up to the wake velocity deficit at that radius. The thrust distribution is sampled by interpolation at the stations of the cylinders, a single cylinder taking its average and the rotor radius.',
 ['inputs'],'All thrust distributions over a grid of thrust levels (both sides of each threshold) for up to 4 or 5 annuli, all wind speeds and radii of small sets.',
 'Tests use two thrust curves.',
 [S,W],[('cylinder-by-cylinder induction','WakeVorticityFromCirculation_Discr'),('interfaces','WakeVorticityFromCt, WakeVorticityFromGamma, CirculationFromPrescribedCt'),('resampling','WindTurbine.update_loading')])
prop('C18','Wake vorticity with swirl satisfies the superposition relations',
 'For a rotor with swirl, the circulation found for a prescribed thrust reproduces that thrust, and the tangential inductions, helix pitch, tangential, longitudinal and root vorticity follow from the circulation by the published cylinder-superposition relations: in particular the induction of an annulus depends only on itself and the outer annuli, the trailed circulations and the root vortex add up to zero, and the rotation correction accumulates from the tip. The continuous formulation agrees with its own published relations.',
 ['inputs'],'All circulation and thrust distributions on a grid of levels for up to 4 annuli, all tip-speed ratios and options of small sets.',
 'Tests use one thrust curve, and one station of it, at 4 decimals.',
 [S],[('superposition algorithm','WakeVorticityFromCirculation_Discr'),('continuous formulation','WakeVorticityFromCirculation_Cont, InductionsFromCirculation_VC_Cont'),('circulation solve','CirculationFromPrescribedCt')])
prop('C19','Results scale with the units of length and velocity',
 'Multiplying all lengths by a factor and all velocities by another factor multiplies the velocities returned by the second factor only, for each flow model, wake-vorticity computation and turbine query (circulations scaling with both), away from the singularities; an infinite tip-speed ratio means no swirl whatever the size of the rotor.',
 ['inputs','configurations'],'All pairs of length and velocity factors of a set spanning six decades, all models, components, loading types and points of a lattice.',
 'Tests use one rotor size per function.',
 [W,S,VC,SV,D,R,L,SS],[('dimensional formulas','all kernels'),('tip-speed ratio','WakeVorticityFromCt, update_loading')])
prop('C20','Velocities are linear in the vortex intensity and superpose',
 'Induced velocities are proportional to the vorticity intensity (including its sign and zero), the velocity of a set of concentric or separate cylinders is the sum of the velocities of the cylinders, stacking cylinders end to end gives the cylinder of the total length, and a finite cylinder is the limit of a stack of rings.',
 ['inputs','configurations'],'All intensities of a set including zero and both signs, all subsets of multi-cylinder arrangements, all components, straight and skewed, and points of a lattice.',
 'Tests use one intensity and check the superposition on one arrangement.',
 [VC,SV,R,D,L,SS],[('superposition loops','vcs_tang_u, vcs_longi_u, svcs_tang_u, svcs_longi_u, rings_u, cylinder_tang_u')])
prop('C21','Every model/option combination is either honoured or refused',
 'For each combination of flow model, skew, number of cylinders, vorticity components and ground option, a turbine query returns the sum of exactly the requested components computed with the requested model, or raises an error if this combination is not available; it never silently substitutes, omits or adds a component. Options given to the query have precedence over those of the turbine, and a query before any loading is refused.',
 ['configurations'],'All combinations of model (including unknown ones), skewed or aligned, one or several cylinders, component selection, ground, and ways of giving the option.',
 'Tests use the default model only.',
 [W],[('dispatch','WindTurbine.compute_u')])
prop('C22','Vortex points and regularised line vortices follow their kernels',
 'The velocity of one or several two-dimensional vortex points is the sum of the point-vortex velocities with the selected smoothing kernel and order, a vortex has no effect on itself, and the sum does not depend on the order of the vortices. A semi-infinite line vortex of any direction follows Biot-Savart, and its core models tend to it away from the core and are bounded in the core.',
 ['inputs','configurations'],'All kernel types and orders, all vortex/control point arrangements of small sets, all directions and core models of a lattice.',
 'No test of the vortex points; the line vortex is tested in one direction without core.',
 [VP,L],[('kernels','vp_u, vps_u'),('core models','vl_semiinf_u')])
prop('C23','Concurrent flow queries give the same results as sequential ones',
 'Flow queries made at the same time by several threads on the same or different turbines, farms or flow functions return what they return when run one after the other, for every interleaving of their steps.',
 ['schedules'],'All interleavings, at source-line granularity, of two or three concurrent queries up to a preemption bound.',
 'No test uses threads.',
 [W,F]+KER,[('no shared scratch state','all query functions')])
prop('C24','A refused or failed update leaves the turbine or farm unchanged',
 'When an update of a turbine or farm is refused (invalid argument, missing data) or fails (error raised by the caller-provided loading function, by the wake-vorticity computation or by the conversion of an argument), an error is raised and all observable settings and flows remain those before the update, so that work can continue as if it had not been attempted.',
 ['fault_sequences','histories'],'Every update operation with every kind of invalid argument and with an error injected in each call it makes to the wake-vorticity computation, from every state of a set of reachable states.',
 'No test triggers an error.',
 [W,F],[('validation before assignment','WindTurbine.set_yaw0_coord, update_yaw_pos, update_loading, WindFarm.layout, append')])
prop('C25','Rotor-plane flow expansion functions match their integral definitions',
 'The flow expansion functions of the rotor plane of a skewed cylinder given in closed form equal their defining integrals for all radial positions inside the rotor and all skews, vanish on the axis, tend to the right-cylinder expression without skew, and return the number of outputs requested.',
 ['inputs'],'All radial positions and skews of a lattice.',
 'No test; only article plots.',
 [SV],[('closed forms','fKxit, fKzt')])
prop('C26','Colormaps interpolate the given colors at the given positions',
 'A colormap built from a list of colors, with or without transparency, passes through each color at its position, is piecewise linear in between, and uniform positions are used when none are given; the speed colormap spans the requested range with its white band around one.',
 ['inputs'],'All short lists of colors (with or without alpha) and monotonic positions of small sets.',
 'No test.',[PF],[('color dictionary','make_colormap, get_cmap')])
prop('C27','Flow and solver functions have no memory of previous calls',
 'The result of a flow, elliptic-integral or wake-vorticity function depends only on the arguments of the call: it is the same as in a fresh process whatever calls, including failed ones, were made before with whatever arguments.',
 ['histories'],'All sequences of up to 3 calls over an alphabet of calls covering each function with arguments differing in one respect.',
 'Tests call functions in one order and do not compare repeated calls.',
 [S]+KER,[('no module-level state, no mutable defaults','all kernels')])
prop('C28','Turbine flow conserves mass and is irrotational away from the vorticity',
 'For every vortex and dipole model, orientation, yaw, ground option, loading and set of components, the net flux of the velocity through any closed box that stays away from the vortex sheets and lines is zero and, for the tangential vorticity and the dipoles (closed vortex lines), so is its circulation along any closed loop which stays away from them. For an aligned rotor, what enters a control volume around the rotor leaves it, also when its end sections cross the wake.',
 ['inputs','configurations'],'All cells of a lattice of boxes covering upstream, side, far-field and in-wake regions, for all configurations of a small set of each option.',
 'Tests never look at two neighbouring points together.',
 [W,VC,SV,D],[('exact potential-flow kernels','compute_u and *_u functions')])
prop('C29','A loaded turbine slows the wind by the induction implied by its thrust',
 'For an aligned turbine loaded with a thrust distribution and no swirl, the axial velocity on the rotor disk and the one in the far wake behind each annulus are the wind speed times one minus once, respectively twice, the momentum-theory induction of that annulus, the far upstream, lateral and outer flow tending to the free stream. The same holds for a total thrust coefficient, for any wind speed, rotor size and orientation.',
 ['inputs','configurations'],'All thrust distributions on a grid of levels for 1 to 4 cylinders, all radial stations between cylinders, wind speeds, rotor sizes and orientations of small sets.',
 'Tests check the solver and the cylinder separately, at a few values.',
 [W,S,VC],[('loading to vorticity','update_loading'),('vorticity to flow','compute_u')])
prop('C30','The far wake of a yawed turbine is the flow of an ellipse of vorticity',
 'Far downstream of a yawed or skewed turbine, the wind inside the wake is uniformly reduced by the strength of the tangential vorticity and uniformly deflected by this strength times the tangent of half the skew angle, and outside it is the closed-form flow of an ellipse of vorticity, whatever the orientation, ground and number of cylinders; far upstream there is nothing. The same flow is obtained with discrete vortex points and lines on the ellipse.',
 ['inputs','configurations'],'All combinations of orientations, yaws, loadings and ground settings of small sets, at a lattice of points inside and outside of the wake.',
 'No test looks at the far wake of a yawed turbine.',
 [W,F,SV],[('skewed tangential vorticity','vcs_tang_u'),('frames and skew','WindTurbine.compute_u'),('discrete sums','vps_u, vcl_u')])
prop('C31','Article set-ups give the flow, data and errors of the case asked for',
 'The turbines and farms set up by the article helpers, from explicit arguments or from a data set, have the flow of the case asked for: position, ground, wind, skew, loading of each turbine, strength matched to the data, on every line and plane proposed. The data read, interpolated, plotted and written are those of that case at the coordinates asked for, cases which do not exist being refused, and the relative errors reported are the ones between these flows.',
 ['inputs','configurations','files'],'All cases of a product of thrusts, heights, tip-speed ratios, yaws, models and ways to specify them; all thrust grids of small farms; all thrust values of a data set by hundredths.',
 'The article scripts are not run by the tests.',
 ['wiz/article_blockage/helper_functions.py',F,'coupling_examples/helper_functions.py'],[('set-up of the turbine','setupModel, OutputVC'),('farms','ADFarm2VCFarm, VCFarmFromFloris'),('data','loadPlane, OutputAD, OutputProj, savePlane'),('errors','getModelsRelErr, relerrinduction')])
prop('C32','Summaries and saved copies of turbines and farms show their current state',
 'After any sequence of changes, the printed summary of a turbine or farm gives its current name, radius, position, wind, angles, axes and layout, whether short or full. A copy made or saved with the standard means (deep copy, pickle, file) has the same state, summary and flow, and is then independent of the original in both directions.',
 ['histories'],'All histories of setters up to a depth over an alphabet of values, with each way to copy, followed by a further change of the copy.',
 'No test prints or copies a turbine.',
 [W,F],[('summaries','tostring, __repr__'),('own data','WindTurbine.__init__ and setters')])
prop('C33','Optional arguments have their documented default, by name or by position',
 'For every public function, class and method, leaving out any sub-set of the optional arguments gives the same result, or the same refusal, as giving their documented defaults. Arguments may be given by name in any order or by position in the documented order.',
 ['inputs','configurations'],'All sub-sets of the optional arguments of every function (up to 1024 for one function), the others given by name, by position or left out.',
 'Tests use one or two ways to call each function.',
 [W,F,VC,SV,D,'wiz/VortexCylinderSkewed.py','wiz/VortexRing.py','wiz/article_blockage/helper_functions.py'],[('signatures','all def statements of the package')])
prop('C34','Calls leave the settings shared with the rest of the program as they were',
 'Importing the library and any call of it, whether it succeeds, is refused, fails in the middle or is interrupted, leave what is shared with the rest of the program as it was: handling of numerical errors and warnings, random generators, printing options, plotting settings and current figure, working directory, environment variables, standard streams, signal handlers, threads and open files. No file is written but by the functions meant to. The numerical results do not depend on these settings.',
 ['inputs','crash_points','configurations'],'All calls of all functions in three settings of the program, an interruption at every line of the library.',
 'Tests run in the settings of the test runner, and never interrupt a call.',
 [W,F,VC,SV,D,'wiz/VortexCylinderSkewed.py','wiz/elliptic.py','wiz/plotting_functions.py','wiz/article_blockage/helper_functions.py'],[('plots','plotPlane, plotPlaneVert'),('data','loadPlane, save_obj')])
prop('C35','The same numbers in another numeric type or memory layout, same results',
 'For every function, constructor, method and setting, arguments given as integers, single precision, big-endian, strided, reversed, Fortran-ordered or read-only arrays, numpy scalars, and positions, directions and winds given as lists, tuples or arrays, give the same result as the same numbers in double precision arrays. Other containers give the same result or are refused, never another result.',
 ['inputs','configurations'],'All arguments x all types and layouts, alone, all together and in combinations of integer arguments, for several sets of values.',
 'Tests give double precision arrays; a buffer which takes the type of an argument truncates silently for integers only.',
 [W,F,VC,SV,D,'wiz/VortexCylinderSkewed.py','wiz/VortexRing.py','wiz/VortexLine.py','wiz/VortexPoint.py','wiz/elliptic.py'],[('buffers','np.zeros/np.full of all velocity functions'),('settings','WindTurbine.update_*, WindFarm.layout')])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
for p in P:
    assert len(p['title'])<=80,(p['id'],len(p['title']))
    n=p['statement'].count('. ')+1
    assert n<=3,(p['id'],n)
print(len(P))
