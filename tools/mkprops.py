#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
TRUST = (
    "Assumes: floats are mathematical reals, denominators evaluated are non-zero, the assumed contracts on numpy/scipy in pv/models.py, "
    "and the verifier (pv) with z3. Every contract is also run natively on the real modules as a cross-check and for counterexample replay."
)


def prop(id, title, statement, over, text, why, files, mechanism, note, technique=None, observe=None, level="proof"):
    P.append(dict(
        p=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
               anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism], observe_at=observe or [], hook_needed=None)),
        note=note, technique=technique or "contract-based deductive verification (symbolic execution of the real source, loop summaries, z3)", level=level))


prop(
    "C01", "Loop Green's functions give the flux and field of a circular current loop",
    "For every source and observation place the flux Green's function equals the closed-form flux (per radian) of a unit circular current loop in elliptic integrals, with the modulus kept inside its limits, so it is finite on the source itself, symmetric under exchanging source and observer, and depends on heights only through their distance. "
    "The field Green's functions are the centred differences Bz = (1/R) dpsi/dR and Br = -(1/R) dpsi/dZ of that same flux, with the step that was asked for. Array arguments are handled point by point.",
    ["inputs"], "All radii > 0, all heights, all step sizes, scalars and arrays of any shape.",
    "Tests compare a few loop positions numerically; a sign, factor or clipping error for other places passes them.",
    ["freegs/gradshafranov.py"], [("Greens, GreensBr, GreensBz", "freegs/gradshafranov.py")],
    "Proof over all real inputs of the formula, symmetry, shift, mirror and derivative identities on the code's own expressions. " + TRUST)

prop(
    "C02", "A coil's field is the turns-weighted sum over its filaments, times its current",
    "For every kind of coil (point, shaped, filament, multi-filament, mirrored pair, solenoid, precalculated) the flux and field per unit current at any place equal the sum over the coil's filaments of the loop Green's functions with the documented weights and number of turns, and flux and field are that response times the present current. "
    "The response used for cached flux evaluation does not depend on the current, and arrays of places are handled point by point.",
    ["inputs", "configurations"], "All coil geometries with any number of filaments, all currents, turns, polarities, and observation places.",
    "Tests evaluate few coils at few places with one turn count; missing turns or a wrong mirrored position was not noticed by them.",
    ["freegs/coil.py", "freegs/shaped_coil.py", "freegs/filament_coil.py", "freegs/multi_coil.py", "freegs/pre_calc_coil.py", "freegs/machine.py"],
    [("psi/Br/Bz, controlPsi/controlBr/controlBz, createPsiGreens/calcPsiFromGreens of the coil classes", "freegs/*coil*.py, freegs/machine.py")],
    "Proof for every coil class, any number of filaments. The interpolating spline and (for shaped coils) the quadrature points enter as uninterpreted functions. " + TRUST)

prop(
    "C03", "Machine and circuit fields are superpositions; cached evaluation agrees",
    "Flux and field of a machine are the sums over its coils, and those of a circuit the sums over its coils each carrying multiplier times the circuit current, for any number of coils. "
    "Flux evaluated from cached responses equals the direct flux for whatever currents the coils have at the time of evaluation, also when evaluated repeatedly. Evaluating changes no current or switch, and setting a circuit's current or control switch sets every coil of it.",
    ["inputs", "configurations", "histories"], "Any number and mix of coils, any currents set between caching and evaluation, any places.",
    "Tests use fixed machines of a few coils and do not change currents between caching and evaluating.",
    ["freegs/machine.py"], [("Machine.psi/Br/Bz/createPsiGreens/calcPsiFromGreens, Circuit.*", "freegs/machine.py")],
    "Proof for symbolic numbers of arbitrary coils obeying the coil contract (C02). " + TRUST)

prop(
    "C07", "Discrete Grad-Shafranov operators are exact on low-order polynomials",
    "The second-order and fourth-order matrices applied to grid values of any polynomial of degree 2 respectively 4 give the exact Grad-Shafranov operator of it at every interior point, touch only neighbouring points, and their boundary rows are rows of the identity. "
    "The matrix-free operator is the same second-order operator, zero on the boundary, and agrees with the second-order matrix on every grid function.",
    ["inputs", "configurations"], "All grid sizes (second order >= 3, fourth order >= 6 in each direction), all domains with Rmin >= 0, all polynomials / grid functions.",
    "Tests run a couple of grid sizes on one function with loose tolerances; a wrong coefficient on one near-boundary row does not show.",
    ["freegs/gradshafranov.py"], [("GSElliptic, GSsparse, GSsparse4thOrder", "freegs/gradshafranov.py")],
    "Proof for symbolic grid sizes and domains. " + TRUST)

prop(
    "C04", "Control vectors pair every controlled coil with its own current",
    "The responses and currents a machine hands to the control system list exactly the coils (or circuits) that are under control, all in the same order. Adding a vector of changes, or setting a vector of currents, reaches exactly those coils, each with its own entry, and leaves every other coil and every control switch alone; reading the currents, changing them and writing the saved ones back restores the machine. Coils and currents are found by their label; an unknown label is an error.",
    ["inputs", "configurations"], "Any number of coils, any pattern of controlled and uncontrolled ones, any current vectors in any accepted form.",
    "Tests use one or two coils which are all controlled, so a shifted or filtered-out entry is not seen.",
    ["freegs/machine.py"], [("Machine.control*, setControlCurrents, getCurrents, __getitem__", "freegs/machine.py")],
    "Proof for symbolic numbers of arbitrary coils with arbitrary control switches. " + TRUST)

prop(
    "C05", "Moving a coil moves its filaments and outline rigidly and nothing else",
    "Setting the centre of any coil makes the centre what was asked for, displaces every filament and every corner of its outline by the same amount (so the field is that of the displaced filaments), and keeps number of turns, current, control switch and area. Repeated moves add up and moving back restores the coil. The lists the coil was made from, and other coils made from the same lists, do not move.",
    ["inputs", "histories"], "All coil classes with own geometry, any outline and number of filaments, any sequence of moves.",
    "Tests construct coils in place and hardly ever move them; none moves one twice or looks at the outline afterwards.",
    ["freegs/coil.py", "freegs/shaped_coil.py", "freegs/filament_coil.py", "freegs/multi_coil.py"],
    [("R and Z setters", "freegs/shaped_coil.py, freegs/filament_coil.py, freegs/multi_coil.py")],
    "Proof for each class with symbolic numbers of filaments and corners, over sequences of moves in both coordinates. Precalculated coils (tabulated maps) are not covered. " + TRUST)

prop(
    "C06", "Coil forces: Lorentz force of all other currents plus hoop force",
    "The force on a coil is its total current (current times turns) times the field of everything except itself, over its circumference, plus the hoop force of the finite cross-section given by its area (fixed, or from the current density limit); it is zero, not undefined, when the coil carries no current. This holds for coils on their own, in a machine and inside circuits, and computing forces leaves all currents as they were.",
    ["inputs", "configurations", "histories"], "All coil positions, currents, turns, areas, external fields, machines and circuits.",
    "Tests look at the form of the answer for one or two currents; the self-field subtraction inside circuits and zero currents are not sampled.",
    ["freegs/coil.py", "freegs/machine.py"], [("Coil.getForces, AreaCurrentLimit", "freegs/coil.py"), ("Circuit.getForces, Machine.getForces", "freegs/machine.py")],
    "Proof; circuits of three arbitrary coils, machines of any number. " + TRUST)

prop(
    "C11", "Constrained profiles deliver the plasma current and pressure or beta asked for",
    "After a profile object constrained by plasma current and axis pressure, or by plasma current and poloidal beta, has computed the current density, the integral of that current density over the grid is the requested plasma current, the pressure on axis (respectively the poloidal beta of the core with the present field) is the requested one, and the current density is R p' + ff'/(mu0 R) with the profile's own p' and ff' inside the core and zero outside it.",
    ["inputs"], "All grids, flux maps, boundary fluxes (known, from the X-point, or none), profile exponents, requested values of either sign of current and flux.",
    "Tests check single equilibria and never look at the achieved constraint.",
    ["freegs/jtor.py"], [("ConstrainPaxisIp, ConstrainBetapIp", "freegs/jtor.py")],
    "Proof. Critical points and core mask enter through their contracts (C13, C14); romb and quad as linear integration operators over the grid/interval. " + TRUST)

prop(
    "C12", "Current density, pressure and f follow p' and ff'",
    "With given p' and ff' functions the current density is R p' + ff'/(mu0 R) at the normalised flux inside the core (clipped to [0, 1]) and zero outside. Pressure is the integral of p' from the boundary, zero on the boundary; f = R Bt satisfies f^2 = fvac^2 + 2 int ff' dpsi, with the sign of the vacuum field. Scalars and arrays of any shape give the same values. Functions supplied for p and f are used. A flux without magnetic axis is an error.",
    ["inputs"], "All grids, flux maps, profile functions, signs of flux and vacuum field, scalar and array arguments.",
    "Tests evaluate one profile for one flux; sign conventions and array shapes are not sampled.",
    ["freegs/jtor.py"], [("Profile.pressure, Profile.fpol, ProfilesPprimeFfprime", "freegs/jtor.py")],
    "Proof. " + TRUST)

prop(
    "C08", "Axis and boundary flux, limiter contact and core are those of the present flux",
    "After every update of the flux, the axis flux is that of the primary O-point. The boundary flux is that of the primary X-point, or, when limiters are checked and a wall is present, the larger of the X-point's and the limiter contact's (flux falling from the axis outward); the contact point is the limiter point with the largest flux among those not beyond 3/4 of the primary X-point's height, and the equilibrium says truthfully whether it is limited. The core mask is the core of that flux inside that boundary. Limiter points lie on the closed wall at equal distances along it. Updating changes neither the plasma flux nor a current.",
    ["inputs", "configurations"], "All grids, flux maps, coil currents, walls with any number of limiter points, with and without X-points; limiter-point generation: sampled polygons.",
    "Tests compute one diverted equilibrium; a limiter flux looked up on the transposed grid was not noticed.",
    ["freegs/equilibrium.py", "freegs/machine.py"], [("Equilibrium._updateBoundaryPsi", "freegs/equilibrium.py"), ("Machine.generate_limit_points", "freegs/machine.py")],
    "Proof for _updateBoundaryPsi for any number of limiter points; critical points and core mask enter by contract (C13), the spline as an uninterpreted interpolant. The spacing of generated limiter points is a bounded native check (random polygons). " + TRUST)

prop(
    "C10", "Flux and field are plasma plus coils; solve is the linear Grad-Shafranov solve",
    "The grid is the uniform one over the domain. Total flux is plasma flux plus that of the coils at their present currents, on the grid and between grid points; B is its derivative (Br = -1/R dpsi/dZ, Bz = 1/R dpsi/dR) for plasma and coils together, Bpol and Btot their magnitudes, Btor = f/R with f of the normalised flux in the core and the vacuum value outside. "
    "solve computes the current density from the profile for the present flux (unless given), applies the boundary condition once, solves the linear system of the requested order with -mu0 R Jtor inside and the boundary values kept, keeps Jtor, sets the plasma current to its integral, and leaves the coil currents alone.",
    ["inputs", "configurations", "histories"], "All grids, domains, flux maps, any number of coils and any currents, both orders, given or profile current density, any boundary condition.",
    "Tests solve a few machines on one or two grids; a missing contribution, a stale spline or a wrong sign in one of the field functions does not show.",
    ["freegs/equilibrium.py"], [("Equilibrium.__init__, psi, psiRZ, Br, Bz, Bpol, Btor, Btot, psiN, solve", "freegs/equilibrium.py")],
    "Proof. Linear solver, boundary function and profile enter as arbitrary functions recording what they are given; spline uninterpreted. " + TRUST)

prop(
    "C13", "The core mask is the region inside the boundary connected to the axis",
    "The core mask is 1 exactly at the grid points inside the boundary flux that are connected to the magnetic axis by grid neighbours inside the boundary without passing an X-point, and, next to an X-point (the 3 by 3 points around it), wherever the flux is inside the boundary; it is 0 elsewhere, for either sign of the flux. It terminates and leaves the flux untouched.",
    ["inputs"], "All grid sizes, flux maps, axis positions and any number of X-points in the domain.",
    "Tests use one analytic flux; leaks through a private-flux region or unvisited pockets need other shapes.",
    ["freegs/critical.py"], [("core_mask", "freegs/critical.py")],
    "Proof with loop invariants on the flood fill (work list abstracted; every marked point inside the boundary and connected, every inside neighbour of a finished point marked or queued). Native random flux maps compare with a reference flood fill. " + TRUST)

prop(
    "C21", "Global quantities are their documented integrals and shape measures",
    "Plasma volume, thermal energy, average pressure, poloidal betas, toroidal, total and normalised beta and the internal inductances are their defining integrals over the core (core mask, dV = 2 pi R dR dZ) with the present flux, field and plasma current; geometric axis, minor radius, aspect ratio, elongations, triangularities, Shafranov shift, effective elongation and cylindrical safety factor are the defining measures of the separatrix with the number of points asked for. Evaluating them changes nothing.",
    ["inputs", "configurations"], "All grids, flux maps, profiles, currents and separatrix shapes, any number of separatrix points.",
    "Tests check few of these numbers on one equilibrium; a factor or an ignored argument in the others is not sampled.",
    ["freegs/equilibrium.py"], [("plasmaVolume, w_th, poloidalBeta*, toroidalBeta, totalBeta, betaN, internalInductance*, pressure_ave, qcyl", "freegs/equilibrium.py"), ("separatrix, geometricAxis, minorRadius, elongation*, triangularity*, shafranovShift, ...", "freegs/equilibrium.py")],
    "Proof. Romberg integration is a linear operator, separatrix points an arbitrary closed list, critical points and core mask by contract. " + TRUST)

prop(
    "C09", "Boundary conditions put exactly the documented flux on the domain edge",
    "A fixed boundary sets the plasma flux to zero on all four edges. The free boundary sets it, at every edge point, to the integral over the grid of the toroidal current density times the loop Green's function from there, leaving out only the point's own cell. The Von Hagenow free boundary solves the fixed-boundary problem for the same current and sets every edge point to the line integral over all four edges of its normal derivative times Green's function over R. "
    "All of them leave the flux inside the domain, the current density and the grid untouched.",
    ["inputs", "configurations"], "All grids and domains with Rmin > 0, all current densities and plasma flux maps.",
    "Tests solve whole equilibria on one grid; a corner, one edge or a term missing for one orientation changes them within their tolerance.",
    ["freegs/boundary.py"], [("fixedBoundary, freeBoundary, freeBoundaryHagenow", "freegs/boundary.py")],
    "Proof for symbolic grid sizes. Green's function, Romberg integration and the fixed-boundary solver enter as uninterpreted functions (C01, C07). " + TRUST)

prop(
    "C16", "Coil currents from constraints: regularised least squares, kept in limits",
    "Applying X-point, isoflux and flux-value constraints poses exactly one minimisation over the changes of the controlled coils' currents: the squared misfit of Br = Bz = 0 at X-points, equal flux at isoflux pairs and wanted flux at given places, using the controlled coils' responses, plus gamma^2 times the squared changes, started from the regularised least-squares solution; current limits bound each coil's resulting current and the total-current limit the sum of absolute currents. "
    "The flux-map fits minimise the weighted difference of (normalised) flux and target, offsets removed where documented, within the given limits and from a start inside them. The result is applied to exactly the controlled coils, other coils keep their current, and the constraint object is remembered by the equilibrium.",
    ["inputs", "configurations"], "Any number of coils controlled or not, any currents, places, gamma, limits, target maps and weights (single number or map).",
    "Tests apply one or two constraint sets to one machine and look at the final equilibrium; a limit attached to another coil when some coils are not controlled does not show.",
    ["freegs/control.py"], [("constrain, ConstrainPsi2D, ConstrainPsiNorm2D, ConstrainPsi2DAdvanced, ConstrainPsiNorm2DAdvanced", "freegs/control.py")],
    "Proof of the minimisation problem posed and of how its answer is used, for nine combinations of constraint kinds with symbolic numbers of coils; the optimisers of SciPy and the Moore-Penrose inverse are assumed (natively the real ones run). max_total_current of the flux-map fits is accepted and documented nowhere; not covered. " + TRUST)

prop(
    "C15", "Picard iteration solves, blends and stops as documented",
    "Every Picard step solves Grad-Shafranov once with the blended flux (1-blend)*new + blend*previous, applies the constraint (if any) before each solve and to the starting equilibrium, and looks for the limiter exactly as asked. It returns exactly when relative or absolute flux change and, with a boundary asked for, the boundary change of the present step are within tolerance (and the plasma is limited if that was waited for), and raises RuntimeError after more than maxits steps. The convergence information handed back is the history of these changes, one entry per step.",
    ["inputs", "histories"], "All numbers of steps, flux maps, tolerances, blends, limits on iterations, with and without constraint, limiter check, boundary and convergence information.",
    "Tests run a few equilibria to convergence with one set of options; which change is compared with which tolerance hardly alters them.",
    ["freegs/picard.py"], [("solve", "freegs/picard.py")],
    "Proof with a loop invariant over the step history. The equilibrium, profiles and constraint enter by uninterpreted effects (C08-C13, C16), plotting is left out. " + TRUST)

prop(
    "C20", "Sensors measure the enclosed current, field or flux where they sit",
    "A Rogowski sensor measures the sum over every coil, at each filament or for the fraction of its area inside the sensor, of turns times current, plus with a plasma the toroidal current density times the part of every grid cell inside the sensor. A poloidal field sensor measures Br*cos(theta)+Bz*sin(theta) at its place, a flux loop the poloidal flux there, of coils and plasma. "
    "takeMeasurements updates every sensor once that is switched on; a sensor switched off keeps its measurement. Measuring changes no coil, plasma or grid.",
    ["inputs", "configurations"], "All sensor regions and places, any number of coils of every kind, turns, currents (on or off), filaments, circuits, and any plasma grid.",
    "Tests use few sensors around single coils; turns, mirrored filaments, circuits and cells partly inside are not sampled.",
    ["freegs/machine.py"], [("Sensor, RogowskiSensor, PoloidalFieldSensor, FluxLoopSensor, Machine.takeMeasurements, *.inShape", "freegs/machine.py")],
    "Proof. Shapely's contains and intersection area of two regions are uninterpreted functions of the regions; natively the real ones. " + TRUST)

prop(
    "C17", "Polygon crossings, areas, triangulation and quadrature are exact",
    "Two open or closed polylines intersect exactly when some segment of one properly crosses some segment of the other (segments parallel to within 1e-6 excepted); in particular the plasma touches the wall exactly when its closed separatrix crosses the closed wall. The signed area of a polygon is the shoelace sum, positive when clockwise. "
    "Triangulation tiles any simple polygon with two triangles less than it has corners, inside it and clockwise, leaving the input alone. The triangle rules of 1, 3 and 6 points lie inside the triangle, move with its corners and average polynomials of degree 1, 2 and 4 exactly; the polygon rule is the area-weighted mean over the triangles.",
    ["inputs"], "All polylines of any number of points, open or closed, all triangles, polygons and functions averaged.",
    "Tests use a handful of squares and L-shapes; wrap-around of open lines, points on concave outlines and weights of one rule go unnoticed.",
    ["freegs/polygons.py", "freegs/quadrature.py", "freegs/equilibrium.py"],
    [("intersect, area, clockwise, triangulate", "freegs/polygons.py"), ("triangle_quad, polygon_quad, average", "freegs/quadrature.py"), ("intersectsWall", "freegs/equilibrium.py")],
    "Proof for polygons of any size, except triangulate: BOUNDED (400 random simple polygons of up to 16 corners per run against Shapely, not counted as proved). " + TRUST)

prop(
    "C19", "The optimiser returns the best candidate measured, within its limits",
    "The differential-evolution optimiser measures every candidate once, after it is complete, and returns the object of the lowest score seen; the object given and objects already measured are not changed. Each candidate is a copy of its agent with at least one control changed, every change being a + F*(b - c) of three other distinct agents, and replaces its agent exactly when it scores lower. "
    "Before scoring, an equilibrium is solved with its own profiles and constraints and renewed coil responses; one that cannot be solved scores infinity. Coil radius and height controls move only their coordinate and keep within their limits; the measures are the largest current, the largest force with plasma, infinity for touching the wall, and weighted sums.",
    ["inputs", "histories"], "All populations of 4 or more, generations, controls, scores and random numbers; all limits, coils, forces and weights.",
    "Tests run one seeded optimisation of a parabola; a best-so-far or limit that is wrong in rare cases is not sampled.",
    ["freegs/optimiser.py", "freegs/optimise.py"], [("optimise, mutate, pickUnique", "freegs/optimiser.py"), ("CoilRadius, CoilHeight, optimise, max_abs_coil_current, max_coil_force, no_wall_intersection, weighted_sum", "freegs/optimise.py")],
    "Proof with loop invariants over generations, agents and controls; one to three controls in mutate, one to three coils in the measures (their loops unroll). Random numbers are arbitrary values of their range. " + TRUST)

prop(
    "C14", "Magnetic axes and X-points are found, classified and ordered",
    "find_critical starts Newton's iteration for vanishing field of the interpolated flux at every grid point, at least two from the edges, where the field strength is below that of its eight neighbours. Every point returned has a poloidal field below 1 mT, lies within three grid diagonals of such a grid point, carries the flux there, and is an X-point exactly if the second differences of flux form a saddle. "
    "Points found by no more than sqrt(1e-5) m apart are returned once, no others are lost. O-points are ordered by distance from the middle of the domain, the first being the axis; X-points by flux difference from it, leaving out (when asked for) exactly those with a hill of flux between them and the axis. The arguments are not changed.",
    ["inputs"], "All grids of 5 by 5 points or more and all flux maps; any number of critical points.",
    "Tests look for one or two critical points of one analytic flux map.",
    ["freegs/critical.py"], [("find_critical", "freegs/critical.py")],
    "Proof with invariants for the loops over the grid, Newton's iteration, the removal of duplicates and the selection of X-points, for flux maps of any size. That Newton's iteration converges is not proved; BOUNDED native checks (60 random maps of up to 5 bumps and 120 exact quadratic maps per run) look for missing points. " + TRUST)

prop(
    "C22", "Flux surfaces, separatrix and safety factor follow the normalised flux",
    "Along any ray from a point inside, the flux surface of a given normalised psi is met, at a linear interpolation between the last sample within and the first beyond, on samples equally spaced from the start to where the ray leaves the domain. "
    "The separatrix is that surface of psi normalised by the axis and the plasma boundary (X-point or limiter), at equal angles around the axis, turned by half a step when one would meet the X-point. "
    "The safety factor of every surface is the loop integral of f/(R^2 Bpol)/(2 pi) over points found so; q(psinorm) accepts nothing, a number, a list or an array, extrapolates quadratically next to axis and edge, and leaves its argument alone. "
    "The inner and outer midplane radii are the first crossings of the boundary inboard and outboard of the axis on the grid line nearest to the height asked for, or the edges of the domain.",
    ["inputs"], "All flux maps on grids of any size, all axes, X-points, boundary fluxes (limited or diverted), rays, numbers of angles and surfaces.",
    "Tests only check that q(0.95) runs for one diverted equilibrium; limited plasmas, X-points on a ray, lists and extrapolation are not sampled.",
    ["freegs/critical.py", "freegs/equilibrium.py"], [("find_psisurface, find_separatrix, find_safety", "freegs/critical.py"), ("Equilibrium.q, Equilibrium.innerOuterSeparatrix", "freegs/equilibrium.py")],
    "Proof. Scope: rays that do reach the surface (argmax of an all-false comparison is the start), plasmas with an X-point, heights at which the axis column is within the plasma. scipy's interp1d and RectBivariateSpline are functions of their data. " + TRUST)

prop(
    "C23", "Grid transfers, Jacobi sweeps and multigrid cycles follow the discrete problem",
    "Restriction takes full weighting of the points inside (zero at the edge; without avg four times that), and leaves a grid with an odd number of intervals alone. Interpolation is bilinear in the values inside, taking the edge as zero. "
    "A multigrid cycle is niter Jacobi sweeps, the coarse grid correction by the full weighted residual, and niter sweeps, repeated ncycle times; it changes neither the guess nor the right hand side, and a solution stays one. "
    "The levels halve the intervals while both are even and levels remain, the lowest is solved directly if asked, and each level has the matrix of its own resolution; repeated cycles converge to the direct solution. "
    "LaplacianOp and LaplaceSparse are the five point Laplacian (identity rows on the edge of the matrix), for unequal spacings too.",
    ["inputs", "iterations"], "All grids, arrays, right hand sides, guesses, numbers of sweeps, cycles and levels; matrices known by their products and diagonal only.",
    "Tests only compare the direct solver with a one level solve on one grid; smoothing, transfers and corrections are never executed by them.",
    ["freegs/multigrid.py"], [("MGDirect, MGJacobi, createVcycle, restrict, interpolate, smoothJacobi, smoothVcycle, smoothMG, LaplacianOp, LaplaceSparse", "freegs/multigrid.py")],
    "Proof, for zero, one and two sweeps and cycles (bounded in these two numbers, given as constants) and all grids. Convergence itself is a bounded stand-in (sampled). scipy's factorized solves the matrix it is given (trusted).. " + TRUST)

prop(
    "C24", "A finer or coarser grid, or another domain, keeps the plasma and its settings",
    "refine, coarsen and newDomain return a new equilibrium on the same machine with the same boundary condition, order of the operator and limiter setting, on the grid asked for; the original stays as it was. "
    "refine interpolates the plasma flux by the bivariate spline (by default twice the intervals each way), coarsen keeps the flux at every second point (or all, with an odd number of intervals), and both keep plasma current and profiles. "
    "newDomain solves for the current density of the old grid interpolated to the new, and once more for the current density of that solution, with the boundary condition applied each time; resolution and domain not given are those of the original in R and Z.",
    ["inputs"], "All equilibria (grids, square or not, domains, machines, fluxes, orders, boundary conditions), all new resolutions and domains.",
    "Tests refine nothing; settings lost on the way only show for equilibria made with other settings than the defaults.",
    ["freegs/equilibrium.py"], [("refine, coarsen, newDomain", "freegs/equilibrium.py")],
    "Proof. The order four operator needs grids of six points (precondition). RectBivariateSpline, find_critical, core_mask, the linear solver and the boundary condition are given by contract. " + TRUST)

prop(
    "C25", "Field lines follow the magnetic field and stop at the wall",
    "A field line moves at dR/dphi = R Br/Bt, dZ/dphi = R Bz/Bt for the toroidal angle phi (both reversed when followed backward), its length grows by R |B|/|Bt|, and it stops for good where the way from the middle of the domain crosses the wall (including its closing segment) an odd number of times, or without a wall within 1 cm of the edge of the domain. "
    "follow starts every line at its place with length zero, passes on the tolerance, and returns places and length by angle and start, in the shape of the starts. traceFieldLines starts nlines lines, equally spaced over solwidth from the outboard midplane crossing of the plasma boundary outward, and follows them both ways over the turns and points asked for.",
    ["inputs"], "All fields, walls with any number of corners, numbers and arrangements of lines, angles, equilibria.",
    "Nothing in the tests follows a field line.",
    ["freegs/fieldtracer.py"], [("FieldTracer, traceFieldLines, LineCoordinates", "freegs/fieldtracer.py")],
    "Proof; the loop over wall segments by an invariant (parity of the crossings so far). Segments all but parallel to the way to the point, and points on the wall, are excluded. odeint (scipy) is by contract a solution determined by the rates, starts, angles and tolerance; that its steps may look beyond the last angle is left to it. find_critical and find_psisurface by contract (C14, C22). " + TRUST)

prop(
    "C18", "Coils and equilibria written out come back as they were",
    "to_numpy_array followed by from_numpy_array gives a coil, shaped coil, multi-coil, solenoid or circuit of the same class with the same places, corners, filaments, turns, current, control, mirror, polarity, multipliers and labels, also when the first part of a circuit carries no current. "
    "An equilibrium written to a file and read back has the same domain, grid, plasma flux, plasma current, boundary condition, order of the operator and limiter setting, and its machine the same wall and the same coils under the same labels; writing changes nothing in the original.",
    ["inputs"], "All coils of these classes (circuits of up to three coils, outlines of three or four corners, up to three filaments), all equilibria and settings, machines of several mixtures of coils, with and without wall.",
    "One test compares two fixed machines and psi; lost settings, multi-coils and zero multipliers are not sampled.",
    ["freegs/dump.py", "freegs/coil.py", "freegs/shaped_coil.py", "freegs/multi_coil.py", "freegs/machine.py"],
    [("OutputFile.write_equilibrium, OutputFile.read_equilibrium", "freegs/dump.py"), ("Coil, ShapedCoil, MultiCoil, Solenoid, Circuit: to_numpy_array, from_numpy_array", "freegs/coil.py")],
    "Proof, bounded in the numbers of coils, corners and filaments (all values symbolic). h5py is given by contract (a tree which gives back what was stored, in order of the names); the real one is used in the replays. Floating point of current/multiplier is taken exactly. FilamentCoil has no conversion and multi-coils cannot be put in files; coil areas, sensors and R0 are not part of the format. " + TRUST)

NA = []


def main():
    P.sort(key=lambda d: d["p"]["id"])
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for d in P:
            assert len(d["p"]["title"]) <= 80, d["p"]["title"]
            f.write(json.dumps(d["p"]) + "\n")
    m = dict(
        version=1,
        setup_cmd="python3 -c 'import sys; print(sys.version)' && python3-vt -c 'import z3; print(z3.get_version_string())'",
        checks=[
            dict(
                property=d["p"]["id"],
                quick_cmd="python3 /verif/check.py %s --tier quick" % d["p"]["id"],
                thorough_cmd="python3 /verif/check.py %s --tier thorough" % d["p"]["id"],
                technique=d["technique"], level=d["level"], level_note=d["note"])
            for d in P if d["p"]["id"] not in {n["property"] for n in NA}
        ],
        not_applicable=NA,
        notes="Contracts in /verif/contracts, verifier in /verif/pv, see DESIGN.md. No hooks in /repo.",
    )
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


if __name__ == "__main__":
    main()
