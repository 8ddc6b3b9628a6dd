#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below.
A property appears in the manifest as claimed when fgsverif/props/<id>.py exists."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []


def prop(pid, title, statement, over, quant, why, files, mech, observe, technique, note):
    P.append(dict(pid=pid, title=title, statement=statement, over=over, quant=quant, why=why,
                  files=files, mech=mech, observe=observe, technique=technique, note=note))


prop(
    "C01", "Filament flux and field are exact magnetostatics",
    "The poloidal flux computed at any point for a unit circular current filament equals the magnetostatic "
    "value R*A_phi: it is finite everywhere (also at the filament), unchanged by exchanging source and field "
    "point, by a common vertical shift and by vertical reflection. The radial and vertical field of the filament "
    "equal the Biot-Savart field, that is -(1/R) d(flux)/dZ and (1/R) d(flux)/dR, to the accuracy of a 1 mm "
    "finite difference. Arrays of source or field points give the same values as evaluating point by point.",
    ["inputs"], "all source and field positions with R > 0, near, far and coincident; scalar and array arguments",
    "tests never compare with an independent field calculation, and sample a handful of points at moderate distance",
    ["freegs/gradshafranov.py"],
    [("Greens, GreensBr, GreensBz", "freegs/gradshafranov.py: Greens and the two field functions")],
    "return values of the three functions",
    "property-based testing against direct numerical integration around the loop",
    "generated positions against an integral evaluated to rounding error; exploration, not exhaustive",
)
prop(
    "C02", "Every coil type produces the field of its current times its turns",
    "For point, polygonal, filament-bundle, multi-strand (with mirroring and polarity), tabulated, solenoid and "
    "circuit coils, the flux and both field components at any point outside the conductor equal the coil's present "
    "current times its response to unit current, and that response equals the superposition of filaments that the "
    "constructor's arguments describe, carrying current x turns in total. Array arguments are evaluated elementwise, "
    "the pre-computed response on a grid gives the same flux as direct evaluation, and a machine's flux, field and "
    "list of responses are those of its coils, the responses being of the controlled coils only, in order.",
    ["inputs", "configurations"], "all coil types, geometries, turns, currents, polarities, multipliers and observation points",
    "tests compare two coil classes with each other for a few fixed positions and turns",
    ["freegs/coil.py", "freegs/shaped_coil.py", "freegs/filament_coil.py", "freegs/multi_coil.py",
     "freegs/pre_calc_coil.py", "freegs/machine.py"],
    [("psi/Br/Bz/controlPsi/controlBr/controlBz of each coil class", "coil modules and Circuit, Solenoid, Machine in freegs/machine.py")],
    "return values at observation points",
    "property-based testing against a superposition of reference filaments",
    "every coil type is generated; tolerances allow for quadrature order and 1 mm differences",
)
prop(
    "C03", "Equilibrium flux and field are plasma plus present coil currents",
    "After any history of coil and circuit current changes (direct assignment, setting or adjusting the controlled "
    "currents), control switches, plasma solves and queries, the total flux on the grid equals the plasma flux plus each coil's "
    "response times its present current, also when several coils share a label. Flux and field at any other point are "
    "the interpolated plasma part plus the coil part, the plasma field being the derivative of the plasma flux, and "
    "only the currents addressed by an operation change.",
    ["histories", "inputs"], "all sequences of current changes, control switches, solves and queries on machines of any coils",
    "the grid flux comes from a response cached at construction; tests never change currents and compare with direct evaluation",
    ["freegs/equilibrium.py", "freegs/machine.py", "freegs/coil.py"],
    [("psi, psiRZ, Br, Bz, plasmaBr, plasmaBz", "freegs/equilibrium.py"),
     ("createPsiGreens, calcPsiFromGreens, controlAdjust, setControlCurrents", "freegs/machine.py: Machine, Circuit")],
    "eq.psi(), eq.psiRZ(), eq.Br(), eq.Bz() after every step",
    "model-based testing of operation histories",
    "operation sequences up to 8 steps on machines of up to 4 coils; model = list of currents",
)
prop(
    "C04", "Circuits drive their coils with current times multiplier",
    "At every moment each coil of a circuit carries the circuit current times its multiplier and has the circuit's "
    "control flag, and the circuit's flux, field, unit response and flux from the pre-computed response are the multiplier-weighted sum over its "
    "coils (also if one of them was given another current meanwhile), after any sequence of current, control and control-system changes and queries. A mirrored pair consists of coils at +Z and -Z "
    "with equal current, or opposite when antisymmetric, and starts with the current and control flag it was given. Coils and circuits made without them have no current, one turn, and are controlled. Coils are found by label.",
    ["histories", "configurations"], "all circuits (any coils, multipliers, labels) and sequences of changes and queries",
    "tests build one or two circuits and check one response each",
    ["freegs/machine.py"],
    [("Circuit, MirroredCoil", "freegs/machine.py")],
    "coil currents, control flags, flux and field after every step",
    "model-based testing of operation histories",
    "operation sequences up to 8 steps on circuits of up to 4 coils",
)
prop(
    "C05", "Control finds the best currents for the constraints, within limits",
    "Applying X-point, equal-flux and flux-value constraints to an equilibrium changes the currents of the controlled "
    "coils, and of no others, by the change dI that minimises the sum of squared misfits plus (gamma*dI)^2, so that "
    "constraints which the coils can meet are met: zero poloidal field at the X-points, equal flux at paired points and "
    "the requested flux values. With limits per coil (listed in the order of all the machine's coils) or on the total "
    "of the absolute controlled currents, the currents stay within them and the misfit is the smallest possible within them; "
    "limits that don't bind change nothing. A request without constraints, or with the wrong number of limits, is refused and changes nothing.",
    ["inputs", "configurations"], "all machines (coil types, control flags, starting currents), plasmas, constraint sets, regularisations and limits",
    "tests run one or two constraint sets on one machine and never look at the misfit or the limits",
    ["freegs/control.py", "freegs/machine.py"],
    [("constrain", "freegs/control.py: constrain.__call__"), ("controlBr, controlBz, controlPsi, controlAdjust", "freegs/machine.py: Machine")],
    "coil currents, and field and flux at the constrained points, after the call",
    "property-based testing against an independent least-squares solver",
    "regularised least squares, box constrained least squares and a convex duality gap are the oracles; exploration, not exhaustive",
)
prop(
    "C24", "Polygon crossing, area, winding and triangulation are correct",
    "Two open or closed lines are reported as crossing exactly when some segment of one crosses a segment of the other, "
    "whatever their size, position, order or direction; closed lines include the segment from last to first point. Signed "
    "area and winding direction are right for every simple polygon. Triangulating a simple polygon of n vertices, convex or concave and in either direction, "
    "gives n-2 clockwise triangles on its vertices that cover exactly the polygon, and leaves the input unchanged.",
    ["inputs"], "all simple polygons and pairs of lines; touching or degenerate pairs excluded",
    "tests use a handful of unit squares and triangles",
    ["freegs/polygons.py"],
    [("intersect, area, clockwise, triangulate", "freegs/polygons.py")],
    "return values",
    "property-based testing against an independent geometry library",
    "exploration of generated polygons between 3 mm and 100 m",
)
prop(
    "C25", "Quadrature over triangles and polygons is exact to its order",
    "For every triangle and simple polygon the weights sum to one, the points lie inside, and the weighted average of a polynomial "
    "equals its exact average over the area, up to degree 1, 2 and 4 for the rules with 1, 3 and 6 points per triangle. "
    "Rules which don't exist are refused.",
    ["inputs"], "all simple polygons, rules, and polynomials up to the rule's degree",
    "tests integrate one or two functions over one triangle and one polygon",
    ["freegs/quadrature.py", "freegs/polygons.py"],
    [("triangle_quad, polygon_quad, average", "freegs/quadrature.py")],
    "points and weights, and averages formed with them",
    "property-based testing against exact moments from Green's theorem",
    "exploration; all monomials of each degree are generated",
)

prop(
    "C06", "Fits of a 2D flux map find the best coil currents, within limits",
    "Fitting the total or normalised flux to a map, with or without weights (missing, a number or a map), changes the currents of "
    "the controlled coils only, to those with the smallest weighted sum of squared misfits, the mean weighted misfit of the absolute "
    "flux not counting; a map which other currents would make is recovered. Fits with current limits stay "
    "within them and are the best within them. This holds from any starting currents, zero included.",
    ["inputs", "configurations"], "all machines (coils, circuits, control flags, starting currents), plasmas, target maps, weights and limits",
    "tests run one fit on one machine",
    ["freegs/control.py"],
    [("ConstrainPsi2D, ConstrainPsiNorm2D and the Advanced variants", "freegs/control.py")],
    "coil currents after the call",
    "property-based testing against an independent least-squares solver",
    "linear least squares with and without bounds is the oracle; exploration, not exhaustive",
)
prop(
    "C07", "The linear solve gives the flux of the plasma current at stated order",
    "For any domain, resolution and right-hand side the solver returns the solution of the toroidal elliptic equation "
    "d2/dR2 - (1/R) d/dR + d2/dZ2 with the given edge values, exactly for polynomials its differences are exact for, "
    "and with an error falling at second or fourth order, as chosen, for smooth solutions. The equilibrium solve with a "
    "given current density gives the flux of that current, is linear in it, doesn't depend on what was there before, and reports the integral of the current density.",
    ["inputs", "configurations"], "all domains, grids, orders, right-hand sides, edge values and current densities",
    "tests solve a single analytic case on one grid and compare coarse norms",
    ["freegs/gradshafranov.py", "freegs/equilibrium.py", "freegs/multigrid.py"],
    [("GSElliptic, GSsparse, GSsparse4thOrder", "freegs/gradshafranov.py"), ("solve, callSolver", "freegs/equilibrium.py")],
    "returned flux, plasma current",
    "property-based testing with manufactured solutions",
    "polynomials and trigonometric solutions; grids up to 49 points",
)
prop(
    "C08", "Multigrid converges to the solution of the discrete equations",
    "For every grid size, number of levels and choice of coarsest-level solver, repeated multigrid cycles converge to the "
    "solution of the same discrete equations that a direct solver gives, with the given edge values, from any starting guess, "
    "and a single cycle removes most of a smooth error. Interpolating to a finer grid is exact for bilinear functions and restricting keeps the values at shared points. "
    "Neither guess nor right-hand side is modified.",
    ["inputs", "configurations"], "all grid shapes, levels, cycle and iteration numbers, right-hand sides and guesses",
    "tests only look at the residual of one example",
    ["freegs/multigrid.py", "freegs/equilibrium.py"],
    [("MGDirect, MGJacobi, createVcycle, smoothJacobi, restrict, interpolate", "freegs/multigrid.py"), ("setSolverVcycle", "freegs/equilibrium.py")],
    "returned solutions",
    "differential property-based testing against a dense solver",
    "grids up to 33 points and five levels",
)
prop(
    "C09", "Boundary conditions give the flux of the enclosed current",
    "After a solve with the free boundary, the plasma flux on every edge and corner, and inside, equals the flux in unbounded space of the "
    "toroidal current in the domain; the variant using currents on the edges gives the same to its lower accuracy. "
    "The fixed boundary gives zero flux on all edges. Turning the current upside down turns the flux upside down.",
    ["inputs"], "all domains, resolutions and resolved current densities inside",
    "no test compares edge flux with an independent calculation",
    ["freegs/boundary.py", "freegs/equilibrium.py"],
    [("freeBoundary, freeBoundaryHagenow, fixedBoundary", "freegs/boundary.py")],
    "plasma flux on edges and inside after eq.solve",
    "property-based testing against a superposition of reference filaments",
    "tolerance 0.8% of the largest edge flux for the free boundary, more for the edge current variant on coarse grids",
)
prop(
    "C10", "O- and X-points are the critical points of the flux",
    "Every O- or X-point reported for a flux map is a point where the poloidal field vanishes (below 1 mT), correctly told apart, with the flux there; "
    "and every critical point that the grid resolves, away from the edges, is found, wherever it lies relative to the grid points. "
    "The first O-point is the one nearest the middle of the domain; X-points come in order of flux difference from it, and by default those "
    "are left out to which the flux doesn't run monotonically; reversing, offsetting, shifting or mirroring the flux does the same to the result.",
    ["inputs"], "all smooth flux maps on all grids that resolve them",
    "tests sample one or two analytic fields on one grid each",
    ["freegs/critical.py"],
    [("find_critical", "freegs/critical.py")],
    "returned lists of points",
    "property-based testing against critical points of analytic functions",
    "grids of 25-85 points; sums of Gaussians and polynomials",
)
prop(
    "C11", "Axis, boundary and core are those of the total flux",
    "A grid point belongs to the core exactly when its flux is between that of the axis and the boundary and it is connected to the axis through such points "
    "without passing through an X-point, so that other islands and private flux regions don't belong; only points next to an X-point may be on either side. "
    "An equilibrium's axis, boundary flux (first X-point; edge flux for a fixed boundary without X-points; none otherwise), core and normalised flux are those of its present total flux.",
    ["inputs", "configurations"], "all flux maps with an axis, of either sign, boundary values, grids, plasma and coil currents",
    "tests only look at one or two simple masks",
    ["freegs/critical.py", "freegs/equilibrium.py"],
    [("core_mask", "freegs/critical.py"), ("_updateBoundaryPsi, psiN, psiNRZ, magneticAxis", "freegs/equilibrium.py")],
    "mask, psi_axis, psi_bndry, psiN",
    "property-based testing against connected components from scipy.ndimage",
    "grids of 17-65 points",
)
prop(
    "C12", "Profiles give current meeting their pressure, beta and current targets",
    "The toroidal current density of every profile class is R p' + ff'/(mu0 R) of its own profile functions in the core, "
    "and zero outside it, the core being bounded by the X-point flux or the boundary flux given. "
    "The constrained classes integrate to exactly the plasma current asked for and have the pressure on axis, or the poloidal beta over the core, that was asked for, "
    "for any sign of flux and current and any profile shape; the solved equilibrium reports that current and those profiles.",
    ["inputs", "configurations"], "all diverted flux maps, targets, shape exponents, radii, signs and boundary values",
    "tests never evaluate the integrals the constraints are about",
    ["freegs/jtor.py", "freegs/equilibrium.py"],
    [("ConstrainPaxisIp.Jtor, ConstrainBetapIp.Jtor, ProfilesPprimeFfprime.Jtor", "freegs/jtor.py")],
    "current density and profile functions; eq.plasmaCurrent() after solve",
    "property-based testing of integral invariants",
    "generated plasmas between six coils on 17 and 33 point grids",
)
prop(
    "C13", "Pressure, f and toroidal field are integrals of the profiles",
    "For every profile class the pressure is the integral of p' from the plasma edge and f^2 is the vacuum value squared plus twice the integral of ff', with f having the sign of "
    "the vacuum field, for scalars and arrays alike; both have their vacuum values outside; user-supplied functions are used as given. "
    "R times the toroidal field is f in the core and the vacuum value outside, and the total field is made of its components.",
    ["inputs"], "all profiles, signs, normalised flux values and positions away from the edge of the core",
    "tests check one or two values of pressure",
    ["freegs/jtor.py", "freegs/equilibrium.py"],
    [("Profile.pressure, Profile.fpol", "freegs/jtor.py"), ("Btor, Btot, Bpol, fpol, pressure", "freegs/equilibrium.py")],
    "return values",
    "property-based testing against Gauss-Legendre and exact integrals",
    "the field within a few cells of the edge of the core is checked to a tolerance which allows for the interpolated mask",
)

prop(
    "C14", "A solve which returns has solved the nonlinear problem",
    "When the solver returns, the last change in flux (and in boundary flux) was below the tolerance, the plasma flux satisfies the discretised Grad-Shafranov "
    "equation with the recorded current density and the free or fixed boundary condition, the total plasma current and the profile constraint have the requested values, the current "
    "density is that of the profiles in the final flux, and the coil currents are those the control system asks for; the recorded history of convergence is what happened, "
    "including blending. A chosen boundary flux is respected, and without a control system coil currents don't change. If the iteration limit is reached first an error is raised. "
    "Reversing currents and fields, scaling them, or turning everything upside down does the same to the solution.",
    ["inputs", "histories"], "all converging free- and fixed-boundary problems, tolerances, blending factors, iteration limits, directions of current",
    "tests solve one or two problems and check little about the result",
    ["freegs/picard.py", "freegs/equilibrium.py", "freegs/boundary.py", "freegs/jtor.py"],
    [("solve", "freegs/picard.py: solve"), ("Equilibrium.solve", "freegs/equilibrium.py")],
    "the equilibrium after solve, calls of the control system, returned convergence information",
    "property-based testing against residuals recomputed outside, recorded iteration histories and metamorphic relations",
    "test tokamak geometry with 17-65 point grids; solutions are compared within a multiple of the solver tolerance",
)


prop(
    "C15", "A plasma checked for limiters ends at the wall or X-point nearest to its axis",
    "With limiter checking switched on, the boundary flux is that of the primary X-point or of the point of the wall (below and above the midplane up to 0.75 of the X-point's height, if there is one) "
    "whose flux is closest to the axis, whichever is closer to the axis; the equilibrium says correctly whether it is limited, and names a contact point on the wall with that flux. "
    "The core and the plasma current end at that boundary, also without X-points. All of the wall counts, including its closing side, after it was replaced, for either direction of current and any grid shape. "
    "Without checking, the wall has no effect. A solve told to wait for a limited plasma returns a limited plasma.",
    ["inputs", "histories"], "all walls inside the domain, fluxes with and without X-points, directions of current, grids",
    "tests contain one case, with the wall away from the plasma",
    ["freegs/equilibrium.py", "freegs/machine.py", "freegs/picard.py", "freegs/jtor.py"],
    [("_updateBoundaryPsi", "freegs/equilibrium.py"), ("generate_limit_points", "freegs/machine.py"), ("solve: check_limited, wait_for_limited", "freegs/picard.py")],
    "psi_bndry, psi_limit, is_limited, Rlim, Zlim, mask of the equilibrium, current density",
    "property-based testing against the flux function sampled finely along the wall",
    "contact is located to the spacing of the limiter points; points at the limit of 0.75 X-point heights may count or not",
)


prop(
    "C16", "Plasma boundary and shape measures describe the flux surface",
    "Points returned for a flux surface or the separatrix lie on that surface of the total flux, where it is first crossed going out from the magnetic axis, one for each of the requested number of equally spaced "
    "poloidal angles, for diverted and limited plasmas. Major and minor radius, aspect ratio, elongations, triangularities, Shafranov shift, volume and effective elongation are those of that boundary, to its resolution, and "
    "consistent with each other; the inner and outer radius at a height are on the boundary; the plasma is said to touch the wall when the boundary crosses it.",
    ["inputs"], "all equilibria with the plasma inside the domain, numbers of points, heights, walls",
    "tests check one equilibrium for a few values",
    ["freegs/critical.py", "freegs/equilibrium.py", "freegs/polygons.py"],
    [("find_separatrix, find_psisurface", "freegs/critical.py"), ("separatrix, geometricAxis ... shafranovShift, innerOuterSeparatrix, intersectsWall, plasmaVolume", "freegs/equilibrium.py")],
    "return values",
    "property-based testing against root finding on the flux along rays from the axis",
    "measures agree within the distance between boundary points; the boundary within two cells of X-points isn't compared",
)


prop(
    "C17", "Safety factor is the field-line integral around flux surfaces",
    "The safety factor at any normalised flux is 1/(2 pi) times the integral of f/(R^2 Bpol) around that flux surface, normalised flux being 1 at the boundary of the plasma (diverted or limited); it has the sign of the "
    "toroidal field, is the same for scalars, lists and arrays and whichever of flux, axis and X-points find_safety is given, is found on as many equally spaced surfaces as asked for, and continues smoothly to axis and edge. The toroidal flux is -1/(2 pi) times the integral of q over poloidal flux from the axis, and its normalised square root "
    "goes from 0 at the axis to 1 at the edge for either direction of current and field.",
    ["inputs"], "all equilibria with the plasma inside the domain, profiles, directions of current and field, values of normalised flux",
    "tests check one value of q to low accuracy",
    ["freegs/critical.py", "freegs/equilibrium.py"],
    [("find_safety", "freegs/critical.py"), ("q, tor_flux, rhotor", "freegs/equilibrium.py")],
    "return values",
    "property-based testing against an integral in polar angle evaluated by root finding",
    "agreement to 0.6 % inside 0.9 of the flux, 2 % outside, 3 % at the axis",
)


prop(
    "C18", "Global plasma quantities are the integrals they are defined as",
    "Volume, thermal energy, average pressure, the poloidal, toroidal, total and normalised betas, the internal inductances and the cylindrical safety factor equal the integrals over the plasma core (pressure, poloidal and toroidal field "
    "energy) and the combinations of shape and current by which they are defined; the poloidal beta or axis pressure asked for in the profile is what comes out. Reversing plasma current or toroidal field changes only "
    "the sign of normalised beta and cylindrical safety factor, and scaling all fields leaves dimensionless quantities alone.",
    ["inputs"], "all diverted and limited equilibria, profiles, directions of current and field",
    "tests assert that a few of these quantities are positive",
    ["freegs/equilibrium.py"],
    [("plasmaVolume ... qcyl", "freegs/equilibrium.py: from internalInductance1 to qcyl")],
    "return values",
    "property-based testing against recomputed integrals and metamorphic relations",
    "same quadrature rule as the code because of the sharp edge of the core; tolerances 1e-9 (field, volume) and 3e-3 (pressure)",
)



prop(
    "C19", "An equilibrium saved to HDF5 comes back the same",
    "Writing an equilibrium with OutputFile and reading it back, in memory or on disk, gives the same grid, plasma flux, total flux, plasma current, boundary condition, order of accuracy and wall, and "
    "for every label a coil of the same type with the same geometry, turns, current, control switch and field everywhere, including circuits with their multipliers; doing it again changes nothing, machines compare equal, "
    "calculations carried on from what was read give the same results, and what the format can't hold is refused rather than altered.",
    ["inputs"], "all machines, coil types, labels, grids, fluxes and boundary conditions",
    "the test writes two machines and compares the total flux",
    ["freegs/dump.py", "freegs/machine.py", "freegs/coil.py", "freegs/shaped_coil.py", "freegs/filament_coil.py", "freegs/multi_coil.py"],
    [("write_equilibrium, read_equilibrium", "freegs/dump.py: OutputFile"), ("to_numpy_array, from_numpy_array", "coil classes")],
    "the equilibrium read",
    "property-based round-trip testing over generated machines and equilibria",
    "sensors, coil areas, current limits, profiles, R0 and order of coils aren't stored by design",
)


prop(
    "C20", "GEQDSK and DivGeo files describe the equilibrium they were written from",
    "The domain, grid, flux (relative to the axis, with R and Z the right way round), magnetic axis, boundary flux, vacuum field at the reference radius, plasma current, f, pressure, ff', p' and q on a uniform grid from "
    "axis to boundary, a closed plasma boundary lying on the boundary flux, and the wall in a GEQDSK file are those of the equilibrium, and p' and ff' are consistent with p and f; DivGeo files written from an equilibrium, or from a GEQDSK file, "
    "hold its grid, field and flux relative to the boundary. Writing leaves the equilibrium alone.",
    ["inputs"], "all diverted and limited equilibria, profiles, grids, reference radii and walls",
    "no tests",
    ["freegs/geqdsk.py", "freegs/_divgeo.py", "freegs/divgeo.py"],
    [("write", "freegs/geqdsk.py: write"), ("write", "freegs/_divgeo.py: write")],
    "text of the files",
    "property-based testing with an independent parser of the files",
    "nine digits",
)


prop(
    "C21", "Reading a GEQDSK file reproduces the equilibrium written to it",
    "An equilibrium read with geqdsk.read has the plasma current, pressure, f and their derivatives, vacuum field, reference radius, wall, magnetic axis, core flux and coil currents of the one written, whatever currents the machine had before, with "
    "coils kept fixed, onto another domain (never with coarser resolution), with the scrape-off layer fitted, within current bounds, with flux in Weber or with a constant added, and from grids which aren't 2^n+1 points; the control system returned keeps it as it is.",
    ["inputs"], "all converged equilibria and options of read",
    "no tests",
    ["freegs/geqdsk.py", "freegs/control.py", "freegs/picard.py"],
    [("read", "freegs/geqdsk.py: read")],
    "the equilibrium read",
    "property-based round-trip testing and metamorphic variation of the file",
    "agreement limited by the re-solve: 2 % of the flux range in the core, currents 1.5-2.5 % (plasma) and 5 % of the largest (coils)",
)


prop(
    "C22", "Sensors measure the flux, field and enclosed current that are there",
    "A flux loop measures the total poloidal flux at its position, a field probe the component of the poloidal field along its angle, and a Rogowski loop the whole toroidal current (turns, multipliers, parts of shaped coils, plasma) inside its outline, with or "
    "without a plasma; a sensor which is off measures nothing, measuring changes no coil, and every sensor can be printed.",
    ["inputs", "configurations"], "all machines, coil types, plasmas, sensor positions, angles and outlines",
    "the tests sample one loop and one sensor of each kind",
    ["freegs/machine.py", "freegs/coil.py", "freegs/shaped_coil.py", "freegs/filament_coil.py", "freegs/multi_coil.py"],
    [("Sensors", "freegs/machine.py: Sensor, PoloidalFieldSensor, RogowskiSensor, FluxLoopSensor"), ("inShape", "freegs/coil.py, shaped_coil.py, multi_coil.py: inShape")],
    "measurement of the sensors, output of printMeasurements",
    "property-based testing against sums of filaments, an analytic plasma and exact polygon clipping",
    "random machines, sensors at least 15 cm from conductors; plasma part to interpolation accuracy",
)


prop(
    "C23", "Forces on coils are those of all other currents plus the hoop force",
    "For every coil, alone or in a circuit, the force is the total current times the field of all other coils, of the other coils in its circuit and of the plasma, plus the hoop force of its own current and area; forces of point coils on each other sum to zero vertically, "
    "scale with the square of the currents, mirror and shift with the machine, don't depend on how coils are wired together, and calculating or printing them changes nothing.",
    ["inputs", "configurations"], "all machines of point and shaped coils, circuits and solenoids, with and without plasma",
    "the tests have two and three coils without plasma, circuits or turns",
    ["freegs/coil.py", "freegs/machine.py", "freegs/equilibrium.py"],
    [("getForces", "freegs/coil.py: Coil.getForces; freegs/machine.py: Circuit.getForces, Machine.getForces"), ("printForces", "freegs/equilibrium.py: printForces")],
    "dictionary returned by getForces, output of printForces",
    "property-based testing against a reference force from filaments; metamorphic relations",
    "random machines; coils at least 15 cm apart",
)
prop(
    "C26", "Optimiser finds designs which are no worse; measures are what they say",
    "The optimiser keeps a full population, never returns anything worse than what it started with or the best of its population, uses every agent and control, stays within the limits, leaves the starting object alone and can be repeated from the same random state; "
    "measures (largest current, largest force, wall crossings) are those of the machine, and a design returned for a machine is in equilibrium and at least as good as the first.",
    ["inputs", "configurations", "histories"], "all populations, controls, limits and measures within bounds, every random state",
    "the tests have a single quadratic measure and no machine",
    ["freegs/optimiser.py", "freegs/optimise.py"],
    [("optimise", "freegs/optimiser.py: optimise, mutate, pickUnique, bestAgent"), ("machine", "freegs/optimise.py: optimise, CoilRadius, CoilHeight, max_abs_coil_current, max_coil_force, no_wall_intersection")],
    "return values of optimise and of measures, monitor calls",
    "property-based testing: invariants over the history of generations; differential against reference measures",
    "small populations and few generations; designs of one or two coils",
)

prop(
    "C28", "Field lines follow the field and stop at the wall",
    "Lines traced from any points, alone or in arrays of any shape, stay on their flux surface, agree with an independent integration of the field, have the length of their curve, can be traced back to their start, don't depend on their neighbours or on the intermediate angles, "
    "and end where they first meet the wall, for which points inside any simple polygon are inside.",
    ["inputs", "configurations"], "all starting points, angles, directions, equilibria and walls within bounds",
    "there are no tests of tracing",
    ["freegs/fieldtracer.py"],
    [("FieldTracer", "freegs/fieldtracer.py: FieldTracer"), ("LineCoordinates", "freegs/fieldtracer.py: LineCoordinates"), ("traceFieldLines", "freegs/fieldtracer.py: traceFieldLines")],
    "R, Z and length of the coordinates returned by follow and traceFieldLines",
    "property-based testing: differential against scipy solve_ivp on the analytic field; conserved flux; metamorphic relations",
    "smooth equilibria of known flux, 0.1-8 turns",
)

prop(
    "C29", "Changing the grid or domain keeps the equilibrium",
    "refine, coarsen and newDomain return an equilibrium on the requested grid with the same flux (exactly at shared points when coarsening, to interpolation accuracy otherwise), machine, current, boundary condition and checks; the original isn't modified, "
    "and solving in the new grid or domain gives the same plasma.",
    ["inputs", "configurations"], "all grids, domains and boundary conditions within bounds",
    "there are no tests of these functions",
    ["freegs/equilibrium.py"],
    [("refine", "freegs/equilibrium.py: refine, coarsen, newDomain"), ("profiles", "freegs/jtor.py: Profile")],
    "equilibria which are returned",
    "property-based testing: invariants and round trips; differential against the equilibrium in the original domain",
    "grids of 9-33 points; converged domains to 3 %",
)

prop(
    "C30", "A coil which was moved is a coil built there",
    "After any sequence of setting or shifting R, Z, current, turns and control, copying or storing and loading, everything about a coil (position, outline, filaments, field, flux, inductance, force) is that of a coil built in the final place, "
    "other coils aren't affected, and what it was made from isn't modified.",
    ["histories", "inputs"], "sequences of up to 8 operations on every movable type of coil",
    "the tests move none of the coils",
    ["freegs/coil.py", "freegs/shaped_coil.py", "freegs/filament_coil.py", "freegs/multi_coil.py"],
    [("setters", "freegs/coil.py, shaped_coil.py, filament_coil.py, multi_coil.py: R, Z")],
    "attributes and fields of coils",
    "stateful property-based testing against a coil built at the final position",
    "up to 8 operations",
)

prop(
    "C31", "Asking an equilibrium doesn't change it, nor the answers to come",
    "Global quantities, shapes, fields, profiles, safety factor, forces, measurements, tracing, writing and plotting give the same answer in any order and any number of times, leave the equilibrium, its profiles, coils, sensors and wall as they were, "
    "and don't modify what is passed in.",
    ["histories", "inputs"], "sequences of up to 20 queries in any order on diverted and limited equilibria",
    "the tests ask each equilibrium once",
    ["freegs/equilibrium.py", "freegs/critical.py", "freegs/machine.py", "freegs/jtor.py", "freegs/geqdsk.py", "freegs/dump.py"],
    [("queries", "freegs/equilibrium.py: Equilibrium")],
    "answers and the state of all objects before and after",
    "stateful property-based testing: every answer against that of an untouched copy; state compared after the history",
    "sequences of 6-20 queries",
)
prop(
    "C27", "Answers are those of the present state, whatever happened before",
    "After any history of changes to coil and circuit currents, control switches, plasma flux, profiles, wall, limiter checking and sensors, with any queries in between, everything an equilibrium says about itself "
    "(global quantities, shapes, fields, profiles, safety factor, forces, measurements, tracing, files) is what an equilibrium newly built from the present currents, plasma flux, profiles and wall says.",
    ["histories", "inputs"], "histories of up to 10 steps, changes and queries in any order",
    "the tests look at equilibria once, as they were built",
    ["freegs/equilibrium.py", "freegs/machine.py", "freegs/jtor.py", "freegs/critical.py"],
    [("state", "freegs/equilibrium.py: Equilibrium, freegs/machine.py: Machine, Circuit, Solenoid")],
    "answers of the equilibrium and of a newly built one",
    "stateful property-based testing: differential against an equilibrium freshly built in the same state",
    "2-10 steps, 4-12 queries compared",
)

prop(
    "C32", "Predefined machines are what they are meant to be and work everywhere",
    "Each predefined machine (test tokamaks, DIII-D, MAST, TCV, MAST-U) has coils of different labels without current, is up-down symmetric in coils and sensors where the device is (mirrored currents give mirrored flux, field and measurements), "
    "with a closed wall, shares nothing with machines made before, and can be controlled to make X-points, adjusted, printed, plotted, asked for forces and limiter points, and stored and read, with flux the sum over its coils.",
    ["inputs"], "all predefined machines, any currents, any points",
    "the tests use two of the test tokamaks with one set of currents",
    ["freegs/machine.py"],
    [("TestTokamak ... MASTU", "freegs/machine.py")],
    "fields, currents and geometry of the machines",
    "property-based testing: mirror images, sums over coils, round trips",
    "nine machines",
)

prop(
    "C33", "Plots show the coils, constraints, flux and wall which are there, where they are",
    "Plotting coils, circuits and machines draws every point coil with its cross-section, outline, filament and turn (of both halves of a mirrored block) where it is; plotting constraints draws every X-point and isoflux pair; plotting an "
    "equilibrium draws flux surfaces, the boundary of the plasma at its flux, every O- and X-point, the closed wall and every sensor, and leaves out what was switched off. All of it goes on the axes which are given, or else on one new figure, "
    "is shown only if asked for, and changes nothing that was plotted.",
    ["inputs", "configurations"], "all coils, machines, constraints, equilibria, walls, sensors and options",
    "no test plots anything",
    ["freegs/plotting.py", "freegs/coil.py", "freegs/shaped_coil.py", "freegs/filament_coil.py", "freegs/multi_coil.py", "freegs/machine.py", "freegs/control.py", "freegs/equilibrium.py"],
    [("plotEquilibrium, plotConstraints", "freegs/plotting.py"), ("plot", "freegs/coil.py, shaped_coil.py, filament_coil.py, multi_coil.py, machine.py, control.py, equilibrium.py")],
    "artists on matplotlib axes",
    "property-based testing: artists against the objects plotted, contours against the flux interpolated at their vertices",
    "random machines of up to 4 coils, constraints, equilibria of known flux on grids up to 33x33; colours and labels not compared",
)



#END
def main():
    claimed = []
    lines = []
    for p in P:
        if not os.path.exists(os.path.join(HERE, "fgsverif", "props", p["pid"].lower() + ".py")):
            print("no module for", p["pid"])
            continue
        assert len(p["title"]) <= 80, p["title"]
        lines.append(json.dumps({
            "id": p["pid"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": [p["observe"]]},
        }))
        claimed.append({
            "property": p["pid"],
            "quick_cmd": "bash check.sh {} quick".format(p["pid"]),
            "thorough_cmd": "bash check.sh {} thorough".format(p["pid"]),
            "technique": p["technique"], "level": "exploration", "level_note": p["note"],
        })
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        f.write("\n".join(lines) + "\n")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump({
            "version": 1,
            "setup_cmd": "bash check.sh --selftest",
            "checks": claimed,
            "not_applicable": [],
            "notes": "See DESIGN.md. A check imports freegs from /repo's working tree (pure Python, nothing to compile).",
        }, f, indent=1)
        f.write("\n")
    print(len(claimed), "properties")


if __name__ == "__main__":
    main()
