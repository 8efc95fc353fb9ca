"""Writes /verif/properties.jsonl (the single place the property texts are kept)."""
import json, os

P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, observe=None, state=None):
    a = {"files": ["src/barotropic/" + f for f in files],
         "mechanism": [{"name": n, "where": w} for n, w in mechanism],
         "hook_needed": None}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Grid coordinates and cell areas describe the whole sphere",
 "For every resolution that divides 180 degrees (including values carrying floating-point or single-precision rounding), every planet radius and every rotation rate, a grid has exactly 360/resolution longitudes starting at 0 with 360 not repeated and 180/resolution+1 equally spaced latitudes running from +90 to -90. All coordinate views (degrees and radians, 1-D and 2-D, spacings, shape) agree with each other, and the Coriolis parameter, latitude-circle circumference and grid-cell areas equal their closed forms on the sphere, with cell areas summing to 4*pi*r^2. Parameters that are not given default to planet Earth (radius 6371.2 km, 7.292e-5 1/s) at 2.5 degrees resolution without further truncation, and the constants for time intervals and array axes have their documented meaning.",
 ["inputs", "configurations"], "all resolutions 180/n (n >= 2, float64 and float32 rounding), radii, rotation rates, legfunc modes and truncations; all query latitudes",
 "tests/test_grid.py checks only the area sum for five resolutions; coordinates, spacing, Coriolis and rounding of the grid size are never asserted.",
 ["grid.py", "constants.py"], [("Grid.__init__ coordinate setup", "grid.py"), ("Grid.gridpoint_area", "grid.py"), ("Grid.coriolis / Grid.circumference", "grid.py")],
 ["Grid attributes nlon,nlat,lon,lat,lam,phi,dlon,dlat,dlam,dphi,lon2,lat2,lam2,phi2,fcor,fcor2,shape,gridpoint_area"])

prop("C02", "Grid identity: equality and hashing are consistent",
 "Two grids compare equal exactly when they have the same shape, the same spectral truncation and, up to floating-point tolerance, the same planet radius and rotation rate; equality is symmetric and equal grids have equal hashes. Results never leak between different grids: any quantity obtained for one grid is unaffected by which other grids were created or used before it.",
 ["inputs", "configurations", "histories"], "pairs and sequences of grids that differ in one or more of resolution, radius, rotation rate, truncation and Legendre mode by anything from one rounding error to orders of magnitude",
 "Only one test builds two different grids (different resolution, refused by StateList); hashing and near-equality are never exercised although a forcing cache is keyed on them.",
 ["grid.py", "rhs.py", "state.py"], [("Grid.__eq__/__hash__", "grid.py"), ("lru_cache keyed on the grid", "rhs.py:Orography"), ("StateList grid check", "state.py")])

prop("C03", "Spectral transforms are exact, linear and truncate as configured",
 "Transforming a gridded field to spectral space and back reproduces, to single precision, every resolved field, i.e. made of spherical harmonics up to the grid's truncation (and of degree below nlat-1, the limit of the transforms on this kind of grid), and removes every harmonic above the truncation, so the round trip is a linear projection. Spectral coefficients belong to the documented triangular (degree, order) layout, and rotating a field in longitude by whole grid columns rotates its round trip by the same amount.",
 ["inputs", "configurations"], "all grids (even and odd latitude counts, both Legendre modes, explicit truncations) and all fields, band-limited or not",
 "The tests transform a handful of fixed low-order fields at 2.5 degrees and never set ntrunc or legfunc.",
 ["grid.py"], [("Grid.to_spectral / Grid.to_grid", "grid.py"), ("ntrunc handling", "grid.py:Grid.__init__")])

prop("C04", "Wind, vorticity, divergence and gradient are consistent vector calculus",
 "On every grid the wind computed from a vorticity/divergence pair has that vorticity and divergence, and wind, vorticity, divergence and gradient of any resolved spherical harmonic equal the analytic values for the grid's planet radius, returned as (zonal, meridional) components on a grid ordered north to south. The gridded and spectral variants, and the combined and individual methods, return the same fields, whether inputs are given gridded or as spectral coefficients.",
 ["inputs", "configurations"], "all grids, radii and truncations; all resolved vorticity, divergence, scalar and wind fields, in gridded or spectral form",
 "Tests only check wind indirectly through State round trips of four fixed fields; divergence, gradient, vorticity_divergence and mixed inputs are never called.",
 ["grid.py"], [("Grid.wind / vorticity* / divergence* / gradient", "grid.py")])

prop("C05", "Laplacian, Poisson and diffusion solvers satisfy their equations",
 "For every resolved field the Laplacian multiplies each degree-n harmonic by -n(n+1)/r^2, the Poisson(-like) solver returns f with (Laplacian - op_add) f = rhs in every mode (for op_add = 0 the solution with zero global mean, ignoring the mean of rhs), and the diffusion solver performs one implicit Euler step that divides each mode by 1 + dt*coeff*(n(n+1)/r^2)^order. The gridded and spectral variants agree, results stay finite, and diffusion never changes the global mean nor amplifies any mode for non-negative coefficients.",
 ["inputs", "configurations"], "all grids, radii, truncations, right-hand sides, op_add of either sign (away from resonances), coefficients, time steps and diffusion orders 1..6 (fields resolved as in C03)",
 "No test calls laplace, solve_poisson or solve_diffusion directly; only the streamfunction of a motionless state and a smoke run of the model touch them.",
 ["grid.py"], [("Grid.laplace*, solve_poisson*, solve_diffusion*", "grid.py"), ("precomputed Laplacian eigenvalues", "grid.py:Grid.__init__")])

prop("C06", "Meridional finite differences have their stated order everywhere",
 "The meridional derivative with respect to latitude in radians is linear in the field and exact for polynomials in latitude up to degree 2 (order 2) or 4 (order 4) at every interior latitude including the rows next to the poles, and at the poles for 2-D input; 1-D input yields zero at both poles. A 2-D field of identical columns, of any width, gives in every interior row the 1-D result, other orders are refused, and the input is left unchanged.",
 ["inputs", "configurations"], "all grids with enough latitudes, all 1-D profiles and 2-D fields of any width, both orders",
 "Two tests differentiate the latitude coordinate itself (degree-1 polynomial, 1-D only) on one grid, which cannot see wrong higher-order stencil weights or the 2-D pole formulas.",
 ["grid.py"], [("Grid.derivative_meridional stencils", "grid.py")])

prop("C07", "Surface and line integrals are exact for their documented quadrature",
 "For every field the box-counting integral equals the sum of values times cell areas over the cells with z >= 0, and the spherical trapezoidal integral equals the exact integral of the meridionally piecewise-linear field times cos(latitude) over the part of each meridian where the piecewise-linear z is non-negative. Integrals are linear in the field, additive over a domain and its complement, monotone in the domain, independent per longitude column, valid for sector fields narrower than the globe, and the surface integral is the sum of the line integrals times r*dlambda; malformed input or an unknown scheme is refused.",
 ["inputs", "configurations"], "all fields y and domain fields z (sign changes anywhere, zeros, empty and full domains, sectors), both schemes, all grids and radii",
 "The tests integrate only the constant 1 over the full globe; the custom domain z, the interpolation of its edge, and varying fields are never checked.",
 ["grid.py"], [("Grid.quad_meridional root-clipping and antiderivative", "grid.py"), ("Grid.quad", "grid.py")])

prop("C08", "Means are area-weighted correctly for globe and regions",
 "The mean of a field over the globe or over any non-empty region equals the average weighted by grid-cell area, the meridional mean is that average per longitude, and the zonal mean is the plain average along each latitude; passing the full field or the already extracted region field, asking the region itself, or giving any other object that extracts the region, gives the same number. Means of a constant are that constant, are linear, and lie within the range of the values averaged; invalid axis names and mismatched shapes are refused.",
 ["inputs", "configurations"], "all grids, fields, regions (also crossing the 0 degree meridian, single rows/columns, touching poles) and axis spellings",
 "Tests use piecewise-constant fields whose mean is insensitive to most weighting errors inside regions and never check a region that crosses 0 degrees or a pre-extracted field.",
 ["grid.py"], [("Grid.mean", "grid.py"), ("GridRegion.mean / gridpoint_area", "grid.py")])

prop("C09", "Region selection picks exactly the requested coordinates, in order",
 "A region selected by coordinates contains exactly the grid longitudes and latitudes inside the requested inclusive ranges (latitude bounds in either order, 'N'/'S' hemispheres, open ends, single on-grid values, eastward across 0 degrees when the first longitude exceeds the second), listed north to south and contiguously west to east with monotonic lon_mono. Extraction of zonal, meridional and 2-D fields, the mask, the shape and the cell areas all describe that same selection and leave the source fields unchanged; off-grid single values, steps, wrong types and fields of wrong shape are refused.",
 ["inputs", "configurations"], "all grids and all selections (numbers, slices with any mix of bounds, keywords, non-tuples, empty selections), all extractable fields",
 "Tests cover about eight fixed selections on a 10 degree grid; open-ended, reversed, boundary-equal, wrap-around and invalid selections are combinatorial.",
 ["grid.py", "formatting.py"], [("GridRegionIndexer._get_lat_indices/_get_lon_indices", "grid.py"), ("GridRegion.extract, mask, lon_mono", "grid.py")])

prop("C10", "Window filters are normalized, centred convolutions",
 "A window requested by width in degrees has an odd number of points (the rounded width, or one more if that is even), is symmetric and sums to one, and filtering equals direct convolution with the window, periodic in longitude and mirror-symmetric at the poles in latitude, for 1-D and 2-D fields and for windows given by name or as arrays. Filtering is linear, keeps constants, keeps zonal means (zonal filter), commutes with longitude rotation, keeps the field within its range for non-negative windows, and refuses fields of the wrong size.",
 ["inputs", "configurations"], "all grids, fields, window shapes and widths including windows as wide as or wider than the domain",
 "Tests only check output shapes and window lengths, never a filtered value.",
 ["grid.py"], [("Grid.get_filter_window, filter_zonal, filter_meridional", "grid.py")])

prop("C11", "Zonalization rearranges a field by equivalent latitude, preserving area",
 "For every field and contour level strictly inside its range, the equivalent latitude returned for the level encloses, north of it, the same area as the region where the field reaches the level (scaled to the globe for sector input), so contour values decrease monotonically from north to south; equivalent latitude itself inverts the polar-cap area formula for scalars and arrays. The interpolated profile runs from the field's maximum at the North Pole to its minimum at the South Pole without leaving that range, does not depend on the order of longitude columns, commutes with positive scaling and offsets, and reproduces fields that already depend monotonically on latitude only; with automatically chosen levels, which span the whole range of the field, it is accurate to the spacing of grid and contours. Interpolation of any profile or field from other latitudes onto the grid honours the given pole values and kind of interpolation.",
 ["inputs", "configurations"], "all non-constant fields, default / integer / explicit contour levels within the field's range, both quadratures, sectors, all grids and radii; all cap areas",
 "StateList tests only check the shape of pv_zonalized; no value of zonalize, equivalent_latitude or interpolate_meridional is ever tested.",
 ["grid.py", "state.py"], [("Grid.zonalize, equivalent_latitude, interp1d_meridional", "grid.py"), ("State.pv_zonalized", "state.py")])

prop("C12", "Finite-amplitude wave activity is non-negative and measures waviness",
 "Local wave activity (FALWA) equals the line integral of the PV anomaly over the area displaced across the equivalent latitude divided by the cosine of that latitude, so it is never negative beyond rounding, vanishes (to discretization accuracy) for flows that depend monotonically on latitude only, is unchanged by adding a constant to PV, scales with PV, and rotates with the flow in longitude. FAWA is its zonal mean, and the state shortcuts, array-plus-grid calls, interpolated and uninterpolated forms agree for both quadratures and all level choices.",
 ["inputs", "configurations"], "all PV fields, quadratures, contour levels inside the PV range, grids and radii",
 "Tests check only the array shape of falwa/fawa.",
 ["diagnostics.py", "grid.py", "state.py"], [("diagnostics.falwa / fawa", "diagnostics.py"), ("State.falwa / fawa", "state.py")])

prop("C13", "All ways to build and read a state agree on one flow",
 "A state built from PV, relative vorticity, wind or spectral coefficients of the same resolved non-divergent flow exposes the same PV, vorticity, wind, streamfunction and spectral fields, and rebuilding it from any of these reproduces it. Derived fields obey their definitions for every state: absolute = relative + planetary vorticity (with aliases), wind is the non-divergent wind of the vorticity and of the streamfunction, enstrophy, eddy enstrophy and kinetic energy are the stated quadratic forms, and the PV flux is the divergence of PV times wind.",
 ["inputs", "configurations"], "all grids, planets and resolved flows; all constructors and accessors, numeric and datetime valid times",
 "Four fixed flows on the default grid are converted in the tests; quadratic fields, flux, streamfunction values and non-Earth or truncated grids are not.",
 ["state.py", "grid.py"], [("State constructors and _invert_pv", "state.py"), ("State derived properties", "state.py")])

prop("C14", "Adding winds or vorticity to a state superposes the flows",
 "Adding the wind or the vorticity of another state, or directly given wind components or a vorticity field, yields a new state whose relative vorticity and wind are the sums of the two (planetary vorticity counted once), at the original grid and valid time. Both additions agree with each other, are commutative for states, have the motionless state and zero fields as neutral elements, and leave both operands unchanged; operands on a different grid or of the wrong shape are refused.",
 ["inputs"], "all pairs of states on a grid and all (u,v) tuples and vorticity arrays of the grid's shape",
 "add_wind and add_vorticity are not called by any test.",
 ["state.py"], [("State.add_wind / add_vorticity", "state.py")])

prop("C15", "Results never depend on access order, and inputs are never modified",
 "Reading any fields or diagnostics of a state, in any order and any number of times, using it in integrations, lists, exports, arithmetic or plots, gives the same values as reading each from a fresh state with the same flow, and repeating a call gives the same result. No operation of the package modifies the arrays, states, grids, lists, models or datasets passed to it.",
 ["histories", "inputs"], "all sequences of accessor, diagnostic, arithmetic, integration and export calls on shared states, grids and models",
 "Tests read a few properties once from fresh objects; lazily cached fields and in-place arithmetic only go wrong after particular sequences of calls.",
 ["state.py", "grid.py", "diagnostics.py", "model.py", "rhs.py", "io.py"], [("lazy memoized fields and _cached_property", "state.py"), ("copies before in-place arithmetic", "diagnostics.py, grid.py"), ("Orography gradient cache", "rhs.py")],
 state=[("cached fields", "memoized pv, wind, streamfunction, zonalized PV, FALWA", "state.py:State")])

prop("C16", "One model step is the documented discretization of the PV equation",
 "An Euler step and a filtered leapfrog step (2*dt from the old state with the tendency at the current state, then Robert-Asselin filtering of the current state with the given strength) produce exactly the documented update of dq/dt = -div(u q) + RHS followed by implicit diffusion over the step length of the configured order and strength, applied to the deviation from the diffusion background if one is set. Valid times advance by dt for seconds and timedeltas alike, and no operand is changed.",
 ["inputs", "configurations"], "all states, time steps (numbers and timedeltas), forcings including none, diffusion orders/coefficients/backgrounds and filter strengths",
 "The README test only runs the model and checks its times; no PV value after a step is ever compared with anything.",
 ["model.py", "state.py", "grid.py"], [("BarotropicModel.euler / leapfrog / _apply_diffusion / _pv_tendency_spectral", "model.py"), ("State.pv_flux_spectral", "state.py")])

prop("C17", "A model run stops, saves and timestamps exactly as requested",
 "Running from any start time integrates one Euler and then leapfrog steps of size dt and returns the first filtered state whose time is not before tend, or the initial state itself if tend is not later than its time, together with a state list that starts with the initial state. With save_every > 0 the list additionally contains the first state at or after each elapsed multiple of that interval since the start of the run (at most one per step, in time order), with save_every = 0 only the initial state; shifting start and end times, using datetimes instead of seconds, running through the state or a state list, or re-running the same model all give the same fields.",
 ["inputs", "configurations", "histories"], "all start times, step sizes, end times, save intervals (also not multiples of dt or shorter than dt), numeric and datetime clocks, run entry points, and repeated runs",
 "The only run in the tests starts at time 0 with exact multiples.",
 ["model.py", "state.py"], [("BarotropicModel.run loop and save schedule", "model.py"), ("State.run / StateList.run", "state.py")])

prop("C18", "Integrations respect the invariants of the barotropic vorticity equation",
 "Without forcing, integrations keep the global mean PV, keep zonally symmetric flow zonally symmetric (and steady apart from diffusion), conserve energy and enstrophy to time-stepping accuracy without diffusion, never gain enstrophy from diffusion alone, and propagate Rossby-Haurwitz waves at their analytic angular velocity. Rotating the initial state in longitude rotates the solution, and reflecting it across the equator (with the sign change of PV) reflects the solution.",
 ["inputs", "configurations"], "all resolved initial flows, rotation rates, radii, resolutions, moderate time steps and run lengths",
 "No test inspects a field produced by integration.",
 ["model.py", "state.py", "grid.py"], [("flux-form tendency and spectral inversion", "model.py, state.py"), ("time stepping", "model.py")])

prop("C19", "Orographic forcing is -f/H u.grad(h) for any orography, wind and grid",
 "For every grid and state the forcing equals minus Coriolis parameter (or the constant reference) over scale height times the chosen wind (actual, zonal-mean or solid-body, scaled) dotted with the gradient of the height field on that grid. Gridded orography is interpolated linearly to the grid at its coordinates; Gaussian and sinusoidal mountains have their documented height, position, width and wavenumber at every longitude, the shape not depending on where the 0 degree meridian lies; reuse of one forcing on several grids in any order gives the same values as a fresh one.",
 ["inputs", "configurations", "histories"], "all orographies, wind options, reference Coriolis values, scale heights, mountain positions (also next to 0/360 degrees) and sequences of grids and states",
 "The README test evaluates one mountain on one grid with the default wind and checks no forcing value.",
 ["rhs.py", "grid.py"], [("Orography.__call__, orography, _orography_gradient cache", "rhs.py"), ("GaussianMountain / ZonalSineMountains", "rhs.py")])

prop("C20", "Forcing terms combine by pointwise algebra",
 "Sums and products of forcing terms, in any nesting and with plain callables on either side, evaluate to the pointwise sum or product of their parts for every state. Relaxation equals rate times (reference minus PV), and a timed switch equals 1 up to and including its switch-off time and 0 after it, for numeric and datetime clocks; a run forced by a switched term equals the forced run before and the unforced continuation after the switch.",
 ["inputs", "programs"], "all expression trees over forcing terms and callables, all states, rates, reference fields and switch times",
 "No test combines forcing terms or uses relaxation or a switch.",
 ["rhs.py", "model.py"], [("RHS operators, _RHSSum/_RHSProduct", "rhs.py"), ("TimedOffSwitch, LinearRelaxation", "rhs.py")])

prop("C21", "Wave diagnostics identify zonal wavenumbers and packet envelopes",
 "The Fourier dominant wavenumber is, at each latitude, the zonal wavenumber within the requested inclusive range that carries the largest power (then smoothed as requested), and the wavelet version reports at each point the wavenumber of the strongest wavelet response, matching the wavenumber of monochromatic waves. The Hilbert envelope is the modulus of the analytic signal of the field restricted to the inclusive wavenumber range: it equals the amplitude of a single in-range wave, ignores out-of-range waves, scales with the field, rotates with it, and has the input's shape for any number of longitudes.",
 ["inputs", "configurations"], "all fields, wavenumber ranges, smoothing choices, grids, even and odd longitude counts",
 "Only the shape of v_envelope_hilbert is tested; the dominant-wavenumber functions are not called.",
 ["diagnostics.py", "state.py"], [("dominant_wavenumber_fourier / dominant_wavenumber_wavelet / envelope_hilbert / _restrict_fourier_zonal", "diagnostics.py")])

prop("C22", "Wavenumber-based filtering is a local Hann average of the right width",
 "Each filtered value is the normalized Hann-weighted average along its latitude, periodic in longitude, with half width (full width at half maximum) equal to the wavelength of the wavenumber prescribed at that point, wavenumbers being limited to between 1 and half the number of longitudes. A wavenumber profile acts like the field that repeats it along longitude; filtering is linear, keeps constants and the range of values, rotates with its inputs, and the state's filtered FALWA is this filter applied to FALWA with twice the dominant wavenumber of the meridional wind.",
 ["inputs", "configurations"], "all fields, all 1-D and 2-D wavenumber fields (fractional, integer, below 1, above nlon/2), all grids",
 "filter_by_wavenumber and falwa_filtered are not called by any test.",
 ["diagnostics.py", "state.py"], [("filter_by_wavenumber", "diagnostics.py"), ("State.falwa_filtered", "state.py")])

prop("C23", "Stationary wavenumber follows its Mercator definition in all variants",
 "For every zonal wind profile, field or state, Ks^2 equals r*cos^2(latitude)*d(zonal-mean PV)/d(latitude) divided by the zonal-mean wind, with PV derived from the wind when only wind is given, and becomes infinite with the sign of the PV gradient (zero where that vanishes) where the wind magnitude is within the threshold. The squared, complex and real variants are related by Ks = sqrt(Ks^2) and Re - Im, no value is NaN, 2-D input acts through its zonal mean, and unknown variants are refused.",
 ["inputs", "configurations"], "all wind profiles/fields and states incl. zero, easterly and sign-changing winds, thresholds, derivative orders, grids and planets",
 "Only the shape of State.stationary_wavenumber is tested.",
 ["diagnostics.py", "state.py"], [("stationary_wavenumber", "diagnostics.py")])

prop("C24", "Extracted waveguides are exactly the latitudes with Ks above k",
 "For every Ks profile and wavenumber, the extracted waveguides are ordered from north to south, do not overlap, contain every grid latitude with Ks > k and no grid latitude with Ks < k, and together form the set where the linearly interpolated profile reaches k (infinite values making the crossing coincide with the neighbouring latitude). Every boundary is a finite latitude in degrees: a pole or an interpolated crossing.",
 ["inputs"], "all Ks profiles (real, imaginary and infinite values of either sign), all wavenumbers, grids, states",
 "extract_ks_waveguides is not called by any test.",
 ["diagnostics.py", "state.py"], [("extract_ks_waveguides scan", "diagnostics.py")])

prop("C25", "Dataset export carries every requested field, coordinate and time",
 "Exporting one state, an iterable of states or a state list yields a dataset whose variables equal the requested fields of each state in order (names, lists, renaming mappings and callables), with dimensions matching the kind of field (2-D, meridional profile, zonal profile, scalar), grid latitudes and longitudes as coordinates (marked as degrees_north and degrees_east), and the states' times. A custom concatenation dimension is labelled with the states' attribute of that name or a running index, seconds are marked as such, an empty export is empty, and fields of other dimensionality are refused.",
 ["inputs", "configurations"], "all non-empty and empty collections of states, field specifications, concatenation dimensions, numeric and datetime times, grids",
 "The tests check dimensions and coordinate presence only, mostly for motionless states, so no exported value or order is verified.",
 ["io.py", "state.py"], [("io.as_dataset", "io.py"), ("StateList.as_dataset", "state.py")])

prop("C26", "Dataset import reproduces the flow, order, grid and times it was given",
 "Importing any well-formed global dataset gives one state per combination of the non-horizontal dimensions, in row-major order, built from wind, else relative vorticity, else absolute vorticity (recognized or overridden names), with values placed at their coordinates, the grid matching the coordinates plus given grid options, and times taken from the time coordinate as plain numbers or datetimes, or the fill value. In particular importing what was exported from states returns states with the same flow and times, also for datasets with single-precision coordinates, longitudes starting at -180, repeated times or dimensions without coordinate labels.",
 ["inputs", "configurations"], "all variable/coordinate name choices, extra dimensions and orders, times, grids, dtypes, DataArray or Dataset input, grid options",
 "All imported fields in the tests are zero (or planetary vorticity), so value placement, ordering, u/v pairing, time values beyond three datetimes and coordinate rounding are not observed.",
 ["io.py", "grid.py"], [("io.from_dataset detection, flattening, selection", "io.py"), ("_VAR_NAMES priority", "io.py")])

prop("C27", "Malformed datasets are refused instead of imported wrongly",
 "A dataset is imported only if it holds a complete regular global grid from pole to pole and around the globe: irregular or incomplete latitude or longitude spacing, reversed or offset coordinates, mismatched horizontal resolutions, latitude/longitude not being the last two dimensions, differing dimensions of the wind components, and missing coordinates or variables are all refused with an error, never returning states. Damage to a coordinate of any position and size beyond rounding is detected.",
 ["inputs"], "all single and combined corruptions of well-formed datasets (dropped, shifted, reversed, perturbed, transposed, renamed parts)",
 "The tests try ten fixed corruptions on one 10 degree dataset.",
 ["io.py"], [("coordinate verification in io.from_dataset", "io.py")])

prop("C28", "A state list behaves as an immutable sequence that maps over its states",
 "A state list preserves the given states and their order under indexing, iteration, length, membership, concatenation, copying and serialization, and accepts only states that share the same grid. Any state attribute, property or method used on the list, and any mapped function with its arguments, yields the per-state results in order, stacked into an array for arrays and numbers, wrapped in a state list for states, and left as a list otherwise; running a model on the list equals running it on each state.",
 ["inputs", "histories"], "all lists of states incl. empty and single, all accessors and methods with arguments, all mapped functions, concatenations",
 "Tests check result shapes for five solid-body states, but no element order, value, argument passing, concatenation or run.",
 ["state.py"], [("StateList.__getattr__, map, _convert_sequence, __add__, run", "state.py")])

prop("C29", "Initial-condition presets realize their documented wind or PV profiles",
 "Each preset returns a state at the given valid time on the given grid whose zonal wind is, to the accuracy of the grid's resolution, the documented profile for all parameter values (solid-body cosine, Gaussian jet reduced linearly to zero at both poles, Held 1985 profile, or the user's profile), with no meridional wind and no zonal variation; the motionless preset has planetary vorticity only, and PV profiles are reproduced as PV. Contradictory or wrongly sized profiles are refused.",
 ["inputs", "configurations"], "all grids, amplitudes, centres, widths, coefficients, user profiles and times",
 "Presets are only used as convenient inputs in the tests; no profile value is checked.",
 ["init.py", "state.py"], [("init.* presets", "init.py")])

prop("C30", "Conversion to and from falwa barotropic fields preserves the flow",
 "Converting a state to a falwa barotropic field gives the same PV on the same coordinates with latitude reversed to run south to north, passing constructor options through, and converting back, with the original grid or with one inferred from the field, returns a state with the same PV on a grid of the same shape at the given time. Fields that do not fit the given grid are refused.",
 ["inputs", "configurations"], "all grids (any resolution 180/n) and PV fields, given or inferred grids",
 "as_hn2016 and from_hn2016 are not called by any test.",
 ["state.py"], [("State.as_hn2016 / from_hn2016", "state.py")])

prop("C31", "Plot helpers keep data and coordinates aligned",
 "After centring a map on any longitude every column is labelled with the longitude it came from and the column nearest the requested centre is in the middle; Hovmoeller data keep every profile at its state's time, oriented by the profile's direction; thinned vectors keep each vector at its own coordinates with the stride set by the requested row count; contour levels are symmetric around zero, evenly spaced, of the requested number and reach the largest magnitude or the override.",
 ["inputs", "configurations"], "all grids, centre longitudes (any real number), fields, state lists, profile functions, level counts and overrides",
 "No test imports the plot module's helpers.",
 ["plot.py"], [("roll_lon, configure_lon_x, hovmoellerify, reduce_vectors, symmetric_levels", "plot.py")])

prop("C32", "Plots and text representations show the state they were given",
 "Every plot preset works for every wavy state on any sufficiently fine grid, hemisphere, centre longitude and time type, draws the state's own profiles and fields (zonal means, zonalized PV, FAWA, stationary wavenumber, detected waveguides) against latitude, the map presets place every field at the longitudes their axis is labelled with and show the state's time. Text representations never fail and report the actual shape, resolution, planet, truncation, time in a readable unit, region extent, list length and diffusion settings.",
 ["inputs", "configurations"], "all states, plot options, times (seconds of any magnitude and sign, datetimes), grids, regions incl. empty, models and lists",
 "No test creates a plot or a representation.",
 ["plot.py", "formatting.py", "state.py"], [("plot.summary / wave_activity / rwp_diagnostics / waveguides", "plot.py"), ("formatting.*_repr, format_time", "formatting.py")])

prop("C33", "No result depends on hidden scales: planets and inputs in other units agree",
 "Nothing depends on Earth's size, rotation or any other built-in length or time scale: expressing the same planet and the same inputs (fields, winds, heights, coefficients, rates, thresholds, time steps and times) in other units of length and time gives the same results in the converted units. This holds for all grid operators and integrals, all ways to create a state, its fields and diagnostics, all forcing terms, model runs with diffusion and the initial-condition presets.",
 ["inputs", "configurations"], "all planets, grids, fields and parameters; all changes of the units of length and time",
 "Almost all tests use Earth's radius and rotation rate, where a hard-coded constant or a forgotten factor goes unnoticed.",
 ["grid.py", "state.py", "model.py", "rhs.py", "diagnostics.py", "init.py", "constants.py"],
 [("rsphere and omega of the grid in all operators", "grid.py"), ("diagnostics", "diagnostics.py"), ("forcing terms", "rhs.py"), ("time stepping and diffusion", "model.py")])

prop("C34", "All longitudes and both hemispheres are treated alike",
 "Rotating all inputs in longitude by whole grid columns rotates all results by as much, and reflecting all inputs across the equator (with a change of sign of PV, vorticity, streamfunction, meridional wind and Coriolis parameter) reflects all results: no longitude, hemisphere or array edge is special. This holds for all grid operators and integrals, all ways to create a state, its fields and diagnostics, all forcing terms, model runs and the initial-condition presets.",
 ["inputs", "configurations"], "all planets, grids, fields and parameters; all rotations by grid columns with or without reflection",
 "Tests sample Northern-hemisphere or zonally symmetric cases and hardly ever compare a moved or mirrored input.",
 ["grid.py", "state.py", "model.py", "rhs.py", "diagnostics.py", "init.py"],
 [("periodic and mirrored boundaries of filters, stencils and integrals", "grid.py"), ("diagnostics", "diagnostics.py"), ("forcing terms", "rhs.py"), ("time stepping", "model.py")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
