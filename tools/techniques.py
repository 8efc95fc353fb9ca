# property: (method, what the check assures)
TECH = {
 "C01": ("random grids against closed forms", "Coordinates, spacings, Coriolis parameter and areas of thousands of grids incl. roundings of the resolution."),
 "C02": ("random pairs and interleaved histories over several grids against closed forms", "Equality/hash laws on generated pairs; interleaved use of up to four grids never mixes results."),
 "C03": ("analytic harmonics, metamorphic relations and differential comparison with pyspharm", "Exactness below the limit, truncation, linearity, idempotence and rotation of the round trip."),
 "C04": ("analytic vector fields, metamorphic relations and differential comparison with pyspharm", "All variants of the wind/vorticity/divergence/gradient operations on resolved and rough fields."),
 "C05": ("analytic eigenfunctions and per-mode reference over 16 decades of damping", "Laplacian, Poisson-like and diffusion solves, gridded and spectral, orders 1 to 6."),
 "C06": ("Lagrange-interpolation reference and polynomial exactness", "Every row, order, dimensionality and column count of the finite differences."),
 "C07": ("Gauss-Legendre/cell-sum reference and integral laws", "Both quadratures over arbitrary fields, domains and sectors."),
 "C08": ("weighted-sum reference over random regions", "All means and axis spellings, globe and regions."),
 "C09": ("exact index-arithmetic model of selections", "All selection syntaxes with on- and off-grid bounds, extraction and masks."),
 "C10": ("closed-form windows and direct convolution reference", "All dimensionalities, dtypes, named and array windows."),
 "C11": ("random fields and areas against set-theoretic definitions and rearrangement invariants", "Equivalent latitudes, zonalized profiles and contour areas of smooth, rough and plateau-valued fields, default and given levels."),
 "C12": ("random flows against definitional reference integrals and metamorphic relations", "Non-negativity, zero for zonal flows, agreement with the definition, translation, reflection and scaling."),
 "C13": ("analytic flows through every constructor and attribute", "All construction routes, fields and dtypes on all grids; refusal of contradictory input."),
 "C14": ("metamorphic superposition of analytic flows", "All spellings of adding flows, operands unchanged, chains of additions."),
 "C15": ("stateful histories of attribute accesses and calls against fresh objects, with input guards", "Access order, repetition and input mutation over states, grids and diagnostics."),
 "C16": ("reference model of one time step (leapfrog, filter, diffusion, forcing) built on independent transforms", "Steps of all kinds incl. diffusion background, forcing and datetimes."),
 "C17": ("exact-arithmetic model of the run schedule", "Stop, save and timestamps of runs with any start, step, end and save interval, numeric and datetime."),
 "C18": ("invariants over generated integrations", "Conservation of mean vorticity, energy and enstrophy within discretization bounds, symmetries, exact solutions."),
 "C19": ("closed forms of the forcing on analytic orographies and winds plus an independent gradient", "All wind modes, reference Coriolis parameters, mountain presets at any place, interpolated orographies, caches over several grids."),
 "C20": ("random expression trees evaluated against array arithmetic", "Nested sums and products of all term kinds incl. switches and relaxation, in model runs too."),
 "C21": ("synthesized wave packets and independent Fourier/wavelet references", "Dominant wavenumbers and envelopes for all wavenumber ranges, even and odd row lengths, translations and scalings."),
 "C22": ("direct window-average reference with locally varying widths", "Any wavenumber field incl. fractional, NaN-free and extreme ones, all grids."),
 "C23": ("closed forms for analytic jets and an independent finite-difference reference", "All variants (real, complex, given winds, quasi-linear) on all planets."),
 "C24": ("pointwise set oracle over random profiles with infinities and NaN", "Every latitude interval of every generated profile, all input forms."),
 "C25": ("structural and value oracle over random collections and parameter sets", "Every exported variable, coordinate, attribute and time for lists, generators and lone states."),
 "C26": ("round trips and layout-mangling metamorphic relations of datasets", "All variable combinations, names, dimension orders, shifts, flips, dtypes and time kinds."),
 "C27": ("mutation of valid datasets with an admissibility oracle", "Single and paired defects of coordinates, dimensions and variables are refused."),
 "C28": ("stateful model-based histories against a tuple of states", "Sequences of list operations, mapping over attributes and methods, results container types."),
 "C29": ("documented profiles as closed forms, compared through independent transforms", "All presets and parameters, defaults, user profiles in all array kinds and their refusal."),
 "C30": ("round trips and a reference field built by hand", "Options, given/equal/inferred grids, foreign fields, refusal of mismatches."),
 "C31": ("index-arithmetic models of the helpers over random inputs", "Centring, tick labels, Hovmoeller data, thinned vectors and contour levels."),
 "C32": ("generated figures and representations parsed back and compared with the state", "Lines, contour data with axis labels, vectors, titles, limits and all text representations."),
 "C33": ("metamorphic relation: the same planet and inputs in two systems of units", "All grid operators, state fields, diagnostics, forcing terms, runs and presets; powers of two (identical arithmetic) and any factors."),
 "C34": ("metamorphic relation: rotated and reflected inputs", "All grid operators, state fields, diagnostics, forcing terms, runs and presets under rotations by columns and reflection across the equator."),
}
