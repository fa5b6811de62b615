"""Source of properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=[os.path.normpath("src/falwa/" + f) for f in files],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                               mechanism=[dict(name=a, where=os.path.normpath("src/falwa/" + b)) for a, b in mech],
                               observe_at=observe or [], hook_needed=None)))

I = ["inputs"]; IC = ["inputs", "configurations"]; H = ["inputs", "histories"]
prop("C01", "2-D local wave activity is exactly the exceedance integral of its definition",
     "For any 2-D field, reference profile and length elements, the local wave activity returned at each latitude except the last equals the integral of (field - reference) over the rows at or south of that latitude where the field exceeds the reference there, plus that of (reference - field) over the rows north of it where the field falls below, column by column; the last row is zero. "
     "The partitioned form returns the northern (anticyclonic) and southern (cyclonic) parts in that order and they add up to the total, and the non-conservative-force integral uses the same signed masks with the force in place of the field anomaly.",
     I, "every 2-D field, reference profile (monotone or not), length element and forcing, with and without ties, on the stated grids",
     "The two basis tests evaluate one analytic field; masks, ties and non-monotone references are never varied.",
     ["basis.py", "wrapper.py"], [("lwa()", "basis.py:lwa"), ("prescribed-reference wrappers", "wrapper.py:barotropic_input_qref_to_compute_lwa")],
     observe=["return values of the 2-D LWA function and of the prescribed-reference wrapper"])
prop("C02", "Wave activity is non-negative and vanishes for zonally symmetric states",
     "For every field, both hemispheric parts of 2-D and layerwise local wave activity are non-negative in magnitude and their sum is the total wave activity. "
     "When the field is zonally symmetric, increases northward and the reference profile it is compared with is that same profile, the wave activity is exactly zero everywhere, in 2-D and on every level of the 3-D analysis.",
     I, "every field and reference state on the stated grids, including ties and non-monotone references",
     "Sign and vanishing are universally quantified over fields; tests only compare a couple of shapes and one maximum value.",
     ["basis.py", "f90_modules/compute_flux_dirinv.f90", "f90_modules/compute_lwa_only_nhn22.f90"],
     [("masks", "basis.py:lwa"), ("contour-exceedance loop", "f90_modules/compute_flux_dirinv.f90"), ("contour-exceedance loop", "f90_modules/compute_lwa_only_nhn22.f90")])
prop("C03", "The 2-D reference state is the area-conserving monotone rearrangement",
     "For any 2-D field, the equivalent-latitude routine returns the profile obtained by assigning to each of n equally spaced contour values the latitude enclosing (from the south pole) exactly the area where the field is below that value (equally spaced from minimum to maximum, bins closed below, so that cells holding the maximum are not counted), and interpolating linearly to the requested latitudes; the profile never decreases northward and stays within the extremes of the field. "
     "The variant that also returns the contour average of a second field yields the same profile, and its bracket is the mean over neighbouring contour bins of the bin-averaged second field.",
     I, "every 2-D field with at least two distinct values, every area weighting and number of contours, on the stated grids",
     "One analytic field is tested; binning edges, ties, empty bins and weights are what break.",
     ["basis.py"], [("eqvlat_fawa()", "basis.py:eqvlat_fawa"), ("eqvlat_vgrad()", "basis.py:eqvlat_vgrad")])
prop("C04", "Hemispheric 2-D wrappers analyse each hemisphere symmetrically from its pole",
     "Each 2-D wrapper returns, for the southern rows, exactly what the global 2-D routines give on those rows. For the northern rows the reference profile and the contour average are what they give on the mirror image (sign-reversed for vorticity-like fields), flipped back and with the sign restored; wave activity and forcing integral are those of the northern rows with that profile (for temperature-like fields, those of the mirror image, flipped back). "
     "Hence mirroring the globe mirrors the reference profile; rows outside the two hemispheric domains stay zero, optional outputs do not change the shared ones, and every documented default (domain extent, number of contours) is the documented value.",
     IC, "every field, forcing, gradient field and domain extent, each optional argument given or omitted, on the stated grids",
     "No test calls any of these wrappers.",
     ["wrapper.py"], [("hemispheric wrappers", "wrapper.py")])
prop("C05", "The barotropic-field object equals the 2-D routines on the sphere metric",
     "For any field and options, the barotropic-field object's equivalent latitude and (partitioned) wave activity equal the 2-D routines applied to the field with the given area and latitude spacing or, when omitted, the areas and spacing of a regular sphere of the given radius. "
     "Results do not depend on the order in which, or how often, they are requested.",
     ["inputs", "configurations", "histories"], "every field, radius, area/spacing/partition option and access order on the stated grids",
     "The existing test uses one shape with all defaults.",
     ["barotropic_field.py", "basis.py"], [("BarotropicField", "barotropic_field.py:BarotropicField")])
prop("C06", "Spherical difference operators are the documented centred, cyclic differences",
     "For every field, zonal convergence, meridional divergence, vertical curl and the density-weighted vertical derivative equal the documented centred differences (cyclic in longitude, one-sided at top, bottom and poles), including on rows where cos(latitude) is too small to divide by; they are linear and do not modify their inputs.",
     I, "every field, grid spacing, radius, static-stability profile on the stated grids",
     "One test checks zonal convergence of a sine; the others are untested.",
     ["utilities.py"], [("finite-difference utilities", "utilities.py")])
prop("C07", "Hemispheric static stability and QGPV-from-vorticity follow their definitions",
     "For every temperature field, area weighting and domain extent, the static-stability utility returns the area-weighted hemispheric means and their centred (one-sided at the ends) vertical derivatives for the north and the south respectively. "
     "The QGPV-from-vorticity utility returns absolute vorticity plus f times the density-weighted vertical derivative of the normalised temperature anomaly of the row's own hemisphere, at every grid point, and that stretching term.",
     I, "every temperature, vorticity, stability profile and domain extent on the stated grids",
     "No test calls either function with value checks.",
     ["utilities.py"], [("static_stability()", "utilities.py:static_stability"), ("compute_qgpv_givenvort()", "utilities.py:compute_qgpv_givenvort")])
prop("C08", "3-D QGPV equals absolute vorticity plus the hemispheric stretching term",
     "For every wind and temperature field, the QGPV of both 3-D analysis classes equals, on the interior levels, planetary plus relative vorticity (centred, cyclic differences; polar rows from the circulation/zonal mean) plus the density-weighted vertical derivative of the temperature anomaly divided by the static stability times the class's planetary factor: in the over-relaxation class the zonal-mean absolute vorticity and the global-mean profiles, in the direct-inversion class the Coriolis parameter (zero on the equator row) and the profiles of each row's own hemisphere. "
     "The lowest and the highest level hold zero, and the absolute vorticity exposed along with it is that same vorticity.",
     I, "all winds, temperatures, reference profiles and physical constants on the stated grids",
     "Tests only check for NaN and array shapes on fixed data.",
     ["f90_modules/compute_qgpv.f90", "f90_modules/compute_qgpv_direct_inv.f90", "oopinterface.py"],
     [("Fortran kernels", "f90_modules/compute_qgpv.f90"), ("Fortran kernels", "f90_modules/compute_qgpv_direct_inv.f90"), ("_compute_qgpv()", "oopinterface.py")])
prop("C09", "Input fields reach the pseudoheight grid by the documented interpolation",
     "For every input, winds and potential temperature (temperature times the documented exponential of pseudoheight) on the analysis grid are the linear interpolation of the input columns in pseudoheight, or the input itself when it is declared already evenly spaced, and the level heights follow the documented formula. "
     "The reference temperature and static stability profiles are the spline, and its derivative, through the cosine-weighted hemispheric means of potential temperature (in the direct-inversion class over the rows at or poleward of the equatorward boundary): each hemisphere's own, or their average, as the class documents.",
     IC, "all fields, pressure levels, physical constants and both analysis classes on the stated grids",
     "Tests check NaN/shape only.",
     ["oopinterface.py", "data_storage.py"], [("constructor", "oopinterface.py:QGFieldBase.__init__"), ("interpolate_fields()", "oopinterface.py"), ("_compute_static_stability_func()", "oopinterface.py")])
prop("C10", "The 3-D reference PV is the monotone area rearrangement of each level's PV",
     "On every level and for every PV field, the reference PV of both analysis classes is built from cosine-weighted areas of equal-width PV bins so that latitude maps to the enclosed area measured from the pole: the contour values are equally spaced downward from the level's maximum, the area enclosed by each is piecewise-linearly inverted at the area enclosed by each latitude, it never decreases from equator to pole, never leaves the range of the level's PV, and its equatorward value is zero or the stated boundary value. The circulation by which absolute vorticity sets the boundary and initial wind is built the same way. "
     "The result depends only on the multiset of (PV, area) pairs, so shifting any row in longitude leaves it unchanged.",
     I, "every PV field on a level (with distinct extremes), every number of partitions, on the stated grids",
     "Binning and bracketing depend on the order of all values; tests run a single random/zero field and check for NaN.",
     ["f90_modules/compute_reference_states.f90", "f90_modules/compute_qref_and_fawa_first.f90"],
     [("area analysis", "f90_modules/compute_reference_states.f90"), ("area analysis", "f90_modules/compute_qref_and_fawa_first.f90")])
prop("C11", "The relaxation solver returns a solution of its problem or says it did not",
     "In the over-relaxation class, for every input one sweep updates each interior point by the stated residual of the elliptic reference-wind equation with the documented Chebyshev factor, and the returned wind, temperature and PV satisfy the stated boundary, thermal-wind and hemispheric-mean conditions. "
     "If the tolerance is not met within the allowed sweeps the object reports non-convergence (error or flag, as configured, for either hemisphere) and refuses flux computation; otherwise the returned state meets the tolerance. (Convergence reached exactly in the last allowed sweep may be reported either way.)",
     ["inputs", "configurations", "histories"], "every PV, wind and temperature field, tolerance, sweep limit and configuration on the stated grids and sweep counts",
     "Convergence and residuals are never asserted by the reliable tests.",
     ["f90_modules/compute_reference_states.f90", "oopinterface.py"], [("SOR solve", "f90_modules/compute_reference_states.f90"), ("nonconvergence notification", "oopinterface.py:QGFieldNH18")])
prop("C12", "Direct inversion solves the stated elliptic problem exactly in each hemisphere",
     "In the direct-inversion class, for every input and boundary index the returned reference wind satisfies, at every interior level and latitude, the discretised elliptic equation relating it to the reference PV with the hemisphere's own static stability, the surface and top conditions, the equatorward boundary absolute vorticity, and the polar condition. "
     "The reference temperature is in thermal-wind balance with that wind about the hemisphere's own mean temperature profile.",
     IC, "every field and boundary index for which the block matrices are invertible, on the stated grids",
     "No reliable test looks at values of the reference wind.",
     ["f90_modules/matrix_b4_inversion.f90", "f90_modules/matrix_after_inversion.f90", "f90_modules/upward_sweep.f90", "f90_modules/compute_qref_and_fawa_first.f90", "oopinterface.py"],
     [("block elimination", "oopinterface.py:QGFieldNHN22._compute_reference_states_nhn22_hemispheric_wrapper")])
prop("C13", "Layerwise wave activity and fluxes equal their defining integrals",
     "For every flow and reference state, layerwise wave activity, its two parts, the zonal advective fluxes (linear, nonlinear and eddy terms), the two displaced momentum-flux terms, the low-level heat flux, the heating contribution and the stretching term equal, at every grid point of each hemisphere, the contour-exceedance integrals and products of eddy fields in their published definitions, with the documented sign for each hemisphere (the stretching term and the vertical flux component at and poleward of the equatorward boundary). The compiled flux and wave-activity kernels do so for both settings of their hemisphere switch.",
     IC, "every wind, PV, temperature, reference state and heating, both classes, all boundary indices on the stated grids",
     "Reliable tests check NaN and shapes only.",
     ["f90_modules/compute_flux_dirinv.f90", "oopinterface.py", "utilities.py"], [("flux kernel", "f90_modules/compute_flux_dirinv.f90"), ("hemispheric assembly", "oopinterface.py:_compute_layerwise_lwa_fluxes_wrapper"), ("stretch term", "oopinterface.py:_compute_stretch_term")])
prop("C14", "Barotropic outputs are density-weighted vertical averages of layerwise ones",
     "For every input, barotropic wave activity, wind, each advective flux, the forcing and the flux vectors equal the density-weighted vertical sums of the corresponding layerwise quantities with the object's one normalisation, and the convergence and momentum-flux-divergence outputs are the documented spherical differences of them, in both hemispheres.",
     IC, "every field, configuration and class on the stated grids",
     "Reliable tests check NaN and shapes only.",
     ["oopinterface.py", "utilities.py"], [("_vertical_average()", "oopinterface.py"), ("compute_lwa_and_barotropic_fluxes()", "oopinterface.py")])
prop("C15", "Mirroring the atmosphere across the equator mirrors every result",
     "Replacing the input by its mirror image (meridional wind sign reversed, latitudes reflected) exchanges the two hemispheres of every output of both 3-D classes: wind, temperature, wave activity and zonal fluxes are reflected, PV, meridional flux and momentum-flux divergence terms with their documented parity; the shared equator row, which holds the southern analysis, is exempt (and, on grids without an equator, the rows interpolated from it).",
     IC, "every input field, class, boundary index and optional heating on the stated grids",
     "It relates two runs on mirrored inputs for all inputs; no test runs mirrored data.",
     ["oopinterface.py", "data_storage.py"], [("southern-hemisphere flips", "oopinterface.py")])
prop("C16", "Rotating the atmosphere in longitude rotates every result",
     "Shifting all input fields cyclically in longitude shifts every longitude-dependent output of both 3-D classes, of the 2-D routines and of the difference operators by the same amount and leaves every zonally uniform output (reference states, static stability) unchanged; in particular no longitude is treated specially.",
     I, "every input field and shift on the stated grids",
     "It relates two runs for all inputs; no test does.",
     ["oopinterface.py", "f90_modules/compute_qgpv.f90", "f90_modules/compute_flux_dirinv.f90", "utilities.py", "basis.py"], [("cyclic longitude handling", "f90_modules/compute_qgpv.f90")])
prop("C17", "Northern-hemisphere-only mode returns the northern half of the global analysis",
     "For every input, each output of a run restricted to the northern hemisphere (equator included where the grid has it) equals the northern rows of the same output of the global run, for both classes and for the latitudes reported with it; where the global run's equator row is the shared one holding the southern analysis, only the rows north of it are compared.",
     IC, "every input, class, boundary index, odd or even latitude grid on the stated grids",
     "It relates two configurations for all inputs; tests check shapes only.",
     ["oopinterface.py", "data_storage.py"], [("hemispheric slicing", "oopinterface.py"), ("storages", "data_storage.py")])
prop("C18", "The wave-activity-only path agrees with the full computation",
     "For every input, the wave activity and its two parts produced by the wave-activity-only method equal those of the full flux computation at every grid point of both hemispheres where the latter defines them (from the equatorward boundary up to, but not including, the pole row); its barotropic averages are the density-weighted averages of these, and it remains available after a non-converged reference wind.",
     ["inputs", "configurations", "histories"], "every PV field, reference PV, wind, boundary index on the stated grids",
     "The method is not exercised by the reliable tests.",
     ["oopinterface.py", "f90_modules/compute_lwa_only_nhn22.f90", "f90_modules/compute_flux_dirinv.f90"], [("compute_lwa_only()", "oopinterface.py")])
prop("C19", "The compiled kernels never read or write outside their arrays",
     "On every admissible grid size, level count, boundary index and hemisphere switch, and for every field content with distinct PV extremes per level, no compiled kernel indexes an array outside its declared bounds, and no result depends on local or output storage that was never assigned (outputs start as the zeros the wrapper supplies): the reported values are the same whatever unassigned storage contains.",
     IC, "every combination of the stated grid sizes, boundary indices and field contents",
     "Out-of-bounds writes land in neighbouring rows silently; tests never run with bounds checks.",
     ["f90_modules/compute_flux_dirinv.f90", "f90_modules/compute_lwa_only_nhn22.f90", "f90_modules/compute_qgpv.f90", "f90_modules/compute_qgpv_direct_inv.f90", "f90_modules/compute_reference_states.f90", "f90_modules/compute_qref_and_fawa_first.f90", "f90_modules/matrix_b4_inversion.f90", "f90_modules/matrix_after_inversion.f90", "f90_modules/upward_sweep.f90"],
     [("array subscripts", "f90_modules")])
prop("C20", "Analysis steps can only be taken in order, and repeating them is harmless",
     "Requesting a result (other than the empty layerwise container itself) or step before the step it depends on raises an error rather than returning stale or empty data, under every order of calls. "
     "Repeating a step, or interleaving steps of different objects, returns the same results as a single straight run, and no step modifies the arrays the caller passed in.",
     ["histories", "inputs"], "every sequence of the public steps up to the stated length, for symbolic field contents",
     "Tests only take the straight path.",
     ["oopinterface.py", "data_storage.py"], [("stage flags", "oopinterface.py"), ("storages", "data_storage.py")])
prop("C21", "Invalid grids and fields are rejected; valid ones are taken as documented",
     "Constructing a 3-D analysis object fails for pressure levels in ascending order, latitudes in descending order, an odd number of latitudes without the equator, field shapes that do not match the coordinates, or more pseudoheight levels than the data reach, and succeeds otherwise. "
     "Masked arrays are used by their data, the analysis grid of an even latitude count is the documented odd grid including the equator, grid spacings, partition count and normalisation follow the documented formulas, and omitted parameters take their documented defaults.",
     IC, "every coordinate vector (symbolic values) and shape combination on the stated grids",
     "Tests cover a few concrete invalid inputs in a file the stable suite ignores.",
     ["oopinterface.py"], [("validation", "oopinterface.py:QGFieldBase")])
prop("C22", "Even latitude grids are interpolated to the equator-including grid and back",
     "For input on an even latitude grid, the analysis runs on the fields interpolated linearly to the odd grid, and every output (global or northern-hemisphere-only) is the linear interpolation of the odd-grid result to the input latitudes, with the input's latitude size. "
     "All steps that work on odd grids, including forcing and layerwise fluxes, also work on even grids.",
     IC, "every field on the stated even grids, class and configuration",
     "Only shape/NaN checks of a subset of outputs.",
     ["oopinterface.py"], [("_return_interp_variables()", "oopinterface.py"), ("_interp_back()", "oopinterface.py")])
prop("C23", "Hemispheric storage keeps each hemisphere's data where it belongs",
     "Writing a hemispheric field and reading it, the other hemisphere or the globe returns exactly what was written, in pole-to-pole order, with the shared equator row governed by the documented hemisphere; writing one hemisphere never alters the interior of the other, and the reference PV in physical units is the stored one times 2 omega sin(latitude).",
     ["inputs", "histories", "configurations"], "every field content, every sequence of hemispheric writes up to the stated length, both index orders, global or northern-only",
     "Storage is only exercised through shape checks.",
     ["data_storage.py"], [("descriptors", "data_storage.py:NHemProperty, SHemProperty")])
prop("C24", "The dataset interface labels every value with its own coordinates",
     "For every dataset, however its dimensions are named, ordered (latitude or level direction) or extended with extra dimensions (with or without labels), each returned variable carries, at each coordinate label, exactly the value the array interface computes for that slice, latitude, level and hemisphere; the forcing or heating handed in is matched by its own coordinates, and reversing an input axis changes nothing but storage order.",
     ["inputs", "configurations"], "every field content, axis direction, dimension order, extra dimension and option on the stated grids",
     "The stable tests cover only three helper functions.",
     ["xarrayinterface.py"], [("QGDataset", "xarrayinterface.py:QGDataset")])
prop("C25", "The integrated wave-activity budget uses consistent time units and closes",
     "For every dataset, the integrated budget returns each tendency term integrated in time (in seconds, whatever the resolution of the time coordinate) from the first to the last requested time, and the observed change of wave activity between them, with the residual equal to their difference.",
     ["inputs", "configurations"], "every field content and time coordinate (resolution, spacing) on the stated sizes",
     "Not in the stable tests; time resolution is environment dependent.",
     ["xarrayinterface.py"], [("integrate_budget()", "xarrayinterface.py:integrate_budget")])
prop("C26", "A single hemisphere is extended to the globe as its exact mirror image",
     "For every hemispheric dataset, the extension to the globe keeps the original hemisphere unchanged and gives the other one the mirror image, with the sign of the listed (meridional-wind-like) variables reversed, an equator row present exactly once, and latitudes consistent with the data.",
     ["inputs", "configurations"], "every field content, either hemisphere, latitude order, grid with or without equator, on the stated sizes",
     "Not in the stable tests.",
     ["xarrayinterface.py"], [("hemisphere_to_globe()", "xarrayinterface.py:hemisphere_to_globe")])
prop("C27", "Covariance maps are pointwise temporal sample covariances",
     "For every pair of time series of maps, the covariance map holds at each point the unbiased sample covariance of the two series at that same point.",
     I, "all values, on the stated sizes", "Not covered by the stable tests.",
     ["stat_utils.py"], [("calculate_covariance()", "stat_utils.py:calculate_covariance")])
prop("C28", "Missing values are filled before analysis without changing valid data",
     "For every longitude-latitude field and every pattern of missing (NaN) values: a field without missing values is returned as it is; otherwise every valid grid point keeps its value and every missing one receives the value of the third-party relaxation solver, "
     "which is handed the field with exactly the missing points masked, latitude as first and longitude as second, cyclic dimension, and the caller's iteration limit (1000 by default) and verbosity. The input field is not modified.",
     I, "every field and every pattern of missing values, on the stated sizes",
     "The optional third-party package is absent from the test environment; no test covers it.",
     ["preprocessing.py"], [("gridfill_each_level()", "preprocessing.py:gridfill_each_level")])
prop("C29", "Plots show the data they are given",
     "The plotting helpers hand the drawing library exactly the supplied fields at the supplied coordinates. Comparisons draw the first field, the second field and the absolute difference side by side under the given titles and in the given colour map: "
     "the two fields share 31 equally spaced contour levels from their joint minimum to their joint maximum, the difference has 31 levels from zero to diff_factor times the largest magnitude in either field, or levels chosen by the drawing library when diff_factor is None. "
     "Figures are saved under the given file name, under the default name when it is omitted, and not at all when it is None. The map and height-latitude plotters draw the variable with the requested number of levels, title lines, axis titles, ticks or range, land points, and an equator band exactly when requested; the netCDF plot shows the requested time step. No input is modified.",
     ["inputs", "configurations"], "every field and difference factor, optional arguments given or omitted, on the stated sizes",
     "Not covered by tests; cartopy is not installed.", ["plot_utils.py"],
     [("compare_two_fields()", "plot_utils.py:compare_two_fields"), ("compare_two_fields_on_map()", "plot_utils.py:compare_two_fields_on_map"), ("plot_lon_lat_field()", "plot_utils.py:plot_lon_lat_field"),
      ("LatLonMapPlotter", "plot_utils.py:LatLonMapPlotter"), ("HeightLatPlotter", "plot_utils.py:HeightLatPlotter")])
prop("C30", "The zonal-mean wave activity is the difference of the two circulations",
     "Alongside the 2-D reference profile, the equivalent-latitude routine returns one finite-amplitude wave activity per row north of the first: minus the sum of two circulations divided by 2 pi times the radius. "
     "The first is the row circulation (zonal-mean field times the row's total area) accumulated from the northernmost row (where it is zero) southward by trapezoids; the second is the field times area summed over all cells below each contour value, starting at zero for the lowest contour, and interpolated linearly in the contour's equivalent latitude to the row. "
     "The contour bins are those of the reference profile, and asking for this output does not change the profile.",
     I, "every 2-D field with at least two distinct values, every area weighting and number of contours, on the stated grids",
     "No test looks at this output.",
     ["basis.py"], [("eqvlat_fawa()", "basis.py:eqvlat_fawa")])
prop("C31", "Extracted time slices are exact copies of the requested snapshots",
     "Extracting snapshots writes one file with the given name holding, for every time-dependent variable of the original file, exactly the snapshots at the requested time indexes in the requested order (the first one when none is requested), with the time dimension kept; "
     "variables that do not depend on time, coordinates and attributes are carried over unchanged, repeated extractions do not affect each other, and the original data and the list of indexes are not modified.",
     ["inputs", "configurations", "histories"], "all values, on the stated datasets and index lists", "No test covers it.",
     ["netcdf_utils.py"], [("extract_one_timeslice()", "netcdf_utils.py:extract_one_timeslice")])
prop("C32", "The legacy reference-wind solver solves its two boundary-value problems",
     "For all winds, wave activities, temperatures and boundary data, the two wind corrections returned by the legacy solver (no-slip and adiabatic lower condition) satisfy the discrete elliptic problem whose right-hand side is minus the second difference of wave activity over the Coriolis parameter on rows equally spaced in sine of latitude, with the thermal-wind condition at the top, and are brought back to the input grid by linear interpolation in latitude; "
     "each reference wind (temperature) plus its correction equals the zonal-mean wind (temperature, the potential temperature times exp(-k kappa/7) on level k) on the northern half of the grid, the southern half is zero, and no input is modified. "
     "Each temperature correction has zero mean over those rows and, across every second row from the equator, the difference in thermal-wind balance with the wind correction of the row between (linear in sine of latitude in between), on the levels above the lowest and below the two highest, where it is zero.",
     ["inputs", "configurations"], "all values, on the stated grids and coefficient profiles", "No test calls it.",
     ["legacy/beta_version.py"], [("solve_uref_both_bc()", "legacy/beta_version.py:solve_uref_both_bc")])
prop("C33", "Hybrid-level data reach pressure levels by linear interpolation of their own column",
     "For every field and surface pressure, the preprocessing functions return at each time, pressure level and column the linear interpolation in pressure of that column's values, with the pressures of the model levels computed from the hybrid coefficients and the surface pressure of the same time and column; points outside the column's range are filled from the valid values of the same time and level only, the topography marker (on request) is missing exactly there and 1 elsewhere, "
     "and the assembled dataset carries the values with their time, pressure, latitude and longitude coordinates, units and attributes. Input datasets, their attributes and the list of levels are not modified.",
     ["inputs", "configurations"], "all field values, surface pressures on the stated columns", "No test runs the script.",
     ["../../scripts/pre_process_data_in_hybrid_coordinates/vertical_interpolation_hybrid_to_pressure_poisson_filled_below_topo.py", "preprocessing.py"],
     [("vertical_interpolation_to_pressure()", "../../scripts/pre_process_data_in_hybrid_coordinates/vertical_interpolation_hybrid_to_pressure_poisson_filled_below_topo.py:vertical_interpolation_to_pressure")])
prop("C34", "The file-processing scripts store the analysis of each time step on its own axes",
     "The scripts that process whole files (wave-activity budget, contribution of heating, predigestion) analyse, for every time step of every file, exactly the fields of that time step on ascending latitudes and descending pressures whichever way the budget and heating files store them, with the documented options, and store each result under its own name at that time step, together with the latitude and longitude axes (and, for budget and heating, time and level axes) and units; no time step is skipped and no input is modified. The seasonal files derived from the predigested ones hold, for every season and year, the means over all time steps of that season's months, the covariance of wave activity and wind over them, and the difference of mean and reference wind.",
     ["inputs", "configurations", "histories"], "all field values, every orientation of the stated files", "No test runs the scripts.",
     ["../../scripts/lubis_et_al_2025/cal_lwa_budget_NHN22.py", "../../scripts/lubis_et_al_2025/cal_ncforce_loop.py", "../../scripts/mdtf_predigest_data/predigest_data.py", "../../scripts/mdtf_predigest_data/plot_from_predigest.py"],
     [("cal_lwa_budget_NHN22.py", "../../scripts/lubis_et_al_2025/cal_lwa_budget_NHN22.py"), ("cal_ncforce_loop.py", "../../scripts/lubis_et_al_2025/cal_ncforce_loop.py"), ("predigest_data.py", "../../scripts/mdtf_predigest_data/predigest_data.py")])
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
