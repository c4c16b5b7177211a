#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the statements are easy to edit)."""
import json, os
E = "eoxmagmod/eoxmagmod/"
I = E + "include/"
M = E + "magnetic_model/"
P = []

def prop(id_, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id_, len(title))
    P.append({
        "id": id_, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
            "observe_at": observe, "hook_needed": None,
        },
    })

prop("C01", "Field evaluation equals the spherical-harmonic series it is defined by",
     "For every geocentric position (latitude -90 to 90 inclusive of both poles, any longitude, positive radius), every set of coefficients, every maximum degree, and for internal as well as external sources, the evaluated potential equals the Schmidt semi-normalised spherical-harmonic series and the evaluated gradient is its exact northward, eastward and upward derivative. The three modes (potential, gradient, both) return the same numbers, requesting a lower degree equals zeroing the higher coefficients, and the result is linear in the coefficients and in the requested scale factors.",
     ["inputs"], "all positions, coefficients, degrees, source types, modes and scales",
     "Tests compare a few hundred random points of two fixed coefficient sets with a Python re-implementation; they do not cover all positions (exact poles, date line, arbitrary radius) for arbitrary coefficients, degrees and mode/scale combinations.",
     [E+"pymm_sheval.h", I+"spherical_harmonics.h", I+"fourier_series.h"],
     [("shc_legendre / shc_eval_*", I+"spherical_harmonics.h"), ("sheval", E+"pymm_sheval.h")],
     ["eoxmagmod.sheval"])

prop("C02", "Spherical-harmonic building blocks follow their definitions at any degree",
     "For every latitude, longitude, radius and degree, the functions returning the associated Legendre functions and their derivatives, the longitude cosine/sine series, the relative radius powers, and the potential and gradient assembled from such series return exactly the mathematically defined values: Legendre functions are Schmidt semi-normalised with derivatives taken with respect to latitude, the internal and external radial series have the powers -(n+2) and n-1, and assembling the pieces gives the same field as the direct evaluation.",
     ["inputs"], "all latitudes including the poles, longitudes, radii, degrees (both sides of the low/high degree algorithm switch), internal and external sources",
     "Tests sample random angles at a few fixed degrees; the switch between the two Legendre algorithms, its threshold near the poles and the recurrences for every order are not covered for all angles.",
     [E+"pymm_legendre.h", E+"pymm_loncossin.h", E+"pymm_relradpow.h", E+"pymm_spharpot.h", E+"pymm_sphargrd.h", I+"spherical_harmonics.h", I+"fourier_series.h"],
     [("shc_legendre_low/high", I+"spherical_harmonics.h"), ("fs_cos_sin", I+"fourier_series.h"), ("shc_relradpow_*", I+"spherical_harmonics.h")],
     ["eoxmagmod.legendre", "eoxmagmod.loncossin", "eoxmagmod.relradpow", "eoxmagmod.spharpot", "eoxmagmod.sphargrd"])

prop("C03", "Array evaluation is independent of neighbouring points and call history",
     "Every vectorised function (field evaluation with constant, time-interpolated and 2D-Fourier coefficients, coordinate conversion, vector rotation, interpolation, lookup, series, time and Sun functions) returns for each element of an input array exactly the value it returns for that element evaluated alone. The result never depends on the order, number or repetition of the other elements, nor on earlier calls.",
     ["inputs", "histories"], "all sequences of points, times and coefficients, including sequences in which some of the coordinates repeat from one point to the next",
     "Tests use random arrays in which consecutive points practically never share a coordinate or a time, so the reuse of per-latitude, per-longitude, per-radius and per-time intermediate values between points is not exercised in all combinations.",
     [E+"pymm_sheval.h", E+"pymm_shevaltemp.h", E+"pymm_sheval2dfs.h", E+"pymm_cconv.h", E+"pymm_vrot_sph2cart.h", E+"pymm_vrot_cart2sph.h", E+"pymm_vrot_sph2geod.h", E+"pymm_interp.h", E+"pymm_bisect.h", E+"pymm_fourier2d.h", E+"pysunpos.h"],
     [("lat_last/lon_last/rad_last caching", E+"pymm_sheval.h"), ("time_last / idx_last caching", E+"pymm_shevaltemp.h"), ("time caching", E+"pymm_sheval2dfs.h")],
     ["eoxmagmod.sheval", "eoxmagmod._pymm.shevaltemp", "eoxmagmod._pymm.sheval2dfs", "all other vectorised functions"],
     [("MODEL", "work buffers and last coordinates reused between points", E+"pymm_sheval.h"), ("MODEL_TS", "last time and last interpolation interval", E+"pymm_shevaltemp.h")])

prop("C04", "Results depend on array values and shapes, never on memory layout",
     "The result of every vectorised function depends only on the values and the shape of its array arguments: C-ordered, Fortran-ordered, transposed, sliced, reversed and broadcast (zero-stride) views holding the same values give the same output, lists and arrays are interchangeable, inputs are not modified, and the leading dimensions of the output are those of the input with per-position arguments matched element by element in index order.",
     ["inputs", "configurations"], "all array layouts (strides), ranks and lengths, and all values",
     "Tests pass C-contiguous arrays almost exclusively; no test fixes the result for transposed, reversed, strided or broadcast inputs of the C functions.",
     [E+"pymm_aux.h", E+"pymm_sheval.h", E+"pymm_shevaltemp.h", E+"pymm_sheval2dfs.h", E+"pymm_cconv.h", E+"py_common.h"],
     [("_get_arrd_item*", E+"pymm_aux.h"), ("_get_as_double_array", E+"pymm_aux.h")],
     ["all C extension entry points"])

prop("C05", "Time-dependent evaluation equals evaluation of the interpolated coefficients",
     "For every time, position and list of time-dependent sparse coefficient sets, the time-dependent field evaluation returns exactly what the plain field evaluation returns for the full coefficient array obtained by interpolating every set at that time (piecewise constant or piecewise linear, extrapolated outside of the node range) and adding all contributions to the same degree and order. This holds for scalar times, arrays of times and every compatible combination of time and position shapes.",
     ["inputs", "histories"], "all node times, coefficients, degree/order lists (with repeated or overlapping entries, positive and negative orders), evaluation times in any order, positions",
     "Tests check one or two fixed models at random times; overlapping coefficient sets, single nodes, times exactly at nodes, and sequences of times that leave and re-enter an interval are not covered.",
     [E+"pymm_shevaltemp.h", I+"interpolation.h", I+"bisect.h"],
     [("_coeff_set_interp0/_interp1", E+"pymm_shevaltemp.h"), ("get_interp*_basis", I+"interpolation.h")],
     ["eoxmagmod._pymm.shevaltemp"],
     [("idx_last", "interval of the last interpolated time", E+"pymm_shevaltemp.h")])

prop("C06", "Seasonal/diurnal (2D Fourier) series are summed exactly over their term range",
     "For all phases, scale factors, coefficients and term ranges (including negative and mixed-sign first terms), the 2D Fourier series evaluation returns the sum over exactly the requested terms of the cosine and sine coefficients multiplied with cos and sin of (i*x + j*y). The field evaluation with 2D Fourier coefficients equals the plain field evaluation of the coefficients obtained from that series at each point's own pair of phases.",
     ["inputs"], "all phases, coefficients, first terms and sizes of both series, degree/order lists, positions",
     "Tests use a handful of fixed term ranges symmetric around zero; ranges in which the second series reaches further below zero than any other bound are not exercised.",
     [E+"pymm_fourier2d.h", E+"pymm_sheval2dfs.h", I+"fourier_series.h"],
     [("fs_cos_sin_neg / fs_cos_sin_2d / fs_eval_2d", I+"fourier_series.h"), ("_fourier2d_init", E+"pymm_fourier2d.h")],
     ["eoxmagmod._pymm.fourier2d", "eoxmagmod._pymm.sheval2dfs"])

prop("C07", "Node lookup and interpolation are exact for every sorted node sequence",
     "For every sorted sequence of nodes and every query, lookup returns the index of the one interval containing the query (left- or right-closed as requested, -1 below the range or for NaN, the last index above it). Interpolation returns the value of that interval's node (piecewise constant), the straight line through the two neighbouring nodes (piecewise linear) or its slope (derivative), reproduces the node values, and outside the node range extends the outermost segment when extrapolation is requested and otherwise returns NaN (below the first node; above the last node for the linear kinds).",
     ["inputs"], "all node sequences (with repeated nodes for lookup), lengths, query values including exact node hits, infinities and NaN, coefficient arrays",
     "Tests use a few short fixed node lists; binary-search termination and boundary handling for every length and hit position is not covered.",
     [E+"pymm_bisect.h", E+"pymm_interp.h", I+"bisect.h", I+"interpolation.h"],
     [("bisect_right/bisect_left", I+"bisect.h"), ("get_interp0_basis/get_interp1_basis/get_interp1d1_basis", I+"interpolation.h")],
     ["eoxmagmod._pymm.bisect", "eoxmagmod._pymm.interp"])

prop("C08", "Coordinate conversions describe the same point and invert each other",
     "Conversion between any two of geodetic (WGS84), geocentric spherical and geocentric Cartesian coordinates yields coordinates of the same physical point: spherical and Cartesian agree with the defining trigonometric relations, geodetic agrees with the WGS84 ellipsoid, converting through an intermediate system equals converting directly, and converting there and back returns the original position. Same-type conversion returns the input values unchanged and the input array is never modified.",
     ["inputs"], "all positions outside of the ellipsoid's evolute, all pairs of coordinate types",
     "Tests check a grid of points against the same formulas in Python; they do not settle round trips for every latitude, height, hemisphere and longitude quadrant.",
     [E+"pymm_cconv.h", I+"geo_conversion.h", I+"math_aux.h"],
     [("geodetic2geocentric_*", I+"geo_conversion.h"), ("_geocentric2geodetic", I+"geo_conversion.h"), ("sph2cart / cart2sph", I+"geo_conversion.h")],
     ["eoxmagmod.convert"])

prop("C09", "Vector rotations between local frames are proper rotations",
     "For all positions and vectors, rotating a vector between the local north-east-up frame and the Cartesian frame, or between geocentric and geodetic local frames, preserves the vector's length, is linear, is undone by the opposite rotation, and maps the local north, east and up unit vectors onto the corresponding directions in space. The generic rotation helper agrees with these for every pair of coordinate types, and the norm and inclination/declination/intensity helpers agree with the vector's geometry.",
     ["inputs"], "all vectors, latitudes, longitudes and latitude differences; all pairs of coordinate types",
     "Tests rotate random vectors and compare them with the same formula in Python; they do not establish length preservation, inverse and direction for every angle.",
     [E+"pymm_vrot_sph2cart.h", E+"pymm_vrot_cart2sph.h", E+"pymm_vrot_sph2geod.h", E+"util.py", I+"math_aux.h"],
     [("rot2d", I+"math_aux.h"), ("vrotate / vnorm / vincdecnorm", E+"util.py")],
     ["eoxmagmod.vrot_sph2cart", "eoxmagmod.vrot_cart2sph", "eoxmagmod.vrot_sph2geod", "eoxmagmod.vrotate", "eoxmagmod.vnorm", "eoxmagmod.vincdecnorm"])

prop("C10", "The evaluated field does not depend on the coordinate frames used",
     "For every position and every choice of input and output coordinate systems, each field evaluation function returns the same physical vector: the result equals converting the position to geocentric spherical coordinates first, evaluating there, and rotating the resulting vector to the requested output frame; the potential is the same number for every choice.",
     ["inputs", "configurations"], "all positions and all pairs of input and output coordinate systems, for the constant, time-dependent and 2D-Fourier evaluations, with and without scaling",
     "Tests evaluate each pair of systems against a Python reference at random points; they cannot show agreement at all positions, and do not combine all pairs with non-uniform scaling.",
     [E+"pymm_sheval.h", E+"pymm_shevaltemp.h", E+"pymm_sheval2dfs.h", E+"pymm_sphar_common.h", I+"geo_conversion.h"],
     [("_sheval coordinate switch", E+"pymm_sheval.h"), ("_shevaltemp_*", E+"pymm_shevaltemp.h"), ("_sheval2dfs_*", E+"pymm_sheval2dfs.h")],
     ["eoxmagmod.sheval", "eoxmagmod._pymm.shevaltemp", "eoxmagmod._pymm.sheval2dfs"])

prop("C11", "Calls with any arguments are memory safe, leak nothing and reject bad input",
     "For every combination of argument shapes, ranks, sizes (including empty), degrees, term ranges, node counts and degree/order indices, a call of any compiled function either returns a fully initialised result or raises a Python exception. It never reads or writes outside its buffers, never dereferences a null pointer, never returns uninitialised values, releases every temporary it acquired, and raises ValueError when array arguments have inconsistent dimensions or indices out of range.",
     ["inputs", "fault_sequences"], "all argument shapes and integer parameters, valid and invalid, and failure of any single memory allocation",
     "Tests exercise correct calls and a few wrong shapes; an out-of-bounds access or leak does not fail a test, and the space of shape and index combinations is not enumerated.",
     [E+"pymm_aux.h", E+"py_common.h", E+"pymm_sheval.h", E+"pymm_shevaltemp.h", E+"pymm_sheval2dfs.h", E+"pymm_fourier2d.h", E+"pymm_legendre.h", E+"pymm_interp.h", E+"pymm_bisect.h", E+"pymm_cconv.h", E+"pysunpos.h", E+"pyqd_eval_qdlatlon.h", I+"spherical_harmonics.h"],
     [("argument checks of each entry point", E+"pymm_*.h"), ("buffer allocation by degree", E+"pymm_sheval.h"), ("reference counting on exit paths", E+"pymm_*.h")],
     ["all C extension entry points"])

prop("C12", "Time conversions follow the calendar, are monotonic and invert each other",
     "For every time from year 1 to year 4000, the decimal year's integer part is the calendar year containing the day and its fraction is the elapsed share of that year (365 or 366 days by the leap-year rule), the year fraction lies in [0, 1] and equals that fraction, and both grow with time within a year. Outside of the calendar-reform years 1582-1583 conversion of decimal years and days since 2000 are inverse to each other and strictly increasing across year boundaries; infinite and NaN inputs of the decimal-year conversion are passed through.",
     ["inputs"], "all days and fractional days, all decimal years in the stated range",
     "Tests check a short list of dates; leap-year and century rules for every year and the behaviour at every year boundary are not covered.",
     [E+"pytimeconv.c", I+"time_conversion.h", E+"time_util.py"],
     [("mjd2k_to_year / mjd2k_year_start / is_leap_year", I+"time_conversion.h")],
     ["eoxmagmod.mjd2000_to_decimal_year", "eoxmagmod.mjd2000_to_year_fraction", "eoxmagmod.decimal_year_to_mjd2000", "eoxmagmod.time_util simple variants"])

prop("C13", "Sun position: both coordinate systems describe the same direction",
     "For every time, location and time offset, the returned declination, right ascension, hour angle, azimuth and zenith lie in their documented ranges, hour angle plus right ascension minus longitude is the sidereal angle of that time, the horizontal coordinates are those of the returned equatorial direction seen from the location (lowered by the parallax when a radius is given), and the original reference implementation yields the same values for times at which its calendar formula is exact and refraction is disabled.",
     ["inputs"], "all times in the algorithm's supported calendar range, all locations, radii and offsets",
     "Tests compare recorded outputs for one table of times and locations.",
     [E+"pysunpos.h", E+"pysunpos_original.h", I+"sun_ephemeris.h", E+"solar_position.py"],
     [("sunpos5equat / sunpos5eq2hor / sunpos5original", I+"sun_ephemeris.h")],
     ["eoxmagmod.sunpos", "eoxmagmod.sunpos_original"])

prop("C14", "Dipole frame: a rigid rotation that puts the given pole at the north",
     "For every pole position, the dipole rotation matrix is a proper rotation; converting coordinates to the dipole frame preserves the radius and the angle between any two points, places the pole itself at dipole latitude 90 degrees and the geographic north pole on the dipole meridian 180 degrees. Rotating vectors from the dipole frame back preserves their length and expresses the same physical vector in the requested output frame, so a model evaluated in the dipole frame equals the same field evaluated in the rotated frame for every input and output coordinate system, mode and scale.",
     ["inputs", "configurations"], "all pole positions, positions, vectors, coordinate system pairs",
     "Tests use one fixed pole and random points with the formula replicated in Python.",
     [E+"dipole_coords.py", E+"dipole.py", M+"model.py"],
     [("get_dipole_rotation_matrix / convert_to_dipole / vrot_from_dipole", E+"dipole_coords.py"), ("rotate_vectors_from_dipole / sheval_dipole", E+"dipole.py")],
     ["eoxmagmod.get_dipole_rotation_matrix", "eoxmagmod.convert_to_dipole", "eoxmagmod.vrot_from_dipole", "eoxmagmod.sheval_dipole"])

prop("C15", "Magnetic universal time is the dipole hour angle of the sub-solar point",
     "For every time, pole and sub-solar point, the magnetic universal time lies between 0 and 24 hours and equals (180 - L)/15, where L is the longitude in degrees of the sub-solar point in the dipole frame of that pole. User supplied sub-solar coordinates are used element by element; when either is missing the built-in Sun position (declination, minus the Greenwich hour angle) is used.",
     ["inputs"], "all sub-solar latitudes and longitudes, poles and times, scalar and array",
     "Tests compare recorded values for one pole.",
     [E+"magnetic_time.py", E+"solar_position.py"],
     [("_mjd2000_to_magnetic_universal_time / get_subsol", E+"magnetic_time.py")],
     ["eoxmagmod.mjd2000_to_magnetic_universal_time"])

prop("C16", "Models are evaluated exactly within validity, with the first matching part",
     "A spherical-harmonic model returns NaN vectors at every time outside its validity interval and for NaN times, and within it (both ends included) the field of the first coefficient set, in order of composition, that is valid at that time. The result for an array of times equals the results of evaluating every time separately, for every compatible combination of time and location shapes and every order of the times.",
     ["inputs", "histories"], "all compositions of coefficient sets with arbitrary (overlapping, touching, nested) validity intervals, all times including exact boundaries, all shapes",
     "Tests evaluate two or three fixed compositions at a few times; boundary times shared by two parts, overlapping parts and shape combinations are not enumerated.",
     [M+"model.py", M+"coefficients.py", M+"util.py"],
     [("SphericalHarmomicGeomagneticModel.eval", M+"model.py"), ("decompose", M+"coefficients.py"), ("reshape_times_and_coordinates", M+"util.py")],
     ["model.eval of all spherical harmonic models"])

prop("C17", "Composed and combined coefficients select the first match and add all parts",
     "A composition of coefficient sets yields, at any time, the coefficients of the first set valid at that time, for scalar and array times alike, and its decomposition into time intervals covers the whole validity and associates each interval with the set selected there. A combination yields the sum of the coefficients of its members and is valid exactly where all members are; degree bounds and validity of both reflect their members, gaps between composed sets and mixing of internal and external sets are rejected.",
     ["inputs", "programs"], "all lists of validity intervals (order, overlap, nesting, touching), all times, nested compositions and combinations",
     "Tests use one fixed composition and one fixed combination.",
     [M+"coefficients.py", M+"util.py"],
     [("ComposedSHCoefficients / CombinedSHCoefficients", M+"coefficients.py"), ("get_nonoverlapping_intervals / aggregate_intersected_intervals", M+"util.py")],
     ["ComposedSHCoefficients", "CombinedSHCoefficients"])

prop("C18", "Time-dependent coefficients interpolate and truncate by degree faithfully",
     "A time-dependent coefficient set returns, in the full array position given by degree and order (cosine for order >= 0, sine for order < 0), the piecewise-linear or piecewise-constant interpolation of its snapshots at any time, whatever the order in which the snapshots were supplied, in days or decimal years as declared; a constant set returns its coefficients for any time. Restricting the minimum or maximum degree returns exactly the coefficients within the range and zeros elsewhere, and the same restriction applied in a model evaluation gives the field of these coefficients. Snapshots, coefficients and degree/order lists of inconsistent shapes and unsupported spline orders are refused.",
     ["inputs"], "all snapshot times in any order, all degree/order lists, all degree restrictions, all times",
     "Tests use one coefficient list with a few restrictions.",
     [M+"coefficients.py", M+"model.py"],
     [("SparseSHCoefficients*", M+"coefficients.py"), ("subset_degree", M+"coefficients.py"), ("_eval_interpolated / _eval_default", M+"model.py")],
     ["SparseSHCoefficientsTimeDependent", "SparseSHCoefficientsConstant", "SparseSHCoefficientsTimeDependentDecimalYear", "model.eval"])

prop("C19", "A composed model is the weighted sum of its members in any frame",
     "A composed model returns, for every time, position, input and output coordinate systems, the sum of the fields of its members, each multiplied with its own scale and evaluated with its own parameters (which override the call's options), multiplied with the scale of the call, and expressed in the requested output frame. An empty composition returns zeros (NaN for NaN times) and the validity of the composition is the common validity of the members.",
     ["inputs", "programs"], "all lists of members, scales, parameters, times, positions and coordinate system pairs",
     "No test exercises the composed model beyond loading; combinations of scales and frames are not covered.",
     [M+"model_composed.py"],
     [("ComposedGeomagneticModel.eval / push", M+"model_composed.py")],
     ["eoxmagmod.ComposedGeomagneticModel.eval"])

prop("C20", "Ionospheric model: F10.7 scaling, missing data and height switch are exact",
     "The ionospheric (MIO) model's field equals the dipole-frame field of its 2D-Fourier coefficients at the time's year fraction and magnetic universal time, multiplied with 1 + Wolf ratio x F10.7 of that element (and with the requested scale), and is NaN exactly where the time is outside the validity or F10.7 is NaN. The primary-field model uses the below-ionosphere variant for radii up to the ionospheric height and the above-ionosphere variant beyond, every element with its own time, F10.7 and sub-solar point; external coefficients converted for use above the ionosphere give a field whose radial component is continuous at that height.",
     ["inputs"], "all times, positions, F10.7 values, sub-solar points, shapes, options and coefficients",
     "Tests evaluate one product file at a few points without the element-wise options combined with masks.",
     [M+"model_mio.py", M+"coefficients_mio.py", M+"loader_mio.py", M+"util.py"],
     [("DipoleMIOGeomagneticModel.eval", M+"model_mio.py"), ("MIOPrimaryGeomagneticModel.eval", M+"model_mio.py"), ("convert_external_mio_coeff", M+"loader_mio.py")],
     ["DipoleMIOGeomagneticModel.eval", "MIOPrimaryGeomagneticModel.eval", "convert_external_mio_coeff"])

prop("C21", "Coefficient files are read without loss, misplacement or misdating",
     "For every well-formed SHC, IGRF, WMM, EMM and MIO text file, each number in the file ends up as the coefficient of exactly the degree, order, time node and series term its position in the file denotes (secular variation columns becoming the value five years later), comments and blank lines before the header are ignored, and the loaded model interpolates these coefficients with the spline order and over the validity interval stated by the file, unless overridden by the caller (SHC spline orders above two are interpolated linearly between the densely sampled nodes the file carries for them).",
     ["inputs"], "all file contents: any number of degrees, orders, time nodes and terms, any numeric values, optional header fields",
     "Tests parse the bundled files and check shapes or checksums; arbitrary degree sets, missing optional fields and other spline orders do not occur in them.",
     [M+"parser_shc.py", M+"parser_igrf.py", M+"parser_wmm.py", M+"parser_emm.py", M+"parser_mio.py", M+"loader_shc.py", M+"loader_igrf.py", M+"loader_wmm.py", M+"loader_emm.py", M+"loader_mio.py"],
     [("parse_*_file", M+"parser_*.py"), ("load_coeff_*", M+"loader_*.py")],
     ["eoxmagmod.load_model_shc", "eoxmagmod.load_model_shc_combined", "eoxmagmod.load_model_igrf", "eoxmagmod.load_model_wmm", "eoxmagmod.load_model_emm", "eoxmagmod.load_model_swarm_mio_internal", "eoxmagmod.load_model_swarm_mio_external"])

prop("C22", "Merging magnetospheric product files preserves every sample or is refused",
     "Loading one or more magnetospheric (MMA) products yields the samples of all of them in time order, each keeping its own time, degree, order and value; files whose degree ranges or degree/order lists differ, or which are not in chronological order, are refused with ValueError. The internal and external parts of a product, and its two subsets, are read from their own variables and marked as internal and external sources.",
     ["inputs", "histories"], "all numbers of files, sample times, degree/order lists and values",
     "Tests merge two or three fixed tables.",
     [M+"loader_mma.py", M+"parser_mma.py"],
     [("_merge_coefficients", M+"loader_mma.py"), ("read_swarm_mma_coefficients", M+"parser_mma.py")],
     ["eoxmagmod.load_model_swarm_mma_*"])

prop("C23", "Traced field lines follow the field through the starting point",
     "A traced field line is an ordered sequence of points that contains the starting point, in which each point is reached from its neighbour nearer to the start by a step along (towards one end) or against (towards the other end) the model field at that neighbour, of length step * r / 6371.2 km where r is the radius there (step: 100 km unless given). Every traced point other than the start which lies outside the given radius limits is the last one in its direction, no direction has more than the maximum number of steps, and each returned field vector is the model's field at the returned point, expressed in the requested output frame.",
     ["inputs", "histories"], "all models, starting points, step sizes, limits and coordinate systems",
     "Tests trace a few lines of one model and compare the output with repeated evaluation.",
     [M+"field_lines.py"],
     [("trace_field_line / _trace_field_line", M+"field_lines.py")],
     ["eoxmagmod.trace_field_line"])

prop("C24", "Quasi-dipole and local-time functions map each element to its own result",
     "The quasi-dipole latitude/longitude, base-vector, magnetic-local-time and sub-solar-point functions pass every element of their inputs to the underlying computation exactly once with that element's own latitude, longitude, radius and time, and return its results at that element's place, in outputs of the input shape and in the documented order, whatever was computed before and whatever the memory layout of the inputs. The main field and coefficients used for an element are those of its own time, or of an earlier element of the same array less than about one day away; the coefficients are those of the requested file; times are resolved to the civil date and time of the day they fall on, before and after the year 2000. Inputs are not modified and inputs of different shapes are refused.",
     ["inputs"], "all input values, ranks and shapes",
     "Tests compare one recorded table per function.",
     [E+"pyqd_eval_qdlatlon.h", E+"pyqd_eval_mlt.h", E+"pyqd_eval_subsol.h", E+"quasi_dipole_coordinates.py", "qdipole/cqdipole.c", "qdipole/eval_qdlatlon.f90", "qdipole/eval_mlt.f90", "qdipole/eval_subsol.f90"],
     [("eval_qdlatlon", E+"pyqd_eval_qdlatlon.h"), ("eval_mlt", E+"pyqd_eval_mlt.h"), ("eval_subsol", E+"pyqd_eval_subsol.h")],
     ["eoxmagmod.eval_qdlatlon", "eoxmagmod.eval_qdlatlon_with_base_vectors", "eoxmagmod.eval_mlt", "eoxmagmod.eval_subsol"])

prop("C25", "Quasi-dipole coordinates and local times follow their defining formulas",
     "For every position above the ground and every epoch, the quasi-dipole latitude, longitude and base vectors are those of the spherical-harmonic expansion given by the apex coefficient file: a sum over all degrees, orders and powers of the reduced radius Re/(Re+altitude) at the geodetic position, with coefficients interpolated linearly between the epochs of the file and held constant outside of them, whatever elements, epochs and files were evaluated before; f is the size of the vector product of the two base vectors. The sub-solar point of every time of the years 1601 to 2100 follows the low-precision solar position formulas of the Astronomical Almanac (declination, and Greenwich hour angle from universal time and the equation of time) at that civil date and time; the magnetic local time of a quasi-dipole longitude is its angle from the anti-sunward meridian of the centred IGRF dipole, interpolated to the time, as hours.",
     ["inputs", "histories"], "all positions, epochs, times, coefficient files and call sequences",
     "Tests compare one recorded table computed by the same code.",
     ["qdipole/apexsh.f90", "qdipole/apex.f90", "qdipole/eval_qdlatlon.f90", "qdipole/eval_mlt.f90", "qdipole/eval_subsol.f90"],
     [("loadapxsh / apxg2q", "qdipole/apexsh.f90"), ("subsol / magloctm / cofrm / dypol / tmjd", "qdipole/apex.f90")],
     ["eoxmagmod.eval_qdlatlon", "eoxmagmod.eval_qdlatlon_with_base_vectors", "eoxmagmod.eval_mlt", "eoxmagmod.eval_subsol"])

if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
