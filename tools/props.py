"""Source of properties.jsonl and MANIFEST.json (run tools/mk.py)."""

TESTS = ("the tests sample a few fixed or random arrays per function with "
         "fixed small shapes; ")
PROPS = []


def prop(id, title, statement, over, text, why, files, mech, note,
         level="proof", claimed=True, na=None):
    PROPS.append(dict(
        id=id, title=title, statement=statement, over=over, text=text,
        why=why, files=files, mech=mech, note=note, level=level,
        claimed=claimed, na=na))


prop("C01", "Stokes and correlation conversion is exact and invertible",
     "Converting between Stokes parameters and linear or circular "
     "correlations gives, for every element, exactly the documented linear "
     "combination of the input quantities (or its real or imaginary part "
     "halved), wherever each quantity sits in the input and output schema. "
     "Converting to a complete set of correlations and back returns the "
     "original values, and a schema that the input cannot supply, or that "
     "does not match the input's shape, raises an exception. Lazy (chunked) "
     "and eager conversion agree.",
     ["inputs", "configurations"],
     "all data values, all leading shapes, every supported pairing and "
     "ordering of input and output schema",
     TESTS + "only a few schema orderings are compared with hand values",
     ["africanus/model/coherency/conversion.py",
      "africanus/model/coherency/dask.py"],
     [("conversion table", "conversion.py:stokes_conv"),
      ("schema walk and index resolution", "conversion.py:convert_setup, "
       "_element_indices_and_shape"),
      ("element loop", "conversion.py:convert")],
     "All numpy-level obligations discharged; the lazy wrapper is proved "
     "against an assumed contract of dask.array.blockwise.")

prop("C02", "Predicted visibilities follow the measurement equation",
     "For every row, channel and correlation the predicted visibility equals "
     "gain of antenna one times (base visibility plus the sum over sources "
     "of the direction dependent Jones product around the source coherency) "
     "times the conjugate transpose of the gain of antenna two, for every "
     "combination of supplied terms and for scalar, diagonal and full 2x2 "
     "Jones terms. Each row uses the Jones terms of its own time (relative "
     "to the smallest time index) and its own two antennas; incomplete pairs "
     "of Jones terms, wrong ranks and mixed correlation shapes raise an "
     "exception. The lazy predict_vis gives the eager result for every "
     "chunking of sources, channels and rows with their times, with and "
     "without streams, and refuses chunks it cannot match.",
     ["inputs", "configurations"],
     "all numbers of sources, times, antennas, rows, channels; all index "
     "vectors within range; all values",
     TESTS + "the prediction tests cannot even be imported with the "
     "installed numba, and would sample one shape",
     ["africanus/rime/predict.py", "africanus/rime/dask_predict.py"],
     [("jones multiplication kernels", "predict.py:jones_mul_factory"),
      ("source sum", "predict.py:sum_coherencies_factory"),
      ("gain application", "predict.py:apply_dies_factory"),
      ("argument checks", "predict.py:predict_checks"),
      ("chunked version", "dask_predict.py:predict_vis")],
     "Proved for all sizes by inferred and checked loop invariants; the lazy "
     "version is bounded.")

prop("C05", "Phase delay kernel has the documented phase",
     "For every source, row and channel the phase delay is the unit complex "
     "number exp(-2 pi i (u l + v m + w (n - 1)) nu / c) with n = "
     "sqrt(1 - l^2 - m^2), and its conjugate for the casa convention. "
     "The feed rotation matrices are the documented functions of the "
     "parallactic angle for linear and circular feeds.",
     ["inputs", "configurations"],
     "all source, row and channel counts, all coordinates with l^2 + m^2 "
     "< 1, both conventions, both feed types",
     TESTS + "and compare one random array with itself",
     ["africanus/rime/phase.py", "africanus/rime/feeds.py"],
     [("phase computation", "phase.py:phase_delay"),
      ("feed rotation", "feeds.py:feed_rotation")],
     "Proved over the reals with uninterpreted trigonometric functions.")

prop("C09", "Wide-field gridder wrappers apply the transform band by band",
     "Model visibilities, dirty images, residual images and the normal "
     "operator are, for every imaging band, the gridder's (de)gridding of "
     "exactly the rows and channels that belong to that band, with the "
     "weights and flags supplied, and zero influence of other bands. The "
     "residual image equals the dirty image of the data minus the model "
     "prediction, and the normal operator equals degridding followed by "
     "gridding. Results do not depend on how rows and bands are chunked.",
     ["inputs", "configurations"],
     "all visibilities, weights, flags, images; all row counts and band "
     "layouts (1 to 3 bands), every combination of optional arguments, "
     "eager and chunked",
     TESTS + "they check adjointness on a few grids, not where each channel "
     "goes or optional-argument combinations",
     ["africanus/gridding/wgridder/im2vis.py",
      "africanus/gridding/wgridder/vis2im.py",
      "africanus/gridding/wgridder/im2residim.py",
      "africanus/gridding/wgridder/hessian.py",
      "africanus/gridding/wgridder/dask.py"],
     [("band loops", "im2vis.py:_model_internal, vis2im.py:_dirty_internal"),
      ("residual", "im2residim.py:_residual_internal"),
      ("normal operator", "hessian.py:_hessian_internal"),
      ("chunked versions", "dask.py")],
     "Proved against an assumed contract of the external C++ gridder and of "
     "dask.array.blockwise; a bounded check compares with the real gridder.")

prop("C22", "Chunk aggregation and correlation shapes are exact",
     "Aggregated chunks keep the total length of every dimension, consist of "
     "whole consecutive input chunks grouped identically in all dimensions, "
     "are never empty, never exceed the limits unless a single input chunk "
     "does, and cannot be extended by the next input chunk. Mismatched "
     "arguments raise an exception. The correlation shape is (n,) when flat "
     "and (1,), (2,) or (2, 2) as a matrix; other requests are refused.",
     ["inputs", "configurations"],
     "all chunk sizes and limits for up to 5 chunks (proved) and up to 10 "
     "(bounded) in up to 3 dimensions",
     TESTS + "a handful of chunk tuples are tested",
     ["africanus/util/shapes.py"],
     [("greedy aggregation", "shapes.py:aggregate_chunks"),
      ("shape table", "shapes.py:corr_shape")],
     "Chunk sizes are unbounded integers; the number of chunks is "
     "enumerated.")

prop("C17", "Hogbom CLEAN keeps residual, model and dirty image consistent",
     "However many iterations run, the residual image returned by "
     "hogbom_clean equals the dirty image minus the model convolved with the "
     "point spread function. The peak found is the true maximum of the "
     "residual, each component adds gain times the peak at that position, "
     "and the loop stops after niter components or as soon as the peak is "
     "at or below the threshold fraction of the first peak. A point spread "
     "function that is not twice the image size is refused.",
     ["inputs", "histories"],
     "all square images of every size, all point spread functions of twice "
     "that size, all gains, thresholds and iteration limits",
     TESTS + "there is one smoke test of the clean loop",
     ["africanus/deconv/hogbom/clean.py"],
     [("peak search", "clean.py:find_peak"),
      ("component and residual update", "clean.py:build_cleanmap, "
       "update_residual"),
      ("main loop", "clean.py:hogbom_clean"),
      ("restoring beam", "clean.py:twod_gaussian, restore")],
     "The loop invariant is proved by a Hoare rule for an unbounded number "
     "of iterations; restore is a bounded check (it calls a curve fitter "
     "and an FFT).")

prop("C18", "Kronecker operators equal the dense Kronecker product",
     "For every list of real or complex factors, the Kronecker matrix-vector "
     "and matrix-matrix products, square or rectangular, equal the product with "
     "the dense Kronecker product of the factors, with the output length "
     "the product of the factors' row counts. The Kronecker Cholesky factor "
     "is the list of the Cholesky factors of the inputs, which are left "
     "unchanged.",
     ["inputs"],
     "all real or complex factor matrices of all sizes (above 127 too), "
     "one to three factors; all right hand sides",
     TESTS + "one random set of factors with small fixed sizes is compared",
     ["africanus/linalg/kronecker_tools.py"],
     [("index shuffling loops", "kronecker_tools.py:kron_matvec, "
       "kron_tensorvec, kron_matmat, kron_tensormat"),
      ("cholesky", "kronecker_tools.py:kron_cholesky")],
     "Sizes and values are unbounded; the number of factors is enumerated.")

prop("C19", "Gaussian process covariance follows its definition",
     "The distance between any two points is the Euclidean distance, and "
     "the squared exponential covariance of any two points is sigma^2 "
     "exp(-|x - y|^2 / (2 l^2)); the covariance of a point set with itself "
     "is symmetric with sigma^2 on the diagonal. The power spectrum is "
     "refused with NotImplementedError for more than one dimension, with "
     "ValueError for unequal point sets and irregular grids.",
     ["inputs"],
     "all point sets of all sizes and dimensions, all amplitudes and non "
     "zero length scales",
     TESTS + "one kernel evaluation is compared on one grid",
     ["africanus/gps/kernels.py", "africanus/gps/utils.py"],
     [("distance", "utils.py:abs_diff"),
      ("kernel", "kernels.py:exponential_squared")],
     "Proved over the reals; the refusal of power spectra is bounded.")

prop("C03", "Applying and removing gains are exact inverses per time bin",
     "Corrupted visibilities are, for every row of every time bin, channel "
     "and correlation, the sum over directions of G_p M G_q^H with the gains "
     "of that bin and of the row's two antennas (for diagonal and full "
     "gains); residuals are the data minus that sum and zero where any "
     "correlation is flagged. Corrupting corrected visibilities returns the "
     "unflagged input, and correcting direction dependent gains is refused. "
     "Chunking at time boundaries does not change any result and no caller "
     "array is modified.",
     ["inputs", "configurations"],
     "all numbers of times, antennas, channels, directions and rows per "
     "bin; all gains, data, flags; 1, 2 and 2x2 correlations",
     TESTS + "the calibration tests cannot be imported with the installed "
     "numba and would sample one shape",
     ["africanus/calibration/utils/corrupt_vis.py",
      "africanus/calibration/utils/correct_vis.py",
      "africanus/calibration/utils/residual_vis.py",
      "africanus/calibration/utils/compute_and_corrupt_vis.py",
      "africanus/calibration/utils/utils.py",
      "africanus/calibration/utils/dask.py"],
     [("gain application", "corrupt_vis.py:corrupt_vis"),
      ("gain removal", "correct_vis.py:correct_vis"),
      ("residual", "residual_vis.py:residual_vis"),
      ("model prediction", "compute_and_corrupt_vis.py:"
       "compute_and_corrupt_vis"),
      ("chunked versions", "dask.py")],
     "Proved with inferred loop invariants; the lazy wrappers are proved "
     "against an assumed contract of dask.array.blockwise.")

prop("C04", "Phase-only calibration solves the weighted normal equations",
     "The diagonal of J^H J and the projected residual J^H r are, for every "
     "time bin, antenna, channel, direction and correlation, the sums over "
     "exactly the unflagged rows of that bin in which the antenna takes "
     "part, with opposite signs for first and second antenna. A "
     "Gauss-Newton step adds half the real part of J^H r / J^H J, evaluated "
     "with data and model scaled by the square root of the weights, to the "
     "gain phases; iteration stops at the tolerance or after maxiter steps. "
     "Lazy and eager versions agree and no caller array is modified.",
     ["inputs", "configurations", "histories"],
     "all numbers of times, antennas, channels, directions and rows per "
     "bin; all gains, data, flags and weights; 1 and 2 correlations",
     TESTS + "the tests cannot be imported with the installed numba",
     ["africanus/calibration/phase_only/phase_only.py",
      "africanus/calibration/phase_only/dask.py"],
     [("normal equations", "phase_only.py:compute_jhj, compute_jhr, "
       "compute_jhj_and_jhr"),
      ("iteration", "phase_only.py:gauss_newton"),
      ("chunked versions", "dask.py:compute_jhj, compute_jhr")],
     "Normal equations and the single step are proved; the number of "
     "iterations is a bounded check.")

prop("C06", "Direct Fourier transforms are the documented sums and adjoint",
     "im_to_vis gives, for every row, channel and correlation, the sum over "
     "sources of the brightness times exp of (minus, for the fourier "
     "convention) 2 pi i freq/c (u l + v m + w (n-1)), and vis_to_im the "
     "corresponding sum over unflagged visibilities; an unknown convention "
     "raises an exception. The two are adjoint to each other, in either "
     "convention, and the lazy versions agree with the eager ones.",
     ["inputs", "configurations"],
     "all numbers of sources, rows, channels and correlations; all source "
     "positions, uvw, frequencies, values and flags",
     TESTS + "the dft tests cannot be imported with the installed numba and "
     "would compare one fixed sky",
     ["africanus/dft/kernels.py", "africanus/dft/dask.py"],
     [("transforms", "kernels.py:im_to_vis, vis_to_im"),
      ("chunked versions", "dask.py:im_to_vis, vis_to_im")],
     "Proved over the reals with exp uninterpreted; adjointness is proved "
     "from the two contracts; the lazy wrappers are proved against an "
     "assumed contract of dask.array.blockwise.")

prop("C07", "Averaging conserves and attributes every sample to its own bin",
     "Time and channel averaging sends every row to one output row of the "
     "same baseline and every channel c to bin c // chan_bin_size, in time "
     "order, with no empty bin and no time bin longer than time_bin_secs. "
     "Each output is exactly the documented mean, sum, weighted mean or "
     "propagated sigma over the unflagged samples of its bin, or over the "
     "flagged ones when there is no unflagged one, and is flagged exactly "
     "then. Contradicting flags and duplicate rows raise an exception, and "
     "the lazy version averages each chunk as the eager one.",
     ["inputs", "configurations"],
     "all row and channel maps, numbers of rows, channels and correlations, "
     "all subsets of optional arrays and all values and flags",
     TESTS + "the averaging tests cannot be imported with the installed "
     "numba",
     ["africanus/averaging/time_and_channel_avg.py",
      "africanus/averaging/time_and_channel_mapping.py",
      "africanus/averaging/support.py", "africanus/averaging/dask.py"],
     [("averages", "time_and_channel_avg.py:row_average, chan_average, "
       "row_chan_average"),
      ("maps", "time_and_channel_mapping.py:row_mapper, channel_mapper"),
      ("chunked version", "dask.py:time_and_channel")],
     "The three averages and the channel map are proved for arbitrary maps; "
     "row_mapper, merge_flags, their composition and the lazy version are "
     "bounded checks.")

prop("C11", "Direction cosines and sky coordinates are mutually consistent",
     "radec_to_lm and radec_to_lmn return, for every source, the documented "
     "direction cosines relative to the phase centre (zero by default), with "
     "n = sqrt(1 - l^2 - m^2). "
     "lm_to_radec and lmn_to_radec return a position whose direction cosines "
     "are the given ones, for every phase centre and every (l, m) on the "
     "front hemisphere. The lazy versions agree with the eager ones.",
     ["inputs", "configurations"],
     "all source positions, phase centres, numbers of sources and chunkings",
     TESTS + "the tests compare with one astropy sample, without a quadrant "
     "change in right ascension",
     ["africanus/coordinates/coordinates.py",
      "africanus/coordinates/dask.py"],
     [("conversions", "coordinates.py:radec_to_lm, radec_to_lmn, "
       "lm_to_radec, lmn_to_radec"),
      ("chunked versions", "dask.py:radec_to_lm, radec_to_lmn, lm_to_radec, "
       "lmn_to_radec")],
     "Proved over the reals with the trigonometric functions uninterpreted "
     "apart from the listed identities; lazy wrappers against an assumed "
     "contract of dask.array.blockwise.")

prop("C13", "Source spectra and Gaussian shapes are the documented formulas",
     "spectral_model gives, for every source, channel and polarisation, the "
     "stokes value times the ordinary product, or exp/power-of-ten log "
     "polynomial, selected for that polarisation by base; spectra gives the "
     "WSClean ordinary or logarithmic polynomial chosen per source. "
     "gaussian gives exp of minus the squared elliptical uv distance scaled "
     "by frequency, reducing to 1 for zero extent. Invalid bases and shape "
     "combinations raise an exception; lazy versions agree with eager ones.",
     ["inputs", "configurations"],
     "all numbers of sources, rows, channels, polarisations and spectral "
     "terms; all values; every accepted base",
     TESTS + "the tests of these modules cannot be imported with the "
     "installed numba",
     ["africanus/model/spectral/spec_model.py",
      "africanus/model/spectral/dask.py",
      "africanus/model/shape/gaussian_shape.py",
      "africanus/model/shape/dask.py",
      "africanus/model/wsclean/spec_model.py",
      "africanus/model/wsclean/dask.py"],
     [("spectra", "spectral/spec_model.py:spectral_model; "
       "wsclean/spec_model.py:spectra, log_spectra, ordinary_spectra"),
      ("shape", "shape/gaussian_shape.py:gaussian"),
      ("chunked versions", "the three dask.py modules")],
     "Proved over the reals with exp, log and power uninterpreted apart from "
     "listed identities; refusals by value in wsclean are bounded.")

prop("C12", "Direction dependent Jones terms are the documented functions",
     "feed_rotation returns the documented linear or circular matrix of every "
     "parallactic angle, transform_sources the rotated, offset and scaled "
     "coordinates, and beam_cube_dde the trilinear interpolation (amplitude "
     "and direction separately) of the beam cube at each source's scaled, "
     "offset, rotated and clamped position and frequency. zernike_dde is the "
     "sum of the coefficients times their Zernike polynomials, zero outside "
     "the unit disc. Invalid feeds, beams with fewer than two planes and "
     "chunked beams raise an exception; lazy versions agree with eager ones.",
     ["inputs", "configurations"],
     "all numbers of sources, times, antennas, channels, beam planes and "
     "polynomials; all positions, angles, errors, scalings and frequencies",
     TESTS + "the rime tests cannot be imported with the installed numba",
     ["africanus/rime/feeds.py", "africanus/rime/transform.py",
      "africanus/rime/fast_beam_cubes.py", "africanus/rime/zernike.py",
      "africanus/rime/parangles.py", "africanus/rime/dask.py"],
     [("feeds and coordinates", "feeds.py:feed_rotation, "
       "transform.py:transform_sources"),
      ("beam", "fast_beam_cubes.py:beam_cube_dde, freq_grid_interp"),
      ("zernike", "zernike.py:zernike_dde, nb_zernike_dde"),
      ("chunked versions", "dask.py:feed_rotation, transform_sources, "
       "beam_cube_dde, zernike_dde")],
     "Proved over the reals; the beam for one correlation and against the "
     "contract of freq_grid_interp, which is itself a bounded check, as are "
     "the Zernike polynomials and several correlations.")

prop("C15", "Spectral index fits make exact, consistent Gauss-Newton steps",
     "Every iteration of fit_spi_components makes, for each component on its "
     "own, the weighted Gauss-Newton step of the documented power law seen "
     "through its beam, and the variances reported are those of the last "
     "step; it stops at the tolerance or after maxiter iterations. Without "
     "guesses it starts at index -0.7 and the beam-corrected data of the "
     "channel nearest the reference frequency, and it recovers exact power "
     "laws. Data that is neither float32 nor float64 raises ValueError; the "
     "lazy version gives the eager result for every chunking of components "
     "and channels and has the same defaults.",
     ["inputs", "configurations"],
     "at least three channels, a positive number of iterations and a "
     "tolerance below 1; a step is proved for every number of channels and "
     "all values, for one and two components",
     TESTS + "the tests of this module cannot be imported with the "
     "installed numba",
     ["africanus/model/spi/component_spi.py", "africanus/model/spi/dask.py"],
     [("fit", "component_spi.py:fit_spi_components, "
       "_fit_spi_components_impl"),
      ("chunked version", "spi/dask.py:fit_spi_components")],
     "The step and its variances are proved over the reals; sequences of "
     "steps, first guesses, recovery, refusals and the lazy version are "
     "bounded.")

prop("C08", "Cubic splines interpolate smoothly and keep their end conditions",
     "For increasing knots, fit_cubic_spline returns pieces that pass through "
     "every knot's value with continuous slope and curvature, and have the "
     "requested slope or curvature at either end, chosen independently. "
     "evaluate_spline returns, for any point, the value or the first or "
     "second derivative of the piece the point lies in, or of the quadratic "
     "continuation beyond the end knots, independently of the other points. "
     "End conditions and orders that do not exist raise ValueError.",
     ["inputs", "configurations"],
     "all numbers of knots from two, all values, all end conditions",
     TESTS + "the test of this module cannot be imported with the installed "
     "numba",
     ["africanus/averaging/splines.py"],
     [("system", "splines.py:solve_trid_system"),
      ("pieces", "splines.py:fit_cubic_spline"),
      ("evaluation", "splines.py:evaluate_spline")],
     "Pieces are proved for every number of knots, the tridiagonal solver "
     "for two to six knots; larger systems, evaluation and refusals are "
     "bounded.")

prop("C14", "WSClean models are read faithfully and predicted exactly",
     "load returns, for every line of a WSClean component list and under the "
     "column's name, the value in the documented unit (radians, Hz), with "
     "the header's defaults for empty fields, and raises ValueError for a "
     "malformed file. wsclean_predict gives, for every row and channel, the "
     "sum over all sources of the source spectrum times "
     "exp(+2 pi i freq/c (u l + v m + w (n-1))), times the Gaussian shape "
     "for GAUSSIAN sources; other types raise ValueError. Lazy and eager "
     "prediction agree for every chunking, also over sources.",
     ["inputs", "configurations"],
     "all numbers of sources, rows, channels and coefficients; all values; "
     "all column orders and subsets",
     TESTS + "the tests of these modules cannot be imported with the "
     "installed numba",
     ["africanus/rime/wsclean_predict.py", "africanus/rime/dask_predict.py",
      "africanus/model/wsclean/file_model.py"],
     [("prediction", "wsclean_predict.py:wsclean_predict_impl, "
       "wsclean_predict"),
      ("chunked prediction", "dask_predict.py:wsclean_predict"),
      ("reading", "file_model.py:load")],
     "The prediction is proved, with the spectra by contract (C13); reading "
     "files, refusals and the lazy version are bounded checks.")

prop("C16", "Polyhedron gridding and degridding follow their policies exactly",
     "The gridder adds every visibility, converted to the requested Stokes "
     "parameter and phase rotated to the facet centre, to the cells around "
     "its transformed, wavelength-scaled coordinate in its channel's band, "
     "weighted by the kernel, and the degridder reads them back at the same "
     "coordinates with the opposite phase; neither modifies its inputs. "
     "Stokes conversions follow the correlation definitions, kernels survive "
     "packing, and the dask versions give, per facet, the same result for "
     "every chunking.",
     ["inputs", "configurations"],
     "all rows, channels, grid sizes, kernels, oversampling factors, centres "
     "and channel maps",
     TESTS + "the tests of these modules cannot be imported with the "
     "installed numba",
     ["africanus/gridding/perleypolyhedron/gridder.py",
      "africanus/gridding/perleypolyhedron/degridder.py",
      "africanus/gridding/perleypolyhedron/dask.py",
      "africanus/gridding/perleypolyhedron/kernels.py",
      "africanus/gridding/perleypolyhedron/policies/convolution_policies.py"],
     [("gridding", "gridder.py:gridder"),
      ("degridding", "degridder.py:degridder_row_kernel, degridder, "
       "degridder_serial"),
      ("policies", "policies/*.py:policy, corr2stokes, stokes2corr"),
      ("kernels", "kernels.py:pack_kernel, unpack_kernel"),
      ("lazy", "dask.py:gridder, degridder")],
     "Policies, packing, scatter for any width, the degridder for one tap "
     "and the gridder for the nearest cell are proved; wider gather, kernels, "
     "detapering, the dask versions and refusals are bounded checks.")

prop("C21", "Cell sizes, beam grids and file names follow from their inputs",
     "estimate_cell_size returns, for both axes, half the finest resolution "
     "the longest baseline gives at the shortest wavelength, divided by the "
     "Nyquist factor, in arcseconds, and raises ValueError exactly when a "
     "grid of that size cannot hold the shortest baseline. FITS axes and "
     "beam grids reproduce the header's pixel coordinates in the requested "
     "units, the beam factory's headers describe the cube it writes, and one "
     "real and one imaginary file name is given per correlation, in order. "
     "Type inference returns the smallest complex type holding all arguments.",
     ["inputs", "configurations"],
     "all coordinates and wavelengths, scalar or array, all grid sizes; all "
     "headers; all feed types and file patterns",
     TESTS + "headers in the tests are symmetric and the cell size tests "
     "use one configuration",
     ["africanus/gridding/util.py", "africanus/util/beams.py",
      "africanus/testing/beam_factory.py", "africanus/util/type_inference.py",
      "africanus/util/casa_types.py"],
     [("cell size", "gridding/util.py:estimate_cell_size"),
      ("beam axes", "util/beams.py:FitsAxes, axis_and_sign, beam_grids"),
      ("beam names", "util/beams.py:beam_filenames"),
      ("beam factory", "testing/beam_factory.py:beam_factory"),
      ("types", "util/type_inference.py:infer_complex_dtype")],
     "The cell size is proved for all sizes; headers, file names and types "
     "are bounded checks.")

prop("C23", "Utilities keep their documented contracts for every input",
     "Assignment strings evaluate to exactly the Python literals written in "
     "them and anything else raises ValueError; memoised functions and "
     "singletons evaluate once per key, also from several threads; optional "
     "requirements raise exactly when a requirement is missing; docstring "
     "and code templates substitute without changing other text; a file's "
     "hash is that of its bytes. The progress bar counts every task once, and "
     "its estimate changes only when further tasks have completed.",
     ["inputs", "histories"],
     "all strings of literals, all call sequences, all files, all task "
     "histories",
     TESTS + "the tests call each utility with one or two inputs",
     ["africanus/util/cmdline.py",
      "africanus/util/code.py", "africanus/util/docs.py",
      "africanus/util/requirements.py", "africanus/util/files.py",
      "africanus/util/dask_util.py"],
     [("assignments", "cmdline.py:parse_python_assigns"),
      ("memoisation", "code.py:memoize_on_key, SingletonMixin"),
      ("requirements", "requirements.py:requires_optional"),
      ("documentation", "docs.py:DocstringTemplate; code.py:format_code"),
      ("hashes", "files.py:sha_hash_file"),
      ("progress", "dask_util.py:EstimatingProgressBar")],
     "Bounded check: strings, files and threads are outside the verifier's "
     "reach, the contracts are evaluated on the real functions for a bounded "
     "number of generated cases.", level="other")

prop("C20", "Image regions select, mask, split and stitch exactly their pixels",
     "A pixel belongs to a hull or box exactly when it lies within it, and "
     "its mask holds exactly those pixels, also after masks were assigned or "
     "normalised, when overlapping regions' weights add up to one per pixel. "
     "Bounding, padded and split boxes contain, respectively partition, the "
     "region they are made from, with the requested sizes; hulls overlap "
     "exactly when no edge normal separates them by more than the given "
     "distance. Extracted regions hold the image's pixels times the mask and "
     "oob_value elsewhere, stitching them back adds them up in place, and "
     "inputs are left alone.",
     ["inputs", "histories"],
     "all corner coordinates, sizes, images, axes and masks",
     "there is one test with one set of regions, which does not pass "
     "reliably at the pinned commit",
     ["africanus/linalg/geometry.py"],
     [("membership", "geometry.py:BoundingConvexHull.__contains__, "
       "BoundingBox.__contains__"),
      ("masks", "geometry.py:BoundingConvexHull.init_mask, sparse_mask, mask, "
       "normalize_masks"),
      ("factories", "geometry.py:BoundingBoxFactory"),
      ("overlap", "geometry.py:BoundingConvexHull.overlaps_with"),
      ("data", "geometry.py:BoundingConvexHull.regional_data, "
       "BoundingBox.project_regions")],
     "Membership, edges, areas, factories and box overlap are proved for all "
     "coordinates; masks, extraction, stitching and the overlap of general "
     "hulls are bounded checks.")
