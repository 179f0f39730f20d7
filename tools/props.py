"""Single source of properties.jsonl and MANIFEST.json (run tools/mk.py)."""
B = "pycomlink/processing/baseline.py"
X = "pycomlink/processing/xarray_wrapper.py"
K = "pycomlink/processing/k_R_relation.py"
W = "pycomlink/processing/wet_antenna.py"
G = "pycomlink/processing/blackout_gap_detection.py"
NW = "pycomlink/processing/wet_dry/nearby_wetdry.py"
NR = "pycomlink/processing/nearby_rain_retrival.py"
I = "pycomlink/spatial/idw.py"
P = "pycomlink/spatial/interpolator.py"
ST = "pycomlink/validation/stats.py"
V = "pycomlink/validation/validator.py"
TI = "pycomlink/processing/pytorch_utils/inference_utils.py"
TR = "pycomlink/processing/pytorch_utils/run_inference.py"
TU = "pycomlink/processing/pytorch_utils/pytorch_utils.py"
FI = "pycomlink/processing/tensorflow_utils/inference_utils.py"
FR = "pycomlink/processing/tensorflow_utils/run_inference.py"
LZ = "pycomlink/processing/tensorflow_utils/lazy_tf.py"
MLP = "pycomlink/processing/wet_dry/mlp.py"
SF = "pycomlink/processing/wet_dry/stft.py"
MM = "pycomlink/processing/min_max.py"
CV = "pycomlink/spatial/coverage.py"
TP = "pycomlink/util/temporal.py"
H5 = "pycomlink/io/cmlh5_to_xarray.py"
HV = "pycomlink/spatial/helper.py"

# id, title, statement, over, quantifier text, why tests cannot, files, mechanism
PROPS = [
 ("C01", "Constant baseline follows dry signal and is frozen in wet periods",
  "For every signal, wet/dry series and averaging length n, the constant baseline equals the signal at every dry step and at the first n steps, and during a whole wet period it stays at one level, the mean of the n baseline values directly before the period. A missing wet/dry flag makes the baseline missing at that step and for a wet period that directly follows, until the next dry step. The result has the length of the input and no value depends on later samples.",
  ["inputs"], "all series of signal values and of flags {dry, wet, missing}, all n >= 1, all accepted containers and dtypes",
  "The tests run a single workflow on example data; runs of wet/dry/missing in every order, n > 1 and missing flags are not reached.",
  [B], [("loop over samples carrying the last baseline", B)]),
 ("C02", "Linear baseline interpolates wet periods between their dry ends",
  "The linear baseline equals the signal at dry steps (the first step counts as dry) and is the straight line between the last dry value before and the first dry value after each wet period. Missing flags either continue the previous state (if ignored) or make the baseline missing from the last dry step before to the first dry step after the period that contains them. A wet period that has not ended at the end of the series has a missing baseline, never an invented number.",
  ["inputs"], "all series of signal values and of flags {dry, wet, missing}, both settings of ignore_nan, numpy and pandas input",
  "No test exercises the linear baseline with missing flags, open ends or adjacent periods.",
  [B], [("retroactive linspace at the end of a wet period", B)]),
 ("C03", "Blackout gaps are found exactly where low signal borders missing data",
  "A sample is marked as gap start (gap end) exactly if it is below the threshold and the next (previous) sample exists and is missing. The gap mask derived from the markers contains only missing samples, and a run of missing samples is masked as a whole or not at all: it is masked when a start marker directly precedes it. Applying it forward and on the reversed series marks every gap that has a start or an end marker.",
  ["inputs"], "all series over {missing, below, equal to, above threshold}, numpy, pandas and DataArray input",
  "Three hand-written series are tested; border samples, adjacent gaps, equality with the threshold and DataArrays are not.",
  [G, X], [("comparison with neighbours, run scan", G)]),
 ("C04", "Attenuation to rain rate: power law, thresholding, missing data",
  "Every rain rate returned for an attenuation A is the R with A = a * R**b * L, except that it is exactly 0 if A is negative or that R is below R_min, and missing exactly if A is missing; each value depends only on its own A (and its own frequency and polarization), never on neighbours, container or shape. The coefficients of calc_R_from_A can be given as (frequency, polarization) or as (a, b) with equal results, and every other combination of these arguments is rejected with ValueError. The min/max variant follows the same law with a replaced by a * (ln(k) + 0.57721566)**b.",
  ["inputs", "configurations"], "all attenuation arrays (any shape, missing, negative, zero, infinite), lengths, coefficients, R_min, frequency/polarization as scalar or per value",
  "Tests use a few positive arrays; thresholds, per-value frequencies with missing data and all argument combinations are not covered.",
  [K], [("masked power law", K), ("argument combination guard", K)]),
 ("C05", "k-R coefficients match the ITU tables for every frequency and polarization",
  "At every frequency tabulated in the chosen ITU recommendation (2003 or 2005) the returned coefficients are those of the table for the given polarization, and between the tabulated frequencies they follow the smooth cubic interpolation. They depend element by element only on frequency and polarization, for all documented spellings of the polarization and for scalars, arrays and DataArrays (whose coordinates are kept). Frequencies outside 1 to 100 GHz, unknown polarizations or approximations and mismatching shapes are rejected.",
  ["inputs", "configurations"], "all frequencies in [1, 100], both polarizations in all spellings, both tables, all shapes and containers",
  "Tests compare a handful of frequencies.",
  [K], [("table lookup with cubic interpolation, polarization masks", K)]),
 ("C06", "Dynamic wet antenna model follows its recursion and bounds",
  "The wet antenna attenuation of Schleiss starts at 0, never exceeds waa_max or the observed attenuation, during wet steps approaches waa_max from the previous value by the fraction 3*delta_t/tau of the remaining difference (capped by the attenuation), and at all other steps equals the attenuation capped at waa_max. Missing attenuation gives a missing value at that step only. No value depends on later samples.",
  ["inputs"], "all series of signal, baseline and flags (wet, dry, missing), all parameters",
  "One short example series is tested.",
  [W], [("recursive update", W)]),
 ("C07", "Static wet antenna models: formula, bounds and inversion agree",
  "The models of Leijnse and Pastorek give 0 exactly for rain rate 0, follow their published formula (Pastorek: A_max * (1 - exp(-d * R**zeta)); Leijnse: two layer transmission loss for a water film of thickness gamma * R**delta, with the water permittivity of Liebe), and accept scalars and arrays. The variants working on the observed attenuation invert them: if the observed attenuation is the rain attenuation of R plus the wet antenna attenuation of R, they return the latter (up to the resolution of their lookup table), never more than the observed attenuation. Negative observed attenuation is rejected and missing values stay missing.",
  ["inputs", "configurations"], "all rain rates, frequencies, polarizations, lengths and model parameters in the physical range",
  "Tests compare stored arrays for a few settings with default parameters.",
  [W], [("closed formula", W), ("lookup table inversion", W)]),
 ("C08", "Labelled arrays give the same numbers as processing each series alone",
  "For every function that works along time, calling it with DataArrays of any number and order of dimensions (time series and per-link parameters) gives, for every link and channel, exactly the values of calling it with the plain series of that link, with the labels of the input. This holds no matter whether arguments are passed by position, by keyword or left to their defaults, and a call with unknown, surplus, duplicate or missing arguments is rejected instead of silently ignored.",
  ["inputs", "configurations"], "all decorated functions, all splits of arguments into positional/keyword/default, all dimension orders, per-link parameters as DataArrays",
  "Tests cover one workflow with one layout and the internal argument helper on one function.",
  [X, B, W, K, G, NR], [("argument binding and apply_ufunc along time", X)]),
 ("C09", "Distance matrix between link endpoints is complete and labelled right",
  "For every set of links the four matrices hold the great circle distance (earth radius 6367 km) from endpoint A/B of the first link to endpoint A/B of the second, at the labels of these links, with all distances of a link to itself set to 0. Hence a_to_all_b is the transpose of b_to_all_a, the other two are symmetric, and no entry is missing or depends on the order in which links are given.",
  ["inputs"], "all link sets, coordinates, id types and orders",
  "One set of four links is compared for one of the four matrices.",
  [NW, HV], [("haversine per row, diagonal reset", NW)]),
 ("C10", "Nearby-link wet/dry classification follows the neighbourhood medians",
  "A link is classified at a time step iff more than min_links links (itself included) lie within the radius at all four endpoint distances and have data: it is wet iff the medians over these links of the signal drop below the maximum of the preceding period, and of this drop per length, are below their thresholds, and additionally the two steps before and the step after a wet step with a drop of more than 2 dB become wet; otherwise it is dry, and missing when it cannot be classified. The F score is the sum over the preceding period of the link's own specific drop minus the median, times the interval in hours. Neighbours are matched by link id, independent of the order of links.",
  ["inputs", "configurations"], "all networks, signal histories with missing data, thresholds, radii, intervals",
  "One network with identical signals and one missing-data case are tested.",
  [NW], [("rolling maximum, neighbourhood selection, medians, shifting", NW)]),
 ("C11", "Nearby-link reference level, signal correction and rain retrieval",
  "The reference level at each step is the median of the mean of pmin and pmax over the dry steps of the last n steps (missing if there are fewer than min_periods of them), steps that are wet or unclassified never contribute. The corrected signals equal the reference level except at wet steps where the signal is below it (pmax additionally only where the corrected pmin is below the reference). The rain rate is the alpha-weighted mean of the rain rates of the two attenuations reduced by the wet antenna attenuation and never negative, so it is 0 where neither signal is below the reference by more than that, and missing where the F score is at or below its threshold.",
  ["inputs", "configurations"], "all signal histories, classifications with missing values, parameters",
  "One synthetic series is tested.",
  [NR], [("masked rolling median, where-corrections, power law", NR)]),
 ("C12", "IDW value semantics",
  "The value interpolated at a point is the mean of the nnear nearest stations within max_distance weighted with 1/distance**p, exactly the station value at a station, and missing if no station is within max_distance. It therefore lies between the smallest and largest used value, does not change when all coordinates are moved or scaled together (with max_distance, and as long as distances stay above 1e-10, below which a point counts as being at the station), or when the stations are reordered. Which of equally distant stations, or of stations exactly at max_distance, are used is left open.",
  ["inputs", "configurations"], "all station layouts, query points, nnear (also more than there are stations), p, max_distance",
  "Tests compare stored values for a few layouts.",
  [I], [("KD tree query and weighting loop", I)]),
 ("C13", "IDW results do not depend on the calls made before",
  "Whatever sequence of interpolations is made with one interpolator or distance tree (changed query points or grids, stations, values, missing stations, nnear, p, max_distance, or arrays given to an earlier call changed in place between calls), each result equals that of a newly created one given the same arguments. Cached neighbours are only a matter of speed.",
  ["histories", "inputs"], "all sequences of calls and in-place modifications",
  "Tests make at most two calls; cache reuse after a change of a parameter is not tested.",
  [I, P], [("cache keys of the distance tree and of the interpolator", I + " " + P)]),
 ("C14", "Points-to-grid interpolation respects grid, stations and missing values",
  "The result has the shape of the grid and the value at a grid point belongs to the coordinates of that point, for given grids and for grids generated from a resolution, which start one resolution below the smallest and reach the largest station coordinate in steps of the resolution. Stations with missing value have no influence when they are excluded, if all values are missing the whole grid is missing, and asking for neither grid nor resolution is rejected. Kriging gives the ordinary kriging estimate for the chosen variogram model, parameters and number of closest stations (spherical with sill 0.9, range 1, nugget 0.1 and all stations if not given), hence it honours the station values without nugget and reproduces a constant field.",
  ["inputs", "configurations"], "all station sets with missing values, grids (irregular, single row/column), resolutions, both interpolators",
  "Tests use one grid per interpolator.",
  [P], [("grid generation, flattening and reshaping, NaN exclusion", P)]),
 ("C15", "Wet/dry performance metrics are those of the contingency table",
  "For every pair of wet/dry arrays the counts (true/false/missed, reference wet/dry, missing in reference, predicted, either) are those of the pairs, pairs with a missing value being excluded from everything but the missing and total counts, and the rates and the Matthews correlation follow from the counts by their definition (missing where it divides by 0), 0 being reported for the correlation if nothing is predicted wet. The result depends only on the multiset of pairs, and swapping wet and dry in both arrays swaps the roles of the wet and dry counts.",
  ["inputs"], "all pairs of arrays over {wet, dry, missing}, all dtypes",
  "One pair of arrays with and without missing values is tested.",
  [ST], [("NaN masking and counting", ST)]),
 ("C16", "Rainfall performance metrics follow their definitions",
  "For every pair of rainfall arrays all reported sums, means, errors (RMSE, MAE, Pearson correlation, coefficient of variation as standard deviation of the differences over the mean reference), wet/dry rates and mean rain rates of false and missed wet events are those of the pairs in which both values are present, wet meaning above the given threshold. The missing and total counts describe the input arrays, and the metrics do not depend on the order of the pairs.",
  ["inputs"], "all pairs of arrays with missing values, thresholds",
  "One pair of arrays is tested.",
  [ST], [("NaN masking and metric formulas", ST)]),
 ("C17", "Temporal aggregation puts every sample into its interval, once",
  "Aggregating onto a new time index assigns every sample of the common period to the next (label right) or the last (label left) new time stamp of that period (a sample at a time stamp belongs to it, samples without such a time stamp are not used) and returns for each time stamp that received samples the aggregate of exactly these samples. Samples outside the common period are not used, instants are compared across time zones (a naive new index is taken in the given zone), the time stamps of the result are instants of the new index, and the input is not changed.",
  ["inputs", "configurations"], "all sample times and new indexes (irregular, partially overlapping), labels, time zones, aggregation functions",
  "The function has no test at all.",
  [TP], [("cropping, reindex with fill, groupby", TP)]),
 ("C18", "Grid validation time series is the path-weighted sum over the pixels",
  "For a link and a gridded field, the reference series contains exactly the grid time steps strictly between the first time of channel 1 and the last time of channel 2 of the link, and each value is the sum over the pixels of field value times the fraction of the link path in that pixel, so a constant field is reproduced for a link inside the grid. Resampling link data to the grid times averages all samples of an interval under its right or left label.",
  ["inputs", "configurations"], "all grids, fields, link geometries inside the grid, time ranges",
  "The tests cover the external intersection weights only.",
  [V], [("bounding box of the weights, time mask, weighted sum", V)]),
 ("C19", "Reading a CML file keeps all links, channels, times and metadata",
  "For every file in the documented layout the reader returns one dataset per link, containing every channel under its name with exactly the stored transmitted and received levels at the stored times (seconds since epoch), and the link id, coordinates, polarization, frequency in GHz and the great circle length of the link. Nothing is mixed between links or channels, whatever their number, names and order.",
  ["inputs"], "all files: numbers of links/channels/samples, names, missing values, metadata",
  "Tests read the one example file.",
  [H5], [("iteration over groups, concat over channels", H5)]),
 ("C20", "Model cache never hands out an incomplete or wrong file",
  "Whatever happens during downloads (interruption by an error at any point, the process being killed, forced re-download, several processes or URLs using the cache at once), a path returned for a URL holds the complete content that this URL delivered, and a failing download raises and leaves a previously cached copy usable. A cached file is used without contacting the server unless a download is forced, listing shows exactly the cached models, and clearing removes them.",
  ["histories", "fault_sequences", "crash_points", "schedules"], "all sequences of get/force/list/clear on several URLs and caches with faults and crashes at every point of a transfer and concurrent callers, for the PyTorch and the TensorFlow cache",
  "The tests use the network once without faults.",
  [TI, FI], [("existence check, temporary file and atomic replace, file name from URL", TI + " " + FI)]),
 ("C21", "PyTorch inference: every window is evaluated and lands at its time",
  "For every data set the prediction at (link, time t) is the model's output for the window of window_size consecutive samples of that link which ends reflength/2 - 1 steps after t, channels and order kept (a model loaded from a file or URL is used in evaluation mode), and all times that have no such complete window are missing (all of them if the series is shorter than the window), for every reflength from 2 to twice the window size. The result does not depend on the batch size, on the other links or their order, and keeps the input data and coordinates.",
  ["inputs", "configurations"], "all numbers of links and time steps (at least one window), window and reference lengths, batch sizes, models with output (n), (n, 1)",
  "One test with constant data uses a model downloaded from the network.",
  [TR, TU], [("window extraction, batching, redistribution by label", TR)]),
 ("C22", "TensorFlow inference: complete windows only, stored at their last step",
  "For every data set the prediction stored at (link, time t) is the model output for the seq_len samples of that link ending at t, in the order of the input variables and scaled per variable to zero mean and unit variance over all evaluated windows; steps whose window is incomplete or contains a missing or infinite value are missing. So a data set without any complete window gives a missing prediction everywhere. The links may be a subset and in any order (names of links that are not in the data are ignored, an unknown input variable is rejected) and the link dimension may have any name.",
  ["inputs", "configurations"], "all numbers of links and steps, sequence lengths, missing values, batch sizes, link subsets and dimension names",
  "One test needs a model from the network and evaluates one window.",
  [FI, FR], [("sample creation with finite check, placement by index", FI)]),
 ("C23", "MLP classification: right window, right model, missing where undefined",
  "For every pair of channel series of at least 41 steps the result has one row per time step; a row holds the probabilities for dry and wet that the selected model gives for the 40 values of both channels belonging to that step - the differences up to the step for the online models, the deviations from the 12 hour centred rolling median from 20 steps before to 19 steps after for the others - and is missing exactly if one of these values is missing or outside the series. An unknown model name is rejected.",
  ["inputs", "configurations"], "all series with missing values at any place, all four models",
  "Tests check one series per model.",
  [MLP], [("sliding windows, NaN rows, padding", MLP)]),
 ("C24", "STFT classification: band difference of the normalised spectrum",
  "A step is wet exactly if the mean of the normalised power over the frequencies up to f_divide minus that over the higher frequencies exceeds the threshold, the power being that of the window centred at the step divided by the mean over the dry period; steps without complete window are never wet. The result has one value per sample, the dry period is either the given one or the window of dry_length samples with the lowest standard deviation, and giving neither or both is rejected; a precomputed spectrogram gives the same result as the series it belongs to.",
  ["inputs", "configurations"], "all series, window lengths (even, odd), thresholds, frequency splits, dry periods, mirror option",
  "The method has no test at all.",
  [SF], [("spectrogram alignment, normalisation, band means", SF)]),
 ("C25", "Min/max attenuation: bias corrected, relative to the recent minimum",
  "The rain attenuation from min/max data is the quantization-corrected maximum attenuation minus the smallest corrected minimum attenuation of the last window + 1 steps, set to 0 where negative and missing for the first window steps. Missing samples are replaced by the rounded mean of the available ones before that.",
  ["inputs"], "all series of the four levels with missing values, biases, window lengths",
  "The function has no test.",
  [MM], [("rolling minimum loop", MM)]),
 ("C26", "Coverage mask: exactly the grid points near a link path",
  "A grid point is covered exactly if its distance to the path of at least one link is at most the given positive maximum distance (up to the approximation of circles by polygons). The mask has the shape of the grid with each value belonging to the coordinates of that grid point and does not depend on the order of links.",
  ["inputs"], "all link sets and grids",
  "The function has no test.",
  [CV], [("buffered line union, point in area test", CV)]),
 ("C27", "Processing never changes its inputs and is repeatable",
  "No function of the package modifies the arrays, DataArrays, DataFrames, datasets or parameter objects it is given, and calling it again with the same arguments gives the same result, whatever calls of any function were made before.",
  ["inputs", "histories"], "all public processing, spatial, validation and aggregation functions, all call sequences",
  "Tests never look at the inputs after a call.",
  [B, W, K, G, NW, NR, I, P, ST, TP, MLP, SF, MM, FI, TR], [("working on copies, no global state", "all")]),
 ("C28", "Compiled and interpreted numerics agree",
  "Every compiled numerical kernel (baselines, Schleiss wet antenna, blackout mask, IDW weighting) gives with just-in-time compilation the same results as without it, for all inputs including missing values, and independent of the dtype of integer or boolean inputs.",
  ["inputs", "configurations"], "all inputs of the compiled functions in both modes",
  "The test suite runs with compilation disabled only.",
  [B, W, G, I], [("numba kernels", "all")]),
 ("C29", "Processing chain: no rain when dry, gaps stay gaps, rain never negative",
  "For every link data set, chaining classification flags, baseline, wet antenna correction and rain rate gives a rain rate that is missing exactly where the attenuation or wet antenna input is missing, exactly zero wherever the signal does not exceed the baseline plus wet antenna attenuation, never negative, and not smaller for a larger excess. Each step keeps dimensions, coordinates and labels, so that links and channels stay independent of each other.",
  ["inputs", "configurations"], "all link sets, signals, flags and parameter choices of the chain",
  "One workflow test on example data compares with stored results.",
  [B, W, K, X], [("composition of the per-series functions", "all")]),
 ("C30", "Model source dispatch and opt-in installation",
  "A model source is downloaded if and only if it starts with http:// or https://. Any other source of a TensorFlow model is a local path; any other source of a PyTorch model is a local path if it ends with .pt or contains a slash, and is otherwise rejected with an error, without download or load, even if such a file exists. Nothing is ever installed unless the caller or the environment explicitly allows it (argument, or ALLOW_TF_AUTOINSTALL set to 1) and TensorFlow is missing; without permission a missing TensorFlow is reported as ImportError, a permitted installation asks for TensorFlow once, with GPU support if and only if a GPU is detected, and once loaded the same module is returned without further installation.",
  ["inputs", "histories", "configurations"], "all source strings; all sequences of requests with TensorFlow present or missing, with and without permission",
  "Nothing of this is tested.",
  [TI, FI, LZ], [("prefix/suffix dispatch", TI), ("install guard", LZ)]),
 ("C31", "Climatological variogram follows the annual cycle of day and duration",
  "For every date and every duration D in hours, clim_var_param returns exactly sill, range (km) and nugget of a spherical variogram with, for d the day of the year of the calendar date (1 to 366), range = (15.51 D^0.09 + 2.06 D^-0.12 cos(2 pi (d - 7.37 D^0.22)/365))^4 / 1000, sill = (0.84 D^-0.25 + 0.20 D^-0.37 cos(2 pi (d - 162 D^-0.03)/365))^4 and nugget = 0.1 sill. The result depends on the day of the year and the duration only, not on the year, the time of day, the spelling of the date or earlier calls; the defaults are 4 April 2013 and 0.25 h.",
  ["inputs"], "all dates (leap years included) in every spelling that pandas reads, all durations",
  "Five pairs of date and duration of one non-leap year are tested.",
  [P], [("day of year, powers of the duration, cosine", P)]),
 ("C32", "Link-to-reference summaries: superseded error rates and correlation",
  "The superseded functions calc_wet_error_rates and calc_wet_dry_error give for every pair of wet/dry series the number of false wet (missed wet) steps over the number of dry (wet) reference steps, missing values being neither wet nor dry, and every call gives one deprecation warning. Validator.calc_stats gives the Pearson correlation between the reference series and the link's values over exactly the times (to the second) present in both with a value, whatever the order of the link's data and whether the times of the reference are timestamps or strings; it is missing with fewer than two such pairs.",
  ["inputs"], "all pairs of series over wet, dry, missing; all sets of times of link and reference",
  "Nothing of this is tested.",
  [ST, V], [("counting", ST), ("join on time labels", V)]),
 ("C33", "Optional dependencies stay optional and imports have no side effects",
  "Every module outside pytorch_utils can be imported, as the first one and in any order, and the functions that need neither PyTorch nor TensorFlow give the same results, whether or not these are installed; this loads neither of them. Importing pytorch_utils or one of its modules without PyTorch fails with an error that names it and leaves no half imported package, so that the import works once PyTorch is installed; only then PyTorch is loaded. tensorflow_utils can be imported without TensorFlow (which is reported, not raised) and TensorFlow is loaded only by a function that needs it, which fails with an ImportError naming it if it is missing. If TensorFlow is installed, tensorflow_utils offers get_tf, inference_utils and run_inference under its name. No import writes files, starts commands, opens connections, or changes global settings (numpy error handling and random state, warning filters, environment, working directory, plot settings).",
  ["histories", "configurations"], "all sequences of imports, calls and installations in one process, with and without either dependency",
  "Tests run in one environment in which both are installed.",
  ["pycomlink/__init__.py", "pycomlink/processing/__init__.py", "pycomlink/processing/pytorch_utils/__init__.py", "pycomlink/processing/tensorflow_utils/__init__.py", LZ],
  [("import guard of pytorch_utils", "pycomlink/processing/pytorch_utils/__init__.py"), ("import guard of tensorflow_utils, lazy import", LZ)]),
 ("C34", "CML files and example data are read completely, as independent snapshots",
  "get_one_cml, get_75_cmls and get_75_cmls_min_max give every link and channel of the shipped files with all times, levels and metadata, from any working directory; data with minimum and maximum levels are read as tsl_min, tsl_max, rsl_min and rsl_max, instantaneous data as tsl and rsl. Reading a file gives the content it has at that time, under whatever spelling of its path. The result is a copy of its own: editing it, or replacing or deleting the file, changes no other result, no later reading and no file. After reading the file is closed and unchanged; reading a missing file is an error and does not create it.",
  ["histories", "inputs"], "all histories of reading, editing results, replacing and deleting files and changing the directory; instantaneous and min-max files",
  "One test reads one file once; the min-max file is never read.",
  ["pycomlink/io/cmlh5_to_xarray.py", "pycomlink/io/examples.py"],
  [("reading of the HDF5 groups", "pycomlink/io/cmlh5_to_xarray.py"), ("location of the example files", "pycomlink/io/examples.py")]),
]
