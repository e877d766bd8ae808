"""Writes /verif/properties.jsonl (the source of the property list)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": list(observe), "hook_needed": None}})


M = "aipy/miriad.py"
W = "aipy/_miriad/miriad_wrap.cpp"
U = "aipy/_miriad/mir/uvio.c"
H = "aipy/_miriad/mir/hio.c"
K = "aipy/_miriad/mir/maskio.c"

p("C01", "Visibility records written in float mode are read back unchanged",
  "A dataset written record by record with floating-point correlations returns, on reading, the same records in the same order: every channel bit-identical as single-precision complex, every flag identical, and the baseline coordinates, time and antenna pair equal to what was written. Nothing is added, dropped or merged, whatever the number of channels, records, antennas or flag patterns.",
  ["inputs", "histories"], "every sequence of records, channel counts 1..thousands, special float values, flag patterns, repeated or changing coordinates/times/baselines",
  "The tests write one or two short fixed records; buffer boundaries, repeated preambles, flag-word boundaries and long files are not reached.",
  [M, W, U, H, K, "aipy/_miriad/mir/pack.c"],
  [("UV.write/UV.read/UV.all", M), ("uvwrite_c/uvread_c", U), ("buffered item i/o", H), ("flag bit mask", K), ("byte-order packing", "aipy/_miriad/mir/pack.c")],
  ["UV.all(), UV.read() of the reopened dataset"])
p("C02", "Scaled-integer visibilities are read back within the quantisation step",
  "A dataset written with 16-bit scaled correlations returns every channel's real and imaginary part within one quantisation step (largest absolute component of that record / 32767) of the written value, with the largest component recovered, zeros recovered as zeros, and flags, coordinates, time and antenna pair exact. Each record is scaled by its own largest component, whatever records precede it.",
  ["inputs", "histories"], "every sequence of records and amplitudes spanning tens of orders of magnitude, mixed channel counts",
  "Tests check one constant record; the error bound, changing scales and clipping are never examined.",
  [U, W, M], [("tscale computation and int16 conversion in uvwrite_c/uvread_line", U), ("16-bit packing", "aipy/_miriad/mir/pack.c")], ["UV.all()"])
p("C03", "Per-record variables keep their value histories",
  "Variables attached to a dataset (text, integers, single and double precision, complex; scalar or array) read back, at every record, as the value most recently assigned before that record was written, with type and length preserved. Assigning one variable never changes another, and reassigning an equal value changes nothing.",
  ["histories", "inputs"], "every interleaving of assignments (repeats, changes of value and of length) and record writes, all value types, many variables",
  "Tests assign each variable once; update suppression, length changes and many-change histories are not exercised.",
  [M, W, U], [("UV.__setitem__/__getitem__ and the variable table", M), ("uvputvr_c change suppression, uv_scan", U), ("WRAP_uvrdvr/uvwrvr type handling", W)], ["UV['name'] while stepping through records"])
p("C04", "Header items round-trip and can be rewritten",
  "Items stored in a dataset's header (text of any length, integers, floating-point, history) read back as stored, after closing and reopening as well as within the session, independently of each other and of their number and size. Rewriting an item replaces it; text appended to the history is kept in order after what was already there.",
  ["inputs", "histories"], "every sequence of item writes, rewrites, history appends and reopenings; sizes around the internal caching limits",
  "Tests store a handful of short items; cache-size boundaries, rewriting and growth are not covered.",
  [M, H, "aipy/_miriad/mir/headio.c", W], [("_wrhd/_rdhd", M), ("header cache", H), ("history item", "aipy/_miriad/mir/headio.c")], ["UV['item'] after reopening"])
p("C05", "Appending, rewinding and reopening preserve every record",
  "Reopening a dataset for append and writing more records yields exactly the old records followed by the new ones; the variables in force at each record are preserved. Rewinding, re-reading partially and reopening a dataset any number of times always yields the same records.",
  ["histories"], "every sequence of write / close / append / read-some / rewind / reopen steps, with changing channel counts and variables",
  "Tests contain no append history and a single rewind.",
  [M, U, H, K], [("uvopen_c(append), uvrewind_c, vartable in/out", U), ("mkopen 'old'", K)], ["UV.all() after every step"])
p("C06", "Copying a dataset through the pipe interface preserves it",
  "Initialising a new dataset from an existing one and piping the records through produces a dataset with the same variables, header items and records; excluded variables are absent, overridden ones have the overriding value in every record, and a mapping function is applied to every record exactly once, dropping those for which it returns no data. History text that is supplied is appended to the original history.",
  ["histories", "inputs"], "every source dataset (variable types, value changes between records), exclusion list, override set and mapping function",
  "Tests pipe one small fixed dataset with constant variables.",
  [M, U], [("UV.init_from_uv/_pipe/copyvr tracking", M), ("uvtrack_c/uvcopyvr_c", U)], ["contents of the copy"])
p("C07", "Selections return exactly the matching records",
  "Reading with selections in force returns exactly the records a reference filter keeps, in order and unmodified: antenna pairs in either order, single antennas, autocorrelations, polarisations, time ranges, baseline-length ranges, decimation, inclusion or exclusion, combined with and/or, and cleared again. Selection never changes the data, flags or metadata of the records it keeps.",
  ["inputs", "configurations", "histories"], "every dataset and every combination of selection clauses, with rewinds and re-selection",
  "Tests use one selection on one dataset.",
  [M, U, W], [("UV.select/_select", M), ("uvselect_c/uvread_select", U)], ["UV.all() under selection"])
p("C08", "Multi-file reading and text selections agree with a reference reader",
  "Selecting records with the textual antenna and polarisation syntax keeps exactly the records the syntax denotes, and decimation keeps every n-th group as documented. Reading a list of files into time and data dictionaries contains every kept record exactly once, under its own antenna pair and polarisation, with data and flags equal to what the files hold.",
  ["inputs", "configurations"], "every selection string of the grammar, decimation factor, and set of files",
  "Tests use a few fixed strings on one file.",
  ["aipy/scripting.py", M], [("uv_selector/parse_ants", "aipy/scripting.py"), ("files_to_time_... readers", M)], ["records kept, returned dictionaries"])
p("C09", "Baseline and polarisation codes are bijective",
  "Encoding an antenna pair and decoding it returns the same ordered pair, for all antenna numbers the code supports in both the small and the large numbering; distinct pairs get distinct codes, and a code written to a dataset decodes to the same pair on reading. Polarisation names and numeric codes translate back and forth without loss.",
  ["inputs"], "all antenna pairs 0..~2046, all polarisation codes, in memory and through a file",
  "Tests check a few pairs below 256.",
  [M, W, U], [("ij2bl/bl2ij, str2pol/pol2str", M), ("uvbasant_c and preamble packing", U)], ["ij2bl/bl2ij, UV preamble"])
p("C10", "Misuse of a dataset is reported and never harms other datasets",
  "Invalid use of the dataset interface (missing files, wrong modes, unknown variables, wrong value types, wrong array types or sizes, over-long names) raises an exception without crashing the interpreter. Other open datasets keep their contents, and repeated failures or openings do not exhaust the available dataset slots.",
  ["histories", "fault_sequences"], "every interleaving of invalid calls with normal operations on several open datasets",
  "Tests contain no invalid call.",
  [M, W, U, H, "aipy/_miriad/mir/bug.c"], [("exception conversion in the wrapper", W), ("bug_c", "aipy/_miriad/mir/bug.c"), ("tree and item tables", H)], ["exceptions, contents of other datasets"])
p("C11", "Damaged datasets never crash the reader or corrupt intact records",
  "Reading a dataset whose files were truncated, emptied, removed or overwritten at any byte terminates without crashing the process and without out-of-bounds memory access. Records that lie entirely before the first damaged byte of the visibility stream are returned unmodified or the damage is reported by an exception.",
  ["crash_points", "fault_sequences"], "every truncation point and random byte damage of every file of a dataset",
  "No test opens a damaged dataset.",
  [U, H, "aipy/_miriad/mir/headio.c", K, W], [("uv_scan record decoding", U), ("hread/hio_c bounds", H), ("header cache parsing", H)], ["process survival, sanitizer reports, records returned"])
p("C12", "Coordinate conversions are mutually inverse and length-preserving",
  "Conversions between angles and unit vectors in every supported convention invert each other, keep unit length, and rotation matrices between frames are orthonormal with determinant one and inverse equal to the transpose. This holds for scalars and arrays of any shape, including poles, the antimeridian and masked entries.",
  ["inputs"], "all angles including poles, wrap-arounds and degenerate vectors, scalar and array arguments",
  "Tests check a few angles per function.",
  ["aipy/coord.py"], [("radec2eq, eq2radec, latlong2xyz, thphi2xyz, azalt2top, top2azalt, xyz2thphi", "aipy/coord.py"), ("rot_m, eq2top_m, top2eq_m, convert_m", "aipy/coord.py")], ["returned arrays"])
p("C13", "Frame rotations agree with independent astronomical references",
  "Rotations about an arbitrary axis, the equatorial-to-topocentric transformation for any hour angle and declination, and equatorial/ecliptic/galactic and epoch conversions agree with independently derived spherical astronomy for every direction. Converting there and back returns the starting direction.",
  ["inputs"], "all directions, axes, angles, hour angles, declinations, frame pairs and epochs",
  "Tests check a few axis-aligned values.",
  ["aipy/coord.py"], [("rot_m, eq2top_m, convert, convert_m", "aipy/coord.py")], ["matrices and converted directions"])
p("C14", "Time conversions and array location are consistent",
  "Converting a Julian date to the ephemeris time base and back returns the date to within a microsecond-level rounding, sidereal time advances with time at the sidereal rate and with longitude one-to-one, and setting an array's time or Julian date puts every derived quantity at that time.",
  ["inputs", "histories"], "all dates of several centuries, locations, and interleavings of time-setting calls",
  "Tests check one date.",
  ["aipy/phs.py"], [("juldate2ephem/ephem2juldate, ArrayLocation", "aipy/phs.py")], ["sidereal_time, get_jultime"])
p("C15", "Baseline geometry is antisymmetric, additive and rotation-invariant",
  "The baseline from i to j is minus that from j to i, closes around triangles, and is the difference of the antenna positions in the requested frame with its length preserved; projected coordinates toward a source scale linearly with frequency, keep the baseline length, and match the projection matrix. A source below the horizon is reported instead of being projected.",
  ["inputs"], "all antenna layouts, locations, times, source directions and frequency sets",
  "Tests use one fixed array and direction.",
  ["aipy/phs.py", "aipy/coord.py"], [("AntennaArray.get_baseline, gen_uvw", "aipy/phs.py")], ["get_baseline, gen_uvw"])
p("C16", "Phasing and unphasing data are inverse and pure phase rotations",
  "Phasing data to a source and unphasing it to the same source returns the data; phasing multiplies each channel by a unit-modulus factor equal to the geometric delay phase, is the conjugate for the reversed baseline, and multiplies around closed triangles to one. Instrumental delays and offsets enter as their difference between the two antennas.",
  ["inputs", "configurations"], "all arrays, sources, times, frequencies, delay/offset sets and data",
  "Tests compare one or two fixed values.",
  ["aipy/phs.py"], [("gen_phs, phs2src, unphs2src, get_phs_offset, refract, resolve_src", "aipy/phs.py")], ["gen_phs, phs2src, unphs2src"])
p("C17", "Simulated visibilities are the sum over sources of gain, flux and fringe",
  "A simulated visibility equals the sum, over the sources above the horizon, of source spectrum times both antennas' direction-dependent response and passband times the geometric phase; it is linear in flux, independent of source order, conjugate-symmetric under exchange of antennas, and unchanged by adding sources below the horizon or of zero flux.",
  ["inputs", "configurations"], "all source sets, spectra, antenna gains, beams, times and baselines",
  "Tests check one source and one baseline.",
  ["aipy/amp.py", "aipy/phs.py"], [("AntennaArray.sim, sim_cache, passband, bm_response", "aipy/amp.py")], ["sim(i,j,...)"])
p("C18", "Derived quantities never go stale when parameters change",
  "Selecting channels, changing antenna or source parameters, moving the array in time and re-caching sources, in any order, always leaves every derived quantity (frequencies, spectra, passbands, phases, simulated data) equal to that of a freshly built object with the same settings. Selecting all channels (or None) restores the full band.",
  ["histories"], "every interleaving of selection, parameter, time and computation calls",
  "Tests make one change and one evaluation.",
  ["aipy/phs.py", "aipy/amp.py", "aipy/fit.py"], [("select_chans, update, cached spectra and gains", "aipy/phs.py"), ("Antenna/RadioBody update", "aipy/amp.py")], ["outputs compared with a fresh object"])
p("C19", "Model parameters round-trip and are isolated per object",
  "Setting parameters on an antenna array, beam or source catalogue and reading them back returns the values set; reading and writing back all parameters changes nothing observable. Setting one antenna's or source's parameters never alters another's, and flattening a parameter set to a list and rebuilding it returns the same set.",
  ["inputs", "histories"], "every parameter name/value combination on every subset of antennas and sources, and sequences of settings",
  "Tests set one or two parameters.",
  ["aipy/fit.py", "aipy/pol.py"], [("get_params/set_params of antennas, arrays, sources, beams", "aipy/fit.py"), ("flatten_prms/reconstruct_prms", "aipy/fit.py")], ["get_params, simulated outputs"])
p("C20", "Antenna beam responses follow their defining formulas",
  "Each beam model's response at every direction and frequency equals its definition (constant, Gaussian, azimuth/elevation polynomial, spherical-harmonic map), has one value per frequency and direction, and is evaluated in antenna coordinates: pointing, rotation and twist of the antenna move the response rigidly. Scalar and array directions agree element by element.",
  ["inputs", "configurations"], "all directions, frequencies, beam widths, coefficients and pointings",
  "Tests evaluate a few directions with constant beams.",
  ["aipy/amp.py", "aipy/fit.py", "aipy/healpix.py"], [("Beam, Beam2DGaussian, BeamPolynomial, BeamAlm .response", "aipy/amp.py"), ("Antenna.bm_response, set_pointing", "aipy/amp.py")], ["bm_response"])
p("C21", "Source catalogues return exactly the requested sources with their spectra",
  "A catalogue selection by name and by flux cutoff returns exactly the matching sources; computing the catalogue and reading positions, fluxes, indices or sizes returns each source's own values in the requested order. A source's flux follows its power law through its reference frequency.",
  ["inputs", "configurations"], "all source lists, cutoffs, spectra and frequency sets",
  "Catalogue tests spot-check fixed sources and most cannot run.",
  ["aipy/phs.py", "aipy/amp.py", "aipy/src.py", "aipy/scripting.py", "aipy/_src/helm.py"], [("SrcCatalog", "aipy/phs.py"), ("RadioSpecial/RadioBody spectra", "aipy/amp.py"), ("get_catalog of the bundled lists", "aipy/src.py")], ["get_srcs, get_crds, get_jys"])
p("C22", "Sky pixelisation maps directions to pixels consistently",
  "For every resolution and both orderings, a pixel's centre direction maps back to that pixel, every direction maps to the pixel containing it, converting an index between orderings is a bijection that denotes the same place, and vector, angle and Cartesian-component forms agree. Interpolation weights over neighbouring pixels are non-negative and sum to one.",
  ["inputs"], "all directions, pixel indices, resolutions and orderings",
  "Tests use one resolution and a few directions.",
  ["aipy/healpix.py"], [("HealpixBase crd2px/px2crd/nest_ring_conv/nside2npix", "aipy/healpix.py")], ["crd2px, px2crd"])
p("C23", "Sky maps store, accumulate, convert and interpolate values faithfully",
  "A value stored at a pixel or direction is read back at every direction inside it; assigning to repeated pixels at once stores the sum of the values given for each; changing the ordering keeps the map's value at each place, lowering the resolution adds up the values inside each new pixel, and raising it interpolates; interpolated reading reproduces constant maps exactly and stays within the neighbours' range. Copying from another map leaves the source, and how it is read, unchanged.",
  ["histories", "inputs"], "every sequence of set / add / read / reorder / change-resolution operations",
  "Tests set a few pixels once.",
  ["aipy/healpix.py", "aipy/utils/utils.cpp"], [("HealpixMap __getitem__/__setitem__/change_scheme/from_hpm", "aipy/healpix.py")], ["values at directions"])
p("C24", "Spherical-harmonic coefficients index and transform consistently",
  "Coefficients are stored and read by degree and order without aliasing; transforming coefficients to a map and back recovers them for band-limited maps; transforms are linear and equal the sum of spherical harmonics, the constant term of a constant map is its value (times the square root of 4 pi), and degrees or orders outside of the set, and data of a wrong size, are refused.",
  ["inputs"], "all degrees, orders, coefficient sets and adequate resolutions",
  "Tests check a few coefficients.",
  ["aipy/healpix.py"], [("Alm", "aipy/healpix.py"), ("HealpixMap.to_alm/from_alm", "aipy/healpix.py")], ["Alm items, maps"])
p("C25", "Weighted sky maps return the weighted mean of what was added",
  "Reading a weighted sky map at a place where data were added returns the sum of weighted data over the sum of weights, for every sequence of additions, including repeated places within a single addition; places never touched read as no data (weight and value zero). Converting the resolution or ordering converts sums and weights alike, resetting weights keeps the weighted mean, and a copy is independent of the original.",
  ["histories", "inputs"], "every sequence of put / add / reset / copy operations",
  "Tests add each pixel at most once.",
  ["aipy/map.py", "aipy/healpix.py"], [("Map.add/put/get/reset_wgt/from_map", "aipy/map.py")], ["Map.get, Map[...]"])
p("C26", "Maps and images saved to FITS files are read back unchanged",
  "Saving a sky map or an image to a FITS file and loading it returns the same values, ordering, resolution, weights and the stored sky coordinates, for every supported data type, and overwriting an existing file replaces it.",
  ["inputs"], "all map sizes, orderings, data types, image shapes and header values",
  "Tests cover at most one map format.",
  ["aipy/healpix.py", "aipy/map.py", "aipy/img.py"], [("to_fits/from_fits", "aipy/healpix.py"), ("to_fits/from_fits", "aipy/img.py")], ["loaded objects"])
p("C27", "Gridding places every visibility where its coordinates say",
  "Adding visibilities to the imaging grid accumulates each one, with its weight, as a Gaussian kernel around the cell of its own coordinates (row -v, column u, in units of the resolution), wrapping around the edges, all repeats included and for every grid shape. Reading the grid at the same coordinates returns the kernel-weighted data over weights there. Every result equals a direct evaluation of the kernel sum for any array layout; refused arguments leave everything unchanged, and memory outside the arrays is never touched.",
  ["inputs", "histories"], "all coordinate sets (also beyond the grid, infinite or NaN), repeats, grid shapes, resolutions, footprints, weights and array layouts",
  "Tests put a few samples on one grid.",
  ["aipy/img.py", "aipy/utils/utils.cpp", "aipy/_dsp/grid/grid.c", "aipy/_dsp/dsp.c"], [("Img.put/get/get_indices", "aipy/img.py"), ("grid1D/2D, degrid1D/2D", "aipy/_dsp/grid/grid.c"), ("add2array", "aipy/utils/utils.cpp")], ["Img.uv, Img.bm"])
p("C28", "Images are the Fourier transform of the gridded data",
  "The image and beam formed from the grid equal the direct Fourier sum of the gridded samples; Hermitian-completed data give real images peaking at the source position; image coordinates, the sky coordinates assigned to pixels and re-centring are consistent with each other, and wide-field corrected grids agree with the direct sum.",
  ["inputs", "configurations"], "all sample sets, grid sizes, centrings and source positions",
  "Tests check shapes and one transform.",
  ["aipy/img.py"], [("Img.image/_gen_img/bm_image/get_LM/get_top/get_eq/recenter", "aipy/img.py"), ("ImgW", "aipy/img.py")], ["image(), bm_image(), get_top()"])
p("C29", "Deconvolution by CLEAN accounts for every unit of flux",
  "After cleaning, the model convolved with the beam plus the residual equals the input image (wrap-around convolution), whatever options are used; the model is non-zero only inside the allowed area and non-negative if positivity is requested, the residual does not grow when divergence stopping is on, and the components follow the documented greedy peak-subtraction rule. The inputs are never modified, arrays of any memory layout are honoured, and every run ends.",
  ["inputs", "configurations"], "all images, beams, areas, gains, iteration counts and options in one and two dimensions, real and complex",
  "Tests check point sources in noiseless images.",
  ["aipy/deconv.py", "aipy/_deconv/deconv.cpp"], [("clean", "aipy/deconv.py"), ("clean_1d_r/c, clean_2d_r/c", "aipy/_deconv/deconv.cpp")], ["model, residual, info"])
p("C30", "Least-squares and maximum-entropy deconvolution improve their objective",
  "Least-squares, maximum-entropy and annealing deconvolution return a model and a residual which satisfy the convolution identity with the input, within the given bounds, after at most the given iterations; they follow their documented iterations, report the score that belongs to the model returned, and annealing, and least squares where it contracts, never end with a worse fit than they started from. The variance search returns the converged run at the variance it reports.",
  ["inputs", "configurations"], "all images, beams, starting models, noise variances and iteration limits",
  "Tests run one or two fixed images.",
  ["aipy/deconv.py"], [("lsq, maxent, maxent_findvar, anneal", "aipy/deconv.py")], ["model, info"])
p("C31", "Scatter-add accumulates every contribution and rejects bad indices",
  "Adding a list of values into an array at a list of index tuples gives the same array as adding them one at a time, for every numeric type, array rank, memory layout and repetition of indices, with negative indices counted from the end. Out-of-range indices and mismatched arguments raise an error and never touch memory outside the array.",
  ["inputs"], "all numeric types, ranks, layouts, index lists with repeats, negatives and out-of-range entries",
  "No test exercises it directly; it is reached only through a few gridding calls.",
  ["aipy/utils/utils.cpp"], [("add2array", "aipy/utils/utils.cpp")], ["the array after the call"])
p("C32", "Command-line selections mean what their grammar says",
  "The text parsers for antennas, polarisations, channels, parameters, sources and the standard option groups return exactly what the documented grammar denotes for every well-formed string, independent of ordering and whitespace conventions allowed, and reject malformed strings.",
  ["inputs"], "all strings of the option grammars",
  "Tests check a few example strings.",
  ["aipy/scripting.py"], [("parse_ants, parse_srcs, parse_chans, parse_prms, add_standard_options", "aipy/scripting.py")], ["parser results"])
p("C33", "Interference flagging marks outliers and only outliers",
  "Interference removal leaves already flagged samples flagged, flags samples that exceed the stated threshold above the smooth spectrum, and does not flag data that lie below it; the result has the shape of the data and does not modify the input. Thresholds computed from a histogram separate the populations they are defined to separate.",
  ["inputs"], "all spectra, existing masks, spike positions and amplitudes",
  "There is no test of flagging.",
  ["aipy/rfi.py"], [("remove_spikes, gen_rfi_thresh, range2list, flag_by_int", "aipy/rfi.py")], ["masks"])
p("C34", "Interpolation, windows and Gaussian fitting follow their definitions",
  "Interpolating returns factor times as many samples, each the filter-weighted average of its neighbours: constants stay constant, straight lines are not moved, interpolating filters reproduce the samples, and boundaries are extended exactly for quadratics. Window functions equal their formulas for every length and are symmetric and bounded. Gaussian models equal their formula, and the moments of an image find the centre, amplitude and widths of a Gaussian, along the axis they belong to.",
  ["inputs"], "all lengths, polynomial degrees, factors, window names and Gaussian parameters",
  "Tests check one Gaussian and a few window lengths.",
  ["aipy/interp.py", "aipy/dsp.py", "aipy/twodgauss.py"], [("interpolate, polyextend", "aipy/interp.py"), ("gen_window", "aipy/dsp.py"), ("twodgaussian, moments", "aipy/twodgauss.py")], ["returned arrays"])
p("C35", "Dataset command-line tools transform datasets as documented",
  "The tools that add and subtract datasets, extract antennas or polarisations, average channels, archive and expand datasets produce outputs whose records equal the documented transformation of the input's records, with all other variables and the history kept and extended; the tools that list datasets, dates and sources print what the dataset, sky or catalogue holds for the chosen options. Inputs are left unchanged and existing outputs are not overwritten.",
  ["inputs", "configurations"], "every input dataset, source list and option combination of each tool",
  "Scripts have no tests.",
  ["scripts/uv_addsub.py", "scripts/pull_ants.py", "scripts/pull_pol.py", "scripts/combine_freqs.py", "scripts/compress_uv.py", "scripts/uvlist.py", "scripts/lst", "scripts/srclist.py"],
  [("each script's mapping function", "scripts/"), ("UV.pipe, init_from_uv", M)], ["output datasets", "printed output"])
p("C36", "Polarised responses and Stokes conversions are consistent",
  "Polarisation-aware antennas return, for each feed polarisation, that feed's own passband, delays and beam; cross products use the conjugate of one and the other as documented. Polarisation names and codes convert both ways without loss, parallactic angles follow the source, and polarisations written to and read from datasets are unchanged.",
  ["inputs", "configurations"], "all polarisation names, feed parameters and baselines",
  "There is no test of the polarised model.",
  ["aipy/pol.py"], [("Antenna, AntennaArray, is_stokes/stokes conversions", "aipy/pol.py")], ["passband, gen_phs, sim"])
p("C37", "Calibration modules load as the array or catalogue they define",
  "Loading an array or catalogue by calibration name returns an object built by that calibration module from the given frequencies or sources, or the documented default when the module does not define a catalogue; asking a module that does not exist, or does not define one, for an array raises an error, and errors of the module are not hidden.",
  ["configurations"], "all calibration modules (defining either, both or neither factory) and argument forms",
  "No test loads a calibration module.",
  ["aipy/cal.py"], [("get_aa, get_catalog, get_freqs", "aipy/cal.py")], ["returned objects"])

p("C38", "Facet centres cover the sphere evenly, each place once",
  "For every number of points, the packed points lie on the unit sphere, evenly spread, in order from south to north, and the facet centres are exactly those points, each once, ordered so that widely spaced ones come first, as vectors or as right ascension and declination.",
  ["inputs"], "every number of points and coordinate form",
  "Nothing tests the facet centres.",
  ["aipy/map.py"], [("pack_sphere, facet_centers, _bit_reverse_order", "aipy/map.py")], ["returned coordinates"])

p("C39", "Calibration, flagging and simulation tools do what they document",
  "The tools that apply bandpasses and calibrations, phase to a source, normalise by fluxes, filter by delay and fringe rate, remove crosstalk, flag interference and simulate visibilities write datasets whose records equal the model given by the calibration module, the catalogue and the options: gains divided out and never applied twice, phases turned toward the source, simulated visibilities equal to the sum over sources above the horizon, extraction and removal adding up to the original, flags only where the documented criterion holds. Everything else in the records is kept, inputs stay unchanged and existing outputs are not overwritten.",
  ["inputs", "configurations"], "every input dataset, calibration module and option combination of each tool",
  "Scripts have no tests, and none runs against a calibration module.",
  ["scripts/apply_bp.py", "scripts/apply_cal.py", "scripts/phs2src.py", "scripts/flux_cal.py", "scripts/filter_src.py", "scripts/xtalk3.py", "scripts/xrfi.py", "scripts/xrfi_simple.py", "scripts/mdlvis.py"],
  [("each script's mapping function", "scripts/"), ("AntennaArray.passband, phs2src, sim", "aipy/amp.py")], ["output datasets"])

p("C40", "Imaging, mapping and fitting tools do what they document",
  "The imaging tool writes, for every pointing and snapshot that has data, the dirty image, beam and samplings of the selected data, phased, calibrated and weighted as asked, at the coordinates of the pointing. Deconvolution writes model, residual and best images which together account for the dirty image under the chosen weighting, with positive components only when asked to. Maps made from images hold the weighted pixels at their places on the sky, added to what was there; sources and maps put into maps keep their fluxes and places in every coordinate system and epoch. Fits end at parameters no worse than the start, whose stated score is that of the model, and find those that made the data.",
  ["inputs", "configurations"], "every dataset, image, map, calibration module and option combination of each tool",
  "Scripts have no tests, and their outputs are images and parameters that need a model of the array to judge.",
  ["scripts/mk_img.py", "scripts/cl_img.py", "scripts/mk_map.py", "scripts/modmap.py", "scripts/fitmdl.py"],
  [("each script", "scripts/"), ("Img, Map, deconv, fit", "aipy/img.py")], ["output FITS files", "printed output"])

p("C41", "Plotting tools draw the selected data at their places",
  "The waterfall tool draws, for each selected baseline and polarisation, exactly the selected times and channels of the dataset, in the chosen mode (logarithm, amplitude, phase, real or imaginary part), flagged data left out unless asked for, differenced, transformed to delay or fringe rate and deconvolved as asked, over the axes, limits, scale and labels that belong to them, as waterfalls or lines. The image tool draws each FITS file's chosen polarisation and channels, their average or its Fourier transform, one plot per file. The map tool draws, at every pixel of a cylindrical map, the value the map holds at that place in the chosen coordinate system, epoch, centre and resolution, and labels sources at their places. Inputs stay unchanged and existing plots are kept in batch mode.",
  ["inputs", "configurations"], "every dataset, image, map, catalogue and option combination of each tool that needs no extra package",
  "Scripts have no tests, and nothing looks at what a figure holds.",
  ["scripts/plot_uv.py", "scripts/plot_img.py", "scripts/plot_map.py"],
  [("each script", "scripts/"), ("Map, HealpixMap, dsp.gen_window, deconv.clean, coord", "aipy/")], ["images, lines, titles, limits and texts of the figures"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
