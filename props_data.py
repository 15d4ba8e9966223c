RM = 'runtime monitoring: '
KN = ('Held on the executions counted in the evidence file, never "verified"; '
      'trusts the reference model in checks/ and vlib/ref.py. ')

P('C01', 'Binning rounds to the nearest multiple of the bin width',
  'For every array of finite values and every positive decimal bin width, binning returns for each value the nearest multiple of the width with exact halves going to the upper multiple, always as the same floating-point number for the same multiple, so that binning is monotone, idempotent, keeps shape, order and NaN, and rejects non-positive widths. '
  'Binning a catalogue (in place or as a copy) applies exactly this to the magnitude column, records the bin width used as the catalogue\'s delta_m, and changes nothing else; the copying form leaves the original catalogue untouched.',
  ['inputs'], 'every value array (list, array, Series, scalar, any shape), every bin width, every catalogue',
  'Tests sample a dozen values; exact halves, float noise, negative values and unusual widths (0.25, 0.3, 2, 10) are where rounding breaks, and idempotence/canonical representation are relations over all inputs.',
  ['utils/binning.py', 'catalogs/catalog.py'],
  [('bin_to_precision', 'utils/binning.py'), ('Catalog.bin_magnitudes', 'catalogs/catalog.py')],
  RM + 'exact rational-arithmetic reference oracle on every call',
  KN + 'Ties are judged for |value/width| <= 1000.')

P('C02', 'Binning test accepts exactly the arrays that lie on the grid',
  'For magnitudes up to 10 in absolute value, the binning test without the coarser-grid option accepts every array whose values differ by whole multiples of the bin width (whatever the common offset, order or missing values) and rejects every array with a value displaced off the grid; with the default option it additionally rejects arrays that also lie on the next larger power-of-ten grid, and width zero with that option rejects arrays on any power-of-ten grid. '
  'Every b-value, a-value and b-based Mc estimator raises ValueError for exactly the magnitude arrays the test (without the coarser-grid option) rejects, including when the offending value lies below mc.',
  ['inputs'], 'every magnitude array and bin width between 0.001 and 2',
  'Acceptance hinges on floating-point error of shifted values, which depends on every value in the array; tests use two arrays.',
  ['utils/binning.py', 'analysis/bvalue/base.py', 'analysis/avalue/base.py', 'analysis/estimate_mc.py'],
  [('binning_test', 'utils/binning.py'), ('sanity checks of the estimators', 'analysis/bvalue/base.py')],
  RM + 'acceptance oracle on arrays constructed on/off the grid in integer arithmetic',
  KN + 'Displacements from 1e-9 to half a bin.')

P('C03', 'Frequency-magnitude distributions conserve events',
  'For every magnitude sample, bin width and optional weights, the non-cumulative FMD counts in each bin exactly the events (sum of weights) whose nearest bin it is, over the contiguous range of bins from the smallest to the largest magnitude, so the counts sum to the sample size (total weight), whatever the order of the events; the cumulative FMD is at each bin the number (weight) of events at or above it. '
  'The bin position option only moves the reported bin positions by half a bin; width zero in the cumulative form means one bin per distinct magnitude.',
  ['inputs'], 'every sample, bin width, weighting, bin position',
  'Conservation must hold for any gap structure, magnitudes on bin edges, outliers, and weights; tests check a few fixed arrays.',
  ['utils/binning.py'],
  [('get_fmd', 'utils/binning.py'), ('get_cum_fmd', 'utils/binning.py')],
  RM + 'conservation oracle with integer reference counts and permutation monitor', KN)

P('C04', 'Classic and Utsu b-values are the MLE of the complete events only',
  'For every binned or continuous sample, mc and weights, the classic and Utsu estimators use exactly the events with magnitude at or above mc minus half a bin (ignoring missing magnitudes) and return the closed-form maximum-likelihood (Tinti-Mulargia/Aki, respectively Utsu) b-value, with Shi-Bolt std, beta = b*ln(10), and n, idx, magnitudes and weights describing exactly those events (NaN for an empty selection). '
  'Integer weights act like replicated events, a common weight factor or event order does not matter, and the functional form estimate_b returns b (or beta), std and n in every combination of its flags; invalid weights are rejected and results are not readable before a calculation.',
  ['inputs', 'configurations'], 'every sample, mc, bin width, weights, container type, flag combination',
  'Tests compare a handful of stored values; selection at bin edges, weights, NaN and flag combinations are universally quantified.',
  ['analysis/bvalue/base.py', 'analysis/bvalue/classic.py', 'analysis/bvalue/utsu.py', 'analysis/bvalue/utils.py', 'analysis/bvalue/__init__.py'],
  [('ClassicBValueEstimator', 'analysis/bvalue/classic.py'), ('UtsuBValueEstimator', 'analysis/bvalue/utsu.py'), ('shi_bolt_confidence', 'analysis/bvalue/utils.py'), ('estimate_b', 'analysis/bvalue/__init__.py')],
  RM + 'reference-model oracle plus metamorphic relations over estimator calls', KN)

P('C05', 'b-positive estimators select exactly the right magnitude pairs',
  'For every catalogue, b-positive uses exactly the differences between time-consecutive complete events that reach dmc (within half a bin), and b-more-positive exactly those from each complete event to the first later one larger by dmc; the b-value is the maximum-likelihood value of those differences above dmc with the weight of the later event, and n, idx, magnitudes, weights and times all describe those later events, for any storage order of the events and any type of times. '
  'Shi-Bolt (b-positive) and bootstrap (b-more-positive) uncertainties refer to the same pairs, the next-larger search and the short-term incompleteness filter follow their definitions, and a negative dmc is rejected.',
  ['inputs', 'histories'], 'every event sequence, time type, dmc, mc, weights, binned or continuous magnitudes',
  'The pair structure depends on the whole ordered history; tests use one 24-event array already in time order.',
  ['analysis/bvalue/positive.py', 'analysis/bvalue/more_positive.py', 'analysis/bvalue/utils.py'],
  [('BPositiveBValueEstimator', 'analysis/bvalue/positive.py'), ('BMorePositiveBValueEstimator', 'analysis/bvalue/more_positive.py'), ('find_next_larger, make_more_incomplete', 'analysis/bvalue/utils.py')],
  RM + 'brute-force reference over event histories, permutation monitor', KN + 'Bootstrap std is judged with a statistical tolerance.')

P('C06', 'a-value estimators follow their definitions for every catalogue',
  'For every catalogue, the classic a-value is log10 of the number of complete events, a-positive divides the number of positive pairs by the fraction of time they span, and a-more-positive additionally scales each waiting time (to the next larger event or to the end) by the b-value and the magnitude excess; independent of storage order and of the type, unit or origin of the times. '
  'A reference magnitude lowers the a-value by b times its distance from mc (also when it is zero) and a scaling factor by its log10; n, idx, magnitudes and times describe the events used, and calls lacking a required b-value or with negative dmc are rejected.',
  ['inputs', 'histories'], 'every event sequence, time type, mc, dmc, m_ref, scaling factor',
  'Depends on the whole ordered history and on the unit arithmetic of times; tests use ten equally spaced integer times.',
  ['analysis/avalue/base.py', 'analysis/avalue/classic.py', 'analysis/avalue/positive.py', 'analysis/avalue/more_positive.py', 'analysis/avalue/__init__.py'],
  [('AValueEstimator.calculate', 'analysis/avalue/base.py'), ('APositiveAValueEstimator', 'analysis/avalue/positive.py'), ('AMorePositiveAValueEstimator', 'analysis/avalue/more_positive.py')],
  RM + 'brute-force reference over event histories, permutation and time-unit monitors', KN)

P('C10', 'Maximum curvature and b-stability Mc follow their definitions',
  'For every sample, maximum curvature returns the (lowest) most populated bin of the non-cumulative FMD plus the correction factor. '
  'b-stability returns the first tested completeness magnitude (if all are to be tested, the most stable one) whose b-value differs from the mean of the b-values of the completeness magnitudes within the stability range by less than its uncertainty (or None if there is none), whatever the order or container of the events, with the tested mcs, b-values and best b-value reported consistently; zero is a completeness magnitude like any other, default candidates cover all bins of the sample, and the catalogue methods only add the result to the mc attribute.',
  ['inputs', 'configurations'], 'every sample, bin width, correction factor, stability range, list of candidate mcs',
  'The averaging window and the stopping rule depend on the whole list of candidates and on floating-point bin edges; tests compare one stored catalogue.',
  ['analysis/estimate_mc.py', 'catalogs/catalog.py'],
  [('estimate_mc_maxc', 'analysis/estimate_mc.py'), ('estimate_mc_b_stability', 'analysis/estimate_mc.py')],
  RM + 'integer-bin reference model of both estimators on every call',
  KN + 'Decisions within 1e-6 of the criterion are not judged.')

P('C11', 'KS-based Mc and Gutenberg-Richter tests are exact and consistent',
  'For every binned sample, ks_test_gr returns the Kolmogorov-Smirnov distance between the (weighted) empirical distribution at and above mc and the discretised exponential law of the given b-value, and a p-value equal to the fraction of null distances at least as large; the null samples have the size, binning and b-value of the data. '
  'estimate_mc_ks returns the first candidate mc in ascending order whose p-value reaches the threshold together with its b-value, and reports mcs, b-values, distances and p-values of exactly the candidates tested (None if none passes); results do not depend on event order or the warnings setting, and the Lilliefors p-value refers to the complete events only.',
  ['inputs', 'configurations'], 'every sample, weights, bin width, candidate list, b-value method or fixed b-value',
  'The test is stochastic and runs over a sequence of candidates; unit tests fix a seed and one catalogue.',
  ['analysis/estimate_mc.py', 'analysis/lilliefors.py', 'analysis/bvalue/base.py'],
  [('ks_test_gr, cdf_discrete_exp', 'analysis/estimate_mc.py'), ('estimate_mc_ks', 'analysis/estimate_mc.py'), ('ks_test_gr_lilliefors', 'analysis/lilliefors.py')],
  RM + 'reference KS model, injected null distances and statistical monitor of the simulated null',
  KN + 'Simulated nulls are judged by their mean within 6 sigma.')

P('C12', 'Weichert b-value solves the likelihood of unequal completeness',
  'For every catalogue and completeness table, the Weichert estimator counts exactly the events that are complete (their year not before the completeness year of their magnitude bin), in every magnitude bin of the table including bins without events, and returns the root of the Weichert (1980) likelihood equation as b (or beta) with its uncertainty, the rate at and the a-value for the reference magnitude; neither event order nor incomplete events influence the result, and replicating the catalogue leaves b unchanged.',
  ['inputs'], 'every catalogue, completeness table, bin width, last year, b_parameter',
  'Counting at the edges of bins and years and the numerical root depend on the input; the tests compare one artificial catalogue.',
  ['analysis/bvalue/weichert.py'],
  [('estimate_b_weichert', 'analysis/bvalue/weichert.py')],
  RM + 'independent root finding on counts made in integer bins and years', KN)

P('C13', 'Kijko-Smit b-value combines the complete sub-catalogues exactly',
  'For every catalogue and completeness table, the Kijko-Smit estimator assigns each event to the sub-catalogue of its year, uses it only if its magnitude is at or above that sub-catalogue\'s completeness, and returns the weighted harmonic combination of the sub-catalogue Aki-Utsu estimates (empty sub-catalogues count nothing) with its uncertainty, the rate over the non-overlapping observation times and the a-value; neither event order nor incomplete events influence the result.',
  ['inputs'], 'every catalogue, completeness table, bin width, last year, b_parameter',
  'Membership at the edges, empty sub-catalogues and rate normalisation vary with the input; the tests compare one artificial catalogue.',
  ['analysis/bvalue/kijko_smit.py'],
  [('estimate_b_kijko_smit', 'analysis/bvalue/kijko_smit.py')],
  RM + 'closed-form reference on integer counts, permutation monitor', KN)

P('C14', 'b-value variation test equals the mean over all partition offsets',
  'For every sequence of events, partition length and estimator, b_significant_1D sorts the events (and individual completeness values) by the given dimension, discards those below their mc, and returns as autocorrelation the mean over all partition offsets of Moran\'s I of the b-values (or a-values) estimated with a fresh estimator in each constant-number partition, with the p-value of that mean under the documented normal null; the result does not depend on the storage order of the events or on the container types of the inputs, and too few b-values give NaN.',
  ['inputs', 'histories'], 'every event sequence, mc (common or per event), partition length, dimension, estimator',
  'The statistic involves every offset of every partition of the ordered history; tests use one fixed series.',
  ['analysis/b_significant.py'],
  [('b_significant_1D', 'analysis/b_significant.py')],
  RM + 'reference recomputation with fresh estimators per partition, relabelling monitor', KN)

P('C15', 'Partitioning, Moran\'s I and sample-size transform are exact',
  'For every series, constant-number cutting yields contiguous sub-series of exactly the demanded length that conserve the order and lose only the leading and trailing remainder; values per partition equal those of a fresh estimator given that partition\'s magnitudes, times and mc (NaN for empty ones); Moran\'s I equals direct summation over the weight matrix (or over neighbours in 1D), ignores NaN values and reports how many values and pairs were used; and the transformation of a b-value to another sample size preserves its normalised deviation.',
  ['inputs'], 'every series with or without NaN, weight matrix, offset, partition',
  'Conservation and NaN handling are universally quantified; tests use small fixed arrays.',
  ['analysis/b_significant.py'],
  [('cut_constant_idx', 'analysis/b_significant.py'), ('values_from_partitioning', 'analysis/b_significant.py'), ('est_morans_i', 'analysis/b_significant.py'), ('transform_n', 'analysis/b_significant.py')],
  RM + 'direct-summation, conservation and fresh-estimator oracles', KN)

P('C16', 'Gardner-Knopoff declustering keeps exactly the mainshocks',
  'For every catalogue, Gardner-Knopoff declustering marks as dependent exactly the events lying in the space-time window of a larger, not yet dependent event (after it, or before it within the foreshock fraction of the window), processing events by decreasing magnitude, for each window law, time cutoff and foreshock fraction; it returns one Boolean per event in the catalogue\'s order. '
  'The outcome depends neither on row order, index labels, time resolution nor date range, windows follow their published formulas capped by the cutoff, and distances are great-circle distances for all points including antipodes and the date line.',
  ['inputs', 'histories'], 'every catalogue, window law, cutoff, foreshock fraction',
  'Cluster membership depends on the entire event history; tests decluster one stored catalogue.',
  ['analysis/declustering/dec_gardner_knopoff.py', 'analysis/declustering/distance_time_windows.py', 'analysis/declustering/utils.py', 'analysis/declustering/base.py'],
  [('GardnerKnopoffType1', 'analysis/declustering/dec_gardner_knopoff.py'), ('windows', 'analysis/declustering/distance_time_windows.py'), ('haversine', 'analysis/declustering/utils.py')],
  RM + 'quadratic plain-Python reference, permutation and relabelling monitors',
  KN + 'Pairs within 2 s or 1 m of a window edge are not judged.')

P('C07', 'Results depend on the arguments alone, never on history or concurrency',
  'Every function, estimator and method gives the same result for the same arguments (and numpy seed) whatever was called before in the process, in whichever order, on whichever other objects: a call after an arbitrary history equals the same call in a fresh process; an estimator object reused with other arguments (including without weights or dmc after a call with them) equals a fresh estimator; concurrent calls in threads on separate objects equal sequential ones. '
  'Results already handed out never change through later calls, catalogues never share or leak attributes, and the warnings option is as it was left. '
  'No call changes settings of the process (error handling of numpy, warning filters, parameters of matplotlib, environment, working directory); deterministic calls leave the random generator of numpy untouched and random ones never seed it.',
  ['histories', 'schedules'], 'every sequence and every interleaving of calls of the public API',
  'Unit tests run each call once on fresh objects; leaks through module state, cached attributes, mutable defaults and shared buffers show only in sequences.',
  ['analysis/bvalue/base.py', 'analysis/avalue/base.py', 'catalogs/catalog.py', 'utils/_config.py', 'analysis/estimate_mc.py'],
  [('BValueEstimator.calculate', 'analysis/bvalue/base.py'), ('Catalog.__init__ / attributes', 'catalogs/catalog.py'), ('options', 'utils/_config.py')],
  RM + 'fresh-process reference oracle, interleaving and thread stress with result snapshots',
  KN + '75 kinds of calls; thread schedules are those the interpreter produces with a small switch interval.')

P('C08', 'Arguments are read, never written',
  'No call of the public API (other than documented in-place methods and the documented attribute updates of Catalog.estimate_mc_*, estimate_b, estimate_a) modifies any of its arguments: arrays, lists, Series, dictionaries and catalogues passed in are bit-identical afterwards, calls succeed with the same result on write-protected arrays, and returned catalogues and grids do not share data with their sources, so that changing a result does not change the source.',
  ['inputs', 'histories'], 'every call of the public API with every form of argument',
  'A caller reuses the same arrays for several analyses; tests build a new array per assertion, so in-place sorting or filtering passes unnoticed.',
  ['analysis/bvalue/base.py', 'analysis/avalue/base.py', 'analysis/estimate_mc.py', 'analysis/b_significant.py', 'plots/seismicity.py', 'catalogs/catalog.py', 'catalogs/rategrid.py'],
  [('estimators', 'analysis/bvalue/base.py'), ('plots', 'plots/seismicity.py'), ('Catalog methods', 'catalogs/catalog.py')],
  RM + 'deep-snapshot comparison around every call, write-protected argument arrays', KN)

P('C09', 'The warnings option silences the package and changes nothing else',
  'With the option "warnings" set to False no code of the package issues any warning (through the warnings module), with it set to True the documented situations (too few magnitudes, all magnitudes above mc filtered, missing pairs, mc below the smallest magnitude ...) do warn; the option never changes a result, an exception or another option, no call changes the option, and unknown options are rejected.',
  ['inputs', 'histories'], 'every call of the public API, option on and off',
  'Each module consults the option on its own in a dozen places; tests look at two of them.',
  ['utils/_config.py', 'analysis/bvalue/base.py', 'analysis/avalue/base.py', 'analysis/estimate_mc.py', 'analysis/b_significant.py'],
  [('get_option / set_option', 'utils/_config.py')],
  RM + 'interposed warnings.warn recording the calling module, differential on/off oracle', KN)

P('C17', 'Pandas operations keep values, type and attributes of catalogues',
  'Any pandas operation on a Catalog or ForecastCatalog gives the values, index and columns the same operation gives on a plain DataFrame. Selecting, copying, sorting, assigning, renaming, concatenating, merging and pickling keep the type as long as the required columns are present (a ForecastCatalog without catalog_id becomes a Catalog, a catalogue without required columns a DataFrame), and keep every attribute (name, mc, delta_m, b_value, a_value, times, bounds) of the first operand; operations do not alter their operands.',
  ['histories', 'inputs'], 'every sequence of pandas operations',
  'Metadata and type travel through _constructor and __finalize__ along many pandas code paths; a loss in the middle of an analysis chain silently removes mc or delta_m.',
  ['catalogs/catalog.py'],
  [('_catalog_constructor_with_fallback', 'catalogs/catalog.py'), ('Catalog.__finalize__', 'catalogs/catalog.py')],
  RM + 'lock-step execution on a plain DataFrame, type and metadata monitors over random operation histories',
  KN + 'Types are judged for selecting operations, metadata not for aggregations.')

P('C18', 'Catalogue methods equal the functions on their columns and attributes',
  'Every analysis, plotting and transformation method of Catalog and ForecastCatalog gives exactly what the corresponding function gives for the catalogue\'s columns and attributes: explicit arguments take precedence over attributes (values of 0 included), attributes over defaults, and a missing mandatory value raises ValueError. '
  'The documented attribute updates (mc, delta_m, b_value, a_value, binning) are written to the catalogue and nothing else changes: magnitudes, order, index and other attributes stay, and inplace=False works on an independent copy.',
  ['inputs', 'histories'], 'every catalogue, method, argument combination and attribute state',
  'Each method re-implements the choice between argument, attribute and default; tests exercise one combination per method.',
  ['catalogs/catalog.py'],
  [('Catalog.estimate_b / estimate_a / estimate_mc_*', 'catalogs/catalog.py'), ('Catalog.bin_magnitudes', 'catalogs/catalog.py'), ('Catalog.plot_*', 'catalogs/catalog.py')],
  RM + 'differential oracle against the function on the raw columns, attribute snapshots, interposed plot functions', KN)

P('C19', 'Raw data become a catalogue cell by cell',
  'A Catalog or ForecastCatalog built from records, columns, a DataFrame or from_dict holds, row by row, exactly the given data: numbers and numeric strings become that number and anything unparsable NaN (never an error or a shifted row), ISO 8601 times, datetimes, Timestamps and datetime64 values become that instant with all digits up to the microsecond, for all years and time-zone notations, also if notations are mixed; none-like texts in type columns become None while every other text is kept, and no other column is touched. '
  'Row order, index and columns are those of the input apart from the ID and uncertainty columns that were not asked for; building a catalogue from a catalogue changes nothing, and the input data are not modified.',
  ['inputs'], 'every table of raw values',
  'One odd cell (an historic date, an empty string) switches a whole column to another code path; tests contain uniform columns.',
  ['catalogs/catalog.py', 'utils/__init__.py'],
  [('Catalog.__init__ / from_dict', 'catalogs/catalog.py'), ('_robust_parse_datetime', 'utils/__init__.py')],
  RM + 'generated raw tables with per-cell expected values, full cell comparison', KN)

P('C20', 'A catalogue written to QuakeML reads back as the same catalogue',
  'For every catalogue, to_quakeml gives a well-formed document which from_quakeml (as string or file) reads back as the same events in the same order with the same values of all columns QuakeML can hold: locations, times to the microsecond, magnitudes with types, secondary magnitudes of any type name, uncertainties, identifiers and quality fields, including texts with markup characters and missing values in any pattern. '
  'Rows lacking latitude, longitude or time are left out, missing identifiers are created and unique, a ForecastCatalog gives one document per catalog_id, the include options select exactly the documented columns, and a second round trip changes nothing.',
  ['inputs', 'histories'], 'every catalogue and combination of options',
  'Writer (a text template) and reader (an event parser) share no code or schema; a lost column or a wrong association shows only for particular patterns of present and missing values.',
  ['catalogs/catalog.py', 'io/parser.py', 'utils/__init__.py'],
  [('Catalog.to_quakeml / from_quakeml', 'catalogs/catalog.py'), ('QuakeMLHandler', 'io/parser.py'), ('quakeml template', 'catalogs/catalog_templates/quakeml.j2')],
  RM + 'write-read round-trip oracle with an independent XML parser as second observer', KN)

P('C21', 'QuakeML parsing yields what the document says, however it is delivered',
  'For every valid QuakeML document the parser gives one record per event, in document order, with the values of the preferred origin and preferred magnitude (by ID, wherever they stand in the event), the event\'s type and IDs, and, where asked for, one entry for every other magnitude type with its own uncertainties and IDs; nothing of another event, another origin or of comments, amplitudes, picks or focal mechanisms enters a record. '
  'The result is the same for string, file and HTTP response, for any read size and chunk boundary, encoding, white space, namespace prefix, entity, CDATA and order of elements, and events without preferred origin or magnitude have missing values.',
  ['inputs', 'histories'], 'every QuakeML document, notation and split of the byte stream',
  'SAX callbacks get text in pieces that depend on buffer boundaries, and state must be reset between events; tests parse a handful of short documents in one piece.',
  ['io/parser.py', 'catalogs/catalog.py'],
  [('QuakeMLHandler', 'io/parser.py'), ('parse_quakeml / _file / _response', 'io/parser.py'), ('Catalog.from_quakeml', 'catalogs/catalog.py')],
  RM + 'generated documents with known content, chunk-boundary sweeps, all entry points compared', KN)

P('C22', 'Damaged or truncated QuakeML never reads as a smaller catalogue',
  'Whatever byte a QuakeML document is cut at, wherever the stream that delivers it breaks off or its bytes are damaged so that it is no longer well-formed, every way of reading it (string, file, HTTP response, compressed or not) raises instead of returning the events read so far. '
  'A complete document always reads completely, and a failed reading has no effect on later ones.',
  ['crash_points', 'fault_sequences', 'inputs'], 'every document, every cut position, every read that fails, every entry point',
  'An incremental parser has a usable partial result at every byte; only trying every byte position shows whether one of them is accepted as the whole.',
  ['io/parser.py', 'catalogs/catalog.py'],
  [('parse_quakeml / _file / _response', 'io/parser.py'), ('Catalog.from_quakeml', 'catalogs/catalog.py')],
  RM + 'enumeration of all prefixes and of stream faults, expat as independent judge of well-formedness', KN + 'An empty body may read as no events.',
  'fault_enumeration')

P('C23', 'The FDSN client returns exactly the requested events',
  'get_events sends the given time span, region, magnitude range and switches unaltered to the service (times with all digits, zero values included) and returns exactly the events the service holds for them, once each, in one request or in batches of any size, whether the number of events is a multiple of the batch size or not, and also without any event. '
  'The number of events asked for beforehand is the service\'s number, values arrive unchanged in the catalogue, several clients and concurrent calls do not influence each other, and the arguments are left as they are.',
  ['inputs', 'configurations', 'schedules'], 'every query, every event list, every batch size, concurrent calls',
  'The tests replace the HTTP request by a stored answer, so that neither the request nor the paging is ever exercised.',
  ['catalogs/client.py', 'io/parser.py'],
  [('FDSNWSEventClient.get_events', 'catalogs/client.py')],
  RM + 'loopback FDSN service implementing the query parameters, request log and event-by-event comparison', KN)

P('C24', 'A failing service never yields a silently smaller catalogue',
  'If any request of get_events (the counting request or any batch) is answered by an error status, cut short, garbled, redirected or reset, get_events either raises or returns the complete catalogue; it never returns part of the events or none. '
  'After a failure the same client works again and later calls are complete.',
  ['fault_sequences', 'inputs'], 'every fault kind at every request of every query',
  'Faults at the k-th batch need a server that fails on purpose; the tests have none.',
  ['catalogs/client.py', 'io/parser.py'],
  [('FDSNWSEventClient.get_events', 'catalogs/client.py'), ('parse_quakeml_response', 'io/parser.py')],
  RM + 'fault injection at every request of a loopback FDSN service, raise-or-complete oracle', KN + 'An answer that states there are no data is believed.',
  'fault_enumeration')

P('C25', 'OpenQuake conversion keeps every event and value, both ways',
  'For every catalogue with times, converting to an OpenQuake catalogue and back gives the same events in the same order with the same values of every column and times equal to the microsecond, for all years, column types, index orders and ways of storing times; in between the OpenQuake catalogue holds the calendar units and the seconds with fraction, event identifiers (created and unique if missing), and works with OpenQuake\'s own sorting and purging. '
  'Catalogues made in OpenQuake convert likewise, with empty attributes left out and time units kept only if asked for; empty catalogues stay empty, and neither side shares or changes the data of the other.',
  ['inputs', 'histories'], 'every catalogue, every OpenQuake catalogue',
  'Tests convert a few modern events; times before 1677, years below 1000, seconds that round up and nullable or mixed columns each take another code path.',
  ['catalogs/catalog.py'],
  [('Catalog.to_openquake / from_openquake', 'catalogs/catalog.py')],
  RM + 'round-trip oracle in plain datetime arithmetic, OpenQuake operations in between, aliasing monitor', KN)

P('C26', 'Rate grids keep every cell; equal cells get equal numbers',
  'Adding the time index to a rate grid, concatenating grids, stripping and rebuilding keep every row with all its values, the type and the attributes; the time index carries exactly the start (and end) time of the grid and a cell number which is the same for two rows, within and across grids, exactly when all six bounds are the same, missing bounds included. '
  'Selections, copies and pickles made with pandas keep the cells, the type and the attributes (name, start, end, number of grids); without grid_id a forecast grid becomes a rate grid, without a required column a DataFrame. Mixing indexed and unindexed grids is rejected, and no operation alters its inputs.',
  ['histories', 'inputs'], 'every grid and sequence of operations',
  'Cell numbers must agree for any order, repetition and missing bound; tests concatenate two identical grids.',
  ['catalogs/rategrid.py'],
  [('GRRateGrid.add_time_index', 'catalogs/rategrid.py'), ('GRRateGrid.concat', 'catalogs/rategrid.py'), ('strip', 'catalogs/rategrid.py')],
  RM + 'operation histories with row-by-row comparison and an equality oracle on cell bounds', KN)

P('C27', 'Forecast grid statistics aggregate exactly each cell\'s realizations',
  'The statistics of a forecast grid contain one row per distinct cell (and period, if indexed), with the bounds of the cell unchanged and every requested statistic computed over exactly the realizations of that cell, whatever the order of rows, number of realizations per cell, missing values and missing bounds. '
  'In an indexed forecast the rows keep the period and the number of the cell. Columns that are not numbers are left out, and the grid itself does not change.',
  ['inputs'], 'every forecast grid and list of statistics',
  'Tests have complete regular grids; groups with missing bounds or unequal sizes fall out of a group-by silently.',
  ['catalogs/rategrid.py'],
  [('ForecastGRRateGrid.calculate_statistics', 'catalogs/rategrid.py')],
  RM + 'plain-numpy reference aggregation per cell', KN)

P('C28', 'Simulated magnitudes follow the requested law; dithering stays in the bin',
  'For every number, b or beta value (also one per event), mc, maximum magnitude and bin width, simulated magnitudes are as many as asked for, lie within [mc, maximum] (binned: on the grid starting at mc and within half a bin of the limits), follow the (truncated) exponential law or its binned form, and are recovered by the b-value estimators. '
  'Dithering moves every magnitude within its own bin with the exponential density of the b-value, so that binning the result again gives the original magnitudes; the same seed gives the same sample, and arguments are left as they are.',
  ['inputs'], 'every parameter combination and random state',
  'A distribution can only be judged on large samples; tests check the mean with fixed seeds.',
  ['utils/simulate_distributions.py'],
  [('simulate_magnitudes', 'utils/simulate_distributions.py'), ('simulate_magnitudes_binned', 'utils/simulate_distributions.py'), ('dither_magnitudes', 'utils/simulate_distributions.py')],
  RM + 'support, bin-conservation and goodness-of-fit oracles on every sample', KN + 'Distributions are rejected at p < 1e-9.')

P('C29', 'Coordinate transformations are exact, invertible and point by point',
  'For every pair of coordinate systems and reference point, transforming gives the projected coordinates relative to the reference point (altitude included), transforming back gives the original coordinates, each point independently of the others and of the container, with longitude before latitude throughout. '
  'Polygons keep their vertices, order, holes and orientation, bounding boxes and polygons convert into each other exactly, and one transformer can be used from several threads and in any order.',
  ['inputs', 'histories', 'schedules'], 'every projection, reference point, point set and polygon',
  'Tests transform two Swiss points; axis order, holes, altitude and reference points are independent switches.',
  ['utils/coordinates.py'],
  [('CoordinateTransformer', 'utils/coordinates.py'), ('bounding_box_to_polygon', 'utils/coordinates.py'), ('polygon_to_bounding_box', 'utils/coordinates.py')],
  RM + 'reference transformation by pyproj and swisstopo formulas, inverse and independence relations', KN + 'Trusts pyproj.')

P('C31', 'The polygon filter returns exactly the rows inside the polygon',
  'For every table and simple polygon (convex or not, any orientation, start vertex and size), filtering returns exactly the rows whose point lies inside or on the edge of the polygon, in their order, with their index, all columns and values, the type and the attributes of the table, for every row independently of the others. '
  'Rows without coordinates are outside, tables without rows stay empty, and neither table nor polygon is changed.',
  ['inputs'], 'every table, polygon and index',
  'Tests filter a few points by a square; concave polygons, odd indices and column names are unexplored.',
  ['utils/filtering.py'],
  [('cat_intersect_polygon', 'utils/filtering.py')],
  RM + 'crossing-number reference oracle per row', KN + 'Points within 1e-9 of an oblique edge are not judged.')

P('C32', 'Methods demand the columns they document, and only those',
  'Every method of catalogues and rate grids that needs certain columns raises AttributeError naming the missing ones exactly when one of them is missing, before anything is changed, and works with nothing but these columns; the same holds for the decorator on user-defined classes, including exclusions. '
  'Rejected calls leave the object as it was, so that it works as soon as the column is supplied.',
  ['inputs', 'histories'], 'every method and every set of present columns',
  'There are dozens of methods times subsets of columns; tests remove one column from a few methods.',
  ['utils/__init__.py', 'catalogs/catalog.py', 'catalogs/rategrid.py'],
  [('require_cols', 'utils/__init__.py'), ('Catalog methods', 'catalogs/catalog.py'), ('GRRateGrid methods', 'catalogs/rategrid.py')],
  RM + 'every method called on objects with random column subsets, demanded-set oracle', KN)

P('C33', 'Local magnitudes convert by the published polynomial, others stay',
  'For every magnitude and magnitude type, converting a local magnitude gives the moment magnitude of the published quadratic relation and a moment type, converting a moment magnitude changes neither value nor type, and missing values stay missing. '
  'Applied to a table, every row is converted by itself, and converting twice is the same as converting once.',
  ['inputs'], 'every magnitude, type notation and table',
  'The relation is a polynomial without a threshold; tests check two values.',
  ['analysis/magnitudes.py'],
  [('apply_edwards', 'analysis/magnitudes.py')],
  RM + 'exact rational evaluation of the published polynomial', KN)

P('C30', 'Plots draw exactly the data they document',
  'Whatever is read off a figure is what the arguments give: points of frequency-magnitude plots are the (weighted) counts per bin, the Gutenberg-Richter line starts at the first bin at or above mc with the count there and has the slope of the b-value, cumulative counts jump at each event at or above mc, dots lie at the events with sizes growing with magnitude as the legend tells, and b-value and autocorrelation curves with their confidence bands belong to exactly the windows, positions and confidence levels asked for. Colours, sizes and labels asked for are those of what is drawn. '
  'Everything is drawn on the given axes (or on new ones), which are returned, and nothing drawn before or elsewhere changes.',
  ['inputs', 'configurations'], 'every sample, option combination and axes',
  'The tests only assert that a plot is made; a shifted line, window or band is a wrong scientific result that raises nothing.',
  ['plots/basics.py', 'plots/seismicity.py', 'plots/statistical.py'],
  [('plot_cum_fmd / plot_fmd / plot_cum_count / plot_mags_in_time', 'plots/basics.py'), ('plot_in_space', 'plots/seismicity.py'), ('plot_mc_vs_b / plot_b_series_constant_nm / plot_b_significant_1D', 'plots/statistical.py')],
  RM + 'data of all drawn artists read back and compared with independent computations', KN + 'Bands of bootstrapped deviations are compared roughly.')
