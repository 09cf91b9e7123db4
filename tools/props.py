"""the properties (source of properties.jsonl)"""
AV = 'seismostats/analysis/avalue/'
BV = 'seismostats/analysis/bvalue/'
AN = 'seismostats/analysis/'
UT = 'seismostats/utils/'
CA = 'seismostats/catalogs/'
PL = 'seismostats/plots/'
IO = 'seismostats/io/'
CT = CA + 'catalog.py'

# property -> reason, for properties that are not decided
NA = {}

PROPS = [
    dict(
        id='C01',
        title='Only complete, valid events enter an estimate, consistently',
        statement=(
            'For the classic, Utsu, b-positive, b-more-positive, classic a, '
            'a-positive and a-more-positive estimators, the result depends '
            'only on the events that are not NaN and have a magnitude >= '
            'mc - delta_m/2, and the classic ones use exactly those; with no '
            'such event the estimate is NaN. The attributes magnitudes, '
            'weights, times and idx after an estimate describe the same '
            'events: idx holds integer positions into the input arrays, '
            'weights and times are the input values at idx, and n is their '
            'number.'),
        quant='every catalog (length within the bound), mc, bin size, '
              'weights, event times, dmc; NaN at any position',
        why='tests run one or two fixed catalogs where every event is '
            'complete or in which the filter keeps a prefix; boundary ties, '
            'NaN, interleaved incomplete events and weights are not combined',
        files=[BV + 'base.py', AV + 'base.py', BV + 'positive.py',
               BV + 'more_positive.py', AV + 'positive.py',
               AV + 'more_positive.py'],
        mech=[('completeness filter', 'BValueEstimator._filter_magnitudes, '
               'AValueEstimator._filter_magnitudes'),
              ('propagation of weights/times/idx', '_filter_magnitudes and '
               '_estimate overrides of the positive estimators')],
        observe=['estimator.calculate', 'estimator.idx/.magnitudes/.weights/'
                 '.times/.n']),
    dict(
        id='C02',
        title='Classic and Utsu b-values are the (weighted) maximum likelihood',
        statement=(
            'The classic b-value equals log10(1 + delta_m/mu)/delta_m (for '
            'delta_m=0: 1/(mu ln 10)) and the Utsu b-value equals '
            '1/((mu + delta_m/2) ln 10), with mu the (weighted) mean of the '
            'complete magnitudes minus mc. Weights act as multiplicities and '
            'are scale-free; negative weights or weights of the wrong '
            'length raise, and reading a result before an estimate raises '
            'AttributeError.'),
        quant='every catalog (length within the bound), mc, bin size and '
              'weight vector',
        why='tests compare a few random catalogs with a tolerance; they do '
            'not vary weights, mc offset and bin size together',
        files=[BV + 'classic.py', BV + 'utsu.py', BV + 'base.py'],
        mech=[('estimator formula', 'ClassicBValueEstimator._estimate, '
               'UtsuBValueEstimator._estimate'),
              ('input checks', 'BValueEstimator._sanity_checks')],
        observe=['estimator.calculate', 'estimator.b_value/.beta/.n']),
    dict(
        id='C03',
        title='b-positive and b-more-positive use the right magnitude pairs',
        statement=(
            'With events in time order, b-positive uses the differences '
            'between consecutive complete events that are >= dmc - '
            'delta_m/2; b-more-positive pairs each complete event with the '
            'first later event larger by at least dmc - delta_m/2. The '
            'b-value is the maximum likelihood of these differences above '
            'dmc (dmc defaults to delta_m), weighted with the weight of the '
            'later event, NaN without any pair; idx, times, weights and '
            'magnitudes describe the later events and the differences; '
            'negative dmc raises ValueError.'),
        quant='every catalog (length within the bound), mc, bin size, dmc, '
              'weights, and every time order of the events',
        why='tests use fixed or random catalogs already in time order, '
            'mostly unweighted, with default dmc',
        files=[BV + 'positive.py', BV + 'more_positive.py', BV + 'utils.py'],
        mech=[('pair selection', 'BPositiveBValueEstimator._estimate, '
               'BMorePositiveBValueEstimator._estimate, find_next_larger'),
              ('time order', '_filter_magnitudes overrides')],
        observe=['estimator.calculate', 'find_next_larger']),
    dict(
        id='C04',
        title='Estimates do not depend on the order in which events are listed',
        statement=(
            'Listing the events in another order (with their weights and '
            'times) gives the same b-value, a-value, n and std: for the '
            'classic, Utsu and classic a estimators always, for b-positive, '
            'b-more-positive, a-positive and a-more-positive when times are '
            'given. Times may be numbers or datetimes; only their order '
            'matters for the b-values. Without times, b-positive and '
            'b-more-positive take the events in the order in which they '
            'are listed.'),
        quant='every catalog within the bound and every permutation of it',
        why='tests use one catalog in chronological order',
        files=[BV + 'positive.py', BV + 'more_positive.py',
               BV + 'base.py', AV + 'positive.py', AV + 'more_positive.py'],
        mech=[('time order', '_filter_magnitudes / _estimate of the positive '
               'estimators (argsort of times)')],
        observe=['estimator.calculate', 'estimator.n/.std']),
    dict(
        id='C05',
        title='Uncertainties are Shi-Bolt, or the spread of the bootstrap',
        statement=(
            'shi_bolt_confidence and the std of the classic, Utsu and '
            'b-positive estimates equal ln(10) b^2 sqrt(sum((m - mean)^2)/'
            '(n(n-1))), over magnitudes respectively differences (weighted '
            'accordingly); std_beta is ln(10) std, and beta is ln(10) b in '
            'every conversion; reading them before an estimate raises '
            'AttributeError. bootstrap_std is the standard deviation of '
            'the statistic over resamples with replacement of the given '
            'sample, disregarding NaN and infinite values, reproducible '
            'with a seed, and raises ValueError if none is valid. The '
            'b-more-positive std is the spread of b-more-positive over '
            'resamples of the complete events in their time order.'),
        quant='every sample within the bound, every outcome of the random '
              'resampling, b_parameter b and beta',
        why='tests compare with stored numbers for a handful of catalogs and '
            'one seed; degenerate resamples are not reached',
        files=[BV + 'utils.py', BV + 'base.py', BV + 'more_positive.py',
               UT + '_config.py'],
        mech=[('Shi-Bolt', 'shi_bolt_confidence'),
              ('bootstrap', 'bootstrap_std'),
              ('attributes', 'BValueEstimator.std/.beta/.std_beta')],
        observe=['shi_bolt_confidence', 'bootstrap_std', 'b_value_to_beta',
                 'beta_to_b_value', 'estimator.std/.std_beta']),
    dict(
        id='C06',
        title='The classic a-value counts events at the reference magnitude',
        statement=(
            'The classic a-value is log10(n) - b (m_ref - mc) - log10('
            'scaling_factor), with n the (weighted) number of complete '
            'events; m_ref defaults to mc and scaling_factor to 1, and '
            'm_ref without a b-value raises ValueError. The scaling factor '
            'shifts every a-estimator by -log10(scaling_factor). Without '
            'complete events the estimate is NaN; reading attributes before '
            'an estimate raises AttributeError.'),
        quant='every catalog within the bound, mc, bin size, m_ref, b and '
              'scaling factor',
        why='tests check a few random catalogs for closeness',
        files=[AV + 'classic.py', AV + 'base.py', AV + 'positive.py',
               AV + 'more_positive.py'],
        mech=[('formula', 'ClassicAValueEstimator._estimate'),
              ('reference', 'AValueEstimator._reference_scaling')],
        observe=['estimator.calculate', 'estimator.a_value']),
    dict(
        id='C07',
        title='a-positive and a-more-positive count pairs per observed time',
        statement=(
            'a-positive is log10 of the number of consecutive differences '
            '>= dmc - delta_m/2 divided by the fraction of the total time '
            'that their intervals make up; a-more-positive uses the '
            'distance to the next larger event, scaled by the magnitude '
            'difference with the given b-value, and counts events that '
            'never see a larger one in the observed time. Datetimes of any '
            'resolution and numbers of seconds give the same value; the '
            'unit of numeric times does not matter; negative dmc raises '
            'ValueError.'),
        quant='every catalog within the bound in any order, with distinct '
              'times; mc, dmc, bin size and b',
        why='tests use two fixed catalogs with times in one unit',
        files=[AV + 'positive.py', AV + 'more_positive.py'],
        mech=[('pair selection and observed time',
               'APositiveAValueEstimator._estimate, '
               'AMorePositiveAValueEstimator._estimate')],
        observe=['estimator.calculate']),
    dict(
        id='C08',
        title='An estimate depends only on its arguments and mutates none',
        statement=(
            'Calling calculate again on an estimator object gives the same '
            'result and attributes as a fresh object, whatever was '
            'calculated before; the caller\'s arrays are not modified; '
            'lists and Series of magnitudes give the same result as arrays; '
            'the option warnings=False changes no result and silences the '
            'warnings.'),
        quant='every pair of calls with catalogs within the bound, per '
              'estimator',
        over=['inputs', 'histories'],
        why='tests create a new estimator for every call and do not look at '
            'the arguments afterwards',
        files=[BV + 'base.py', BV + 'positive.py', BV + 'more_positive.py',
               AV + 'base.py', AV + 'positive.py', AV + 'more_positive.py'],
        mech=[('state', 'BValueEstimator.calculate, AValueEstimator.'
               'calculate')],
        observe=['estimator.calculate and attributes', 'arguments after the '
                 'call', 'warnings']),
    dict(
        id='C09',
        title='estimate_a/estimate_b and Catalog methods equal the estimators',
        statement=(
            'estimate_b and estimate_a return what the chosen estimator '
            'class (classic by default) computes on the same arguments, '
            'in the tuple form of return_std/return_n and as b or beta. '
            'Catalog.estimate_b and Catalog.estimate_a do so for the '
            'catalog\'s magnitude, time and weight columns, mc and delta_m '
            'taken from the arguments or else from the attributes '
            '(ValueError if neither), set the catalog\'s b_value / a_value '
            'attribute and leave its rows unchanged.'),
        quant='every catalog within the bound, every combination of the '
              'options',
        why='tests call a few option combinations on one catalog',
        files=[BV + '__init__.py', AV + '__init__.py', CA + 'catalog.py'],
        mech=[('wrappers', 'estimate_b, estimate_a, Catalog.estimate_b, '
               'Catalog.estimate_a')],
        observe=['estimate_b', 'estimate_a', 'Catalog.estimate_b',
                 'Catalog.estimate_a', 'Catalog.b_value/.a_value']),
    dict(
        id='C10',
        title='bin_to_precision rounds to the nearest bin center, ties upwards',
        statement=(
            'bin_to_precision(x, delta_x) returns for every value the nearest '
            'multiple of delta_x (a value half way is rounded upwards, also '
            'when negative), as the clean decimal float for decimal inputs; '
            'it is idempotent, keeps NaN, does not modify its argument and '
            'raises ValueError for None and for bin sizes that are not '
            'positive. Catalog.bin_magnitudes does this to the magnitude '
            'column with the bin size given or stored, records delta_m, and '
            'leaves the other columns as they are.'),
        quant='every array of values within the bound, every listed bin size',
        why='tests round a handful of values at two bin sizes',
        files=[UT + 'binning.py', CA + 'catalog.py'],
        mech=[('rounding', 'bin_to_precision, normal_round'),
              ('catalog', 'Catalog.bin_magnitudes')],
        observe=['bin_to_precision', 'Catalog.bin_magnitudes']),
    dict(
        id='C11',
        title='binning_test accepts exactly the samples on the grid',
        statement=(
            'binning_test(x, delta_x, check_larger_binning=False) is True '
            'exactly when all distances between the values are multiples of '
            'delta_x, whatever the common offset (bin centers or edges), '
            'order, NaN values or float rounding of the values; with the '
            'check of larger bins it is also False when the next larger '
            'power of ten fits. With delta_x=0 it is False for binned '
            'values and True for continuous ones; empty input raises '
            'ValueError, and the b- and a-value estimators raise ValueError '
            'for complete magnitudes that are off the grid.'),
        quant='every sample within the bound, for the listed bin sizes',
        why='tests use a few fixed arrays with offset 0',
        files=[UT + 'binning.py', BV + 'base.py', AV + 'base.py'],
        mech=[('test', 'binning_test'),
              ('guards', 'BValueEstimator._sanity_checks, '
               'AValueEstimator._sanity_checks')],
        observe=['binning_test', 'estimator.calculate']),
    dict(
        id='C12',
        title='Frequency-magnitude distributions count every event once',
        statement=(
            'get_fmd returns one bin for every multiple of fmd_bin from the '
            'smallest to the largest binned magnitude, the number (or total '
            'weight) of magnitudes whose nearest bin it is, and each '
            'magnitude rounded to its bin; get_cum_fmd gives the counts at '
            'or above each bin, and for fmd_bin=0 one entry per distinct '
            'magnitude. bin_position=\'left\' shifts the bins by half a bin '
            'and changes no count; fmd_bin <= 0 (< 0) raises ValueError, an '
            'unknown bin_position AssertionError.'),
        quant='every sample and every weights within the bound',
        why='tests count two fixed samples',
        files=[UT + 'binning.py'],
        mech=[('counting', 'get_fmd, get_cum_fmd')],
        observe=['get_fmd', 'get_cum_fmd']),
    dict(
        id='C13',
        title='Maximum curvature gives the fullest bin plus the correction',
        statement=(
            'estimate_mc_maxc returns the center of the bin with most '
            'magnitudes (the lowest of several) plus the correction factor '
            '(0.2 by default), whatever the order of the magnitudes and '
            'ignoring NaN, and reports the factor. '
            'Catalog.estimate_mc_maxc does so for the magnitude column and '
            'stores mc, changing nothing else.'),
        quant='every sample within the bound, any correction factor',
        why='tests use one sample',
        files=[AN + 'estimate_mc.py', CA + 'catalog.py'],
        mech=[('maxc', 'estimate_mc_maxc, Catalog.estimate_mc_maxc')],
        observe=['estimate_mc_maxc', 'Catalog.estimate_mc_maxc']),
    dict(
        id='C14',
        title='b-stability picks the mc whose b-value is most stable',
        statement=(
            'estimate_mc_b_stability calls the b-value estimator with '
            'exactly the magnitudes >= mc - delta_m/2, averages the b-values '
            'of all steps of the stability range (whatever the float '
            'rounding of mc), and returns the first mc that differs by at '
            'most one standard deviation, or without stop_when_passed the '
            'one that differs least, else None, together with the tested '
            'mcs, b-values and differences. Too short a range, magnitudes '
            'off the grid or (Catalog) a missing delta_m raise ValueError; '
            'Catalog.estimate_mc_b_stability stores mc; warnings=False '
            'silences it.'),
        quant='every b-value and standard deviation that an estimator might '
              'return, every listed magnitude range; every small sample on '
              'a grid',
        why='tests run one simulated and one fixed sample',
        files=[AN + 'estimate_mc.py', CA + 'catalog.py'],
        mech=[('b-stability', 'estimate_mc_b_stability, '
               'Catalog.estimate_mc_b_stability')],
        observe=['estimate_mc_b_stability',
                 'Catalog.estimate_mc_b_stability', 'Catalog.mc']),
    dict(
        id='C15',
        title='The KS test and the mc estimate based on it follow definition',
        statement=(
            'ks_test_gr returns the largest distance between the (weighted) '
            'empirical and the discrete Gutenberg-Richter distribution above '
            'mc, and the share of the given or simulated distances (samples '
            'of the same size, rate beta) that are at least as large; an '
            'empty sample or a single value gives (0, 1, []) with warnings '
            'on or off. estimate_mc_ks applies it to the magnitudes >= mc - '
            'delta_m/2 with the given or estimated b-value, for ascending '
            'mcs, and returns the smallest mc with p >= p_value_pass or '
            'None, and what was tested; the Catalog method stores mc and '
            'uses a stored b-value.'),
        quant='every small sample, every KS distances of the synthetic '
              'samples, every p-value threshold',
        why='tests use fixed samples and random synthetic distances',
        files=[AN + 'estimate_mc.py', CA + 'catalog.py'],
        mech=[('KS test', 'ks_test_gr, cdf_discrete_exp'),
              ('search', 'estimate_mc_ks, Catalog.estimate_mc_ks')],
        observe=['ks_test_gr', 'estimate_mc_ks', 'Catalog.estimate_mc_ks']),
    dict(
        id='C16',
        title='Simulated and dithered magnitudes follow the exponential law',
        statement=(
            'simulate_magnitudes turns its random numbers into magnitudes of '
            'the exponential law with rate beta above mc, truncated at '
            'mag_max if that is given (also 0). simulate_magnitudes_binned '
            'gives the nearest bin of such a magnitude above mc - delta_m/2, '
            'for a b-value or beta, one for all or one each; an unknown '
            'b_parameter raises ValueError. dither_magnitudes gives, bin by '
            'bin in ascending order, one magnitude of the exponential law '
            'truncated to the bin for each of the magnitudes in it, for any '
            'bin offset, and raises ValueError if they are not binned.'),
        quant='every random number, rate, mc and maximum within the bound',
        why='tests compare moments of random samples',
        files=[UT + 'simulate_distributions.py'],
        mech=[('simulation', 'simulate_magnitudes, '
               'simulate_magnitudes_binned'), ('dither', 'dither_magnitudes')],
        observe=['simulate_magnitudes', 'simulate_magnitudes_binned',
                 'dither_magnitudes']),
    dict(
        id='C17',
        title='Kijko-Smit uses exactly the events of complete periods',
        statement=(
            'estimate_b_kijko_smit counts each event in the latest '
            'completeness period that starts in or before its year, and only '
            'if its magnitude is above the completeness of that period. With '
            'the N counted events 1/beta is their mean distance to the '
            'completeness of their period, std = beta/sqrt(N), the rate of '
            'events above the lowest completeness is N / sum(duration_i '
            'exp(-beta (mc_i - mc_1))) with the disjoint durations of the '
            'periods (the last ends in last_year, by default the year of the '
            'last event), and the a-value is this rate extrapolated to '
            'magnitude 0. Periods without events, any order of events and '
            'b_parameter b_value or beta work; magnitudes below the table '
            'warn; mismatched input raises AssertionError.'),
        quant='every small catalog and completeness table in the bound',
        why='one test uses one synthetic catalog and table',
        files=[BV + 'kijko_smit.py'],
        mech=[('estimator', 'estimate_b_kijko_smit')],
        observe=['estimate_b_kijko_smit']),
    dict(
        id='C18',
        title='Weichert solves the likelihood equation for unequal periods',
        statement=(
            'estimate_b_weichert counts an event if its year is not before '
            'the completeness year of its magnitude, and minimises |sum(T m '
            'exp(-beta m)) / sum(T exp(-beta m)) - mean magnitude| over the '
            'bins with counted events (m the centre, T the years from '
            'completeness to last_year, by default the last event). For the '
            'beta found, rate, std of the rate (rate/sqrt(N)), a-value (rate '
            'extrapolated from the lowest counted bin edge to 0) and std of '
            'beta follow the formulas of Weichert (1980); b_parameter selects '
            'b-value or beta. Magnitudes below the table warn; mismatched '
            'input raises AssertionError.'),
        quant='every beta the minimiser may return, every last year, every '
              'small catalog in the bound',
        why='one test uses one synthetic catalog and table',
        files=[BV + 'weichert.py'],
        mech=[('estimator', 'estimate_b_weichert, '
               '_weichert_objective_function')],
        observe=['estimate_b_weichert']),
    dict(
        id='C19',
        title='make_more_incomplete removes exactly the hidden events',
        statement=(
            'make_more_incomplete keeps an event if and only if no earlier '
            'event less than delta_t before it (60 s by default) is larger, '
            'also if that event is removed itself. Magnitudes and times of '
            'the kept events are returned in time order; with return_idx the '
            'third value selects them from the time-sorted events. The '
            'arrays passed in are not changed; numbers and datetimes work.'),
        quant='every small catalog with any times in any order and window',
        why='tests use two fixed catalogs sorted in time',
        files=[AN + 'estimate_mc.py'],
        mech=[('incompleteness filter', 'make_more_incomplete')],
        observe=['make_more_incomplete']),
    dict(
        id='C20',
        title='Autocorrelation tests of b- and a-value series are correct',
        statement=(
            'est_morans_i gives the autocorrelation sum(w dx_i dx_j)/sum(w) '
            '* n/sum(dx^2) of the given values that are not NaN (neighbours '
            'in a series, or pairs of a triangular neighbour matrix; other '
            'matrices warn or raise), with its n and number of pairs. '
            'transform_n scales b-values to the standard normal law by the '
            'error of n events. cut_constant_idx cuts a series into windows '
            'of n_sample values from an offset, values_from_partitioning '
            'gives the estimate per window with its number of used events. '
            'b_significant_1D averages the autocorrelation over all offsets '
            'of the windows and gives the one-sided p-value against the '
            'normal law with mean -1/mean(n) and the documented standard '
            'deviation; with x_variable, events and their mc are put in its '
            'order; windows with too few events count as NaN, keyword '
            'arguments go to the estimator.'),
        quant='every value, estimate and mc, every small series and matrix',
        why='tests compare few series with stored values; the order of '
            'per-event mc and NaN estimates are not tested',
        files=[AN + 'b_significant.py', BV + 'utils.py'],
        mech=[('autocorrelation', 'est_morans_i'),
              ('significance', 'b_significant_1D, transform_n, '
               'values_from_partitioning, cut_constant_idx')],
        observe=['est_morans_i', 'b_significant_1D', 'transform_n',
                 'values_from_partitioning', 'cut_constant_idx']),
    dict(
        id='C21',
        title='Declustering flags exactly the mainshocks of the algorithm',
        statement=(
            'GardnerKnopoffType1 goes through the events from the largest '
            'to the smallest (ties: earliest first). Each one that is not '
            'yet in a cluster is a mainshock, and every other free event '
            'within its distance window and within its time window after, or '
            'fs_time_prop times its time window before it, becomes dependent '
            '(windows include their ends). It returns one flag per event in '
            'the order of the catalog, True for mainshocks, for DataFrames '
            'and Catalogs with any index, times to the microsecond and any '
            'length, and leaves the catalog unchanged; '
            'missing columns raise ValueError.'),
        quant='every space and time window per magnitude, every order of '
              'events and magnitudes in the bound',
        why='one test compares one catalog with stored flags',
        files=[AN + 'declustering/dec_gardner_knopoff.py',
               AN + 'declustering/base.py',
               AN + 'declustering/utils.py'],
        mech=[('declustering', 'GardnerKnopoffType1.__call__, '
               'Declusterer.__call__'), ('distance', 'haversine')],
        observe=['GardnerKnopoffType1.__call__']),
    dict(
        id='C22',
        title='Declustering windows and distances follow their formulas',
        statement=(
            'GardnerKnopoffWindow, GruenthalWindow and UhrhammerWindow give '
            'for every magnitude >= 0 the space window (km) and time window '
            'of the published relations with their change at magnitude 6.5, '
            'for arrays and Series, and no time window is longer than '
            'time_cutoff days if it is given (also 0). The magnitudes are '
            'not changed. haversine gives the great-circle distance on a '
            'sphere of the given radius between every place and the target: '
            'symmetric, 0 for the same place, half the circumference for '
            'opposite places.'),
        quant='every magnitude in [0, 9], every cutoff, every pair of places',
        why='tests compare a handful of magnitudes and places',
        files=[AN + 'declustering/distance_time_windows.py',
               AN + 'declustering/utils.py'],
        mech=[('windows', 'BaseDistanceTimeWindow.__call__ and _calc'),
              ('distance', 'haversine')],
        observe=['GardnerKnopoffWindow', 'GruenthalWindow',
                 'UhrhammerWindow', 'haversine']),
    dict(
        id='C23',
        title='The FDSN client asks for the right events and gets them all',
        statement=(
            'FDSNWSEventClient.get_events sends exactly the parameters it was '
            'given under their FDSN names (times as YYYY-mm-ddTHH:MM:SS, '
            'minmagnitude lowered by delta_m/2, 0.1 by default, extra '
            'keywords as they are), nothing of an earlier query, to the url '
            'of the client. With a batch_size every event the service has '
            'arrives once, in the order of the service, in requests of at '
            'most batch_size events, for any number of events including none '
            'and multiples of the batch size. start and end time become '
            'those of the catalog; quality, ID and uncertainty columns come '
            'only if asked for.'),
        quant='every number of events and batch size in the bound, every '
              'combination of parameters',
        why='tests use one recorded answer and two batch counts',
        files=[CA + 'client.py'],
        mech=[('query', 'FDSNWSEventClient.get_events'),
              ('batches', '_get_batch_count, _get_batch_params, '
               '_get_events_batched, _exists_with_offset')],
        observe=['FDSNWSEventClient.get_events']),
    dict(
        id='C27',
        title='Coordinates: projection, reference and round trip agree',
        statement=(
            'CoordinateTransformer.to_local_coords gives the projected '
            'easting and northing minus the reference and the altitude minus '
            'the reference altitude (None without altitude), '
            'from_local_coords is its inverse, for numbers, lists and arrays; '
            'coordinates are longitude, latitude. A reference in ref_proj is '
            'projected first. polygon_to_local_coords and '
            'polygon_from_local_coords move every vertex (holes and '
            'altitudes included) as the points are moved. '
            'bounding_box_to_polygon(x_min, x_max, y_min, y_max) gives the '
            'box with these corners and polygon_to_bounding_box the smallest '
            'box (minx, miny, maxx, maxy) around a polygon.'),
        quant='every coordinate, altitude, reference and box',
        why='tests check a few points of one projection',
        files=[UT + 'coordinates.py'],
        mech=[('transformer', 'CoordinateTransformer'),
              ('boxes', 'bounding_box_to_polygon, polygon_to_bounding_box')],
        observe=['CoordinateTransformer', 'bounding_box_to_polygon',
                 'polygon_to_bounding_box']),
    dict(
        id='C28',
        title='The polygon filter keeps exactly the events in the polygon',
        statement=(
            'cat_intersect_polygon keeps exactly the events whose point '
            '(latitude, longitude) is inside or on the border of the polygon '
            'with the given (latitude, longitude) vertices, convex or not, '
            'in either orientation, with all columns, their index labels and '
            'their order; no event or none inside gives an empty catalog of '
            'the same type, and the catalog passed in is not changed.'),
        quant='every point of a fine grid including edges and corners',
        why='the test has eight points and only plain DataFrames',
        files=[UT + 'filtering.py'],
        mech=[('filter', 'cat_intersect_polygon')],
        observe=['cat_intersect_polygon']),
    dict(
        id='C24',
        title='Reading QuakeML takes the preferred and the best other values',
        statement=(
            'from_quakeml (text or file), parse_quakeml_file and '
            'parse_quakeml_response give one row per event: time, latitude, '
            'longitude, depth, evaluation mode and quality of the preferred '
            'origin, value, type and uncertainties of the preferred '
            'magnitude, nothing where the preferred ID is missing or '
            'dangling. For every magnitude type there are columns '
            'magnitude_<type> with the preferred magnitude if it has that '
            'type, else the one of highest version, '
            'where all are numbers, then latest creation time, then first in the document. IDs, uncertainties, quality '
            'and other magnitudes are left out where the flags say so. '
            'Texts may arrive in any pieces; comments and descriptions do '
            'not count; an empty document gives an empty catalog.'),
        quant='every value, version and creation time, every preferred ID, '
              'every split of a text',
        why='tests read two documents and compare a few columns',
        files=[IO + 'parser.py', CT],
        mech=[('parser', 'QuakeMLHandler, parse_quakeml, '
               'parse_quakeml_file, parse_quakeml_response'),
              ('catalog', 'Catalog.from_quakeml, Catalog.from_dict')],
        observe=['Catalog.from_quakeml', 'parse_quakeml_file',
                 'parse_quakeml_response']),
    dict(
        id='C25',
        title='What to_quakeml writes is read back',
        statement=(
            'Catalog.to_quakeml followed by from_quakeml (with '
            'uncertainties, IDs and quality) gives the same values: '
            'positions, depths, times to the microsecond (whole seconds '
            'outside 1677-2262), magnitudes, types, uncertainties, quality, '
            'evaluation mode, event type, and all secondary magnitudes of '
            'other types with their uncertainties and IDs; missing values '
            'stay missing; any text survives. Rows without time, latitude or '
            'longitude are dropped, all others kept in order whatever the '
            'index. IDs are kept, missing ones made; all are unique and '
            'references match. agencyID and author are written. The catalog '
            'is not changed. A missing required column raises '
            'AttributeError. ForecastCatalog.to_quakeml gives one document '
            'per catalog_id in ascending order.'),
        quant='every value, every pattern of missing values, IDs and types',
        why='tests write three small catalogs',
        files=[CT, 'seismostats/catalogs/catalog_templates/quakeml.j2',
               IO + 'parser.py'],
        mech=[('export', 'Catalog.to_quakeml, Catalog._create_ids, '
               'ForecastCatalog.to_quakeml'), ('template', 'quakeml.j2')],
        observe=['Catalog.to_quakeml', 'ForecastCatalog.to_quakeml']),
    dict(
        id='C30',
        title='Rate grids: time index, concatenation, statistics per cell',
        statement=(
            'add_time_index and GRRateGrid.concat keep every row and value '
            'in the order given and number the cells so that equal bounds '
            '(missing depths included) have equal numbers, in the order of '
            'the bounds; the index holds the start (and end) times of the '
            'grids, the result starts at the first start and ends at the '
            'last end; a missing time raises AttributeError, grids with '
            'different index levels ValueError. '
            'ForecastGRRateGrid.calculate_statistics gives, per cell (and '
            'time step), the aggregate of every number over exactly the '
            'realizations of that cell, the extra statistics as '
            '<name>_<suffix>, and the unchanged bounds, without grid ids, '
            'for all cells. strip keeps the required columns. Selecting '
            'rows keeps type and attributes. Nothing changes the grid '
            'passed in.'),
        quant='every cell bound, value, missing depth or value, row order',
        why='tests have one grid of three cells, all with depths',
        files=[CA + 'rategrid.py'],
        mech=[('grid', 'GRRateGrid.add_time_index, concat, '
               '_reindex_cell_id, strip'),
              ('forecast', 'ForecastGRRateGrid.calculate_statistics')],
        observe=['GRRateGrid.concat', 'GRRateGrid.add_time_index',
                 'ForecastGRRateGrid.calculate_statistics']),
    dict(
        id='C32',
        title='A Catalog holds what it was given and keeps its attributes',
        statement=(
            'A Catalog from a dictionary, frame, list of records or '
            'from_dict has these columns, index and values: number columns '
            'as numbers (texts read, anything else missing), times to the '
            'microsecond in any year, with or without Z, missing types None, '
            'other columns as given; without columns it has the default '
            'ones. Selecting, sorting, copying, concatenating and merging '
            'give the same rows as for a plain DataFrame, keep the type '
            '(Catalog, ForecastCatalog) and the attributes (the first or '
            'left ones); without magnitudes it is a plain frame. Methods '
            'inherited from pandas do what they do for a DataFrame. '
            'drop_ids, drop_uncertainties and strip drop exactly these '
            'columns. A method whose columns are missing raises '
            'AttributeError naming them. The catalog is not changed unless '
            'in place.'),
        quant='every value, missing value, filter limit, set of columns',
        why='tests build a few catalogs of three rows',
        files=[CT, UT + '__init__.py'],
        mech=[('constructor', 'Catalog.__init__, '
               '_catalog_constructor_with_fallback, _robust_parse_datetime'),
              ('attributes', 'Catalog.__finalize__'),
              ('columns', 'drop_ids, drop_uncertainties, strip, '
               'require_cols')],
        observe=['Catalog', 'ForecastCatalog', 'Catalog.strip',
                 'Catalog.drop_ids', 'Catalog.drop_uncertainties']),
    dict(
        id='C26',
        title='OpenQuake catalogues and Catalogs are the same events',
        statement=(
            'Catalog.from_openquake gives every event of a catalogue, in '
            'order, with its time to the microsecond (to the second outside '
            '1677-2262), position, depth, magnitude and other columns; '
            'missing values and columns stay missing, and the time '
            'columns are kept on demand. to_openquake gives the catalogue of '
            'the same events: year to second, numbers, texts, flags, event '
            'IDs (made where the catalog has none). Going there and back '
            'gives the same values. Neither changes what it was given. A '
            'missing column raises AttributeError; without OpenQuake '
            'installed, ImportError.'),
        quant='every value, pattern of missing values and empty columns',
        why='tests convert two catalogues of the 20th and 21st century',
        files=[CT],
        mech=[('import', 'Catalog.from_openquake'),
              ('export', 'Catalog.to_openquake')],
        observe=['Catalog.from_openquake', 'Catalog.to_openquake']),
    dict(
        id='C29',
        title='Plots of FMDs, counts, time and maps show the given data',
        statement=(
            'plot_fmd and plot_cum_fmd draw the (cumulative) weighted '
            'counts per bin of the known magnitudes; the GR line runs over '
            'the bins at or above mc (all without mc), passes through the '
            'first of these points and has slope -b. plot_cum_count draws, '
            'for each mc with events, the weighted count of events with '
            'magnitude >= mc - delta_m/2 in time order from the first to the '
            'last event (by default from the smallest known magnitude), '
            'ending at 1 if normalized. plot_mags_in_time draws every event '
            'and the steps of mc up to the last event. plot_in_space draws '
            'every event within an extent of the events padded by 5 %, '
            'united with that of given axes, or of the country, which then is '
            'the part of the map that is not masked, and labels of sizes give '
            'the magnitudes. Dot sizes grow with magnitude from smallest to '
            'largest, also with equal or missing magnitudes. Catalog methods '
            'plot its columns with mc, delta_m and b_value of the catalog '
            'unless given. Arguments are not changed.'),
        quant='every magnitude, time, weight, b-value, mc, position',
        why='tests check labels of one figure each',
        files=[PL + 'basics.py', PL + 'seismicity.py', CT],
        mech=[('distributions', 'plot_fmd, plot_cum_fmd, '
               'gutenberg_richter'),
              ('time', 'plot_cum_count, plot_mags_in_time'),
              ('space', 'plot_in_space, dot_size, reverse_dot_size')],
        observe=['plot_fmd', 'plot_cum_fmd', 'plot_cum_count',
                 'plot_mags_in_time', 'plot_in_space', 'dot_size',
                 'reverse_dot_size', 'Catalog.plot_*']),
    dict(
        id='C31',
        title='Plots of b-values and their significance show the estimates',
        statement=(
            'plot_mc_vs_b draws the estimate for every mc with its '
            'confidence interval. plot_b_series_constant_nm draws, for every '
            'run of n_m events with magnitude >= mc - delta_m/2 along '
            'x_variable (else in the order given), the estimate from these '
            'events in time order with the largest of their mc, at the left, '
            'middle or right event of the run, with its confidence interval, '
            'and nothing elsewhere or where fewer than min_num events were '
            'used. plot_b_significant_1D draws the mean autocorrelation, its '
            'expected value and the range for p_threshold for every n_m with '
            'at least 15 samples, from the complete events with their mc and '
            'times along x_variable, and marks the significant ones. Bad '
            'lengths, n_m < min_num and unknown techniques raise errors.'),
        quant='every magnitude, mc, order in time and along x, estimate',
        why='one test runs the series for one sample',
        files=[PL + 'statistical.py'],
        mech=[('b-values', 'plot_mc_vs_b, plot_b_series_constant_nm'),
              ('significance', 'plot_b_significant_1D')],
        observe=['plot_mc_vs_b', 'plot_b_series_constant_nm',
                 'plot_b_significant_1D']),
    dict(
        id='C33',
        title='Lilliefors p-values and ML-Mw conversion follow definitions',
        statement=(
            'ks_test_gr_lilliefors tests the excess of the magnitudes over '
            'mc against the exponential law and raises ValueError for '
            'magnitudes below mc. p_lilliefors of an estimator tests the '
            'magnitudes (or magnitude differences) it used: continuous ones '
            'once as they are; binned ones n times, each time dithered anew '
            'with its b-value and measured from the lower edge of the bin of '
            'mc (or dmc), giving the mean p-value; before an estimate it '
            'raises AttributeError. apply_edwards converts local magnitudes '
            'of any spelling to 1.02 + 0.472 ML + 0.0491 ML^2 and keeps '
            'moment magnitudes, so that converting twice is converting once. '
            'set_option/get_option keep the value and reject unknown keys.'),
        quant='every magnitude, mc, p-value; every listed magnitude type',
        why='tests use one sample and four magnitudes',
        files=[AN + 'lilliefors.py', AN + 'magnitudes.py', BV + 'base.py',
               UT + '_config.py'],
        mech=[('test', 'ks_test_gr_lilliefors, '
               'BValueEstimator.p_lilliefors'),
              ('conversion', 'apply_edwards')],
        observe=['BValueEstimator.p_lilliefors', 'ks_test_gr_lilliefors',
                 'apply_edwards', 'set_option', 'get_option']),
]
