#!/opt/venv/bin/python
"""writes the section on the single properties of DESIGN.md from
tools/props.py, the check modules and the texts below"""
import glob
import importlib
import json
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from tools.props import PROPS  # noqa: E402

# what is executed symbolically, and what it is compared with
HOW = dict(
    C01='`calculate` of all seven estimators. `aligned`: the attributes after '
        'a run against the set {i : m_i >= mc - delta_m/2} written as a '
        'predicate over the symbolic input. `irrelevant`: the same run with '
        'the incomplete events removed has the same result.',
    C02='`calculate` of the classic and Utsu estimators against the closed '
        'formulas (Aki/Utsu/Tinti-Mulargia) over ln atoms; `replicate`: a '
        'sample with integer weights equals the sample with the events '
        'repeated; `invalid`, `unused`: warnings, NaN and options without '
        'effect.',
    C03='`calculate` of both positive estimators against an oracle that forms '
        'the pairs from the definition (previous / next event above the last '
        'by dmc) in time order; any permutation of the input.',
    C04='two runs of every estimator on the same symbolic events, listed in '
        'two orders, or with the time axis shifted and scaled: equal results '
        'as polynomials over the same atoms.',
    C05='std against the Shi-Bolt formula (weights, n-1); `bootstrap_std` '
        'with a stand-in random generator that returns arbitrary resamples: '
        'the result is the standard deviation of the finite estimates of '
        'exactly those resamples; b <-> beta conversions.',
    C06='`calculate` of the a-value estimators with every presence pattern of '
        'm_ref, b_value and scaling_factor, against '
        'log10(N/scaling) + b (mc - m_ref).',
    C07='like C03 for a-positive/a-more-positive; the oracle adds the observed '
        'time of the pairs and the total time; datetimes of several '
        'resolutions are compared with the same times as numbers.',
    C08='one estimator object used twice on two symbolic catalogs equals two '
        'fresh ones; inputs (arrays, lists, Series) compared with snapshots '
        'taken before; results identical for all containers; no warning '
        'with the option off.',
    C09='`estimate_b`, `estimate_a` and the Catalog methods with each argument '
        'given, from the attribute, or missing, against the estimator called '
        'directly; attributes written afterwards; shuffled index.',
    C10='`bin_to_precision` (and the Catalog method) over floor atoms: the '
        'result is a multiple of the bin within half a bin, ties up. '
        '`clean_float` runs in float mode (see below).',
    C11='`binning_test` on values on the grid plus an arbitrary offset of one '
        'of them: true iff all offsets are zero. Float mode for doubles next '
        'to decimals. `estimators`: they raise exactly then.',
    C12='`get_fmd`, `get_cum_fmd` against counts per bin / at or above; '
        'weights; left and center; clean edges in float mode.',
    C13='`estimate_mc_maxc` and the Catalog method against the fullest bin '
        '(lowest of ties) plus correction.',
    C14='`estimate_mc_b_stability` with an estimator of arbitrary b-values and '
        'standard deviations per mc: the mc returned, the differences and '
        'the stop rule against the definition.',
    C15='`ks_test_gr` with given and simulated distances, `estimate_mc_ks` '
        'with arbitrary KS distances: p is the share of larger distances, '
        'the mc the first (or best) with p >= p_pass.',
    C16='`simulate_magnitudes`, `simulate_magnitudes_binned`, '
        '`dither_magnitudes` with arbitrary draws: the map from draws to '
        'magnitudes is the inverse (truncated) distribution; dithered values '
        'stay in their bins.',
    C17='`estimate_b_kijko_smit` against the event set and the durations of the '
        'table, every combination of magnitude bin and year.',
    C18='`estimate_b_weichert` with an arbitrary minimum: the objective passed to '
        'the minimiser, and b, std and a for the minimum, against the '
        'equations of the paper.',
    C19='`make_more_incomplete` against the pairwise predicate "hidden by a '
        'larger event less than delta_t before that is itself kept or not".',
    C20='`est_morans_i`, `transform_n`, `cut_constant_idx`, '
        '`values_from_partitioning`, `b_significant_1D` against sums over '
        'the neighbor matrix and over all offsets.',
    C21='`GardnerKnopoffType1` called on a catalog, against a direct transcription of '
        'the published algorithm (largest first, both windows).',
    C22='the three window classes against the published formulas; `haversine` '
        'over uninterpreted sin/cos with their parity: symmetry, zero '
        'distance, range, antipodes.',
    C23='`FDSNWSEventClient.get_events` against a symbolic service of N events '
        'that honours limit and offset: the concatenation is 0..N-1 once '
        'each; parameters of the URL against the arguments.',
    C24='`parse_quakeml` (through the SAX parser) on documents whose texts '
        'are symbolic tokens, split anywhere: the row against the preferred '
        '/ newest rule of the statement.',
    C25='`Catalog.to_quakeml` rendered by the real template, then parsed back '
        'with `Catalog.from_quakeml`: equal up to the documented '
        'normalisation, any value and presence pattern.',
    C26='`from_openquake`, `to_openquake` against a column by column oracle, '
        'and both ways round.',
    C27='`CoordinateTransformer` with an arbitrary invertible projection: '
        'forward, backward, reference, bounding boxes and polygons.',
    C28='`cat_intersect_polygon` against exact orientation tests for every '
        'point of the grid.',
    C29='plot functions with recording axes: the coordinates drawn against '
        'the definitions of C12 and the formulas of the docstrings; the '
        'Catalog wrappers pass columns and options.',
    C30='`ForecastGRRateGrid`/`GRRateGrid` on frames of symbolic cells: '
        'time index, concatenation, statistics per cell (cells identified '
        'by their bounds) against sums over the cells of equal bounds.',
    C31='`plot_mc_vs_b`, `plot_b_series_constant_nm`, '
        '`plot_b_significant_1D` with arbitrary estimators: windows, '
        'ordering, positions and confidence bands.',
    C32='every constructor and 60 pandas methods against the same method of a '
        'plain DataFrame; attributes and type survive; times in all forms.',
    C33='`ks_test_gr_lilliefors` with arbitrary p-values per dithered sample; `apply_edwards` '
        'per magnitude type.',
)
BEGIN, END = '<!-- properties -->', '<!-- end of properties -->'


def main():
    out = [BEGIN, '']
    for p in PROPS:
        pid = p['id']
        f, = glob.glob(os.path.join(HERE, 'checks', f'{pid.lower()}_*.py'))
        m = importlib.import_module('checks.' + os.path.basename(f)[:-3])
        out += [f'### {pid} {p["title"]}', '', p['statement'], '',
                f'* Executed and compared: {HOW[pid]}',
                f'* Harnesses (`checks/{os.path.basename(f)}`): '
                + ', '.join(f'`{h}`' for h in sorted(
                    {j[0] for j in m.jobs('quick')})) + '.',
                f'* Bounds, quick: {m.BOUNDS["quick"]}. Thorough: '
                f'{m.BOUNDS["thorough"]}.',
                f'* Assumed: {"; ".join(m.ASSUMPTIONS)}.',
                f'* Outside: {m.OUTSIDE}.',
                f'* What tests cannot reach: {p["why"]}.', '']
    out.append(END)
    path = os.path.join(HERE, 'DESIGN.md')
    s = open(path).read()
    a, b = s.index(BEGIN), s.index(END) + len(END)
    s = s[:a] + '\n'.join(out) + s[b:]
    open(path, 'w').write(s)
    # seeded changes
    rows = ['<!-- seeded -->', '',
            '| change | property | needs |', '| --- | --- | --- |']
    for d in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
        j = json.load(open(d))
        rows.append(f'| {os.path.basename(os.path.dirname(d))} | '
                    f'{j["property"]} | {j["needs"]} |')
    rows += ['', '<!-- end of seeded -->']
    s = open(path).read()
    a = s.index('<!-- seeded -->')
    b = s.index('<!-- end of seeded -->') + len('<!-- end of seeded -->')
    open(path, 'w').write(s[:a] + '\n'.join(rows) + s[b:])


main()
