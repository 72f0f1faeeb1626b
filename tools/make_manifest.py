#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the texts below and props.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import props  # noqa: E402

I, S, H, F, C, CP = 'inputs', 'schedules', 'histories', 'fault_sequences', 'configurations', 'crash_points'


def A(files, *mechanism):
    return {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mechanism]}


T = {}
T['C01'] = dict(
    title='The predicted tide is the harmonic sum of the constituents of the model',
    statement='For any position, date, leap second count, formula of the astronomical angles and set of constituents provided by a gridded or '
    'mesh model, the short-period tide returned is the sum over the constituents (provided or inferred) of f(H cos(v+u) + H\' sin(v+u)), and the '
    'long-period tide is the sum of the long-period constituents provided plus the equilibrium tide of all the long-period lines which the model does not provide. '
    'A radial model only returns the constituents it provides, without any equilibrium tide. '
    'Both agree with an independent evaluation of the published equations.',
    over=[I, C], text='all positions, dates (1900-2100 and far beyond), leap seconds, formulae, models (grids, LGP1, LGP2, simple and double precision), sets of constituents',
    why='The tests compare one position and a few dates of one model to stored values; a constituent taken twice, forgotten, or inferred though it is provided only shows for other sets of constituents.',
    anchors=A(['include/fes/tide.hpp', 'include/fes/wave/table.hpp', 'include/fes/abstract_tidal_model.hpp', 'src/library/wave/table.cpp'],
              ('evaluate_tide, evaluate_equilibrium_long_period', 'include/fes/tide.hpp'),
              ('Accelerator and constituent interpolation', 'include/fes/abstract_tidal_model.hpp')))
T['C02'] = dict(
    title='A batch of predictions does not depend on its order, size or thread count',
    statement='With no time tolerance, predicting a batch of positions and dates returns, for each of them, exactly what predicting it alone returns: '
    'neither the number of threads, nor the order of the batch, nor what was predicted before with the same model changes any tide or quality.',
    over=[I, S, H], text='all batches (sorted, shuffled, repeated, mixed dates and positions), all thread counts',
    why='Results are cached from one position and one date to the next (angles, grid cells, triangles); the state left by the previous positions depends on how the batch is split, which no single test call reveals.',
    anchors=A(['include/fes/tide.hpp', 'include/fes/detail/thread.hpp', 'include/fes/abstract_tidal_model.hpp', 'include/fes/tidal_model/lgp.hpp', 'include/fes/tidal_model/cartesian.hpp'],
              ('evaluate_tide worker', 'include/fes/tide.hpp'), ('LGPAccelerator::in_cache', 'include/fes/tidal_model/lgp.hpp')))
T['C03'] = dict(
    title='Astronomical angles are reused only within the time tolerance',
    statement='With a time tolerance of 0, every prediction uses the astronomical angles of its own date; with a tolerance of t seconds, the angles used are '
    'those of a date of the same batch, not after this one, less than t seconds away (or its own date) and with the same leap seconds. '
    'An undefined date never gives the tide of another date.',
    over=[I, H], text='all sequences of dates (ascending, descending, jittered, repeated, NaN), tolerances and leap second counts',
    why='Reuse depends on the history of the dates that were evaluated; a test with regular dates cannot see angles kept for too long.',
    anchors=A(['include/fes/abstract_tidal_model.hpp', 'include/fes/tide.hpp'], ('Accelerator::calculate_angle', 'include/fes/abstract_tidal_model.hpp')))
T['C04'] = dict(
    title='Where the model is undefined the tide is undefined, and the quality tells so',
    statement='A prediction is undefined (not a number) with a null quality where at least one constituent of the model is undefined at this position, '
    'and defined, with a quality that counts the defined grid points used or tells interpolation from extrapolation, everywhere else. '
    'A tide of 0 is never returned for a position without data.',
    over=[I], text='all masks (holes, coasts, masks differing between constituents), positions inside, on the edge of and outside of the model',
    why='Tests use a model whose constituents share one mask; the cases that matter are masks that differ between constituents, cells partly undefined, nodes hit exactly.',
    anchors=A(['include/fes/tidal_model/cartesian.hpp', 'include/fes/detail/math.hpp', 'include/fes/tide.hpp', 'include/fes/tidal_model/lgp.hpp'],
              ('bilinear_interpolation', 'include/fes/detail/math.hpp'), ('Cartesian::interpolate', 'include/fes/tidal_model/cartesian.hpp')))
T['C05'] = dict(
    title='Grid interpolation is the weighted mean of the four nodes around the position',
    statement='At any position inside of a grid, the value of each constituent is the bilinear mean of the nodes of the cell which contains it, undefined nodes excluded; '
    'it is exact on the nodes, lies within the range of these nodes, and is periodic in longitude on a grid that covers the circle. '
    'It depends neither on the layout of the grid in memory nor on the direction of its axes.',
    over=[I, C], text='all grids (ascending and descending axes, global and regional, across the antimeridian, row or column major), all positions',
    why='The wrap-around cell, descending axes and positions within rounding of a node each take another branch, and combine.',
    anchors=A(['include/fes/tidal_model/cartesian.hpp', 'include/fes/detail/grid.hpp', 'include/fes/detail/math.hpp', 'include/fes/axis.hpp'],
              ('Cartesian::interpolate', 'include/fes/tidal_model/cartesian.hpp'), ('bilinear_weights', 'include/fes/detail/math.hpp')))
T['C06'] = dict(
    title='Mesh interpolation is the Lagrange interpolation of the triangle of the position',
    statement='Within the triangle that contains a position, the value of each constituent is the Lagrange polynomial (first or second order) of the values '
    'at the nodes of this triangle: exact for any affine (LGP1) or quadratic (LGP2) field, equal to the node values on the nodes, and the same whatever was '
    'interpolated before with the same model.',
    over=[I, H], text='all meshes, numberings of the codes, fields, positions (inside, on vertices, on edges), orders of the queries',
    why='A permutation of the nodes of a triangle or the code of another vertex shows only for fields that vary, and a stale triangle only for particular sequences of positions.',
    anchors=A(['include/fes/tidal_model/lgp.hpp', 'include/fes/geometry/triangle.hpp', 'src/library/geometry/triangle.cpp'],
              ('LGP1/LGP2 beta', 'include/fes/tidal_model/lgp.hpp'), ('reference coordinates', 'src/library/geometry/triangle.cpp')))
T['C07'] = dict(
    title='The mesh index finds the triangle of a position, or the nearest within the limit',
    statement='Searching a position which a triangle of the mesh contains returns such a triangle; otherwise, the nearest vertex of the mesh is used '
    'if and only if it lies within the distance given, and nothing is found if it does not. The result does not depend on the longitude convention '
    'of the mesh or of the position (modulo 360 degrees), nor on the size, the shape or the number of the triangles around it.',
    over=[I, C], text='all meshes (regional, global, across the antimeridian, both longitude conventions), positions and distances',
    why='A search depends on the order of the nearest vertices around each position; small or thin triangles, the antimeridian and boundary positions are rarely sampled.',
    anchors=A(['include/fes/mesh/index.hpp', 'src/library/mesh/index.cpp', 'src/library/geometry/triangle.cpp'],
              ('Index::search', 'src/library/mesh/index.cpp')))
T['C08'] = dict(
    title='Axes locate any coordinate on the right nodes',
    statement='For every regular axis, the index found for a coordinate is that of its nearest node, the pair of indices found brackets it, and nothing is found outside '
    'of the axis; on an axis that wraps around the circle every coordinate is found, modulo 360 degrees. Any coordinate is accepted, undefined, '
    'infinite and enormous ones included, and any sequence of values which is not a regular axis is refused.',
    over=[I], text='all axes (ascending, descending, circular or not, starting anywhere) and all doubles as coordinates',
    why='Rounding at the nodes, at the seam of a circular axis and on descending axes decides; tests look at a handful of axes with exact steps.',
    anchors=A(['include/fes/axis.hpp', 'src/library/axis.cpp', 'include/fes/detail/math.hpp'], ('Axis::find_index, find_indices', 'include/fes/axis.hpp')))
T['C09'] = dict(
    title='A serialized object restores to one that behaves identically',
    statement='Saving the state of an axis, a mesh index, a gridded model or a mesh model and restoring it yields an object equal to the first: the same '
    'coordinates, constituents, dynamic constituents, tide type and search distance, and bitwise the same predictions everywhere; saving the restored object yields the same state.',
    over=[I, H], text='all objects that can be built, any content, at any number of round trips',
    why='A member left out of the state is only visible to the operations which use it, for the configurations where it is not the default.',
    anchors=A(['include/fes/detail/serialize.hpp', 'include/fes/detail/isviewstream.hpp', 'include/fes/axis.hpp', 'include/fes/tidal_model/cartesian.hpp', 'include/fes/tidal_model/lgp.hpp', 'include/fes/mesh/index.hpp'],
              ('getstate/setstate', 'include/fes/tidal_model/lgp.hpp')))
T['C10'] = dict(
    title='A damaged or foreign state is refused and never corrupts memory',
    statement='Restoring a state that has been truncated, altered, extended or that belongs to another type of object either fails with an exception or yields an object '
    'that can be used safely: no memory is read or written out of bounds, nothing is allocated out of proportion, and the process never ends.',
    over=[I, F], text='all byte strings, in particular every truncation and every alteration of one or several fields of a valid state',
    why='The damaged states number as many as byte strings; the tests restore valid states and an empty one.',
    anchors=A(['include/fes/detail/serialize.hpp', 'include/fes/detail/isviewstream.hpp', 'include/fes/axis.hpp', 'include/fes/tidal_model/cartesian.hpp', 'include/fes/tidal_model/lgp.hpp', 'include/fes/mesh/index.hpp', 'src/library/mesh/index.cpp'],
              ('setstate, read_string, read_matrix', 'include/fes/detail/serialize.hpp')))
T['C11'] = dict(
    title='Parallel loops handle every index exactly once, and report failures',
    statement='A parallel loop over n elements handles each of them exactly once and returns after all of the work ended, for any n (0 included) and any number of threads. '
    'If any part of the work fails its exception reaches the caller once the other parts have ended; if the system refuses to start threads, '
    'the loop still handles everything or raises, and never ends the process.',
    over=[I, S, F], text='all sizes, thread counts, sets of failing parts, and thread creations that fail',
    why='Failures of thread creation and simultaneous exceptions cannot be produced by a unit test without fault injection.',
    anchors=A(['include/fes/detail/thread.hpp', 'include/fes/tide.hpp'], ('parallel_for', 'include/fes/detail/thread.hpp')))
T['C12'] = dict(
    title='Astronomical angles follow the published series of each theory',
    statement='For any date and leap second count, the mean longitudes and the derived angles returned for each of the three sets of formulae are those of the '
    'published polynomials, continuous in time, within 0 to 360 degrees (or the documented range) and independent of what was computed before.',
    over=[I], text='all dates (centuries around 2000), all leap second counts, all three formulae',
    why='A wrong digit of a coefficient of high order, a wrong range reduction or a leap second of the wrong sign are invisible at the few dates of the tests.',
    anchors=A(['include/fes/angle/astronomic.hpp', 'include/fes/detail/angle'], ('Astronomic', 'include/fes/angle/astronomic.hpp')))
T['C13'] = dict(
    title='Nodal corrections and arguments of every constituent follow Schureman',
    statement='For every constituent and date, the Greenwich argument is the combination of the astronomical angles given by its Doodson number, and the nodal amplitude '
    'factor and phase are those of the published formula assigned to this constituent; compound tides have the product and the sum of the corrections of their parents.',
    over=[I], text='all 75 constituents at all dates and formulae',
    why='The tests cover one date; a wrong sign in the correction of one compound tide among 75 is small and date dependent.',
    anchors=A(['include/fes/wave.hpp', 'src/library/wave.cpp', 'src/library/wave/table.cpp', 'include/fes/angle/astronomic.hpp', 'docs'],
              ('nodal corrections', 'include/fes/angle/astronomic.hpp'), ('table of the constituents', 'src/library/wave/table.cpp')))
T['C14'] = dict(
    title='Minor constituents are inferred by the documented admittance, only when absent',
    statement='The constituents which a model does not provide and for which an admittance is documented are inferred from the major constituents by '
    'the documented linear coefficients or splines; those which the model provides are never altered by the inference.',
    over=[I, C], text='all values of the major constituents and all subsets of provided constituents',
    why='Any of 18 inferred constituents may be provided or not, which makes far more combinations than tests try.',
    anchors=A(['src/library/wave/table.cpp', 'include/fes/wave/table.hpp', 'docs'], ('Table::admittance', 'src/library/wave/table.cpp')))
T['C15'] = dict(
    title='The long-period equilibrium tide counts each line once',
    statement='The equilibrium tide at a latitude and date is the sum of the published lines (2nd and 3rd order) with the published amplitudes and arguments, '
    'minus exactly the lines of the constituents provided by the model.',
    over=[I, C], text='all latitudes, dates, and sets of provided (dynamic) constituents',
    why='A line removed for the wrong constituent or counted twice amounts to less than a millimetre and depends on the set of constituents and on the date.',
    anchors=A(['include/fes/wave/long_period_equilibrium.hpp', 'src/library/wave/long_period_equilibrium.cpp', 'include/fes/tide.hpp'],
              ('lpe_minus_n_waves, disable_dynamic_waves', 'src/library/wave/long_period_equilibrium.cpp')))
T['C16'] = dict(
    title='Harmonic analysis recovers the constituents of the signal it is given',
    statement='Analysing a series made of a set of constituents (which the length of the series separates) returns their complex amplitudes, whatever the sampling, and '
    'predicting the series again with them returns the original signal; the result is linear in the data, does not depend on their order, and is undefined for undefined data.',
    over=[I], text='all sets of separable constituents, samplings, amplitudes, formulae',
    why='Least squares errors depend on sampling and on the set of constituents; one stored series settles neither.',
    anchors=A(['src/library/wave/table.cpp', 'include/fes/wave/table.hpp'], ('harmonic_analysis', 'src/library/wave/table.cpp')))
T['C17'] = dict(
    title='Names, identifiers and tables of constituents agree everywhere',
    statement='Every constituent has one name and one identifier that convert into each other whatever the case, unknown names are refused, '
    'and a table built from any list of names contains these constituents once, gives each by name, identifier and iteration consistently, '
    'and selects for an analysis exactly those that the duration separates.',
    over=[I, C], text='all names (any case, any near miss) and all lists of names',
    why='The order of identifiers, names and waves are three lists kept by hand; only going through all of them in all tables shows that they agree.',
    anchors=A(['include/fes/constituent.hpp', 'src/library/constituent.cpp', 'src/library/wave/table.cpp', 'include/fes/wave/table.hpp'], ('constituents::parse, name', 'src/library/constituent.cpp')))
T['C18'] = dict(
    title='Models, tables and indexes may be shared between threads',
    statement='Any number of threads may predict, interpolate and search with one model, one table of constituents or one mesh index at the same time: '
    'no data race occurs, each thread obtains what it would obtain alone, and the shared object is left unchanged; a copy of a table shares nothing with the original.',
    over=[S, I], text='all interleavings of the operations which do not modify the object',
    why='A data race shows in no result most of the time; tests are sequential.',
    anchors=A(['include/fes/detail/thread.hpp', 'include/fes/tide.hpp', 'include/fes/abstract_tidal_model.hpp', 'include/fes/wave/table.hpp', 'src/library/wave/table.cpp', 'include/fes/mesh/index.hpp'],
              ('parallel_for', 'include/fes/detail/thread.hpp'), ('const operations of Table', 'src/library/wave/table.cpp')))
T['C19'] = dict(
    title='Invalid arguments are refused and extreme ones are harmless',
    statement='Arguments whose sizes disagree, unknown constituents, and inconsistent grids or meshes are refused with an exception before anything is computed; '
    'undefined, infinite or extreme positions, dates and values give a result (possibly undefined) or an exception, never a crash, a hang, or an access out of bounds.',
    over=[I], text='all calls of the public interface with any sizes and any doubles',
    why='Each argument multiplies the cases; what happens for inconsistent sizes or enormous values depends on unchecked arithmetic that only instrumented runs reveal.',
    anchors=A(['include/fes/tide.hpp', 'include/fes/tidal_model/cartesian.hpp', 'include/fes/tidal_model/lgp.hpp', 'include/fes/wave/table.hpp', 'src/library/wave/table.cpp', 'include/fes/mesh/index.hpp'],
              ('check_eigen_shape', 'include/fes/eigen.hpp')))
T['C20'] = dict(
    title='Geographic and earth-centered coordinates are inverse of each other',
    statement='Converting longitude and latitude to earth-centered coordinates and back returns the same point; the reference coordinates of a point '
    'in a triangle restore that point, lie in the unit triangle exactly when the triangle contains it, and distances are those of the sphere or ellipsoid documented.',
    over=[I], text='all positions (poles and antimeridian included) and all triangles',
    why='The inverse transform has singular places (poles, antimeridian, thin triangles) that samples avoid.',
    anchors=A(['include/fes/geometry/ecef.hpp', 'include/fes/geometry/point.hpp', 'include/fes/geometry/triangle.hpp', 'src/library/geometry/triangle.cpp', 'include/fes/detail/geometry'],
              ('ecef conversion', 'include/fes/geometry/ecef.hpp')))
T['C21'] = dict(
    title='The leap seconds are those of the table, whatever happens during its update',
    statement='For any UTC date, the number of leap seconds returned is that of the last line of the table at or before this date. A table that expired is updated if the server '
    'answers with a valid table, by several threads or processes at once if need be; if the network or the disk fails, or the answer is truncated or invalid, at any point, the installed table remains in use and intact.',
    over=[I, F, CP], text='all arrays of dates, all failures of the download at every byte of the answer',
    why='Failures of the network in the middle of the update are not produced by tests, and they damage the installed file.',
    anchors=A(['src/python/pyfes/leap_seconds.py'], ('get_leap_seconds, _download_leap_second_file', 'src/python/pyfes/leap_seconds.py')))
T['C22'] = dict(
    title='A configuration loads the models that it describes, or is refused',
    statement='For any valid configuration file, the models loaded have the type, grids, constituents, units, dynamic constituents and options which it names, environment variables expanded; amplitudes and phases (degrees or radians) become '
    'complex values, undefined where either is masked; an invalid key, type or value is refused with an error that names it.',
    over=[C, I], text='all configuration files and all layouts of the data files',
    why='Options interact (units, phase conventions, transposed grids, both model types); tests load one configuration.',
    anchors=A(['src/python/pyfes/config.py'], ('load, Cartesian.load, LGP.load', 'src/python/pyfes/config.py')))
T['C23'] = dict(
    title='Predictions from harmonic coefficients agree whatever the interface',
    statement='Predicting a series for one position, predicting a map at one date, and combining the nodal modulations returned by hand all give the '
    'same tide for the same coefficients, dates, leap seconds and formulae, equal to the harmonic sum; neither call depends on the number of threads or on previous calls.',
    over=[I, H, S], text='all tables, coefficients, dates, formulae, numbers of threads',
    why='Each interface has its own loop over the constituents and its own defaults; agreement must hold for every table and history of calls.',
    anchors=A(['src/library/wave/table.cpp', 'include/fes/wave/table.hpp', 'src/python/pyfes/wave_table.py'],
              ('tide_from_tide_series, tide_from_mapping, compute_nodal_modulations', 'src/library/wave/table.cpp')))
T['C24'] = dict(
    title='The Python layer passes every argument on unchanged',
    statement='Each function of the Python layer (tides, settings, tables of constituents, astronomical angles) hands its arguments to the core library unchanged: '
    'the dates with the leap seconds of each date unless given, the coefficients of each constituent, the formulae, the settings (constituents excluded by name included) and '
    'the number of threads that the caller asked for, or else the defaults documented. What the core answers is returned unchanged.',
    over=[I, C], text='all combinations of optional arguments, date types and lengths',
    why='An argument dropped falls back on a default which is right in most tests.',
    anchors=A(['src/python/pyfes/__init__.py', 'src/python/pyfes/wave_table.py', 'src/python/pyfes/astronomic_angle.py', 'src/python/core/wave/table.cpp'],
              ('WaveTable, WaveDict', 'src/python/pyfes/wave_table.py'), ('evaluate_tide, Settings', 'src/python/pyfes/__init__.py')))
T['C25'] = dict(
    title='Dynamic constituents are respected everywhere',
    statement='The constituents declared dynamic for a model are neither inferred by admittance nor taken from the equilibrium tide, and those which are '
    'only declared dynamic (not provided) contribute nothing; declaring again a constituent which the model provides changes nothing, and each long-period line is counted exactly once. '
    'The constituents provided which the settings exclude are inferred by admittance, or taken from the equilibrium tide, instead.',
    over=[C, I], text='all pairs of sets (provided, dynamic), all dates and positions',
    why='Two sets of up to 75 constituents: no test goes through the combinations.',
    anchors=A(['include/fes/abstract_tidal_model.hpp', 'include/fes/tide.hpp', 'include/fes/wave/table.hpp', 'src/library/wave/long_period_equilibrium.cpp'],
              ('dynamic constituents', 'include/fes/abstract_tidal_model.hpp')))
T['C26'] = dict(
    title='Converted meshes hold the values of the originals, or are refused',
    statement='Converting finite element files, one for each constituent, writes the mesh and the codes unchanged, every amplitude in centimetres and every phase in degrees under the standard name '
    'of the constituent, undefined where it was; files whose meshes differ are refused. What is written can be loaded as a model with the same complex values.',
    over=[I, C], text='all sets of files (constituents, sizes, masks), consistent or not',
    why='The tool has no test; scales, names and masks matter only for the constituents and nodes that have them.',
    anchors=A(['src/python/pyfes/console_script/fes_convert_mesh.py', 'src/python/pyfes/config.py'], ('main', 'src/python/pyfes/console_script/fes_convert_mesh.py')))
T['C27'] = dict(
    title='Dates given from Python keep their value, or are refused',
    statement='Every numpy datetime64 array given to the compiled core means the same instants in every unit from hours (and days) to attoseconds, in whatever memory layout, dates before 1970 and NaT '
    '(an undefined tide) included; a datetime.datetime keeps its microseconds. Arrays of another kind, unit, byte order, shape or size, and aware or non-datetime objects, are refused or answered exactly, never read as other dates.',
    over=[I], text='all dtypes, units, layouts, values of dates',
    why='The conversion reads raw 64 bit integers whose meaning depends on the dtype: each unit, layout and sign is a path of its own.',
    anchors=A(['include/fes/python/datetime64.hpp', 'src/python/core/datemanip.cpp', 'src/python/core/tide.cpp', 'src/python/core/wave/table.cpp'],
              ('npdatetime64_to_epoch', 'include/fes/python/datetime64.hpp'), ('datemanip', 'src/python/core/datemanip.cpp')))
T['C28'] = dict(
    title='The compiled core answers as the library does',
    statement='Whatever is asked from Python (models built or loaded from a configuration, tides, interpolation, tables, analysis, admittance, axes, angles) has the answer which the C++ library gives for the same '
    'arguments: positional or by keyword, with defaults as documented, in every layout and convertible type, without changing what was given. What the library refuses raises a Python exception.',
    over=[I, C], text='all functions bound, with all combinations of arguments, layouts and types',
    why='Arguments with the same type can be swapped, defaults can differ, strides can be ignored: every binding is a chance, and tests use contiguous arrays and one order.',
    anchors=A(['src/python/core', 'src/python/pyfes/__init__.py', 'src/python/pyfes/wave_table.py'], ('PYBIND11_MODULE', 'src/python/core/main.cpp')))
T['C29'] = dict(
    title='Python objects of the core are safe to keep, copy, share and misuse',
    statement='What an object of the core gave (waves, iterators, axes, meshes, lists, arrays) stays valid and unchanged after that object, or the arrays it was built from, are modified or released; a pickled or copied model '
    'answers as its original. Objects may be used by several Python threads at once, and any call with odd arguments answers or raises an exception: the interpreter never crashes.',
    over=[H, S, I], text='all orders of creation, release, use and concurrent calls; all arguments',
    why='A dangling reference answers correctly until its memory is used again; ownership is declared binding by binding.',
    anchors=A(['src/python/core', 'include/fes/wave/table.hpp', 'include/fes/tidal_model'], ('keep_alive and return value policies', 'src/python/core'), ('py::pickle', 'src/python/core/tidal_model')))
# @MORE@

NOT_APPLICABLE = props.NOT_APPLICABLE


def main():
    lines, checks = [], []
    for pid, t in sorted(T.items()):
        if pid not in props.PROPS and pid not in NOT_APPLICABLE:
            continue
        assert len(t['title']) <= 80, (pid, len(t['title']))
        lines.append(json.dumps({'id': pid, 'title': t['title'], 'statement': t['statement'],
                                 'quantifier': {'over': t['over'], 'text': t['text']},
                                 'why_tests_cant': t['why'], 'anchors': t['anchors']}))
        if pid in props.PROPS:
            p = props.PROPS[pid]
            checks.append({'property': pid, 'quick_cmd': 'python3 check.py %s quick' % pid,
                           'thorough_cmd': 'python3 check.py %s thorough' % pid,
                           'evidence_file': 'evidence/%s.json' % pid,
                           'technique': p['technique'], 'level': p.get('level', 'exploration'), 'level_note': p['note']})
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        f.write('\n'.join(lines) + '\n')
    manifest = {'version': 1, 'setup_cmd': 'python3 check.py setup', 'checks': checks,
                'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(NOT_APPLICABLE.items())],
                'notes': 'No hook in /repo: the harnesses drive the public interface of the library, and interpose on pthread_create to inject failures.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(manifest, f, indent=1)
        f.write('\n')


main()
