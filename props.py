"""What each check runs: harness sections, and what they must have observed."""

ASAN = 'AddressSanitizer, UndefinedBehaviorSanitizer (with float-cast-overflow) and libstdc++ assertions around every execution'
TSAN = 'ThreadSanitizer, with halt_on_error, around every execution'
TRUST = 'Trusts the reference model in harness/ (independent code, constants extracted from the published tables) and the compilers\' sanitizers.'
HELD = 'Held on the executions observed, whose number and variety the evidence file gives; nothing is claimed beyond them. '


def P(runs, technique, rule, monitors, note='', **kw):
    return dict(runs=runs, technique=technique, rule=rule, monitors=monitors, note=HELD + note, **kw)


def cpp(harness, *sections, **kw):
    return dict(harness=harness, sections=list(sections), **kw)


PROPS = {
    'C01': P([cpp('h_tide', 'predict', 'undefined', 'lists', 'modified')], 'differential runtime monitoring against a reference model, under ASan+UBSan',
             'one random model (grid, LGP1, LGP2; float or double; tide or radial) with a batch of predictions each; a case is distinct by its model, set of constituents, dates and positions, and non trivial as it compares defined predictions',
             ['reference evaluation of the harmonic sum, the admittance and the equilibrium tide (harness/ref.hpp)', ASAN], TRUST,
             require={'predictions.grid': 1000, 'predictions.lgp': 1000}),
    'C02': P([cpp('h_tide', 'huge', 'batch', 'modified'), cpp('h_par', 'prediction', 'shared_model')], 'metamorphic runtime monitoring (batch against single predictions), under ASan+UBSan',
             'one random model and batch each, predicted one by one, as a batch, shuffled, and with several thread counts; distinct by model and batch',
             ['bitwise comparison of each element with its prediction alone', ASAN], require={'batch.compared': 5000, 'batch.extrapolated': 300, 'batch.huge': 2}),
    'C03': P([cpp('h_tide', 'tolerance', 'predict')], 'online trace-specification monitor over sequences of dates, under ASan+UBSan',
             'one sequence of dates (ascending, jittered, repeated, NaN, with changing leap seconds) and a tolerance each; distinct by sequence',
             ['each prediction must be that of a date of the batch allowed by the tolerance', ASAN], require={'angles.fresh': 500, 'angles.reused': 100}),
    'C04': P([cpp('h_tide', 'undefined', 'undefined-mesh'), cpp('h_grid', 'masked'), cpp('h_mesh', 'lgp')], 'differential runtime monitoring over random masks, under ASan+UBSan',
             'one model with random masks, and positions inside, on nodes, on the edge and outside each; distinct by mask and positions',
             ['definedness and quality computed from the masks by the reference', ASAN], TRUST),
    'C05': P([cpp('h_grid', 'bilinear', 'masked', 'large', 'long', 'layout', 'axis_lookup')], 'differential runtime monitoring against a reference interpolation, under ASan+UBSan',
             'one random grid with positions on nodes, within rounding of nodes and anywhere each; distinct by grid and position',
             ['reference bilinear mean in extended precision, range and periodicity of the result', 'bitwise agreement of row and column major layouts', ASAN], TRUST,
             require={'bilinear.border': 500, 'layout.compared': 1000, 'masked.defined1.close': 300}),
    'C06': P([cpp('h_mesh', 'lgp', 'successive-lgp', 'large-lgp', 'local', 'irregular')], 'differential runtime monitoring against a reference interpolation, under ASan+UBSan',
             'one random mesh, numbering of the codes and field, with sequences of positions each; distinct by mesh and position',
             ['Lagrange interpolation of polynomial fields, recomputed', 'comparison with a fresh accelerator', ASAN], TRUST,
             require={'lgp.inside': 1000, 'lgp.cache-compared': 500}),
    'C07': P([cpp('h_mesh', 'globe', 'lattice', 'nowhere', 'local', 'successive', 'irregular', 'large', 'lgp')], 'brute-force oracle over every triangle at run time, under ASan+UBSan',
             'one random mesh (global, regional, across the antimeridian) with a batch of positions each; distinct by mesh and position',
             ['exhaustive search of the containing triangle and of the nearest vertex', ASAN],
             'Positions within rounding of an edge, and triangles which contain a pole, are not judged (DESIGN.md).', require={'search.inside': 1000, 'search.projected': 300, 'search.edge': 100, 'irregular.inside': 10000, 'irregular.crowded': 1000}),
    'C08': P([cpp('h_grid', 'axis_shape', 'axis_lookup', 'axis_hostile'), cpp('h_state', 'trip_axis'), cpp('h_input', 'hostile_axis')], 'brute-force oracle at run time, under ASan+UBSan with float-cast-overflow',
             'one random axis with a batch of coordinates each (nodes, half steps, one ulp around them, hostile doubles); distinct by axis and coordinate',
             ['nearest node and bracketing pair by exhaustive search', ASAN], require={'indices.found': 5000, 'indices.outside': 300}),
    'C09': P([cpp('h_state', 'trip_axis', 'trip_index', 'trip_grid', 'trip_lgp', 'trip_distance'), cpp('h_state', 'huge', shards=1, thorough_only=True)], 'round-trip monitor, under ASan+UBSan',
             'one random object each, saved and restored; distinct by its state',
             ['equality of every observable of the restored object, predictions bit by bit, identical second state', ASAN], require={'state.bytes': 100000, 'index.found': 3000}),
    'C10': P([cpp('h_state', 'damage_small', 'damage_grid', 'damage_lgp', 'foreign')], 'hostile workload (structured fault injection into states) under ASan+UBSan',
             'one state damaged in one way (cut, flipped bits, rewritten fields, inserted or removed bytes, another type) each; distinct by the damaged bytes',
             ['an object that was restored is used: lookups, interpolation, save again', 'allocations are bounded by the allocator', ASAN], require={'damaged.cut': 300},
             level='fault_enumeration'),
    'C11': P([cpp('h_par', 'once', 'ranges', 'throwing', 'unstarted', 'prediction')], 'event-log monitor with injected thread failures, under ASan+UBSan',
             'one loop (size, thread count, failing parts, threads refused) each; distinct by these',
             ['log of the indices handled: each exactly once, all before the return', 'pthread_create interposed to refuse threads', 'terminate and signals are violations', ASAN],
             require={'loop.indices': 50000, 'loop.failed-together': 200, 'loop.large': 1000}, level='fault_enumeration'),
    'C12': P([cpp('h_astro', 'angles'), cpp('h_series', 'series')], 'differential runtime monitoring against a reference model, under ASan+UBSan',
             'one date, leap second count and formula each; distinct by these', ['independent evaluation of the published polynomials', ASAN], TRUST),
    'C13': P([cpp('h_astro', 'nodal')], 'differential runtime monitoring against a reference model, under ASan+UBSan',
             'one date and formula each, for all 75 constituents in a full and a partial table; distinct by date and formula',
             ['f, u, v of every constituent from the documented formulae', 'partial tables and history: bitwise agreement', ASAN], TRUST, require={'nodal.constituents': 75 * 1000}),
    'C14': P([cpp('h_astro', 'admittance'), cpp('h_tide', 'predict', 'lists')], 'differential runtime monitoring against a reference model, under ASan+UBSan',
             'one set of amplitudes and of provided constituents each; distinct by these', ['documented admittances recomputed', 'provided constituents unchanged', ASAN], TRUST),
    'C15': P([cpp('h_astro', 'lpe', 'lpe_lines'), cpp('h_tide', 'predict', 'lists')], 'differential runtime monitoring against a reference model, under ASan+UBSan',
             'one date, latitude and set of dynamic constituents each; distinct by these', ['sum of the published lines recomputed', 'lines removed for each constituent alone', ASAN], TRUST),
    'C17': P([cpp('h_astro', 'names', 'tables', 'select'), cpp('h_input', 'sizes_table')], 'consistency monitors over all constituents and random tables, under ASan+UBSan',
             'one constituent with a name variant, one table, or one duration each; distinct by these', ['bijection of names, identifiers, waves', 'table iteration, lookup, copy', 'selection recomputed', ASAN], TRUST,
             require={'tables.waves': 5000}),
    'C18': P([cpp('h_par', 'shared_model', 'shared_table', 'shared_index', 'once', 'throwing', 'prediction', variant='tsan'),
              cpp('h_par', 'shared_model', 'shared_table', 'shared_index')], 'ThreadSanitizer and sequential-equivalence monitor over concurrent workloads',
             'one object shared by several threads each; distinct by object and operations', [TSAN, 'each thread compares its results with those obtained alone', ASAN],
             'A race between operations that never overlapped or never reached the same data is not seen.', require={'shared.users': 500}),
    'C20': P([cpp('h_mesh', 'geometry', 'globe', 'lattice')], 'round-trip monitors at run time, under ASan+UBSan',
             'one point or triangle each; distinct by its coordinates', ['inverse transforms in extended precision', ASAN], TRUST),
    'C25': P([cpp('h_tide', 'lists', 'modified'), cpp('h_astro', 'lpe', 'admittance'), cpp('h_state', 'trip_grid', 'trip_lgp'), {'python': 'h_config', 'sections': ['loads']}], 'differential runtime monitoring over sets of constituents, under ASan+UBSan',
             'one random pair of sets (provided, dynamic) with a batch of predictions each; distinct by sets, dates and positions',
             ['reference evaluation with these sets', ASAN], TRUST),
}

NOT_APPLICABLE = {}
PROPS['C21'] = P([{'python': 'h_leap'}, {'python': 'h_pylayer', 'sections': ['tide', 'angle']}], 'fault injection into the update, with an oracle and a crash-point monitor on the installed file',
                 'one table with a batch of dates, or one expired table with one answer of the server, each; distinct by dates, kind of failure and its position',
                 ['leap seconds recomputed from the published history', 'content of the installed file looked at on every line executed during the update, and during the download',
                  'network replaced at the opener of urllib; package copied to a scratch directory'],
                 'The failures injected are those of urllib, http.client, the content of the answer, a full disk (limit of the size of files), and updates by several threads or processes at once.',
                 require={'dates': 10000, 'update.good': 20, 'update.watched': 50, 'update.disk': 50, 'update.together.threads': 50, 'update.together.processes': 20}, level='fault_enumeration')

STUB = 'The package is imported from a scratch copy with stand-ins for its compiled core and netCDF4, which are not installed here: what the bindings do is observed by C27, C28 and C29 only.'
PROPS['C22'] = P([{'python': 'h_config', 'sections': ['loads', 'refused', 'distributed', 'environment']}],
                 'round-trip monitor over generated configurations and data files, with injected faults',
                 'one generated configuration with its data files, or one with a fault, each; distinct by its description',
                 ['models handed to the core compared with what was written (axes, mesh, codes, values, options)', 'faulty configurations must be refused with the documented error'], STUB,
                 require={'config.values': 10000, 'config.units.degrees': 100, 'config.units.radians': 100})
PROPS['C24'] = P([{'python': 'h_pylayer'}, {'python': 'h_leap', 'sections': ['lookup', 'shipped']}], 'argument-conservation monitor between the Python layer and a recording core',
                 'one call of the Python layer with a random choice of optional arguments, types and lengths each; distinct by these',
                 ['log of the calls received by the core, compared with what the caller asked', 'leap seconds recomputed from the published history'], STUB,
                 require={'python.dates': 5000, 'python.angles': 500, 'python.modulations.list': 200})
PROPS['C26'] = P([{'python': 'h_config', 'sections': ['convert', 'loads']}], 'round-trip monitor over generated meshes',
                 'one set of files each; distinct by constituents and sizes',
                 ['content of the file written compared with the originals', 'model loaded from it compared with the originals'], STUB, require={'convert.values': 1000})
PROPS['C16'] = P([cpp('h_series', 'huge_analysis', 'analysis')], 'round-trip and least-squares monitors at run time, under ASan+UBSan',
                 'one set of constituents, sampling and amplitudes each; distinct by these; series that do not separate their constituents (condition above 1e5) are not judged',
                 ['recovery of the amplitudes, residual orthogonal to each constituent, linearity, order, undefined data', ASAN], TRUST, require={'analysis.constituents': 2000, 'huge.samples': 200000})
PROPS['C23'] = P([cpp('h_series', 'huge', 'series'), cpp('h_astro', 'tables')], 'differential runtime monitoring between the interfaces and a reference model, under ASan+UBSan',
                 'one table with coefficients, dates and positions each; distinct by these',
                 ['series, map and modulations compared with each other and with the reference sum', 'bitwise independence of threads, order and history; table left unchanged', ASAN], TRUST,
                 require={'series.dates': 5000, 'mapping.values': 10000, 'huge.dates': 200000})
PROPS['C19'] = P([cpp('h_input', 'sizes_model', 'sizes_table', 'sizes_shape', 'hostile_model', 'hostile_table', 'hostile_mesh', 'hostile_axis'), cpp('h_grid', 'axis_hostile'), cpp('h_mesh', 'nowhere')],
                 'hostile workload with refusal and integrity monitors, under ASan+UBSan with float-cast-overflow',
                 'one object with a batch of invalid or extreme arguments each; distinct by these',
                 ['calls with inconsistent arguments must raise, and leave the object unchanged', 'undefined positions and dates give undefined tides; indices stay in range', ASAN, 'time limit on every run'],
                 require={'hostile.predictions': 10000, 'refused.tide-lon': 50, 'hostile.searches': 10000})

BIND = ('The bindings are compiled against harness/pybind11, a stand-in written for this purpose (pybind11 is not installed here): casts, '
        'ownership and the GIL follow the documentation of pybind11, and what pybind11 itself does is not observed. ')
DIRECT = 'the same question asked of the library without the bindings (harness/direct.cpp, in the same shared object)'
PROPS['C27'] = P([{'core': 'direct', 'python': 'h_core', 'sections': ['dates', 'refused', 'datetime']}],
                 'differential runtime monitoring of the compiled bindings, under ASan+UBSan',
                 'one array of dates (unit, layout, bounds, NaT), one invalid argument, or one datetime, each; distinct by these',
                 ['dates converted with exact integers, the result compared with what the library answers for them', DIRECT, ASAN], BIND,
                 require={'dates.converted': 500, 'dates.not-a-time': 30, 'dates.refused': 1000, 'dates.datetime': 60})
PROPS['C28'] = P([{'core': 'direct', 'python': 'h_core', 'sections': ['tide', 'values', 'table', 'load', 'small']}],
                 'differential runtime monitoring of the compiled bindings, under ASan+UBSan',
                 'one model with a batch, one table with its questions, or one configuration with its data files, each; distinct by model, constituents, options, layout of the arrays',
                 [DIRECT, 'arguments handed over as they are documented: positions, keywords, layouts, types, threads; inputs left unchanged', ASAN], BIND + TRUST,
                 require={'tide.positions': 500, 'tide.undefined': 100, 'values.positions': 500, 'table.waves': 1000, 'load.positions': 50, 'small.questions': 1000})
PROPS['C29'] = P([{'core': 'direct', 'python': 'h_core', 'sections': ['pickle', 'life', 'threads', 'odd']}],
                 'lifetime, concurrency and hostile-call monitors on the compiled bindings, under ASan+UBSan',
                 'one object copied, one order of releases, one object used by several threads, or one batch of calls with odd arguments, each; distinct by these',
                 ['copies answer as their originals, bit by bit', 'use of an object after every other reference was dropped, under AddressSanitizer', 'results of concurrent calls compared with those obtained alone',
                  'an odd call must answer or raise a Python exception, and leave its receiver usable; a dead interpreter is a violation', ASAN], BIND,
                 require={'objects.copies': 50, 'objects.lifetimes': 60, 'objects.concurrent-calls': 100, 'objects.odd-calls-refused': 300, 'objects.odd-calls-answered': 100})
