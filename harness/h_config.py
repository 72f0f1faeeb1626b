"""C22: configuration files; C26: conversion of meshes."""
import cmath
import glob
import importlib
import math
import os
import shutil
import sys
import warnings

import numpy
import yaml

import pyharness as ph

H = ph.Harness()
ph.install_core()
ph.install_netcdf4()
config = importlib.import_module('pyfes.config')
pyfes = importlib.import_module('pyfes')
NAMES = ph.NAMES
WORK = os.path.join(H.scratch, 'work')
os.makedirs(WORK)


def ident(name):
    return ph.parse(name)


def any_case(r, name):
    return ''.join(ch.upper() if r.chance(.5) else ch.lower() for ch in name)


class Tree:
    """What a configuration file should load."""


UNIQUE = [0]


def env(r, c, text):
    """Hides a part of a string behind environment variables."""
    if not text or r.chance(.5):
        return text
    i = r.below(len(text))
    j = r.range(i + 1, len(text))
    UNIQUE[0] += 1
    name = r.pick(['VF_A', 'VF_DIR', 'VF_x9', 'VF__']) + str(UNIQUE[0])
    inner = 'VF_IN%d' % UNIQUE[0]
    if r.chance(.3) and j - i > 1:
        k = r.range(i + 1, j - 1)
        os.environ[inner] = text[i:k]
        os.environ[name] = '${' + inner + '}' + text[k:j]
    else:
        os.environ[name] = text[i:j]
    c.count('config.environment')
    return text[:i] + '${' + name + '}' + text[j:]


def field_of(r, shape, dtype):
    """Amplitude and phase (radians) of a constituent, and where it is undefined."""
    amp = (r.array(*shape) * 200).astype(dtype)
    if r.chance(.15):
        # No value of its own is special.
        which = r.array(*shape) < .3
        amp[which] = r.pick([0, -3.5, 1e-6, 150, 99.99])
    pha = ((r.array(*shape) * 4 - 2) * math.pi).astype('float64')
    if r.chance(.15):
        pha = pha * 4     # several turns
    elif r.chance(.15):
        pha = numpy.round(pha / (math.pi / 2)) * (math.pi / 2)
    mask = r.array(*shape) < r.pick([0, 0, .2, 1 if r.chance(.1) else .5])
    return amp, pha, mask


DEGREES = ['degree', 'degrees', 'deg', 'Degrees', 'DEG', 'Degree']
RADIANS = ['radian', 'radians', 'rad', 'Radians']


def variables(r, amp, pha, mask, dtype, dims):
    """The variables of the file, with the phase in one unit or another, masked in one way or another."""
    degrees = r.chance(.7)
    stored = (numpy.degrees(pha) if degrees else pha).astype(dtype)
    how = r.below(3)
    if how == 0:
        # Either of them or both, one value or another.
        which = r.array(*mask.shape) * (3 if r.chance(.7) else 1)
        a, p = numpy.ma.array(amp, mask=mask & (which < 2)), numpy.ma.array(stored, mask=mask & ((which < 1) | (which >= 2)))
    elif how == 1:
        a, p = numpy.ma.array(numpy.where(mask, dtype.type(1e20), amp), mask=mask), numpy.ma.array(stored)
    else:
        a, p = numpy.ma.array(numpy.where(mask, numpy.nan, amp).astype(dtype)), numpy.ma.array(stored, mask=mask if r.chance(.5) else False)
    want = amp.astype('float64') * numpy.exp(1j * (numpy.radians(stored.astype('float64')) if degrees else stored.astype('float64')))
    want[mask] = complex(numpy.nan, numpy.nan)
    units = r.pick(DEGREES if degrees else RADIANS)
    return (ph.Variable(a, dims, units=r.pick(['cm', 'meter']), long_name='amplitude'),
            ph.Variable(p, dims, units=units, long_name='phase'), want, units)


def same(got, want, dtype):
    tol = 2e-3 if dtype == numpy.float32 else 1e-9
    g, w = numpy.asarray(got), numpy.asarray(want)
    if g.shape != w.shape:
        return False
    nan_g, nan_w = numpy.isnan(g), numpy.isnan(w)
    return bool((nan_g == nan_w).all() and (numpy.abs(g[~nan_g] - w[~nan_w]) <= tol).all())


def dynamic_list(r):
    return r.sample(NAMES, r.pick([0, 0, 1, 2, 5]))


def cartesian(r, c, kind):
    """A cartesian section, and what it describes."""
    t = Tree()
    t.kind, t.tide_type = 'cartesian', kind
    nlon, nlat = r.range(2, 9), r.range(2, 9)
    if r.chance(.03):
        nlon, nlat = r.pick([(72, 37), (120, 3), (4, 91), (361, 5)])
    if r.chance(.25) and nlon < 70:
        nlat = nlon
    t.dtype = numpy.dtype(r.pick(['float32', 'float64']))
    t.lon = numpy.linspace(r.uniform(-180, 0), r.uniform(1, 180), nlon)
    t.lat = numpy.linspace(-80, 80, nlat) * (-1 if r.chance(.2) else 1)
    if r.chance(.2):
        t.lon = numpy.arange(nlon) * 360 / nlon
    order = r.pick(['lat', 'lon'])
    names = dict(longitude=r.pick(['lon', 'x', 'longitude']), latitude=r.pick(['lat', 'y', 'latitude']),
                 amplitude=r.pick(['amplitude', 'amp', 'Ua']), phase=r.pick(['phase', 'pha', 'Ug']))
    section = {}
    for k, default in (('longitude', 'lon'), ('latitude', 'lat'), ('amplitude', 'amplitude'), ('phase', 'phase')):
        if names[k] != default or r.chance(.5):
            section[k] = env(r, c, names[k]) if r.chance(.1) else names[k]
    t.epsilon = 1e-6
    if r.chance(.4):
        t.epsilon = section['epsilon'] = r.pick([1e-3, 1e-5, 0.25, 1e-9])
    t.waves = {}
    section['paths'] = {}
    t.paths = []
    for name in r.sample(NAMES, r.pick([1, 1, 2, 3, 6])):
        path = os.path.join(WORK, 'c%d_%s_%s.nc' % (c.index, kind, name))
        t.paths.append(path)
        open(path, 'w').close()
        amp, pha, mask = field_of(r, (nlon, nlat), t.dtype)
        va, vp, want, units = variables(r, amp, pha, mask, t.dtype, (names['longitude'], names['latitude']))
        if order == 'lat':
            for v in (va, vp):
                v.data, v.dimensions = v.data.T.copy(), v.dimensions[::-1]
        axis = (lambda x, d: ph.Variable(numpy.ma.array(x) if r.chance(.5) else x, d))
        ph.FILES[path] = {names['longitude']: axis(t.lon, (names['longitude'],)), names['latitude']: axis(t.lat, (names['latitude'],)),
                          names['amplitude']: va, names['phase']: vp}
        t.waves[ident(name)] = want
        c.count('config.units.' + ('degrees' if units.lower().startswith('deg') else 'radians'))
        section['paths'][any_case(r, name) if r.chance(.3) else name] = env(r, c, path)
    t.dynamic = dynamic_list(r)
    if t.dynamic or r.chance(.2):
        section['dynamic'] = t.dynamic
    t.names, t.order = names, order
    c.note('cartesian %dx%d %s, %s first, %d constituents' % (nlon, nlat, t.dtype, order, len(t.waves)))
    return {'cartesian': section}, t


def lgp(r, c, kind):
    t = Tree()
    t.kind, t.tide_type = 'lgp', kind
    n, m = r.range(3, 12), r.range(1, 8)
    if r.chance(.04):
        n, m = r.range(100, 2000), r.range(50, 3000)
    t.dtype = numpy.dtype(r.pick(['float32', 'float64']))
    t.type = r.pick(['lgp1', 'lgp2'])
    t.lon, t.lat = r.array(n) * 360, r.array(n) * 160 - 80
    t.triangle = (r.array(m, 3) * n).astype('int32')
    size = r.range(n, 3 * n)
    t.codes = (r.array(m, 3 if t.type == 'lgp1' else 6) * size).astype('int32')
    names = dict(longitude=r.pick(['lon', 'x']), latitude=r.pick(['lat', 'y']), triangle=r.pick(['triangle', 'element']),
                 codes=r.pick(['codes', 'lgp2', 'lgp1']))
    section = {'path': None}
    for k, default in (('longitude', 'lon'), ('latitude', 'lat'), ('triangle', 'triangle'), ('codes', 'codes')):
        if names[k] != default or r.chance(.5):
            section[k] = names[k]
    pattern = {'amplitude': r.pick(['{constituent}_amplitude', '{constituent}_amp', 'a_{constituent}']),
               'phase': r.pick(['{constituent}_phase', 'g_{constituent}'])}
    for k in pattern:
        if pattern[k] != '{constituent}_' + k or r.chance(.5):
            section[k] = pattern[k]
    if t.type != 'lgp1' or r.chance(.7):
        section['type'] = t.type
    t.max_distance = 0.0
    if r.chance(.5):
        t.max_distance = section['max_distance'] = r.pick([1.0, 25000.0, 0.5])
    path = os.path.join(WORK, 'l%d_%s.nc' % (c.index, kind))
    open(path, 'w').close()
    f = ph.FILES[path] = {names['longitude']: ph.Variable(t.lon, ('n',)), names['latitude']: ph.Variable(t.lat, ('n',)),
                          names['triangle']: ph.Variable(t.triangle, ('m', 'three')), names['codes']: ph.Variable(t.codes, ('m', 'k'))}
    t.waves = {}
    everything = r.chance(.05)
    chosen = list(NAMES) if everything else r.sample(NAMES, r.pick([1, 2, 3, 6]))
    stored = chosen + ([] if everything else [x for x in r.sample(NAMES, 2) if x not in chosen])
    for name in stored:
        amp, pha, mask = field_of(r, (size,), t.dtype)
        va, vp, want, units = variables(r, amp, pha, mask, t.dtype, ('size',))
        f[pattern['amplitude'].format(constituent=name)] = va
        f[pattern['phase'].format(constituent=name)] = vp
        if name in chosen:
            t.waves[ident(name)] = want
        c.count('config.units.' + ('degrees' if units.lower().startswith('deg') else 'radians'))
    if not everything or r.chance(.5):
        section['constituents'] = chosen
    section['path'] = env(r, c, path)
    t.paths = [path]
    t.dynamic = dynamic_list(r)
    if t.dynamic or r.chance(.2):
        section['dynamic'] = t.dynamic
    t.pattern, t.names = pattern, names
    c.note('%s %s, %d nodes, %d constituents' % (t.type, t.dtype, size, len(t.waves)))
    return {'lgp': section}, t


def write(r, c, doc):
    path = os.path.join(WORK, 'config%d.yaml' % c.index)
    with open(path, 'w', encoding='utf-8') as f:
        yaml.safe_dump(doc, f, default_flow_style=r.chance(.2), sort_keys=False)
    return path


def clean(t=()):
    for x in list(os.environ):
        if x.startswith('VF_') and x not in ('VF_REPO', 'VF_BUILD', 'VF_JOBS', 'VF_SCALE', 'VF_NOCCACHE'):
            del os.environ[x]
    ph.FILES.clear()
    shutil.rmtree(WORK)
    os.makedirs(WORK)


def loads(r, c):
    clean()
    doc, want = {}, {}
    for kind in r.shuffle(['tide', 'radial'])[:r.pick([1, 1, 2])]:
        section, t = (cartesian if r.chance(.55) else lgp)(r, c, kind)
        doc[kind], want[kind] = section, t
    models = (pyfes.load_config if r.chance(.3) else config.load)(write(r, c, doc))
    c.check(sorted(models) == sorted(want), 'config-models', 'loaded: %s' % sorted(models))
    for kind, t in want.items():
        m = models.get(kind)
        if m is None:
            continue
        bits = 'Complex64' if t.dtype == numpy.float32 else 'Complex128'
        klass = ('Cartesian' if t.kind == 'cartesian' else t.type.upper()) + bits
        c.check(type(m).__name__ == klass, 'config-class-%s' % t.kind, '%s, expected %s' % (type(m).__name__, klass))
        c.check(m.tide_type.name == {'tide': 'kTide', 'radial': 'kRadial'}[kind], 'config-tide-type', '%s for %s' % (m.tide_type, kind))
        c.check(sorted(x.name for x in m.dynamic) == sorted('k' + x for x in t.dynamic), 'config-dynamic', '%s, expected %s' % (m.dynamic, t.dynamic))
        if not c.check(set(m.waves) == set(t.waves), 'config-constituents', '%s, expected %s' % (sorted(x.name for x in m.waves), sorted(x.name for x in t.waves))):
            continue
        if t.kind == 'cartesian':
            c.check(numpy.array_equal(m.lon.points, t.lon) and numpy.array_equal(m.lat.points, t.lat), 'config-axes', 'the axes are not those of the file')
            c.check(m.lon.epsilon == t.epsilon, 'config-epsilon', '%s, expected %s' % (m.lon.epsilon, t.epsilon))
            c.check(bool(m.lon.is_circular_asked) and not m.lat.is_circular_asked, 'config-circular', 'longitude %s, latitude %s' % (m.lon.is_circular_asked, m.lat.is_circular_asked))
            for w, values in t.waves.items():
                if not c.check(m.waves[w].size == values.size, 'config-values-cartesian', 'size'):
                    continue
                got = numpy.array([[m.at(w, i, j) for j in range(len(t.lat))] for i in range(len(t.lon))])
                c.check(same(got, values, t.dtype), 'config-values-cartesian', '%s: %s, expected %s' % (w, got.ravel()[:4], values.ravel()[:4]))
                c.count('config.values', values.size)
        else:
            c.check(numpy.array_equal(m.index.lon, t.lon) and numpy.array_equal(m.index.lat, t.lat) and numpy.array_equal(m.index.triangles, t.triangle),
                    'config-mesh', 'the mesh is not that of the file')
            c.check(numpy.array_equal(m.codes, t.codes), 'config-codes', 'the codes are not those of the file')
            c.check(m.max_distance == t.max_distance, 'config-max-distance', '%s' % m.max_distance)
            for w, values in t.waves.items():
                c.check(same(m.waves[w], values, t.dtype), 'config-values-lgp', '%s: %s, expected %s' % (w, m.waves[w][:4], values[:4]))
                c.count('config.values', values.size)
        c.count('config.' + klass)
    c.distinct(c.text)


def refused(r, c):
    clean()
    kind = r.pick(['tide', 'radial'])
    section, t = (cartesian if r.chance(.5) else lgp)(r, c, kind)
    name = 'cartesian' if 'cartesian' in section else 'lgp'
    s = section[name]
    doc = {kind: section}
    word, errors = None, (ValueError,)
    options = ['unknown-key', 'section', 'model', 'dynamic', 'empty-name', 'tidal-type', 'environment', 'constituent', 'empty']
    if name == 'cartesian':
        options += ['missing-file', 'no-paths', 'shape', 'scrambled', 'other-lon', 'other-lat', 'other-dtype', 'other-shape', 'other-size'] * 1
    else:
        options += ['lgp-type', 'pattern', 'missing-variable', 'no-path', 'pattern-phase']
    fault = r.pick(options)
    last = t.paths[-1]
    several = len(t.paths) > 1
    if fault.startswith('other') and not several:
        fault = 'unknown-key'
    if fault == 'unknown-key':
        word = r.pick(['lonn', 'path_', 'amplitudes', 'foo', 'tide_type', 'triangles', 'epsilons'])
        s[word] = 1
    elif fault == 'section':
        doc[r.pick(['tides', 'load', 'Tide', 'ocean'])] = doc.pop(kind) if r.chance(.5) else section
    elif fault == 'model':
        doc[kind] = {r.pick(['grid', 'lgp1', 'Cartesian', 'mesh']): s}
    elif fault == 'dynamic':
        word = r.pick(['A6', 'M22', 'X1', 'kM2', ''])
        s['dynamic'] = r.shuffle((s.get('dynamic') or []) + [word])
    elif fault == 'empty-name':
        word = r.pick(['latitude', 'longitude', 'amplitude', 'phase'] + ([] if name == 'cartesian' else ['codes']))
        s[word] = ''
    elif fault == 'tidal-type':
        word = 'tidal_type'
        s[word] = kind
    elif fault == 'environment':
        word = 'VF_UNDEFINED'
        k = r.pick(['latitude', 'longitude', 'amplitude', 'phase'])
        s[k] = r.pick(['${VF_UNDEFINED}', 'a${VF_UNDEFINED}', '${VF_UNDEFINED}/x'])
        errors = (config.InterpolationError,)
    elif fault == 'constituent':
        word = r.pick(['A6', 'M22', 'X1', 'Z0'])
        if name == 'cartesian':
            s['paths'][word] = last
        else:
            s['constituents'] = r.shuffle([x.name[1:] for x in t.waves] + [word])
    elif fault == 'empty':
        doc = r.pick([{}, None])
    elif fault == 'missing-file':
        k = r.pick(list(s['paths']))
        word = os.path.join(WORK, 'nowhere.nc')
        s['paths'][k] = word
        errors = (FileNotFoundError,)
    elif fault == 'no-paths':
        s['paths'] = {}
    elif fault == 'shape':
        v = ph.FILES[last]
        for k in ('amplitude', 'phase'):
            v[t.names[k]].data = v[t.names[k]].data.ravel() if r.chance(.5) else v[t.names[k]].data[None]
            v[t.names[k]].dimensions = ('a',) * v[t.names[k]].data.ndim
        if v[t.names['amplitude']].data.ndim != v[t.names['phase']].data.ndim:
            v[t.names['phase']].data = v[t.names['amplitude']].data
    elif fault == 'scrambled':
        # As many values as on the grid, on other axes.
        n = len(t.lon) * len(t.lat)
        sides = [x for x in range(1, n + 1) if n % x == 0 and x not in (len(t.lon), len(t.lat))]
        if not sides:
            return
        x = r.pick(sides)
        for f in ([ph.FILES[last]] if r.chance(.5) else [ph.FILES[q] for q in t.paths]):
            for k in ('amplitude', 'phase'):
                v = f[t.names[k]]
                v.data = v.data.reshape(x, n // x)
                if r.chance(.5):
                    v.dimensions = ('u', 'v')
    elif fault in ('other-lon', 'other-lat'):
        k = t.names['longitude' if fault == 'other-lon' else 'latitude']
        v = ph.FILES[last][k]
        d = v.data.copy()
        d[r.below(len(d)) if r.chance(.5) else slice(None)] += r.pick([1, -0.5, 0.1])
        v.data = d
    elif fault == 'other-dtype':
        other = 'float64' if t.dtype == numpy.float32 else 'float32'
        for k in ('amplitude', 'phase'):
            v = ph.FILES[last][t.names[k]]
            v.data = v.data.astype(other)
    elif fault in ('other-shape', 'other-size'):
        f = ph.FILES[last]
        axis = r.pick(['longitude', 'latitude'])
        if len(f[t.names[axis]].data) <= 2:
            axis = 'longitude' if axis == 'latitude' else 'latitude'
        f[t.names[axis]].data = f[t.names[axis]].data[:-1]
        for k in ('amplitude', 'phase'):
            v = f[t.names[k]]
            i = v.dimensions.index(t.names[axis])
            v.data = v.data[:-1] if i == 0 else v.data[:, :-1]
        if len(f[t.names[axis]].data) < 1:
            return
    elif fault == 'lgp-type':
        word = r.pick(['lgp3', 'LGP2', 'LGP1', 'p1', ''])
        s['type'] = word
    elif fault in ('pattern', 'pattern-phase'):
        k = 'amplitude' if fault == 'pattern' else 'phase'
        word = r.pick(['{wave}_amp', '{name}', 'x_{Constituent}'])
        s[k] = word
    elif fault == 'missing-variable':
        f = ph.FILES[last]
        w = r.pick(list(t.waves)).name[1:]
        word = t.pattern[r.pick(['amplitude', 'phase'])].format(constituent=w)
        del f[word]
        if 'constituents' not in s:
            s['constituents'] = [x.name[1:] for x in t.waves]
    elif fault == 'no-path':
        if r.chance(.5):
            s['path'] = ''
        else:
            del s['path']
    c.note('%s in %s' % (fault, name))
    path = write(r, c, doc)
    got = None
    try:
        got = config.load(path)
    except errors as e:
        if word and fault not in ('empty-name', 'constituent'):
            c.check(word in str(e), 'config-error-names-' + fault, '%r does not tell %r' % (str(e), word))
        elif word and fault == 'empty-name':
            c.check(word in str(e), 'config-error-names-' + fault, '%r does not tell %r' % (str(e), word))
    except Exception as e:  # noqa
        c.check(False, 'config-error-type-' + fault, '%s: %s' % (type(e).__name__, e))
    c.check(got is None, 'config-accepted-' + fault, 'loaded')
    c.count('config.refused.' + fault)
    c.distinct((fault, c.text))


def distributed(r, c):
    """The configurations which are distributed, and those of the documentation."""
    clean()
    files = sorted(glob.glob(os.path.join(H.args.repo, 'data', '**', '*.y*ml'), recursive=True))
    if not c.check(len(files) > 0, 'config-distributed', 'none found'):
        return
    path = files[c.index % len(files)]
    c.note(os.path.relpath(path, H.args.repo))
    with open(path) as f:
        doc = yaml.safe_load(f)
    dtype = numpy.dtype('float32')
    os.chdir(WORK)
    lon, lat = numpy.arange(8) * 45., numpy.linspace(-80, 80, 5)
    wanted = {}
    for kind, section in doc.items():
        for name, s in section.items():
            if name != 'cartesian':
                continue
            wanted[kind] = s
            for wave, p in s['paths'].items():
                amp, pha, mask = field_of(r, (8, 5), dtype)
                va, vp, want, _ = variables(r, amp, pha, mask, dtype, ('lon', 'lat'))
                ph.FILES[p] = {s.get('longitude', 'lon'): ph.Variable(lon, ('lon',)), s.get('latitude', 'lat'): ph.Variable(lat, ('lat',)),
                               s.get('amplitude', 'amplitude'): va, s.get('phase', 'phase'): vp}
    for p in ph.FILES:
        q = os.path.abspath(p)
        if os.path.commonpath([q, WORK]) == WORK:
            os.makedirs(os.path.dirname(q), exist_ok=True)
            open(q, 'w').close()
    try:
        models = config.load(path)
    finally:
        os.chdir(H.scratch)
    c.check(set(models) == set(wanted), 'config-distributed', str(list(models)))
    for kind, s in wanted.items():
        m = models.get(kind)
        c.check(m is not None and set(m.waves) == {ident(w) for w in s['paths']}, 'config-distributed-waves', kind)
        c.check(m is not None and [x.name[1:] for x in m.dynamic] == s.get('dynamic', []), 'config-distributed-dynamic', kind)
        c.count('config.distributed-constituents', len(s['paths']))
    c.distinct(path)


def environment(r, c):
    """Substitution of the variables alone."""
    clean()
    names = ['VF_A', 'VF_B', 'VF_C9', 'VF_d_']
    values, cost = {}, {}
    for i, n in enumerate(names):
        cost[n] = 1
        v = ''.join(r.pick('ab/._- é{}0') for _ in range(r.below(8))) + r.pick(['', '', '', '', '$x', '$1/'])
        if i and r.chance(.4):
            m = r.pick(names[:i])
            v += '${' + m + '}'
            cost[n] += cost[m]
        os.environ[n] = v
        for k, w in values.items():
            v = v.replace('${' + k + '}', w)
        values[n] = v
    out, want, left = '', '', 10   # the substitutions accepted in one string
    uses = r.below(4)
    for _ in range(uses):
        # A dollar alone is the name of no variable.
        lit = r.pick(['', '', '', 'a$b', '$/']) + ''.join(r.pick('xy/.: {}') for _ in range(r.below(5)))
        n = r.pick(names)
        left -= cost[n]
        if left < 0:
            break
        out += lit + '${' + n + '}'
        want += lit + values[n]
    tail = ''.join(r.pick('xyz') for _ in range(r.below(4))) + r.pick(['', '', '', '$', '$z'])
    out, want = out + tail, want + tail
    path = os.path.join(WORK, 'env.yaml')
    doc = {'a': [out, {'b': out, 'n': 3}], 'c': {'d': {'e': out}}, 'f': 1.5, 'g': None, 'h': True}
    with open(path, 'w', encoding='utf-8') as f:
        yaml.safe_dump(doc, f, allow_unicode=True)
    got = config.parse(path)
    c.note(repr(out))
    c.check(got == {'a': [want, {'b': want, 'n': 3}], 'c': {'d': {'e': want}}, 'f': 1.5, 'g': None, 'h': True}, 'config-environment', '%r, expected %r' % (got, want))
    # A variable that refers to itself ends with an error.
    os.environ['VF_SELF'] = r.pick(['${VF_SELF}', 'x${VF_SELF}', '${VF_LOOP}'])
    os.environ['VF_LOOP'] = '${VF_SELF}'
    with open(path, 'w') as f:
        f.write('a: "%s"\n' % r.pick(['${VF_SELF}', 'a/${VF_SELF}/b']))
    try:
        config.parse(path)
        c.check(False, 'config-environment-loop', 'accepted')
    except config.InterpolationDepthError:
        pass
    except Exception as e:  # noqa
        c.check(False, 'config-environment-loop', '%s: %s' % (type(e).__name__, e))
    c.distinct(out)


def convert(r, c):
    """The tool that converts meshes."""
    clean()
    tool = importlib.import_module('pyfes.console_script.fes_convert_mesh')
    n, m, size = r.range(3, 9), r.range(1, 6), r.range(3, 20)
    if r.chance(.05):
        n, m, size = r.range(50, 3000), r.range(40, 3000), r.range(500, 20000)
    x, y = r.array(n) * 360, r.array(n) * 160 - 80
    tri, codes = (r.array(m, 3) * n).astype('int32'), (r.array(m, 6) * size).astype('int32')
    # The names of the files of the models, and those of the library.
    known = {'MSqm': 'Msqm', 'E2': 'Eps2', 'La2': 'Lambda2'}
    known.update({x: x for x in ('S4', 'MKS2', 'R2', 'O1', 'Mm', 'S2', 'M4', 'M3', 'Q1', 'Ssa', 'P1', 'M8', 'N4', 'S1', 'K2', 'Mtm', 'MN4', 'MSf', 'MS4', 'N2',
                                 'J1', 'T2', 'K1', 'M6', 'Sa', 'Mu2', 'Mf', 'M2', 'L2', '2N2', 'Nu2')})
    waves = r.sample(sorted(known), r.range(1, 5) if r.chance(.95) else len(known))
    paths, want = [], {}
    for w in waves:
        amp, pha = (r.array(2, size) * r.pick([1, 1, 5, .01])).astype('float32'), (r.array(2, size) * 360 - r.pick([0, 0, 180])).astype('float32')
        mask = r.array(2, size) < r.pick([0, .3])
        mask_phase = mask if r.chance(.5) else r.array(2, size) < r.pick([0, .3])
        p = os.path.join(WORK, w + '.nc' if r.chance(.5) else w + '.some.nc')
        paths.append(p)
        ph.FILES[p] = {'lon': ph.Variable(x, ('n',)), 'lat': ph.Variable(y, ('n',)), 'element': ph.Variable(tri, ('m', 'three')),
                       'C-LGP2': ph.Variable(codes, ('m', 'six')), 'a_eta_LGP2': ph.Variable(numpy.ma.array(amp, mask=mask), ('t', 'k')),
                       'G_eta_LGP2': ph.Variable(numpy.ma.array(pha, mask=mask_phase), ('t', 'k'))}
        want[known[w]] = (amp[0].astype('float64') * 100, pha[0], mask[0], mask_phase[0])
    out = os.path.join(WORK, 'out.nc')
    c.note('%s, %d values' % (waves, size))
    fault = r.chance(.2) and len(paths) > 1
    if fault:
        v = ph.FILES[r.pick(paths)][r.pick(['lon', 'lat', 'element', 'C-LGP2'])]
        d = v.data.copy()
        k = r.below(d.size)
        if d.dtype.kind == 'i':
            d.flat[k] += r.pick([1, -1])
        else:
            # As little as may be, or more.
            d.flat[k] = numpy.nextafter(d.flat[k], 1e3) if r.chance(.4) else d.flat[k] + r.pick([1, 1e-3, -1e-4, 1e-6, 360])
        v.data = d
    argv = sys.argv
    sys.argv = ['fes_convert_mesh'] + paths + [out]
    try:
        tool.main()
        failed = False
    except AssertionError:
        failed = True
    except (ValueError, RuntimeError):
        failed = True
    finally:
        sys.argv = argv
    c.check(failed == bool(fault), 'convert-inconsistent', 'meshes that differ are %s' % ('refused' if failed else 'merged'))
    if failed or fault:
        return
    f = ph.FILES[out]
    c.check(numpy.array_equal(f['lon'].data, x) and numpy.array_equal(f['lat'].data, y) and numpy.array_equal(f['triangle'].data, tri)
            and numpy.array_equal(f['lgp2'].data, codes), 'convert-mesh', 'the mesh is not copied')
    c.check({k for k in f if k.endswith('_amplitude')} == {k + '_amplitude' for k in want}, 'convert-waves', str(sorted(f)))
    for k, (a, p, mask, mask_phase) in want.items():
        ga, gp = f.get(k + '_amplitude'), f.get(k + '_phase')
        ok = ga is not None and gp is not None and numpy.array_equal(numpy.ma.getmaskarray(ga.data), mask) and numpy.array_equal(numpy.ma.getmaskarray(gp.data), mask_phase)
        ok = ok and numpy.allclose(ga.data[~mask], a[~mask], rtol=1e-6) and numpy.array_equal(gp.data[~mask_phase], p[~mask_phase])
        c.check(ok and ga.units == 'cm' and gp.units.startswith('deg'), 'convert-values', k)
        c.count('convert.values', size)
    # What is converted may be loaded.
    doc = {'tide': {'lgp': {'path': out, 'codes': 'lgp2', 'type': 'lgp2', 'constituents': sorted(want)}}}
    model = config.load(write(r, c, doc))['tide']
    for k, (a, p, mask, mask_phase) in want.items():
        v = a * numpy.exp(1j * numpy.radians(p.astype('float64')))
        v[mask | mask_phase] = complex(numpy.nan, numpy.nan)
        c.check(same(model.waves[ident(k)], v, numpy.float32), 'convert-load', k)
    c.distinct(c.text)


warnings.simplefilter('ignore')
H.run('loads', 1200, 40000, loads)
H.run('refused', 1500, 40000, refused)
H.run('distributed', 24, 48, distributed)
H.run('environment', 1200, 8000, environment)
H.run('convert', 900, 8000, convert)
H.finish()
