"""The compiled core, used as Python uses it (C27 dates, C28 answers, C29 objects).

core.so is built from /repo's bindings with the monitors; direct.cpp, linked in
the same file and called through ctypes, answers the same questions without
the bindings."""
import copy
import ctypes
import datetime
import gc
import importlib
import math
import operator
import pickle
import re
import threading
import warnings
import weakref

import numpy

import pyharness as ph

H = ph.Harness()
ph.install_netcdf4()
try:
    pyfes = importlib.import_module('pyfes')
except Exception as error:  # noqa
    # It was built, and cannot be imported.
    H.fail('core-import', 'import:0', '%s: %s' % (type(error).__name__, error))
    H.finish()
    raise SystemExit(0)
core = pyfes.core
L = ctypes.CDLL(core.__file__)
NAMES = ph.NAMES
IDENTS = [getattr(core.Constituent, 'k' + n) for n in NAMES]
FORMULAE = [core.Formulae.kSchuremanOrder1, core.Formulae.kSchuremanOrder3, core.Formulae.kMeeus]
TYPES = [core.TideType.kTide, core.TideType.kRadial]
QUALITY = [core.Quality.kUndefined, core.Quality.kExtrapolated1, core.Quality.kExtrapolated2, core.Quality.kExtrapolated3, core.Quality.kInterpolated]

C = ctypes
D, P, I, S = C.c_double, C.c_void_p, C.c_int, C.c_long
for name, result, args in [
        ('vf_error', C.c_char_p, []), ('vf_grid', P, [I, P, S, D, I, P, S, I, I]), ('vf_mesh', P, [I, I, P, P, S, P, P, S, I, D]),
        ('vf_free', None, [P]), ('vf_add', I, [P, I, P, S]), ('vf_dynamic', I, [P, P, S]),
        ('vf_tide', I, [P, P, P, P, P, S, I, D, P, S, S, P, P, P]), ('vf_values', S, [P, D, D, P, P, P]),
        ('vf_name', C.c_char_p, [I]), ('vf_parse', I, [C.c_char_p]), ('vf_angles', None, [I, D, I, P]),
        ('vf_table', S, [P, S, I, D, I, P, P]), ('vf_admittance', I, [P, P, S, P]), ('vf_lpe', D, [I, D, I, D, P, S]),
        ('vf_series', I, [P, S, I, P, P, S, P, P, P, P]), ('vf_mapping', I, [P, S, I, D, I, P, S, S, P, S]),
        ('vf_analysis', I, [P, S, P, P, S, P]), ('vf_select', S, [D, D, P, S]), ('vf_axis', I, [P, S, D, I, P, S, I, P, P])]:
    getattr(L, name).restype, getattr(L, name).argtypes = result, args


def a64(x):
    return numpy.ascontiguousarray(x, dtype='float64')


def i32(x):
    return numpy.ascontiguousarray(x, dtype='int32')


def ptr(x):
    return x.ctypes.data_as(C.c_void_p)   # holds the array


def strings(names):
    return (C.c_char_p * max(1, len(names)))(*[n.encode() for n in names])


def asked(ok):
    if not ok:
        raise RuntimeError('direct: ' + L.vf_error().decode())


class Direct:
    """A model of the library, without the bindings."""

    def __init__(self, handle):
        if not handle:
            raise RuntimeError('direct: ' + L.vf_error().decode())
        self.h = handle

    def __del__(self):
        L.vf_free(self.h)

    def add(self, ident, wave):
        x = a64(numpy.asarray(wave, dtype='complex128').view('float64'))
        asked(L.vf_add(self.h, ident, ptr(x), len(wave)))

    def dynamic(self, idents):
        x = i32(list(idents) + [0])
        asked(L.vf_dynamic(self.h, ptr(x), len(idents)))

    def tide(self, epoch, leap, lon, lat, formulae=0, tolerance=0.0, excluded=(), threads=1):
        epoch, leap, lon, lat = a64(epoch), numpy.ascontiguousarray(leap, dtype='uint16'), a64(lon), a64(lat)
        n = len(epoch)
        tide, lp, quality, ex = numpy.full(n, -1.0), numpy.full(n, -1.0), numpy.zeros(n, 'uint8'), i32(list(excluded) + [0])
        asked(L.vf_tide(self.h, ptr(epoch), ptr(leap), ptr(lon), ptr(lat), n, formulae, tolerance, ptr(ex), len(excluded), threads, ptr(tide), ptr(lp), ptr(quality)))
        return tide, lp, quality

    def values(self, lon, lat):
        ids, x, q = numpy.zeros(80, 'int32'), numpy.zeros(160), numpy.zeros(1, 'int32')
        n = L.vf_values(self.h, lon, lat, ptr(ids), ptr(x), ptr(q))
        return {int(ids[i]): complex(x[2 * i], x[2 * i + 1]) for i in range(n)}, int(q[0])


def same(a, b, tolerance=1e-9):
    a, b = numpy.asarray(a), numpy.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind == 'c' or b.dtype.kind == 'c':
        a, b = [numpy.stack([x.real, x.imag]) for x in (a, b)]
    a, b = a.astype('float64'), b.astype('float64')
    return numpy.allclose(a, b, rtol=tolerance, atol=tolerance, equal_nan=True)


def angles(formulae, epoch, leap):
    out = numpy.zeros(13)
    L.vf_angles(formulae, epoch, leap, ptr(out))
    return out


ANGLES = ['t', 'n', 'h', 's', 'p1', 'p', 'i', 'xi', 'nu', 'x1ra', 'r', 'nuprim', 'nusec']


def angles_of(a):
    return [getattr(a, k) for k in ANGLES]


def table_of(names, formulae, epoch, leap):
    ids, out = numpy.zeros(80, 'int32'), numpy.zeros(480)
    n = L.vf_table(strings(names), len(names), formulae, epoch, leap, ptr(ids), ptr(out))
    return [int(i) for i in ids[:n]], out[:6 * n].reshape(n, 6)


def some_names(r, least=1, most=12):
    return r.sample(NAMES, r.range(least, most))


def layout(r, x):
    """The same values, laid out in memory in another way."""
    x = numpy.asarray(x)
    how = r.below(5)
    if how == 1:
        y = numpy.zeros((len(x), 3), dtype=x.dtype)
        y[:, 1] = x
        return y[:, 1]
    if how == 2:
        return x[::-1].copy()[::-1]
    if how == 3:
        y = x.copy()
        y.flags.writeable = False
        return y
    return x.copy()


class Case:
    """A model built through the bindings, and the same built without."""


def coordinates(r, n):
    return numpy.sort(r.array(n) * 30 - 15)


def model(r, kind=None, full=False):
    m = Case()
    m.kind = kind or r.pick(['grid', 'grid', 'lgp1', 'lgp2'])
    m.single = r.chance(.4)
    m.type = r.pick([0, 0, 1])
    suffix = 'Complex64' if m.single else 'Complex128'
    nx, ny = r.range(3, 9), r.range(3, 8)
    m.circular = False
    if m.kind == 'grid':
        m.major = r.chance(.5)
        m.circular = r.chance(.4)
        lon = numpy.arange(nx) * (360.0 / nx) if m.circular else r.range(-100, 100) + numpy.arange(nx) * .5
        lat = r.range(-60, 50) + numpy.arange(ny) * .5
        if r.chance(.3):
            lat = lat[::-1].copy()
        if r.chance(.2):
            lon = lon[::-1].copy()
        m.args = (core.Axis(layout(r, lon), is_circular=m.circular), core.Axis(layout(r, lat)))
        cls = getattr(core.tidal_model, 'Cartesian' + suffix)
        how = r.below(3)
        if how == 0:
            m.py = cls(*m.args, TYPES[m.type], m.major)
        elif how == 1:
            m.py = cls(lon=m.args[0], lat=m.args[1], longitude_major=m.major, tide_type=TYPES[m.type])
        else:
            m.type, m.major = 0, True
            m.py = cls(*m.args)
        m.direct = Direct(L.vf_grid(m.single, ptr(a64(lon)), nx, 1e-6, m.circular, ptr(a64(lat)), ny, m.type + 1, m.major))
        m.size = nx * ny
        m.cls = cls
    else:
        gx, gy = numpy.meshgrid(r.range(-100, 100) + numpy.arange(nx) * .5, r.range(-60, 50) + numpy.arange(ny) * .5)
        lon, lat = gx.ravel(), gy.ravel()
        t = []
        for j in range(ny - 1):
            for i in range(nx - 1):
                a = j * nx + i
                t += [(a, a + 1, a + nx), (a + 1, a + nx + 1, a + nx)]
        t = i32(t)
        width = 3 if m.kind == 'lgp1' else 6
        codes = i32(numpy.arange(len(t) * width).reshape(len(t), width))
        m.size = len(t) * width
        if m.kind == 'lgp1' and r.chance(.5):
            codes, m.size = t.copy(), nx * ny
        distance = r.pick([0.0, 0.0, 150e3])
        lay = r.pick([lambda x: x, numpy.asfortranarray, lambda x: numpy.repeat(x, 2, axis=0)[::2], lambda x: x.astype('int64')])
        m.index = core.mesh.Index(layout(r, lon), lat=layout(r, lat), triangles=lay(t))
        cls = getattr(core.tidal_model, m.kind.upper() + suffix)
        how = r.below(3)
        if how == 0:
            m.py = cls(m.index, lay(codes), TYPES[m.type], distance)
        elif how == 1:
            m.py = cls(codes=lay(codes), index=m.index, max_distance=distance, tide_type=TYPES[m.type])
        else:
            m.type, distance = 0, 0.0
            m.py = cls(m.index, lay(codes))
        m.direct = Direct(L.vf_mesh(m.single, int(width // 3), ptr(a64(lon)), ptr(a64(lat)), len(lon), ptr(t), ptr(codes), len(t), m.type + 1, distance))
        m.cls = cls
        m.triangles, m.distance = t, distance
    m.lon, m.lat = lon, lat
    m.names = list(NAMES) if full else some_names(r)
    m.waves = {}
    for n in m.names:
        z = (r.array(m.size) - .5 + 1j * (r.array(m.size) - .5)) * 200
        if r.chance(.3) and m.kind == 'grid':
            z[r.array(m.size) < .15] = numpy.nan
        z = z.astype('complex64' if m.single else 'complex128')
        m.waves[NAMES.index(n)] = z
        given = layout(r, z)
        spelled = r.pick([n, n, n.upper(), n.lower()])
        m.py.add_constituent(spelled, given) if r.chance(.5) else m.py.add_constituent(name=spelled, wave=given)
        if given.flags.writeable:
            given[...] = -999   # the model has its own copy
        m.direct.add(NAMES.index(n), z)
    m.dynamic = [NAMES.index(n) for n in some_names(r, 0, 3)] if r.chance(.4) else []
    if m.dynamic:
        m.py.dynamic = [IDENTS[i] for i in m.dynamic]
        m.direct.dynamic(m.dynamic)
    if r.chance(.3):
        m.index = m.args = None   # the model holds what it needs
        gc.collect()
    m.text = '%s %s type=%d %d waves dynamic=%d' % (m.kind, suffix, m.type, len(m.names), len(m.dynamic))
    return m


def positions(r, m, n):
    x = m.lon.min() - 1 + r.array(n) * (numpy.ptp(m.lon) + 2)
    y = m.lat.min() - 1 + r.array(n) * (numpy.ptp(m.lat) + 2)
    if r.chance(.5) and m.kind == 'grid':   # a vertex of a mesh belongs to any of its triangles
        x[::3], y[::3] = m.lon[r.below(len(m.lon))], m.lat[r.below(len(m.lat))]
    if r.chance(.2):
        x[r.below(n)] = numpy.nan
    if r.chance(.3):
        x = x + 360 * numpy.round(r.array(n) * 2 - 1)
    return x, y


UNITS = {'as': 1e-18, 'fs': 1e-15, 'ps': 1e-12, 'ns': 1e-9, 'us': 1e-6, 'ms': 1e-3, 's': 1.0, 'm': 60.0, 'h': 3600.0, 'D': 86400.0}


def some_dates(r, n, unit=None, positive=False):
    """Dates between 1900 and 2100, in the range of the unit."""
    unit = unit or r.pick(list(UNITS))
    k = UNITS[unit]
    hi = min(4.1e9 / k, 9.2e18)
    lo = -2.2e9 / k if not positive else 63072000 / k + 1
    lo = max(lo, -9.2e18)
    v = numpy.array([int(r.uniform(lo, hi)) for _ in range(n)], dtype='int64')
    return v.astype('datetime64[%s]' % unit), v, unit


# --- C27: dates -------------------------------------------------------------

ALWAYS = {}


def fixed_model():
    """A grid whose tide tells the date: one semi-diurnal constituent, everywhere the same."""
    if not ALWAYS:
        lon, lat = numpy.arange(5) * 1.0, numpy.arange(5) * 1.0
        ALWAYS['py'] = core.tidal_model.CartesianComplex128(core.Axis(lon), core.Axis(lat))
        ALWAYS['direct'] = Direct(L.vf_grid(0, ptr(lon), 5, 1e-6, 0, ptr(lat), 5, 1, 1))
        z = numpy.full(25, 100 + 30j)
        for n in ('M2', 'K1'):
            ALWAYS['py'].add_constituent(n, z)
            ALWAYS['direct'].add(NAMES.index(n), z)
    return ALWAYS['py'], ALWAYS['direct']


def body_dates(r, c):
    py, direct = fixed_model()
    n = r.range(1, 12)
    dates, raw, unit = some_dates(r, n)
    epoch = numpy.array([int(v) for v in raw], dtype='float64') * UNITS[unit]
    if r.chance(.4):
        at = r.below(n)
        dates[at] = numpy.datetime64('NaT', unit)
        epoch[at] = numpy.nan
        c.count('dates.not-a-time')
    given = layout(r, dates)
    leap = numpy.array([r.leap() for _ in range(n)], dtype='uint16')
    lon, lat = r.array(n) * 4, r.array(n) * 4
    c.note('dates %s %s' % (unit, dates))
    # A date is known to a microsecond, or to the rounding of a double: the fastest constituent turns 2e-10 of its amplitude.
    f = r.below(3)
    got = core.evaluate_tide(py, given, leap, lon, lat, core.Settings(FORMULAE[f]), 1)
    want = direct.tide(epoch, leap, lon, lat, f)
    for i, k in enumerate(('tide', 'long period', 'quality')):
        c.check(same(got[i], want[i], 1e-6), 'dates-' + k.replace(' ', '-'), '%s: %s instead of %s' % (k, got[i], want[i]))
    nan = numpy.isnan(epoch)
    c.check(bool(numpy.isnan(got[0][nan]).all()), 'dates-not-a-time', 'an undefined date has the tide %s' % got[0][nan])
    names = some_names(r, 1, 4)
    t = core.WaveTable(names)
    m = len(t)
    z = (r.array(m) + 1j * r.array(m)) * 10
    tide, fm, vu = numpy.zeros(n), numpy.zeros((m, n), order='F'), numpy.zeros((m, n), order='F')
    asked(L.vf_series(strings(names), len(names), f, ptr(epoch), ptr(leap), n, ptr(a64(z.view('float64'))), ptr(tide), ptr(fm), ptr(vu)))
    c.check(same(t.tide_from_tide_series(given, leap, z, FORMULAE[f]), tide, 1e-6), 'dates-series', 'tide_from_tide_series')
    a, b = t.compute_nodal_modulations(given, leap, FORMULAE[f])
    c.check(same(a, fm, 1e-6), 'dates-modulations', 'f')
    c.check(same(numpy.exp(1j * b), numpy.exp(1j * vu), 1e-5), 'dates-modulations', 'vu')
    c.count('dates.converted', n)
    c.distinct(('dates', unit, f, n, bool(nan.any())))


def exact(call, want, c, key, what):
    """The call is refused, or answers exactly."""
    try:
        got = call()
    except (ValueError, TypeError, IndexError, OverflowError, RuntimeError):
        c.count('dates.refused')
        return
    c.check(want is not None and want(got), key, what + ' was accepted: %s' % str(got)[:300])


def body_refused(r, c):
    """Dates of another kind."""
    py, direct = fixed_model()
    n = r.range(1, 6)
    leap = numpy.full(n, 37, dtype='uint16')
    lon, lat = r.array(n) * 4, r.array(n) * 4
    v = numpy.array([r.range(10, 50) for _ in range(n)])
    kinds = {
        'Y': v.astype('M8[Y]'), 'M': (v * 12).astype('M8[M]'), 'W': (v * 52).astype('M8[W]'), '25s': (v * 1000000).astype('M8[25s]'), '10D': (v * 30).astype('M8[10D]'),
        'swapped': (v * 10 ** 7).astype('M8[s]').astype('>M8[s]'), '2 ms': (v * 10 ** 9).astype('M8[2ms]'),
        'integers': v, 'floats': v * 1.0, 'timedelta': v.astype('m8[s]'), 'objects': numpy.array([datetime.datetime(2000, 1, 1)] * n, dtype=object),
        'strings': numpy.array(['2000-01-01'] * n), 'generic': numpy.full(n, 'NaT', dtype='M8'), 'bool': v > 20,
        'records': numpy.zeros(n, dtype=[('a', 'M8[s]')]),
    }
    kind = r.pick(sorted(kinds))
    d = kinds[kind]
    want = None
    if d.dtype.kind == 'M' and kind != 'generic':
        epoch = d.astype('M8[s]').astype('int64').astype('float64')
        ref = direct.tide(epoch, leap, lon, lat)[0]
        want = lambda got: same(got[0], ref, 1e-6)  # noqa
    elif kind == 'generic':
        want = lambda got: bool(numpy.isnan(got[0]).all())  # noqa
    c.note('dates of kind %s: %s' % (kind, d))
    exact(lambda: core.evaluate_tide(py, d, leap, lon, lat), want, c, 'dates-kind', kind)
    t = core.WaveTable(['M2', 'S2'])
    exact(lambda: t.tide_from_tide_series(d, leap, numpy.ones(2, dtype='complex128')), (lambda got: got.shape == (n,)) if want else None, c, 'dates-kind', kind + ' (series)')
    exact(lambda: t.compute_nodal_modulations(d, leap), (lambda got: got[0].shape == (2, n)) if want else None, c, 'dates-kind', kind + ' (modulations)')
    # Of another shape, or of another size than the positions.
    s = (numpy.arange(n * 2) * 10 ** 6).astype('M8[s]')
    for what, bad in (('two dimensions', s.reshape(n, 2)), ('no dimension', numpy.array(s[0])), ('another size', s[:n + 1]), ('none', None), ('text', '2000-01-01')):
        exact(lambda: core.evaluate_tide(py, bad, leap, lon, lat), None, c, 'dates-shape', what)
    exact(lambda: core.evaluate_tide(py, s[:n].reshape(n, 1), leap, lon, lat), lambda got: same(got[0], direct.tide(s[:n].astype('int64') * 1.0, leap, lon, lat)[0], 1e-6), c, 'dates-shape', 'a column')
    c.distinct(('refused', kind))
    c.count('dates.kinds')


class Later(datetime.datetime):
    """A date of a derived class, as pandas has."""


def body_datetime(r, c):
    """datetime.datetime."""
    one = datetime.timedelta(microseconds=1)
    us = int(r.uniform(-2147483647, 2147483647) * 1e6)
    if r.chance(.3):
        us = r.pick([-2147483647, 2147483647, -1, 0, 1, 86399, -86400, 951782400, 951868799]) * 10 ** 6 + r.pick([0, 0, 1, 999999]) * (1 if r.chance(.5) else 0)
    us = max(-2147483647 * 10 ** 6, min(us, 2147483647 * 10 ** 6))
    d = datetime.datetime(1970, 1, 1) + datetime.timedelta(microseconds=us)
    if r.chance(.3):
        d = Later(d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond)
    if r.chance(.3):
        d = d.replace(fold=1)
    c.note('datetime %r' % d)
    c.check(core.datemanip.as_int64(d) == us and core.datemanip.as_int64(date=d) == us, 'datetime-int64', '%d instead of %d' % (core.datemanip.as_int64(d), us))
    x = core.datemanip.as_float64(d)
    c.check(abs(x - us * 1e-6) < 1e-6, 'datetime-float64', '%r instead of %r' % (x, us * 1e-6))
    f, leap = r.below(3), r.leap()
    a = core.AstronomicAngle(FORMULAE[f]) if r.chance(.7) else core.AstronomicAngle(formulae=FORMULAE[f])
    a.update(d, leap) if r.chance(.5) else a.update(leap_seconds=leap, date=d)
    c.check(same(angles_of(a), angles(f, us * 1e-6, leap), 1e-7), 'datetime-angles', '%s instead of %s' % (angles_of(a), list(angles(f, us * 1e-6, leap))))
    names = some_names(r, 1, 4)
    t = core.WaveTable(names)
    z = (r.array(len(t), 6) + 1j * r.array(len(t), 6)) * 10
    out = numpy.zeros(6 * len(t))
    asked(L.vf_mapping(strings(names), len(names), f, us * 1e-6, leap, ptr(a64(numpy.asfortranarray(z).T.copy().view('float64'))), len(t), 6, ptr(out), len(out)))
    got = t.tide_from_mapping(d, leap, z, FORMULAE[f], r.range(0, 3))
    c.check(same(numpy.asarray(got).ravel(order='F'), out, 1e-6), 'datetime-mapping', 'tide_from_mapping')
    # What is not such a date.
    zone = datetime.timezone(datetime.timedelta(hours=r.range(-12, 12)))
    for what, bad in (('a date', d.date()), ('a zone', d.replace(tzinfo=zone)), ('none', None), ('text', d.isoformat()), ('an integer', us), ('a time', d.time()),
                      ('a datetime64', numpy.datetime64(d)), ('a class', datetime.datetime), ('a duration', one)):
        for call in (core.datemanip.as_int64, core.datemanip.as_float64, lambda x: core.AstronomicAngle().update(x, 0), lambda x: t.tide_from_mapping(x, 0, z)):
            exact(lambda: call(bad), None, c, 'datetime-refused', what)
    far = r.pick([datetime.datetime(1, 1, 1), datetime.datetime(9999, 12, 31, 23, 59, 59, 999999), datetime.datetime(1901, 12, 13, 20, 45, 51), datetime.datetime(2038, 1, 19, 3, 14, 8)])
    exact(lambda: core.datemanip.as_int64(far), lambda got: got == (far - datetime.datetime(1970, 1, 1)) // one, c, 'datetime-range', repr(far))
    exact(lambda: core.datemanip.as_float64(far), lambda got: abs(got - (far - datetime.datetime(1970, 1, 1)) / (one * 10 ** 6)) < 1e-3, c, 'datetime-range', repr(far))
    c.count('dates.datetime')
    c.distinct(('datetime', d.year, f))


# --- C28: answers -----------------------------------------------------------

def body_tide(r, c):
    m = model(r)
    n = r.range(1, 30)
    dates, raw, unit = some_dates(r, n, r.pick(['s', 'ms', 'us', 'ns', 'h']), positive=True)
    if r.chance(.4):
        dates[:] = dates[0]
        raw[:] = raw[0]
    epoch = raw.astype('float64') * UNITS[unit]
    lon, lat = positions(r, m, n)
    leap = numpy.array([r.leap() for _ in range(n)], dtype='uint16')
    f = r.below(3)
    tolerance = r.pick([0.0, 0.0, 0.0, 3600.0])
    excluded = r.sample(range(75), r.range(0, 3)) if r.chance(.5) else []
    c.note('%s; %d positions; formulae %d tolerance %g excluded %s' % (m.text, n, f, tolerance, excluded))
    settings = r.pick([core.Settings, lambda *a: core.Settings(excluded=a[2], time_tolerance=a[1], astronomic_formulae=a[0]),
                       lambda a, b, e: pyfes.Settings(astronomic_formulae=a, time_tolerance=b, excluded=[NAMES[int(x)] for x in e])])(FORMULAE[f], tolerance, [IDENTS[i] for i in excluded])
    c.check(settings.astronomic_formulae == FORMULAE[f] and settings.time_tolerance == tolerance and list(settings.excluded) == [IDENTS[i] for i in excluded], 'settings', 'the settings are not the ones given')
    threads = 1 if tolerance else r.pick([0, 1, 2, 5])
    want = m.direct.tide(epoch, leap, lon, lat, f, tolerance, excluded, 1)
    args = [m.py, layout(r, dates), layout(r, leap), layout(r, lon), layout(r, lat)]
    how = r.below(5)
    if how == 0:
        got = core.evaluate_tide(*args, settings, threads)
    elif how == 1:
        got = core.evaluate_tide(latitude=args[4], longitude=args[3], leap_seconds=args[2], date=args[1], tidal_model=args[0], settings=settings, num_threads=threads)
    elif how == 2:
        got = core.evaluate_tide(args[0], args[1], [int(x) for x in leap], [float(x) for x in lon], list(lat), num_threads=threads, settings=settings)
    elif how == 3:
        want = m.direct.tide(epoch, leap, lon, lat)
        got = core.evaluate_tide(*args) if r.chance(.5) else core.evaluate_tide(*args, None, 2)
    else:
        # The package looks up the leap seconds.
        leap = numpy.asarray(pyfes.get_leap_seconds(dates)).astype('uint16')
        want = m.direct.tide(epoch, leap, lon, lat, f, tolerance, excluded, 1)
        got = pyfes.evaluate_tide(m.py, args[1], args[3], args[4], settings=settings, num_threads=threads)
    c.check(isinstance(got, tuple) and len(got) == 3 and all(isinstance(x, numpy.ndarray) and x.shape == (n,) for x in got), 'tide-form', 'the answer is %s' % (got,))
    scale = 1e-6 if tolerance == 0 else 1e-5
    for i, k in enumerate(('tide', 'long-period', 'quality')):
        c.check(same(got[i], want[i], scale), 'tide-' + k, '%s instead of %s' % (got[i], want[i]))
    c.count('tide.positions', n)
    c.count('tide.undefined', int((want[2] == 0).sum()))
    c.distinct(('tide', m.kind, m.single, m.type, how, f, bool(excluded), bool(m.dynamic), tuple(sorted(m.names))))
    # The answers are arrays of their own, for as long as they are held.
    keep = [numpy.array(x, copy=True) for x in got]
    del args, settings
    m.py.clear()
    c.check(len(m.py) == 0 and not m.py and list(m.py.identifiers()) == [] and list(m.py.dynamic) == [], 'cleared', 'the model still holds constituents')
    core.evaluate_tide(fixed_model()[0], dates, leap, lon * 0, lat * 0)
    c.check(all(same(a, b, 0) for a, b in zip(got, keep)), 'tide-kept', 'the answer changed')


def body_values(r, c):
    """Interpolation of the constituents."""
    m = model(r)
    n = r.range(1, 25)
    lon, lat = positions(r, m, n)
    c.note('%s; interpolation at %d positions' % (m.text, n))
    ids = sorted(m.waves)
    c.check(sorted(int(x) for x in m.py.identifiers()) == ids and len(m.py) == len(ids) and bool(m.py), 'model-identifiers', '%s' % (m.py.identifiers(),))
    c.check(m.py.tide_type == TYPES[m.type], 'model-type', '%s' % m.py.tide_type)
    c.check([int(x) for x in m.py.dynamic] == m.dynamic, 'model-dynamic', '%s instead of %s' % (m.py.dynamic, m.dynamic))
    if m.kind == 'grid':
        for axis, at in ((m.py.lon(), m.lon), (m.py.lat(), m.lat)):
            c.check(len(axis) == len(at) and same([axis[i] for i in range(len(at))], at), 'model-axis', '%s' % at)
    else:
        index = m.py.index()
        c.check(same(index.lon(), m.lon) and same(index.lat(), m.lat) and same(index.triangles(), m.triangles), 'model-index', 'the mesh is not the one given')
    how = r.below(3)
    args = (layout(r, lon), layout(r, lat))
    values, quality = m.py.interpolate(*args, r.range(0, 4)) if how == 0 else m.py.interpolate(lat=args[1], lon=args[0]) if how == 1 else m.py.interpolate(list(lon), list(lat), num_threads=3)
    want = [m.direct.values(x, y) for x, y in zip(lon, lat)]
    c.check(sorted(int(k) for k in values) == ids, 'values-keys', '%s instead of %s' % (list(values), ids))
    c.check(same(quality, [q for _, q in want]), 'values-quality', '%s instead of %s' % (quality, [q for _, q in want]))
    undefined = numpy.array([q == 0 for _, q in want])
    for k, v in values.items():
        w = numpy.array([x[int(k)] for x, _ in want])
        c.check(v.shape == (n,) and same(v[~undefined], w[~undefined]), 'values', '%s: %s instead of %s' % (k, v, w))
        c.check(bool(numpy.isnan(v[undefined].real).all()), 'values-undefined', '%s: %s where the model is undefined' % (k, v[undefined]))
    # Into a table of waves.
    table = r.pick([core.WaveTable, pyfes.WaveTable, pyfes.WaveDict])(r.pick([[], list(m.names) + some_names(r)]))
    for i in range(min(n, 4)):
        q = m.py.interpolate(float(lon[i]), float(lat[i]), table) if r.chance(.5) else m.py.interpolate(wave_table=table, lon=lon[i], lat=lat[i])
        c.check(q == QUALITY[want[i][1]], 'table-quality', '%s instead of %d' % (q, want[i][1]))
        for k, v in want[i][0].items():
            c.check(same(table[IDENTS[k]].tide, v), 'table-values', '%s: %s instead of %s' % (NAMES[k], table[IDENTS[k]].tide, v))
    # A table without a constituent of the model cannot hold its values.
    others = [x for x in NAMES if x not in m.names]
    small = core.WaveTable(some_names(r)[:1] if not others else [r.pick(others)])
    exact(lambda: m.py.interpolate(float(lon[0]), float(lat[0]), small), None if set(small.keys()) != set(m.names) else (lambda got: True), c, 'table-without', 'a table without the constituents')
    for bad in (lambda: m.py.interpolate(lon, lat[:-1]), lambda: m.py.add_constituent('M2', numpy.zeros(m.size + 1, dtype='complex64')), lambda: m.py.add_constituent('nothing', numpy.zeros(m.size, dtype='complex128')),
                lambda: m.py.add_constituent('M2', numpy.zeros((m.size, 2), dtype='complex128')),
                lambda: core.evaluate_tide(m.py, numpy.zeros(n, 'M8[s]'), numpy.zeros(n, 'uint16'), lon, numpy.zeros(n + 1))):
        exact(bad, None, c, 'refused', 'values of another size, or an unknown constituent')
    c.check(sorted(int(x) for x in m.py.identifiers()) == ids, 'refused-changed', 'a refused constituent is in the model')
    c.count('values.positions', n)
    c.distinct(('values', m.kind, m.single, m.type, how, tuple(sorted(m.names))))


def body_table(r, c):
    """Waves, tables of waves, analysis."""
    names = some_names(r, 1, 20) if r.chance(.8) else []
    cls = r.pick([core.WaveTable, pyfes.WaveTable, pyfes.WaveDict])
    t = cls(names) if r.chance(.5) else cls(waves=names)
    f, leap, us = r.below(3), r.leap(), int(r.uniform(-2e9, 2e9) * 1e6)
    d = datetime.datetime(1970, 1, 1) + datetime.timedelta(microseconds=us)
    ids, want = table_of(names, f, us * 1e-6, leap)
    c.note('%s of %d constituents, %s' % (cls.__name__, len(ids), d))
    keys = [NAMES[i] for i in ids]
    c.check(list(t.keys()) == keys and len(t) == len(keys), 'table-keys', '%s instead of %s' % (t.keys(), keys))
    a = core.AstronomicAngle(FORMULAE[f])
    a.update(d, leap)
    t.compute_nodal_corrections(a) if r.chance(.5) else t.compute_nodal_corrections(angles=a)
    if r.chance(.3):
        for w in t:
            w.nodal_a(a)
            w.nodal_g(a=a)
    how = r.below(4)
    waves = list(t) if how == 0 else t.values() if how == 1 else [t[IDENTS[i]] for i in ids] if how == 2 else [t.find(r.pick([k, k.upper(), k.lower()])) for k in keys]
    c.check(len(waves) == len(keys), 'table-waves', '%d waves' % len(waves))
    for w, i, v in zip(waves, ids, want):
        got = [w.f, w.u, w.v(), w.vu(), w.freq, w.period()]
        ok = w.ident == IDENTS[i] and w.name() == NAMES[i] and same(got[:1] + got[4:], [v[0], v[4], v[5]], 1e-7)
        ok = ok and same(numpy.exp(1j * numpy.array(got[1:4])), numpy.exp(1j * v[1:4]), 1e-5)
        c.check(ok, 'wave', '%s: %s instead of %s' % (NAMES[i], got, list(v)))
        n = w.doodson_number()
        c.check(isinstance(n, str) and len(n) >= 6, 'wave-doodson', '%s: %r' % (NAMES[i], n))
        c.check((w.type == core.Wave.TidalType.kLongPeriod) == (n[0] == '0') and isinstance(w.type, core.Wave.TidalType), 'wave-type', '%s: %s' % (NAMES[i], w.type))
        # What is written in one is read through the table.
        z, b = complex(r.uniform(-9, 9), r.uniform(-9, 9)), r.chance(.5)
        w.tide, w.dynamic, w.admittance = z, b, not b
        x = t[IDENTS[i]]
        c.check(x.tide == z and x.dynamic is b and x.admittance is (not b) and t.find(NAMES[i]).tide == z, 'wave-written', '%s: %s' % (NAMES[i], x.tide))
    absent = [i for i in range(75) if i not in ids]
    if absent:
        i = r.pick(absent)
        c.check(t.find(NAMES[i]) is None, 'table-absent', '%s was found' % NAMES[i])
        exact(lambda: t[IDENTS[i]], lambda got: got is None, c, 'table-absent', NAMES[i])
    exact(lambda: t.find('nothing'), lambda got: got is None, c, 'table-unknown', 'an unknown constituent')
    exact(lambda: cls(['nothing']), None, c, 'table-unknown', 'an unknown constituent')
    # Series, modulations, and their analysis.
    m = r.range(2 * len(ids) + 3, 2 * len(ids) + 40)
    step = r.pick([3600, 7200, 1800])
    raw = r.range(10 ** 8, 10 ** 9) + numpy.arange(m) * step
    dates = raw.astype('M8[s]')
    leaps = numpy.full(m, 33, dtype='uint16')
    z = (r.array(len(ids)) - .5 + 1j * (r.array(len(ids)) - .5)) * 100
    tide, fm, vu = numpy.zeros(m), numpy.zeros((len(ids), m), order='F'), numpy.zeros((len(ids), m), order='F')
    epoch = a64(raw)
    asked(L.vf_series(strings(names), len(names), f, ptr(epoch), ptr(leaps), m, ptr(a64(z.view('float64'))), ptr(tide), ptr(fm), ptr(vu)))
    given = z if cls is not pyfes.WaveDict else {k: x for k, x in r.shuffle(list(zip(keys, z)))}
    got = t.tide_from_tide_series(layout(r, dates), layout(r, leaps), given, FORMULAE[f])
    c.check(same(got, tide, 1e-7), 'series', '%s instead of %s' % (got[:4], tide[:4]))
    a1, a2 = t.compute_nodal_modulations(layout(r, dates), layout(r, leaps), FORMULAE[f])
    c.check(same(a1, fm, 1e-8) and same(numpy.exp(1j * a2), numpy.exp(1j * vu), 1e-6), 'modulations', 'compute_nodal_modulations')
    if cls is not core.WaveTable:
        b1, b2 = t.compute_nodal_modulations([datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=int(x)) for x in raw], leaps, FORMULAE[f])
        c.check(same(b1, a1, 1e-9) and same(b2, a2, 1e-7), 'modulations-list', 'a list of dates')
        freq = t.freq()
        freq = [freq[k] for k in keys] if isinstance(freq, dict) else freq
        c.check(same(numpy.array(freq) * 1e6, want[:, 4] * 1e6), 'freq', 'freq')
    x = numpy.zeros(2 * len(ids))
    asked(L.vf_analysis(ptr(a64(tide)), m, ptr(fm), ptr(vu), len(ids), ptr(x)))
    lay = r.pick([lambda y: y, numpy.ascontiguousarray, lambda y: numpy.repeat(y, 2, axis=1)[:, ::2], lambda y: numpy.repeat(y, 3, axis=0)[::3]])
    got = t.harmonic_analysis(layout(r, tide), lay(fm), lay(vu))
    got = numpy.array([got[k] for k in keys]) if isinstance(got, dict) else got
    ref = x.view('complex128')
    # Both solve the same normal equations.
    cond = numpy.linalg.cond(numpy.vstack([fm * numpy.cos(vu), fm * numpy.sin(vu)]))
    if cond < 1e4:
        c.check(same(got, ref, 1e-5), 'analysis', '%s instead of %s' % (got[:3], ref[:3]))
        c.count('table.analyses')
    for bad in (lambda: t.tide_from_tide_series(dates, leaps[:-1], given), lambda: t.tide_from_tide_series(dates, leaps, (z if isinstance(given, numpy.ndarray) else given) if False else numpy.ones(len(ids) + 1, 'complex128')),
                lambda: t.compute_nodal_modulations(dates[:-1], leaps), lambda: core.WaveTable.harmonic_analysis(tide[:-1], fm, vu), lambda: core.WaveTable.harmonic_analysis(tide, fm, vu[:, :-1])):
        try:
            bad()
        except (ValueError, TypeError, IndexError, AttributeError, KeyError):
            pass
        else:
            c.check(False, 'sizes', 'arrays of different sizes were accepted')
    # On a map, whatever its layout.
    rows, cols = len(ids), r.range(1, 7)
    z = (r.array(rows, cols) + 1j * r.array(rows, cols)) * 10
    out = numpy.zeros(rows * cols)
    asked(L.vf_mapping(strings(names), len(names), f, us * 1e-6, leap, ptr(a64(z.T.copy().view('float64'))), rows, cols, ptr(out), len(out)))
    base = core.WaveTable(names)
    lay = r.pick([lambda y: y, numpy.asfortranarray, lambda y: numpy.repeat(y, 2, axis=1)[:, ::2], lambda y: y[::-1].copy()[::-1]])
    got = base.tide_from_mapping(d, leap, lay(z), FORMULAE[f], r.range(0, 3)) if r.chance(.5) else base.tide_from_mapping(mapping=lay(z), date=d, leap_seconds=leap, formulae=FORMULAE[f])
    c.check(same(numpy.asarray(got).ravel(order='F'), out, 1e-6), 'mapping', 'tide_from_mapping')
    # Selection for an analysis.
    duration, factor = r.uniform(86400, 4e8), r.pick([2.0, 1.0, 5.5])
    text = C.create_string_buffer(4000)
    L.vf_select(duration, factor, text, 4000)
    got = core.WaveTable.select_waves_for_analysis(duration, factor) if factor != 2.0 else core.WaveTable.select_waves_for_analysis(duration)
    c.check(list(got) == [x for x in text.value.decode().split(',') if x], 'selection', '%s instead of %s' % (got, text.value))
    c.count('table.waves', len(ids))
    c.distinct(('table', cls.__name__, f, how, tuple(ids)))


def body_load(r, c):
    """A configuration: the tide is the one of its files, read by hand."""
    import os
    import yaml
    ph.FILES.clear()
    work = os.path.join(H.scratch, 'load')
    os.makedirs(work, exist_ok=True)
    cfg, models = {}, {}
    for key in r.pick([['tide'], ['radial'], ['tide', 'radial']]):
        kind = r.pick(['cartesian', 'cartesian', 'lgp1', 'lgp2'])
        single = r.chance(.5)
        dtype = 'float32' if single else 'float64'
        names = some_names(r, 1, 5)
        degrees = r.chance(.6)
        dynamic = some_names(r, 1, 3) if r.chance(.4) else []
        m = Case()
        m.kind = 'grid' if kind == 'cartesian' else kind

        def field(n):
            amp = (r.array(n) * 100).astype(dtype)
            pha = ((r.array(n) - .5) * (360 if degrees else 2 * math.pi)).astype(dtype)
            mask = r.array(n) < (r.pick([0, .1]) if kind == 'cartesian' else 0)
            rad = numpy.radians(pha.astype('float64')) if degrees else pha.astype('float64')
            z = amp.astype('float64') * numpy.exp(1j * rad)
            z[mask] = numpy.nan
            return numpy.ma.array(amp, mask=mask), numpy.ma.array(pha, mask=mask), z
        unit = r.pick(['degrees', 'deg', 'Degree']) if degrees else 'radians'
        base = os.path.join(work, '%s_%d_' % (key, c.index))
        if kind == 'cartesian':
            nx, ny = r.range(4, 8), r.range(3, 8)
            nx = ny if r.chance(.3) else nx
            lon, lat = numpy.arange(nx) * (360 / nx) - r.pick([0, 180]), numpy.arange(ny) * 2.0 - 6
            major = r.chance(.5)   # longitude first?
            m.direct = Direct(L.vf_grid(single, ptr(a64(lon)), nx, 1e-6, 1, ptr(a64(lat)), ny, 1 + (key == 'radial'), 1))
            paths = {}
            for n in names:
                amp, pha, z = field(nx * ny)
                m.direct.add(NAMES.index(n), z)
                shape = (lambda x: x.reshape(nx, ny)) if major else (lambda x: x.reshape(nx, ny).T)
                dims = ('lon', 'lat') if major else ('lat', 'lon')
                paths[n] = base + n + '.nc'
                open(paths[n], 'w').close()
                coords = r.pick(['float64', 'float32']) if nx == 4 or nx == 8 else 'float64'
                ph.FILES[paths[n]] = {'lon': ph.Variable(lon.astype(coords), ('lon',)), 'lat': ph.Variable(lat.astype(coords), ('lat',)),
                                      'amplitude': ph.Variable(shape(amp), dims), 'phase': ph.Variable(shape(pha), dims, units=unit)}
            cfg[key] = {'cartesian': {'paths': paths}}
            m.lon, m.lat = lon, lat
        else:
            nx, ny = r.range(3, 6), r.range(3, 5)
            gx, gy = numpy.meshgrid(10 + numpy.arange(nx) * .5, 20 + numpy.arange(ny) * .5)
            lon, lat = gx.ravel(), gy.ravel()
            t = []
            for j in range(ny - 1):
                for i in range(nx - 1):
                    a = j * nx + i
                    t += [(a, a + 1, a + nx), (a + 1, a + nx + 1, a + nx)]
            t = i32(t)
            width = 3 if kind == 'lgp1' else 6
            codes = i32(numpy.arange(len(t) * width).reshape(len(t), width))
            distance = r.pick([0.0, 200e3])
            m.direct = Direct(L.vf_mesh(single, width // 3, ptr(lon), ptr(lat), len(lon), ptr(t), ptr(codes), len(t), 1 + (key == 'radial'), distance))
            path = base + 'mesh.nc'
            ints = r.pick(['int32', 'int64'])
            ph.FILES[path] = {'lon': ph.Variable(lon, ('n',)), 'lat': ph.Variable(lat, ('n',)), 'triangle': ph.Variable(t.astype(ints), ('t', 'three')), 'codes': ph.Variable(codes.astype(ints), ('t', 'c'))}
            for n in names:
                amp, pha, z = field(len(t) * width)
                m.direct.add(NAMES.index(n), z)
                ph.FILES[path].update({n + '_amplitude': ph.Variable(amp, ('v',)), n + '_phase': ph.Variable(pha, ('v',), units=unit)})
            cfg[key] = {'lgp': {'path': path, 'constituents': names, 'type': kind, 'max_distance': distance}}
            m.lon, m.lat = lon, lat
        if dynamic:
            list(cfg[key].values())[0]['dynamic'] = dynamic
            m.direct.dynamic([NAMES.index(n) for n in dynamic])
        m.names, m.key, m.single = names, key, single
        models[key] = m
    path = os.path.join(work, 'c%d.yaml' % c.index)
    with open(path, 'w') as f:
        yaml.safe_dump(cfg, f)
    c.note('configuration %s' % cfg)
    loaded = pyfes.load_config(path)
    c.check(sorted(loaded) == sorted(models), 'load-keys', '%s' % sorted(loaded))
    for key, m in models.items():
        n = r.range(4, 20)
        lon, lat = positions(r, m, n)
        dates, raw, unit = some_dates(r, n, 's', positive=True)
        leap = numpy.asarray(pyfes.get_leap_seconds(dates)).astype('uint16')
        want = m.direct.tide(raw.astype('float64'), leap, lon, lat)
        got = pyfes.evaluate_tide(loaded[key], dates, lon, lat, num_threads=r.range(0, 2))
        tolerance = 1e-3 if m.single else 1e-6   # centimetres
        for i, k in enumerate(('tide', 'long-period', 'quality')):
            c.check(same(got[i], want[i], tolerance), 'load-' + k, '%s: %s instead of %s' % (key, got[i], want[i]))
        c.check(loaded[key].tide_type == TYPES[key == 'radial'] and ('64' in type(loaded[key]).__name__) == m.single, 'load-type', '%s %s' % (type(loaded[key]), loaded[key].tide_type))
        c.count('load.positions', n)
        c.distinct(('load', key, m.kind, m.single, tuple(m.names)))


def body_small(r, c):
    """Angles, axes, constituents, long period equilibrium, admittance."""
    i = r.below(75)
    name = NAMES[i]
    c.check(core.constituents.name(IDENTS[i]) == name and L.vf_name(i).decode() == name, 'constituent-name', '%s: %s' % (name, core.constituents.name(IDENTS[i])))
    c.check(core.constituents.parse(ph_case(r, name)) == IDENTS[i] and int(IDENTS[i]) == i and core.Constituent(i) == IDENTS[i] and getattr(core, 'k' + name) == IDENTS[i], 'constituent-parse', name)
    c.check(list(core.constituents.known()) == NAMES, 'constituent-known', '%s' % core.constituents.known())
    exact(lambda: core.constituents.parse(name + 'x'), None if name + 'x' not in NAMES else (lambda got: True), c, 'constituent-unknown', name + 'x')
    c.check([int(q) for q in QUALITY] == [0, 1, 2, 3, 4] and len(set(QUALITY)) == 5, 'quality', '%s' % QUALITY)
    # The values which the documentation gives, where it does, are those observed.
    documented = dict(re.findall(r'^ +(\d+) {3,}(The tide is .*?)$', pyfes.evaluate_tide.__doc__ or '', re.M))
    py, _ = fixed_model()
    seen = core.evaluate_tide(py, numpy.zeros(2, 'M8[s]'), numpy.zeros(2, 'uint16'), numpy.array([1.5, 77.0]), numpy.array([1.5, 77.0]))[2]
    for q, word in zip(seen, ('correctly', 'undefined')):
        c.check(word in documented.get(str(q), word), 'quality-documented', 'the quality %d is documented as: %s' % (q, documented.get(str(q))))
    for cls in (core.Settings, pyfes.Settings):
        s = cls()
        c.check(s.astronomic_formulae == core.Formulae.kSchuremanOrder1 and s.time_tolerance == 0 and list(s.excluded) == [], 'settings-default', '%s: %s %s %s' % (cls, s.astronomic_formulae, s.time_tolerance, s.excluded))
    # Angles, with the leap seconds of the date, through the package.
    f, us = r.below(3), int(r.uniform(63072001, 2.1e9) * 1e6)
    d = datetime.datetime(1970, 1, 1) + datetime.timedelta(microseconds=us)
    a = pyfes.AstronomicAngle(FORMULAE[f])
    a.update(d)
    leap = int(pyfes.get_leap_seconds(d)[0])
    c.note('%s; angles at %s' % (name, d))
    c.check(same(angles_of(a), angles(f, us * 1e-6, leap), 1e-7) and a.date == d, 'angles', '%s instead of %s' % (angles_of(a), list(angles(f, us * 1e-6, leap))))
    for make in (core.AstronomicAngle, pyfes.AstronomicAngle):
        b = make()
        b.update(d, leap) if make is core.AstronomicAngle else b.update(d)
        c.check(same(angles_of(b), angles(0, us * 1e-6, leap), 1e-7), 'angles-default', 'the formulae are not the default ones')
    b = core.AstronomicAngle(FORMULAE[f])
    for count in (-1, -37, 65536, 40000, 65535):
        exact(lambda: (b.update(d, count), angles_of(b))[1], (lambda got: same(got, angles(f, us * 1e-6, count), 1e-7)) if 0 <= count < 65536 else None, c, 'angles-leap-seconds', '%d leap seconds' % count)
    # Long period equilibrium tide.
    dynamic = r.sample(range(75), r.range(0, 6))
    t = core.WaveTable([NAMES[k] for k in range(75)] if r.chance(.5) else [])
    for k in dynamic:
        t[IDENTS[k]].dynamic = True
    lpe = core.LongPeriodEquilibrium()
    lpe.disable_dynamic_wave(t) if r.chance(.5) else lpe.disable_dynamic_wave(wave_table=t)
    lat = r.uniform(-90, 90)
    want = L.vf_lpe(f, us * 1e-6, leap, lat, ptr(i32(dynamic + [0])), len(dynamic))
    got = lpe.lpe_minus_n_waves(a, lat) if r.chance(.5) else lpe.lpe_minus_n_waves(lat=lat, angles=a)
    c.check(same(got, want, 1e-6), 'equilibrium', '%g instead of %g' % (got, want))
    # Admittance.
    given = sorted(set([NAMES.index(x) for x in ('O1', 'Q1', 'K1', '2N2', 'N2', 'M2', 'K2')]) | set(r.sample(range(75), r.range(0, 10))))
    z = (r.array(len(given)) - .5 + 1j * (r.array(len(given)) - .5)) * 100
    t = r.pick([core.WaveTable, pyfes.WaveTable])()
    for k, x in zip(given, z):
        w = t[IDENTS[k]]
        w.dynamic, w.admittance, w.tide = True, False, x
    t.admittance()
    out = numpy.zeros(150)
    asked(L.vf_admittance(ptr(i32(given)), ptr(a64(z.view('float64'))), len(given), ptr(out)))
    got = numpy.array([t[k].tide for k in IDENTS])
    c.check(same(got, out.view('complex128')), 'admittance', 'the amplitudes inferred differ')
    # Axes.
    n = r.range(2, 12)
    circular = r.chance(.5)
    points = (numpy.arange(n) * (360.0 / n) + r.range(-360, 360)) if circular else r.uniform(-90, 40) + numpy.arange(n) * .25
    if r.chance(.4):
        points = points[::-1].copy()
    at = a64([r.uniform(points.min() - 2, points.max() + 2) for _ in range(6)] + [points[0], points[-1]])
    bounded = r.chance(.5)
    head, found = numpy.zeros(8), numpy.zeros(24, dtype='int64')
    asked(L.vf_axis(ptr(a64(points)), n, 1e-6, circular, ptr(at), 8, bounded, ptr(head), ptr(found)))
    ax = core.Axis(layout(r, points), 1e-6, circular) if r.chance(.5) else core.Axis(points=list(points), is_circular=circular)
    got = [ax.start, ax.step, ax.end(), ax.min_value(), ax.max_value(), len(ax), ax.is_ascending, ax.is_circular]
    c.check(same(got, head), 'axis', '%s instead of %s' % (got, list(head)))
    for k, x in enumerate(at):
        pair = ax.find_indices(x)
        got = [ax.find_index(x, bounded) if r.chance(.5) else ax.find_index(value=float(x), bounded=bounded)] + (list(pair) if pair is not None else [-9, -9])
        c.check(got == list(found[3 * k:3 * k + 3]), 'axis-index', '%g: %s instead of %s' % (x, got, found[3 * k:3 * k + 3]))
        if bounded:
            c.check(ax.find_index(x) == found[3 * k], 'axis-bounded', '%g: %s instead of %s without a choice of bounds' % (x, ax.find_index(x), found[3 * k]))
    other = core.Axis(points + (0 if r.chance(.5) else .01), is_circular=circular)
    c.check((ax == other) == (other[0] == points[0]) and same([ax[k] for k in range(n)], points), 'axis-points', 'points of the axis')
    for k in (n, -1, n + 10 ** 9):
        exact(lambda: ax[k], lambda got: k == -1 and got == points[-1], c, 'axis-range', 'the point %d of %d' % (k, n))
    # A circle that does not close exactly, by more or less than the tolerance.
    gap, eps = r.pick([0, 3e-7, -3e-7, 3e-6, 3e-4]), r.pick([None, 1e-6, 1e-5, 1e-3, 1e-8])
    points = numpy.arange(n) * ((360.0 + gap) / n)
    asked(L.vf_axis(ptr(a64(points)), n, eps or 1e-6, True, ptr(at), 8, bounded, ptr(head), ptr(found)))
    ax = core.Axis(points, is_circular=True) if eps is None else r.pick([lambda: core.Axis(points, eps, True), lambda: core.Axis(is_circular=True, points=points, epsilon=eps)])()
    c.check(ax.is_circular == bool(head[7]), 'axis-epsilon', 'a circle of %r with a tolerance of %s' % (360 + gap, eps))
    c.check(core.Axis(points).is_circular is False, 'axis-default', 'an axis is a circle by default')
    # The distance at which a mesh is extrapolated.
    lon, lat, t = a64([10, 10.5, 10]), a64([40, 40, 40.5]), i32([[0, 1, 2]])
    x, y = 10 - r.uniform(.01, 3), 40 - r.uniform(.01, 3)

    def at_distance(d):
        m = Direct(L.vf_mesh(1, 1, ptr(lon), ptr(lat), 3, ptr(t), ptr(t), 1, 1, d))
        m.add(0, numpy.ones(3))
        return m.values(x, y)[1] != 0
    lo, hi = 0.0, 2e6
    for _ in range(45):
        mid = (lo + hi) / 2
        lo, hi = (lo, mid) if at_distance(mid) else (mid, hi)
    index = core.mesh.Index(lon, lat, t)
    for d in (hi * (1 - 1e-9), hi * (1 + 1e-9)):
        cls = getattr(core.tidal_model, r.pick(['LGP1Complex64', 'LGP1Complex128']))
        m = r.pick([lambda: cls(index, t, core.kTide, d), lambda: cls(index, t, max_distance=d)])()
        m.add_constituent('Mm', numpy.ones(3))
        c.check((int(m.interpolate([x], [y])[1][0]) != 0) == (d > hi), 'distance', 'a limit of %r for a position at %r' % (d, hi))
    c.count('small.questions', 30)
    c.distinct(('small', i, f, circular, bounded, n))


def ph_case(r, name):
    return ''.join(ch.upper() if r.chance(.5) else ch.lower() for ch in name)


# --- C29: objects -----------------------------------------------------------

def churn(r):
    """Allocates and frees."""
    gc.collect()
    x = [numpy.ones(r.range(1, 2000)) for _ in range(50)]
    y = [core.WaveTable(some_names(r)) for _ in range(3)]
    del x, y
    gc.collect()


def body_pickle(r, c):
    m = model(r)
    n = r.range(1, 15)
    lon, lat = positions(r, m, n)
    dates, raw, unit = some_dates(r, n, 's', positive=True)
    leap = numpy.full(n, 30, dtype='uint16')
    want = m.direct.tide(raw.astype('float64'), leap, lon, lat)
    how = r.below(5)
    c.note('%s; copied in the way %d' % (m.text, how))
    other = copy.deepcopy(m.py) if how == 0 else copy.copy(m.py) if how == 1 else pickle.loads(pickle.dumps(m.py, protocol=r.range(2, 5)))
    c.check(type(other) is m.cls and other is not m.py, 'copy-type', '%s' % type(other))
    if r.chance(.5):
        m.py.clear()
    m.py = None
    churn(r)
    got = core.evaluate_tide(other, dates, leap, lon, lat)
    for i, k in enumerate(('tide', 'long-period', 'quality')):
        c.check(same(got[i], want[i], 1e-7), 'copy-' + k, '%s instead of %s' % (got[i], want[i]))
    c.check([int(x) for x in other.dynamic] == m.dynamic and other.tide_type == TYPES[m.type] and sorted(int(x) for x in other.identifiers()) == sorted(m.waves), 'copy-properties', 'dynamic %s' % other.dynamic)
    c.count('objects.copies')
    # A state that is not one.
    state = pickle.dumps(other, 4)
    raw_state = other.__reduce_ex__(4)
    payload = other.__getstate__()
    c.check(isinstance(payload, bytes), 'copy-state', '%s' % type(payload))
    fresh = m.cls.__new__(m.cls)
    cut = payload[:r.below(len(payload))]
    exact(lambda: fresh.__setstate__(cut), None, c, 'state-truncated', 'a truncated state') if r.chance(.5) else None
    del state, raw_state
    for bad in (None, 3, 'text', (), [1], bytearray(b'x'), b''):
        fresh = m.cls.__new__(m.cls)
        exact(lambda: fresh.__setstate__(bad), None, c, 'state-wrong', repr(bad))
    c.distinct(('pickle', m.kind, m.single, how, tuple(sorted(m.names))))


def body_life(r, c):
    """Objects outlive the ones they come from."""
    which = r.below(8)
    c.note('lifetime %d' % which)
    c.distinct(('life', which, r.below(1 << 20)))
    if which == 0:
        t = r.pick([core.WaveTable, pyfes.WaveTable, pyfes.WaveDict])(some_names(r))
        waves = r.pick([lambda: list(t), lambda: t.values(), lambda: [t.find(k) for k in t.keys()], lambda: [t[w.ident] for w in t]])()
        names = t.keys()
        want = [(w.freq, w.name()) for w in waves]
        del t
        churn(r)
        c.check([w.name() for w in waves] == list(names) and [(w.freq, w.name()) for w in waves] == want, 'life-waves', 'the waves of a table that is no more')
        for w in waves:
            w.tide = 3 + 4j
            c.check(w.tide == 3 + 4j, 'life-waves', w.name())
    elif which == 1:
        names = some_names(r, 2)
        t = core.WaveTable(names)
        it = iter(t)
        first = next(it)
        keys = t.keys()
        del t
        churn(r)
        c.check([first.name()] + [w.name() for w in it] == list(keys), 'life-iterator', 'the iterator of a table that is no more')
    elif which == 2:
        m = model(r)
        parts = [m.py.lon(), m.py.lat()] if m.kind == 'grid' else [m.py.index()]
        m.py = m.index = m.args = None
        churn(r)
        if m.kind == 'grid':
            c.check(same([parts[0][i] for i in range(len(m.lon))], m.lon) and same([parts[1][i] for i in range(len(m.lat))], m.lat), 'life-axis', 'the axes of a model that is no more')
        else:
            x = [parts[0].lon(), parts[0].lat(), parts[0].triangles()]
            del parts
            churn(r)
            c.check(same(x[0], m.lon) and same(x[1], m.lat) and same(x[2], m.triangles), 'life-index', 'the mesh of a model that is no more')
    elif which == 3:
        m = model(r)
        a, b = r.sample(range(75), r.range(1, 9)), r.sample(range(75), r.range(1, 30))
        m.py.dynamic = [IDENTS[i] for i in a]
        before = m.py.dynamic
        m.py.dynamic = [IDENTS[i] for i in b]
        churn(r)
        c.check([int(x) for x in before] == a and [int(x) for x in m.py.dynamic] == b, 'life-dynamic', '%s instead of %s' % ([int(x) for x in before], a))
        after = m.py.dynamic
        m.py.clear() if r.chance(.5) else None
        m.py = None
        churn(r)
        c.check([int(x) for x in after] == b, 'life-dynamic', '%s instead of %s' % ([int(x) for x in after], b))
    elif which == 4:
        a = r.sample(range(75), r.range(1, 9))
        s = core.Settings(excluded=[IDENTS[i] for i in a])
        x, f = s.excluded, s.astronomic_formulae
        del s
        churn(r)
        c.check([int(k) for k in x] == a and f == core.Formulae.kSchuremanOrder1, 'life-excluded', '%s instead of %s' % ([int(k) for k in x], a))
    elif which == 5:
        # What was given may change or disappear, before or after.
        points = numpy.arange(6) * 1.0
        ax = core.Axis(points)
        points[:] = 0
        del points
        churn(r)
        c.check(same([ax[i] for i in range(6)], numpy.arange(6.0)) and ax.find_index(3.2) == 3, 'life-points', 'the points of the axis changed')
        x, y, t = numpy.array([0., 1, 0]), numpy.array([0., 0, 1]), numpy.array([[0, 1, 2]], dtype='int32')
        i = core.mesh.Index(x, y, t)
        codes = numpy.array([[0, 1, 2]], dtype='int32')
        m = core.tidal_model.LGP1Complex128(i, codes)
        x[:], y[:], t[:], codes[:] = 50, 50, 0, 1000
        del x, y, t, codes
        m.add_constituent('M2', numpy.full(3, 1 + 2j))
        churn(r)
        v, q = m.interpolate([.2], [.2])
        c.check(same(v[core.kM2], [1 + 2j]) and q[0] == 4, 'life-mesh', 'the mesh changed: %s %s' % (v, q))
        i.lon()[...] = 99 if i.lon().flags.writeable else None
        v, q = m.interpolate([.2], [.2])
        c.count('objects.meshes')
    elif which == 6:
        m = model(r)
        acc = [m.py.accelerator(FORMULAE[r.below(3)], 1.5), m.py.accelerator(), m.py.accelerator(time_tolerance=3.0, formulae=FORMULAE[1])]
        m.py = m.index = m.args = None
        churn(r)
        c.check(all(isinstance(a, core.Accelerator) for a in acc), 'life-accelerator', '%s' % acc)
        del acc
        churn(r)
    else:
        # Derived classes, attributes, cycles.
        class Mine(core.WaveTable):
            pass
        t = Mine(some_names(r))
        t.me = t
        gone = weakref.ref(t)
        c.check(isinstance(t, core.WaveTable) and len(list(t)) == len(t), 'life-derived', '%d' % len(t))
        keep = t.values()
        del t
        gc.collect()
        c.check(gone() is None, 'life-cycle', 'a table is never released')
        churn(r)
        c.check(all(w.freq >= 0 and w.period() > 0 for w in keep), 'life-derived', 'the waves of a table that is no more')
    c.count('objects.lifetimes')


def body_threads(r, c):
    """Calls of several Python threads at once."""
    m = model(r)
    n = r.range(5, 60)
    lon, lat = positions(r, m, n)
    dates, raw, unit = some_dates(r, n, 's', positive=True)
    leap = numpy.full(n, 30, dtype='uint16')
    want = m.direct.tide(raw.astype('float64'), leap, lon, lat)
    names = some_names(r)
    t = core.WaveTable(names)
    z = numpy.ones(len(t), dtype='complex128')
    series = t.tide_from_tide_series(dates, leap, z)
    values, quality = m.py.interpolate(lon, lat, 1)
    index = getattr(m, 'index', None) or None
    wrong, k = [], r.range(2, 5)
    start = threading.Barrier(k)

    def work(seed):
        q = ph.Rng(seed)
        start.wait()
        for _ in range(4):
            which = q.below(6)
            try:
                if which == 0:
                    got = core.evaluate_tide(m.py, dates, leap, lon, lat, None, q.range(0, 3))
                    ok = all(same(a, b, 1e-7) for a, b in zip(got, want))
                elif which == 1:
                    ok = same(t.tide_from_tide_series(dates, leap, z), series, 0)
                elif which == 2:
                    v, s = m.py.interpolate(lon, lat, q.range(0, 3))
                    ok = same(s, quality, 0) and all(same(v[x], values[x], 0) for x in values)
                elif which == 3:
                    other = pickle.loads(pickle.dumps(m.py))
                    ok = all(same(a, b, 1e-7) for a, b in zip(core.evaluate_tide(other, dates, leap, lon, lat, None, 1), want))
                elif which == 4:
                    own = core.WaveTable(names)
                    ok = same(own.tide_from_tide_series(dates, leap, z), series, 0)
                    a, b = own.compute_nodal_modulations(dates, leap)
                    own.harmonic_analysis(series, a, b)
                    own.tide_from_mapping(datetime.datetime(2001, 1, 1), 3, numpy.ones((len(own), 4), 'complex128'))
                else:
                    q2 = m.py.interpolate(float(lon[0]), float(lat[0]), core.WaveTable())
                    ok = int(q2) == int(quality[0])
                    if index is not None:
                        core.mesh.Index(m.lon, m.lat, m.triangles)
                if not ok:
                    wrong.append(which)
            except Exception as e:  # noqa
                wrong.append('%d %s' % (which, e))
    workers = [threading.Thread(target=work, args=(r.u64(),)) for _ in range(k)]
    c.note('%s; %d Python threads' % (m.text, k))
    for w in workers:
        w.start()
    for w in workers:
        w.join()
    c.check(not wrong, 'threads', 'calls which differ from the ones made alone: %s' % wrong[:5])
    c.count('objects.concurrent-calls', 4 * k)
    c.distinct(('threads', m.kind, k, n))


ODD = [None, True, 0, -1, 3, 10 ** 30, 2.5, float('nan'), float('inf'), 'M2', b'M2', '', [], [1], [None], (), {}, {'a': 1}, object(), int, numpy.zeros(0), numpy.zeros(3), numpy.zeros((2, 2)),
       numpy.zeros(3, 'complex64'), numpy.array(1.5), numpy.array(['a', 'b']), numpy.array([None, 1]), numpy.zeros(3, 'M8[s]'), numpy.zeros(3, 'uint16'), numpy.zeros((0, 3), 'int32'), numpy.full((2, 3), 7, 'int32'),
       datetime.datetime(2000, 1, 1), 1j, range(3), numpy.float32(2), numpy.int8(-3), numpy.zeros((2, 2, 2)), numpy.zeros((3, 6), 'int64'), slice(1), lambda: 0]


def body_odd(r, c):
    """Whatever it is given, the core answers or refuses: it never takes the interpreter down."""
    m = model(r)
    n = r.range(1, 4)
    table = core.WaveTable(some_names(r))
    whole = core.WaveTable()
    angle = core.AstronomicAngle()
    grid = core.Axis(numpy.arange(5) * 1.0)
    index = core.mesh.Index(numpy.array([0., 1, 0]), numpy.array([0., 0, 1]), numpy.array([[0, 1, 2]], dtype='int32'))
    lpe = core.LongPeriodEquilibrium()
    unknown = None
    try:
        unknown = core.Constituent(r.pick([75, 76, 127, 200, 255]))
    except (ValueError, TypeError):
        pass
    pool = ODD + [m.py, table, whole, angle, grid, index, lpe, core.Settings(), IDENTS[3], core.kTide, core.Formulae.kMeeus, list(table), m.lon[:n], m.lat[:n], numpy.zeros(n, 'M8[s]'), numpy.zeros(n, 'uint16'),
                  numpy.zeros(m.size, 'complex128'), numpy.zeros(m.size, 'complex64'), table.values(), m.py.accelerator(), datetime.datetime(2020, 5, 5)] + ([unknown] if unknown is not None else [])
    models = [core.tidal_model.CartesianComplex128, core.tidal_model.CartesianComplex64, core.tidal_model.LGP1Complex64, core.tidal_model.LGP1Complex128, core.tidal_model.LGP2Complex64, core.tidal_model.LGP2Complex128]
    calls = [core.evaluate_tide, core.Axis, core.WaveTable, core.AstronomicAngle, core.Settings, core.mesh.Index, core.LongPeriodEquilibrium, core.constituents.parse, core.constituents.name,
             core.datemanip.as_int64, core.datemanip.as_float64, core.Constituent, core.Formulae, core.TideType, core.Quality, core.Wave, core.Accelerator, core.AbstractTidalModelComplex128,
             core.WaveTable.harmonic_analysis, core.WaveTable.select_waves_for_analysis, pyfes.Settings, pyfes.WaveTable, pyfes.WaveDict] + models
    for x in (m.py, table, whole, angle, grid, index, lpe, core.Settings(), table.values()[0]):
        calls += [getattr(x, k) for k in dir(type(x)) if not k.startswith('__') and k != 'TidalType' and callable(getattr(x, k, None))]
        calls += [getattr(x, k) for k in ('__len__', '__getitem__', '__eq__', '__iter__', '__repr__', '__hash__', '__setstate__', '__getstate__', '__bool__') if hasattr(x, k)]
    seen = []
    # None, as each argument of the calls that take objects; then anything anywhere.
    chosen = [(f, None) for f in [core.evaluate_tide, core.mesh.Index, table.tide_from_tide_series, table.tide_from_mapping, table.compute_nodal_modulations,
                                  lpe.lpe_minus_n_waves, lpe.disable_dynamic_wave, m.py.interpolate, m.py.add_constituent] + models]
    chosen = [r.pick(chosen) for _ in range(12)] if c.index >= 3 else chosen * 2
    for f, _ in chosen + [(None, 1)] * 48:
        none, f = f is not None, f or r.pick(calls)
        good = {
            'evaluate_tide': [m.py, numpy.zeros(n, 'M8[s]'), numpy.zeros(n, 'uint16'), m.lon[:n], m.lat[:n], core.Settings(), 1],
            'interpolate': [m.lon[:n], m.lat[:n], 1] if r.chance(.5) else [1.5, 2.5, whole], 'add_constituent': ['M2', numpy.zeros(m.size, 'complex64' if m.single else 'complex128')],
            'tide_from_tide_series': [numpy.zeros(n, 'M8[s]'), numpy.zeros(n, 'uint16'), numpy.ones(r.pick([len(table), 75]), 'complex128'), core.kMeeus],
            'compute_nodal_modulations': [numpy.zeros(n, 'M8[s]'), numpy.zeros(n, 'uint16')], 'tide_from_mapping': [datetime.datetime(2000, 1, 1), 3, numpy.ones((r.pick([len(table), 75]), 3), 'complex128')],
            'harmonic_analysis': [numpy.zeros(9), numpy.ones((2, 9)), numpy.ones((2, 9))], 'lpe_minus_n_waves': [angle, 10.0], 'disable_dynamic_wave': [r.pick([table, whole])], 'update': [datetime.datetime(2000, 1, 1), 3],
            'Index': [numpy.array([0., 1, 0]), numpy.array([0., 0, 1]), numpy.array([[0, 1, 2]], dtype='int32')],
        }.get(getattr(f, '__name__', ''), None)
        if f in models:
            good = [grid, grid, core.kTide, True] if 'Cart' in f.__name__ else [index, numpy.zeros((1, 3 if 'LGP1' in f.__name__ else 6), 'int32'), core.kTide, 0.0]
        if none:
            args = list(good)
            args[r.below(len(args)) if c.index >= 3 or len(seen) >= len(chosen) // 2 else 0] = None
        elif good and r.chance(.8):
            args = list(good)
            for _ in range(r.range(0, 2)):
                args[r.below(len(args))] = r.pick(pool)
            args = args[:r.range(max(0, len(args) - 2), len(args))]
        else:
            args = [r.pick(pool) for _ in range(r.below(5))]
        # Angles or sizes out of all proportion take time, not memory.
        seen.append('%s(%s)' % (getattr(f, '__qualname__', f), ', '.join(type(a).__name__ for a in args)))
        print('@CALL %s' % seen[-1], [a if not isinstance(a, numpy.ndarray) else (a.dtype, a.shape) for a in args], file=__import__('sys').stderr, flush=True)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                f(*args)
            c.count('objects.odd-calls-answered')
        except MemoryError:
            pass
        except Exception as e:  # noqa
            c.check(type(e) is not SystemError, 'odd-error', '%s: %s %s' % (seen[-1], type(e).__name__, e))
            c.count('objects.odd-calls-refused')
    c.note('%d odd calls, among which %s' % (len(seen), seen[-1]))
    # Everything still answers.
    for k, v in (('M2', IDENTS[NAMES.index('M2')]),):
        c.check(core.constituents.parse(k) == v, 'odd-after', k)
    py, direct = fixed_model()
    z = numpy.zeros(1)
    got = core.evaluate_tide(py, numpy.zeros(1, 'M8[s]'), numpy.zeros(1, 'uint16'), z, z)
    c.check(same(got[0], direct.tide(z, [0], z, z)[0], 1e-7), 'odd-after', 'the tide changed')
    c.distinct(tuple(seen))


H.run('dates', 960, 4000, body_dates)
H.run('refused', 720, 2000, body_refused)
H.run('datetime', 720, 4000, body_datetime)
H.run('tide', 320, 4000, body_tide)
H.run('values', 240, 3000, body_values)
H.run('table', 240, 3000, body_table)
H.run('load', 160, 2000, body_load)
H.run('small', 320, 4000, body_small)
H.run('pickle', 200, 2500, body_pickle)
H.run('life', 480, 4000, body_life)
H.run('threads', 80, 800, body_threads)
H.run('odd', 128, 2000, body_odd)
H.finish()
