"""C24: what the Python layer asks from the core library."""
import calendar
import datetime
import importlib
import warnings

import numpy

import pyharness as ph

H = ph.Harness()
CORE = ph.install_core()
ph.install_netcdf4()
ph.block_network()
warnings.simplefilter('ignore')
pyfes = importlib.import_module('pyfes')
NAMES = ph.NAMES
FORMULAE = [ph.Enum('Formulae', k) for k in ('kSchuremanOrder1', 'kSchuremanOrder3', 'kMeeus')]
LINES = [(calendar.timegm((y, m, 1, 0, 0, 0)), n) for y, m, n in ph.HISTORY]
FIRST, LAST = LINES[0][0], 4102444800


def leap(second):
    return [n for s, n in LINES if s <= second][-1]


def some_seconds(r, n):
    """Instants, often within a few seconds of a leap second."""
    out = []
    for _ in range(n):
        if r.chance(.5):
            out.append(max(FIRST, r.pick(LINES)[0] + r.range(-2, 2)))
        else:
            out.append(r.range(FIRST, LAST))
    return out


def array_of(r, n):
    unit, per = r.pick([('s', 1), ('ms', 1000), ('us', 1000000), ('ns', 1000000000), ('m', None), ('h', None), ('D', None)])
    secs = some_seconds(r, n)
    if per:
        ticks = [s * per + (r.below(per) if per > 1 else 0) for s in secs]
        secs = [t // per for t in ticks]
    else:
        per = {'m': 60, 'h': 3600, 'D': 86400}[unit]
        ticks = [-(-s // per) for s in secs]
        secs = [t * per for t in ticks]
    if r.chance(.3):
        order = sorted(range(n), key=lambda i: ticks[i])
        ticks, secs = [ticks[i] for i in order], [secs[i] for i in order]
    dates = numpy.array(ticks, dtype='int64').astype('datetime64[%s]' % unit) if n else numpy.array([], dtype='datetime64[%s]' % unit)
    if n and r.chance(.2):      # a view that is not contiguous
        wide = numpy.zeros(2 * n, dtype=dates.dtype)
        wide[::2] = dates
        dates = wide[::2]
    return dates, secs


def equal(a, b):
    a, b = numpy.asanyarray(a), numpy.asanyarray(b)
    if a.shape != b.shape:
        return False
    a, b = numpy.ma.getdata(a), numpy.ma.getdata(b)
    same = a == b
    if a.dtype.kind in 'fcM' and b.dtype.kind == a.dtype.kind:
        same = same | (numpy.isnan(a) & numpy.isnan(b))
    return bool(same.all())


ODD = [float('nan'), float('inf'), -float('inf'), 0.0, -0.0, 1e-320, 1e300, -1e30, 9.96921e36, -9999.0, 360.0, -180.0, 90.0, 450.0, 1e-12]


def numbers(r, *shape, **kw):
    """Numbers, some of which are odd, seen through some array."""
    v = r.array(*shape) * kw.get('scale', 1) + kw.get('shift', 0)
    if v.size and r.chance(.5):
        for _ in range(r.range(1, 4)):
            v.flat[r.below(v.size)] = r.pick(ODD)
    how = r.below(10)
    if how == 0:
        v = v.astype('float32')
    elif how == 1:
        v = numpy.asfortranarray(v)
    elif how == 2:
        v = numpy.repeat(v, 2, axis=-1)[..., ::2]
    elif how == 3:
        v.flags.writeable = False
    elif how == 4 and kw.get('masked'):
        v = numpy.ma.array(v, mask=r.array(*shape) < .3)
    return v


def calls(name):
    return [(a, k) for n, a, k in ph.CALLS if n == name]


def settings_of(r, c):
    """Keyword arguments, and the values that the core should receive."""
    kw, want = {}, [FORMULAE[0], 0.0, []]
    if r.chance(.6):
        kw['astronomic_formulae'] = want[0] = r.pick(FORMULAE)
    if r.chance(.6):
        kw['time_tolerance'] = want[1] = r.pick([0.0, 1.0, 3600.0, r.uniform(0, 10)])
    if r.chance(.6):
        names = r.sample(NAMES, r.pick([0, 1, 2, 6]))
        want[2] = [ph.parse(x) for x in names]
        kw['excluded'] = r.pick([None, []]) if not names else [''.join(ch.upper() if r.chance(.5) else ch.lower() for ch in x) for x in names]
    return kw, want


def same_settings(got, want):
    return (got.astronomic_formulae, got.time_tolerance, list(got.excluded)) == (want[0], want[1], want[2])


def tide(r, c):
    """evaluate_tide hands everything on."""
    n = r.pick([0, 1, 2, 3, 10, 50]) if r.chance(.97) else r.range(200, 5000)
    dates, secs = array_of(r, n)
    lon, lat = numbers(r, n, scale=720, shift=-360), numbers(r, n, scale=180, shift=-90)
    kept = lon.copy(), lat.copy(), dates.copy()
    model = object()
    kw, want = {}, [FORMULAE[0], 0.0, []]
    if r.chance(.7):
        skw, want = settings_of(r, c)
        kw['settings'] = pyfes.Settings(**skw)
        c.check(same_settings(kw['settings'], want), 'python-settings', '%r, expected %r' % (vars(kw['settings']), want))
    elif r.chance(.3):
        kw['settings'] = None
    threads = 0
    if r.chance(.6):
        kw['num_threads'] = threads = r.range(0, 9)
    c.note('%d dates %s, %s' % (n, dates.dtype, {k: v for k, v in kw.items() if k != 'settings'}))
    ph.CALLS.clear()
    got = pyfes.evaluate_tide(model, dates, lon, lat, **kw)
    done = calls('evaluate_tide')
    if not c.check(len(done) == 1, 'python-tide-calls', '%d calls of the core' % len(done)):
        return
    m, d, s, x, y, cfg, k = done[0][0]
    c.check(m is model, 'python-tide-model', 'another model')
    c.check(equal(d, dates) and numpy.asarray(d).dtype.kind == 'M', 'python-tide-dates', '%s, expected %s' % (d, dates))
    c.check(equal(s, [leap(t) for t in secs]), 'python-tide-leap', '%s, expected %s for %s' % (s, [leap(t) for t in secs], dates))
    c.check(numpy.asarray(s).dtype == numpy.uint16, 'python-tide-leap', 'type %s' % numpy.asarray(s).dtype)
    c.check(equal(x, lon) and equal(y, lat), 'python-tide-position', 'other positions')
    c.check(equal(kept[0], lon) and equal(kept[1], lat) and equal(kept[2], dates), 'python-tide-given', 'the arrays given are modified')
    if cfg is None:
        cfg = CORE.Settings()
    c.check(same_settings(cfg, want), 'python-tide-settings', '%r, expected %r' % (vars(cfg), want))
    c.check(k == threads, 'python-tide-threads', '%s, expected %s' % (k, threads))
    ok = isinstance(got, tuple) and len(got) == 3 and all(equal(a, b) for a, b in zip(got, ph.ANSWER[0]))
    c.check(ok, 'python-tide-result', 'the answer of the core is altered')
    c.count('python.dates', n)
    c.distinct((c.text, repr(want), str(dates[:2])))


def settings(r, c):
    """Names of constituents excluded."""
    names = r.sample(NAMES, r.range(1, 5))
    bad = r.pick(['A6', 'M', '', 'M22', 'kM2', 'M2 ', 'ZZ'])
    c.note('%s' % (names + [bad]))
    try:
        pyfes.Settings(excluded=r.shuffle(names + [bad]))
        c.check(False, 'python-settings-unknown', '%r accepted' % bad)
    except ValueError:
        pass
    kw, want = settings_of(r, c)
    c.check(same_settings(pyfes.Settings(**kw), want), 'python-settings', '%r' % (kw,))
    c.distinct((c.text, repr(kw)))


def some_datetimes(r, n):
    out = []
    for s in some_seconds(r, n):
        out.append(datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=s, microseconds=r.below(1000000)))
    return out


def ticks(date):
    d = date - datetime.datetime(1970, 1, 1)
    return (d.days * 86400 + d.seconds) * 1000000 + d.microseconds


def table(r, c):
    """Modulations, analysis and prediction with a table."""
    klass = r.pick([pyfes.WaveTable, pyfes.WaveDict])
    names = r.sample(NAMES, r.pick([0, 1, 2, 5, 20]))
    t = klass(names) if names or r.chance(.5) else klass()
    keys = [n for n in NAMES if n in names] if names else list(NAMES)
    n = r.pick([0, 1, 2, 7, 30]) if r.chance(.98) else r.range(100, 1500)
    formulae = r.pick(FORMULAE + [None])
    kw = {} if formulae is None else {'formulae': formulae}
    leaps = numpy.array([r.leap() for _ in range(n)], dtype='uint16')
    c.note('%s of %d, %d dates, %s' % (klass.__name__, len(keys), n, formulae))
    # Modulations.
    ph.CALLS.clear()
    listed = r.chance(.6)
    if listed:
        stamps = some_datetimes(r, n)
        got = t.compute_nodal_modulations(stamps, leaps, **kw)
    else:
        stamps, _ = array_of(r, n)
        got = t.compute_nodal_modulations(stamps, leaps, **kw)
    done = calls('compute_nodal_modulations')
    if c.check(len(done) == 1, 'python-modulations-calls', '%d' % len(done)):
        d, s, f = done[0][0]
        if listed:
            us = numpy.asarray(d).astype('datetime64[us]').astype('int64')
            c.check(equal(us, [ticks(x) for x in stamps]), 'python-modulations-dates', '%s, expected %s' % (d, stamps))
        else:
            c.check(equal(d, stamps), 'python-modulations-dates', '%s, expected %s' % (d, stamps))
        c.check(equal(s, leaps), 'python-modulations-leap', '%s, expected %s' % (s, leaps))
        c.check(f == (formulae or FORMULAE[0]), 'python-modulations-formulae', '%s, expected %s' % (f, formulae or 'that documented'))
        c.check(isinstance(got, tuple) and len(got) == 2 and got[0].shape == (len(keys), n), 'python-modulations-result', str(got)[:100])
        c.count('python.modulations.' + ('list' if listed else 'array'))
    # What is not a list of dates is refused.
    if n:
        bad = r.pick([[stamps[0], 'x'], [1.0], 'x', [None]])
        try:
            t.compute_nodal_modulations(bad, leaps, **kw)
            c.check(False, 'python-modulations-refused', '%r accepted' % (bad,))
        except (TypeError, ValueError):
            pass
    # Frequencies.
    freq = t.freq()
    want = [w.freq for w in t]
    if klass is pyfes.WaveDict:
        c.check(freq == dict(zip(keys, want)) and list(freq) == keys, 'python-frequencies', str(freq)[:200])
    else:
        c.check(equal(freq, want), 'python-frequencies', str(freq)[:200])
    # Analysis.
    h, f, vu = numbers(r, n, masked=True), numbers(r, len(keys), n), numbers(r, len(keys), n)
    kept = h.copy(), f.copy(), vu.copy()
    ph.CALLS.clear()
    w = t.harmonic_analysis(h, f, vu)
    done = calls('harmonic_analysis')
    if c.check(len(done) == 1, 'python-analysis-calls', '%d' % len(done)):
        a = done[0][0]
        c.check(equal(a[0], h) and equal(a[1], f) and equal(a[2], vu), 'python-analysis-arguments', 'altered')
        c.check(equal(kept[0], h) and equal(kept[1], f) and equal(kept[2], vu), 'python-analysis-given', 'the arrays given are modified')
        c.count('python.analysis.odd', int(not numpy.isfinite(numpy.ma.getdata(h)).all()))
        expected = [(i + 1) * (1 + 2j) for i in range(len(keys))]
        if klass is pyfes.WaveDict:
            c.check(list(w) == keys and list(w.values()) == expected, 'python-analysis-result', str(w)[:200])
        else:
            c.check(equal(w, expected), 'python-analysis-result', str(w)[:200])
    # Prediction.
    dates, _ = array_of(r, n)
    values = (r.array(len(keys)) + 1j * r.array(len(keys)))
    if len(keys) and r.chance(.3):
        values[r.below(len(keys))] = r.pick([0, complex(numpy.nan, 1), complex(1e300, -1e300), complex(0, numpy.inf)])
    wave = {k: v for k, v in r.shuffle(list(zip(keys, values)))} if klass is pyfes.WaveDict else values
    ph.CALLS.clear()
    got = t.tide_from_tide_series(dates, leaps, wave, **kw)
    done = calls('tide_from_tide_series')
    if c.check(len(done) == 1, 'python-series-calls', '%d' % len(done)):
        d, s, x, f = done[0][0]
        c.check(equal(d, dates) and equal(s, leaps), 'python-series-dates', '%s %s' % (d, s))
        c.check(equal(x, values), 'python-series-waves', '%s, expected %s for %s' % (x[:4], values[:4], keys[:4]))
        c.check(f == (formulae or FORMULAE[1]), 'python-series-formulae', '%s, expected %s' % (f, formulae or 'that documented'))
        c.check(equal(got, numpy.arange(n) * 2.5), 'python-series-result', str(got)[:100])
    if klass is pyfes.WaveDict:
        wrong = dict(wave)
        others = [x for x in NAMES if x not in keys]
        how = r.below(3)
        if how == 0 or not others:
            del wrong[r.pick(keys)]
        elif how == 1:
            wrong[r.pick(others)] = 1j
        else:
            del wrong[r.pick(keys)]
            wrong[r.pick(others)] = 1j
        try:
            t.tide_from_tide_series(dates, leaps, wrong, **kw)
            c.check(False, 'python-series-refused', 'constituents %s for %s' % (sorted(wrong)[:5], keys[:5]))
        except (ValueError, KeyError):
            pass
    c.distinct((c.text, str(keys)))


def angle(r, c):
    """Astronomical angles."""
    formulae = r.pick(FORMULAE + [None])
    ph.CALLS.clear()
    a = pyfes.AstronomicAngle() if formulae is None else pyfes.AstronomicAngle(formulae) if r.chance(.5) else pyfes.AstronomicAngle(formulae=formulae)
    done = calls('AstronomicAngle')
    c.check(len(done) == 1 and done[0][0] == (formulae or FORMULAE[0],), 'python-angle-formulae', '%s, expected %s' % (done, formulae))
    c.note('%s' % formulae)
    for _ in range(r.range(1, 4)):
        ph.CALLS.clear()
        if r.chance(.3):
            before = datetime.datetime.now(datetime.timezone.utc).replace(tzinfo=None)
            a.update()
            after = datetime.datetime.now(datetime.timezone.utc).replace(tzinfo=None)
            done = calls('AstronomicAngle.update')
            if c.check(len(done) == 1, 'python-angle-calls', '%d' % len(done)):
                d, s = done[0][0]
                c.check(before <= d <= after and d.tzinfo is None, 'python-angle-now', '%s' % d)
                c.check(int(s) == 37, 'python-angle-leap', '%s now' % s)
        else:
            (date,) = some_datetimes(r, 1)
            a.update(date)
            done = calls('AstronomicAngle.update')
            if c.check(len(done) == 1, 'python-angle-calls', '%d' % len(done)):
                d, s = done[0][0]
                c.check(d == date, 'python-angle-date', '%s, expected %s' % (d, date))
                c.check(int(s) == leap((ticks(date)) // 1000000), 'python-angle-leap', '%s for %s' % (s, date))
            c.check(a.date == date, 'python-angle-date', str(a.date))
        c.count('python.angles')
    old = r.pick([datetime.datetime(1971, 12, 31, 23, 59, 59), datetime.datetime(1950, 1, 1)])
    ph.CALLS.clear()
    try:
        a.update(old)
        c.check(False, 'python-angle-refused', str(old))
    except ValueError:
        c.check(not calls('AstronomicAngle.update'), 'python-angle-refused', 'computed before it is refused')
    c.distinct((c.text, str(a.date)))


H.run('tide', 12000, 60000, tide)
H.run('settings', 1500, 5000, settings)
H.run('table', 7500, 40000, table)
H.run('angle', 4500, 20000, angle)
H.finish()
