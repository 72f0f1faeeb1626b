"""Workload driver of the Python harnesses: same protocol as common.hpp.

The pyfes package is copied to a scratch directory and imported from there,
with a stand-in for its compiled core, for netCDF4, and for the network: no
installed file and no server is ever touched."""
import argparse
import atexit
import hashlib
import math
import os
import re
import shutil
import struct
import sys
import time
import tempfile
import traceback
import types

import numpy

HERE = os.path.dirname(os.path.abspath(__file__))
M64 = (1 << 64) - 1


def mix(z):
    z = (z + 0x9e3779b97f4a7c15) & M64
    z = ((z ^ (z >> 30)) * 0xbf58476d1ce4e5b9) & M64
    z = ((z ^ (z >> 27)) * 0x94d049bb133111eb) & M64
    return z ^ (z >> 31)


def sig_of(x):
    return struct.unpack('<Q', hashlib.blake2b(repr(x).encode(), digest_size=8).digest())[0]


class Rng:
    def __init__(self, seed):
        self.s = seed & M64

    def u64(self):
        self.s = (self.s + 0x9e3779b97f4a7c15) & M64
        return mix(self.s)

    def below(self, n):
        return self.u64() % n if n else 0

    def range(self, lo, hi):
        return lo + self.below(hi - lo + 1)

    def unit(self):
        return (self.u64() >> 11) * 2.0 ** -53

    def uniform(self, lo, hi):
        return lo + (hi - lo) * self.unit()

    def chance(self, p):
        return self.unit() < p

    def leap(self):
        return self.range(0, 65535) if self.chance(.08) else self.range(0, 40)

    def pick(self, seq):
        return seq[self.below(len(seq))]

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq), 1, -1):
            j = self.below(i)
            seq[i - 1], seq[j] = seq[j], seq[i - 1]
        return seq

    def sample(self, seq, n):
        return self.shuffle(seq)[:n]

    def array(self, *shape):
        return numpy.random.default_rng(self.u64()).uniform(size=shape)


class Case:
    def __init__(self, harness, section, index):
        self.h, self.section, self.index, self.text, self.ok = harness, section, index, '', True

    def note(self, text):
        self.text += ('; ' if self.text else '') + text

    def check(self, cond, key, what=''):
        if not cond:
            self.ok = False
            self.h.fail(key, '%s:%d' % (self.section, self.index), '%s [%s]' % (what, self.text))
        return bool(cond)

    def distinct(self, sig):
        self.h.sigs.add(sig_of((self.section, sig)))

    def count(self, name, n=1):
        self.h.counts[name] = self.h.counts.get(name, 0) + n


ZONES = ['UTC0', 'UTC0', 'AAA-14', 'BBB+11', 'CCC+5DDD,M3.2.0,M11.1.0', 'EEE-05:45']


class Harness:
    def __init__(self):
        p = argparse.ArgumentParser()
        p.add_argument('--repo', required=True)
        p.add_argument('--seed', type=int, default=1)
        p.add_argument('--tier', default='quick')
        p.add_argument('--shard', default='0/1')
        p.add_argument('--sections', default='')
        p.add_argument('--sigs', default='')
        p.add_argument('--only', default='')
        p.add_argument('--core', default='')
        self.args = p.parse_args()
        self.counts, self.fails, self.sigs, self.sampled, self.evaluations = {}, {}, set(), {}, 0
        self.scratch = tempfile.mkdtemp(prefix='vf-py-')
        atexit.register(shutil.rmtree, self.scratch, ignore_errors=True)
        shutil.copytree(os.path.join(self.args.repo, 'src', 'python', 'pyfes'), os.path.join(self.scratch, 'lib', 'pyfes'),
                        ignore=shutil.ignore_patterns('__pycache__'))
        self.package = os.path.join(self.scratch, 'lib', 'pyfes')
        if not os.path.exists(os.path.join(self.package, 'version.py')):   # written by the build
            with open(os.path.join(self.package, 'version.py'), 'w') as f:
                f.write("__version__ = '0.0.0'\n")
        if self.args.core:
            shutil.rmtree(os.path.join(self.package, 'core'), ignore_errors=True)   # the types of the compiled core
            shutil.copy(self.args.core, os.path.join(self.package, 'core.so'))
        sys.dont_write_bytecode = True
        sys.path.insert(0, os.path.join(self.scratch, 'lib'))

    def run(self, section, quick, thorough, body):
        a = self.args
        only = a.only.rpartition(':') if a.only else None
        if only and only[0] != section:
            return
        if a.sections and section not in a.sections.split(','):
            return
        n = thorough if a.tier == 'thorough' else quick
        shard, shards = map(int, a.shard.split('/'))
        for i in ([int(only[2])] if only else range(shard, n, shards)):
            c = Case(self, section, i)
            r = Rng(mix(a.seed) ^ sig_of(section) ^ mix(2 * i + 1))
            # No answer depends on where the computer is.
            os.environ['TZ'] = ZONES[mix(i) % len(ZONES)]
            time.tzset()
            if a.core:   # where the process was, would it die
                print('@CRASH_CASE %s:%d' % (section, i), file=sys.stderr, flush=True)
            try:
                body(r, c)
            except Exception as e:  # noqa
                tb = traceback.format_exc().replace('\n', ' | ')
                c.check(False, 'unexpected-exception-' + section, '%s: %s %s' % (type(e).__name__, e, tb[-700:]))
            self.evaluations += 1
            self.counts['cases.' + section] = self.counts.get('cases.' + section, 0) + 1
            if only:
                print('@CASE %s:%d %s -> %s' % (section, i, c.text, 'ok' if c.ok else 'VIOLATED'))
            if c.ok and c.text and self.sampled.setdefault(section, 0) < 1:
                self.sampled[section] += 1
                print('@SAMPLE\t%s:%d %s' % (section, i, re.sub(r'[\n\t]', ' ', c.text[:600])))

    def fail(self, key, where, text):
        self.fails[key] = self.fails.get(key, 0) + 1
        if self.fails[key] <= 5:
            print('@FAIL\t%s\t%s\t%s' % (key, where, re.sub(r'[\n\t]', ' ', text[:3000])))

    def finish(self):
        for k, v in sorted(self.counts.items()):
            print('@COUNT\t%s\t%d' % (k, v))
        if self.args.sigs:
            with open(self.args.sigs, 'wb') as f:
                for s in self.sigs:
                    f.write(struct.pack('<Q', s))
        print('@DONE\t%d' % self.evaluations)
        sys.stdout.flush()


def constituent_names():
    """The 75 constituents, in the order of their identifiers."""
    with open(os.path.join(HERE, 'spec_tables.hpp')) as f:
        names = re.findall(r'^  \{"(\w+)", (?:true|false), (?:true|false), \{', f.read(), re.M)
    assert len(names) == 75
    return names


NAMES = constituent_names()


# --- stand-in for the compiled core ---------------------------------------

class Enum:
    """An enumerated value of the core."""

    def __init__(self, kind, name):
        self.kind, self.name = kind, name

    def __repr__(self):
        return '%s.%s' % (self.kind, self.name)

    def __eq__(self, other):
        return isinstance(other, Enum) and (self.kind, self.name) == (other.kind, other.name)

    def __hash__(self):
        return hash((self.kind, self.name))


def module(name_, **kw):
    m = types.ModuleType(name_)
    m.__dict__.update(kw)
    sys.modules[name_] = m
    return m


CALLS = []   # what the core was asked, in order


def record(name, *args, **kw):
    CALLS.append((name, args, kw))


class Axis:
    def __init__(self, points, epsilon=1e-6, is_circular=False):
        self.points, self.epsilon, self.is_circular_asked = numpy.array(numpy.ma.filled(points, numpy.nan), dtype='float64'), epsilon, is_circular


class Index:
    def __init__(self, lon, lat, triangles):
        self.lon, self.lat, self.triangles = numpy.array(lon), numpy.array(lat), numpy.array(triangles)


class Model:
    def _init(self, tide_type):
        self.tide_type, self.waves, self.dynamic = tide_type, {}, []

    def add_constituent(self, name, wave):
        ident = parse(name)
        wave = numpy.asarray(wave)
        if wave.ndim != 1:
            raise TypeError('a vector is expected')
        if wave.dtype != self.dtype:
            raise TypeError('incompatible values: %s' % wave.dtype)
        self.waves[ident] = wave.copy()

    def clear(self):
        self.waves.clear()

    def identifiers(self):
        return list(self.waves)

    def __len__(self):
        return len(self.waves)

    def __bool__(self):
        return bool(self.waves)


class CartesianComplex128(Model):
    dtype = numpy.dtype('complex128')

    def __init__(self, lon, lat, tide_type=None, longitude_major=True):
        self._init(Enum('TideType', 'kTide') if tide_type is None else tide_type)
        assert isinstance(lon, Axis) and isinstance(lat, Axis)
        self.lon, self.lat, self.longitude_major = lon, lat, longitude_major

    def at(self, ident, i, j):
        """Value of a constituent at a longitude and a latitude."""
        return self.waves[ident][i * len(self.lat.points) + j if self.longitude_major else j * len(self.lon.points) + i]


class CartesianComplex64(CartesianComplex128):
    dtype = numpy.dtype('complex64')


class LGP2Complex128(Model):
    dtype = numpy.dtype('complex128')

    def __init__(self, index, codes=None, tide_type=None, max_distance=0.0, bbox=None):
        self._init(Enum('TideType', 'kTide') if tide_type is None else tide_type)
        assert isinstance(index, Index)
        self.index, self.codes, self.max_distance, self.bbox = index, numpy.array(codes), max_distance, bbox


class LGP2Complex64(LGP2Complex128):
    dtype = numpy.dtype('complex64')


class LGP1Complex128(LGP2Complex128):
    pass


class LGP1Complex64(LGP1Complex128):
    dtype = numpy.dtype('complex64')


def parse(name):
    for n in NAMES:
        if n.lower() == name.lower():
            return Enum('Constituent', 'k' + n)
    raise ValueError('unknown constituent name: %s' % name)


class Wave:
    def __init__(self, name):
        self._name, self.ident = name, parse(name)
        self.freq = (NAMES.index(name) + 1) * 1e-5

    def name(self):
        return self._name


class WaveTable:
    def __init__(self, waves=()):
        names = sorted({NAMES.index(parse(w).name[1:]) for w in waves}) or range(75)
        self._waves = [Wave(NAMES[i]) for i in names]

    def keys(self):
        return [w.name() for w in self._waves]

    def values(self):
        return list(self._waves)

    def __len__(self):
        return len(self._waves)

    def __iter__(self):
        return iter(list(self._waves))

    def __getitem__(self, ident):
        if not isinstance(ident, Enum):
            raise TypeError('a constituent is expected')
        for w in self._waves:
            if w.ident == ident:
                return w
        raise IndexError('wave not available')

    def find(self, name):
        return next((w for w in self._waves if w.ident == parse(name)), None)

    def compute_nodal_modulations(self, dates, leap_seconds, formulae=Enum('Formulae', 'kSchuremanOrder3')):
        if not isinstance(dates, numpy.ndarray) or dates.dtype.kind != 'M':
            raise TypeError('dates')
        record('compute_nodal_modulations', dates, leap_seconds, formulae)
        return numpy.ones((len(self), len(dates))), numpy.zeros((len(self), len(dates)))

    @staticmethod
    def harmonic_analysis(h, f, vu):
        record('harmonic_analysis', h, f, vu)
        return (numpy.arange(len(f)) + 1) * (1 + 2j)

    def tide_from_tide_series(self, dates, leap_seconds, wave, formulae=Enum('Formulae', 'kSchuremanOrder3')):
        if len(wave) != len(self):
            raise ValueError('wave must contain as many items as tidal constituents loaded')
        record('tide_from_tide_series', dates, leap_seconds, wave, formulae)
        return numpy.arange(len(dates)) * 2.5


class AstronomicAngle:
    def __init__(self, formulae=Enum('Formulae', 'kSchuremanOrder1')):
        record('AstronomicAngle', formulae)

    def update(self, date, leap_seconds):
        record('AstronomicAngle.update', date, leap_seconds)


class Settings:
    def __init__(self, astronomic_formulae=Enum('Formulae', 'kSchuremanOrder1'), time_tolerance=0.0, excluded=None):
        self.astronomic_formulae, self.time_tolerance, self.excluded = astronomic_formulae, time_tolerance, list(excluded or [])


ANSWER = []


def evaluate_tide(tidal_model, date, leap_seconds, longitude, latitude, settings=None, num_threads=0):
    if not len(date) == len(leap_seconds) == len(longitude) == len(latitude):
        raise ValueError('epoch, leap_seconds, longitudes and latitudes must have the same size')
    record('evaluate_tide', tidal_model, date, leap_seconds, longitude, latitude, settings, num_threads)
    ANSWER[:] = [tuple(numpy.arange(len(date)) + i for i in range(3))]
    return ANSWER[0]


def as_int64(date):
    import datetime
    if type(date) is not datetime.datetime and not isinstance(date, datetime.datetime):
        raise ValueError('a datetime.datetime is required (got type %s)' % type(date).__name__)
    if date.tzinfo is not None:
        raise ValueError('only the naive datetime object can be converted to timestamp')
    d = date - datetime.datetime(1970, 1, 1)
    return (d.days * 86400 + d.seconds) * 1000000 + d.microseconds


def install_core():
    tm = module('pyfes.core.tidal_model', **{k: v for k, v in globals().items() if k.startswith(('LGP', 'Cartesian'))})
    mesh = module('pyfes.core.mesh', Index=Index)
    cst = module('pyfes.core.constituents', known=lambda: list(NAMES), parse=parse,
                 name=lambda ident: ident.name[1:])
    dm = module('pyfes.core.datemanip', as_int64=as_int64, as_float64=lambda d: as_int64(d) * 1e-6)
    formulae = type('Formulae', (), {k: Enum('Formulae', k) for k in ('kSchuremanOrder1', 'kSchuremanOrder3', 'kMeeus')})
    core = module('pyfes.core', tidal_model=tm, mesh=mesh, constituents=cst, datemanip=dm, Axis=Axis,
                  Constituent=type('Constituent', (), {'k' + n: Enum('Constituent', 'k' + n) for n in NAMES}),
                  Formulae=formulae, TideType=type('TideType', (), {k: Enum('TideType', k) for k in ('kTide', 'kRadial')}),
                  AbstractTidalModelComplex64=type('AbstractTidalModelComplex64', (), {}),
                  AbstractTidalModelComplex128=type('AbstractTidalModelComplex128', (), {}),
                  WaveTable=WaveTable, AstronomicAngle=AstronomicAngle, Settings=Settings, evaluate_tide=evaluate_tide,
                  Accelerator=type('Accelerator', (), {}), Wave=Wave,
                  **{'k' + n: Enum('Constituent', 'k' + n) for n in NAMES},
                  kTide=Enum('TideType', 'kTide'), kRadial=Enum('TideType', 'kRadial'),
                  **{k: getattr(formulae, k) for k in ('kSchuremanOrder1', 'kSchuremanOrder3', 'kMeeus')})
    core.__path__ = []
    return core


# --- stand-in for netCDF4 --------------------------------------------------

FILES = {}     # path -> {name: Variable}


class Variable:
    def __init__(self, data, dimensions, **attributes):
        self.data, self.dimensions = numpy.ma.asarray(data), tuple(dimensions)
        self.__dict__.update(attributes)

    def __getitem__(self, key):
        return self.data[key].copy() if isinstance(self.data[key], numpy.ndarray) else self.data[key]

    def __setitem__(self, key, value):
        self.data[key] = value

    def __array__(self, dtype=None, copy=None):
        return numpy.array(self.data, dtype=dtype)

    def __len__(self):
        return len(self.data)

    def set_auto_mask(self, _):
        pass

    def ncattrs(self):
        return [k for k in self.__dict__ if k not in ('data', 'dimensions')]

    def getncattr(self, name):
        return getattr(self, name)

    shape = property(lambda self: self.data.shape)
    size = property(lambda self: self.data.size)
    ndim = property(lambda self: self.data.ndim)
    dtype = property(lambda self: self.data.dtype)


class Dataset:
    def __init__(self, path, mode='r', **kw):
        path = str(path)
        if mode == 'w':
            FILES[path] = {}
        elif path not in FILES:
            raise FileNotFoundError(path)
        self.variables, self.sizes, self._path = FILES[path], {}, path

    def filepath(self):
        return self._path

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    def __getitem__(self, name):
        if name not in self.variables:
            raise IndexError('%s not found' % name)
        return self.variables[name]

    def createDimension(self, name, size):
        self.sizes[name] = size

    def createVariable(self, name, kind, dimensions, **kw):
        v = Variable(numpy.ma.masked_all([self.sizes[d] for d in dimensions], dtype=numpy.dtype(kind)), dimensions)
        self.variables[name] = v
        return v

    @property
    def dimensions(self):
        return self.sizes


def block_network():
    """Any request made through urllib fails, and none leaves the process."""
    import socket
    import urllib.error
    import urllib.request

    def fake_open(self, fullurl, data=None, timeout=None):
        raise urllib.error.URLError('no network in the harness')

    def no_socket(*a, **k):
        raise OSError('no network in the harness')
    urllib.request.OpenerDirector.open = fake_open
    socket.create_connection = no_socket


# TAI - UTC since 1972, as published.
HISTORY = [(1972, 1, 10), (1972, 7, 11), (1973, 1, 12), (1974, 1, 13), (1975, 1, 14), (1976, 1, 15), (1977, 1, 16), (1978, 1, 17),
           (1979, 1, 18), (1980, 1, 19), (1981, 7, 20), (1982, 7, 21), (1983, 7, 22), (1985, 7, 23), (1988, 1, 24), (1990, 1, 25),
           (1991, 1, 26), (1992, 7, 27), (1993, 7, 28), (1994, 7, 29), (1996, 1, 30), (1997, 7, 31), (1999, 1, 32), (2006, 1, 33),
           (2009, 1, 34), (2012, 7, 35), (2015, 7, 36), (2017, 1, 37)]


def install_netcdf4():
    module('netCDF4', Dataset=Dataset)
