"""C21: leap seconds, and the update of their table."""
import calendar
import datetime
import glob
import http.client
import importlib
import os
import resource
import socket
import ssl
import sys
import threading
import time
import urllib.error
import urllib.request
import warnings

import numpy

import pyharness as ph

HISTORY = ph.HISTORY
MONTHS = ['January', 'February', 'March', 'April', 'May', 'June', 'July', 'August', 'September', 'October', 'November', 'December']

H = ph.Harness()
ph.install_core()
ph.install_netcdf4()
TABLE = None
DATA = os.path.join(H.package, 'data')
SHIPPED = {}
for _p in glob.glob(DATA + '/*'):
    with open(_p, 'rb') as _f:
        SHIPPED[_p] = _f.read()
(TABLE,) = [p for p in SHIPPED if 'leap' in os.path.basename(p)]


def seconds(y, m):
    return calendar.timegm((y, m, 1, 0, 0, 0))


def known():
    return [(seconds(y, m), n) for y, m, n in HISTORY]


def extended(r, n):
    """A table with more lines, in the future."""
    t = known()
    y, m = 2017, 1
    for _ in range(n):
        k = r.range(1, 6)
        # At the end of June or December; if need be, of March or September, then of any month.
        y, m = y + k, r.pick([1, 7, 1, 7, 4, 10]) if r.chance(.85) else r.range(1, 12)
        t.append((seconds(y, m), t[-1][1] + (1 if r.chance(.9) else -1)))
    return t


def text(r, table, expires):
    out = ['#\tATOMIC TIME.', '#\tsome words, with numbers 12 # 1 Jan 1972', '#@\t%d' % (expires + 2208988800), '#']
    d = datetime.datetime.fromtimestamp(expires, datetime.timezone.utc)
    name = MONTHS[d.month - 1]
    line = '#\tFile expires on%s%d %s %d' % (r.pick([' ', ': ', ':  ', '  ']), d.day, name if r.chance(.7) else name[:3], d.year)
    body = []
    for s, n in table:
        e = datetime.datetime.fromtimestamp(s, datetime.timezone.utc)
        body.append('%d%s%d%s# 1 %s %d' % (s + 2208988800, r.pick(['\t', '      ', ' ']), n, r.pick(['\t', '      ']), MONTHS[e.month - 1][:3], e.year))
    out = out + [line, '#'] + body if r.chance(.7) else out + body + ['#', line]
    return ('\n'.join(out + ['#h\t16edd0f0 3666784f 37db6bdd e74ced87 59af48f1']) + '\n').encode()


class Response:
    def __init__(self, status, body, fail_at=None, error=None, look=None):
        self.status, self.code, self.reason, self.msg = status, status, 'reason', 'reason'
        self.headers = {}
        self.body, self.pos, self.fail_at, self.error, self.look = body, 0, fail_at, error, look

    def getcode(self):
        return self.status

    def info(self):
        return self.headers

    def read(self, n=-1):
        self.look()
        end = len(self.body) if n is None or n < 0 else min(len(self.body), self.pos + n)
        if self.fail_at is not None and end > self.fail_at:
            if n is None or n < 0 or self.pos >= self.fail_at:
                raise self.error
            end = self.fail_at
        out = self.body[self.pos:end]
        self.pos = end
        return out

    def readlines(self):
        return self.read().splitlines(True)

    def __iter__(self):
        return iter(self.readlines())

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


SERVER = {'calls': 0, 'answer': None}


def fake_open(self, fullurl, data=None, timeout=None):
    SERVER['calls'] += 1
    if SERVER['answer'] is None:
        raise urllib.error.URLError('no network in the harness')
    return SERVER['answer']()


urllib.request.OpenerDirector.open = fake_open


def no_socket(*a, **k):
    raise OSError('no network in the harness')


socket.create_connection = no_socket


def fresh():
    """The module, as a new process would import it."""
    for name in [m for m in sys.modules if m.startswith('pyfes') and not m.startswith('pyfes.core')]:
        del sys.modules[name]
    return importlib.import_module('pyfes.leap_seconds')


def put(content):
    for p in glob.glob(DATA + '/*'):
        if p not in SHIPPED:
            os.remove(p)
    if content is None:
        if os.path.exists(TABLE):
            os.remove(TABLE)
    else:
        with open(TABLE, 'wb') as f:
            f.write(content)


def installed():
    if not os.path.exists(TABLE):
        return None
    with open(TABLE, 'rb') as f:
        return f.read()


NOW = int(datetime.datetime.now(datetime.timezone.utc).timestamp())
DAY = 86400


def expect(table, dates_ns):
    """Seconds at each date, a number of nanoseconds since 1970."""
    out = []
    for d in dates_ns:
        n = None
        for s, k in table:
            if d >= s * 10**9:
                n = k
        out.append(n)
    return out


UNITS = {'s': 1, 'ms': 10**3, 'us': 10**6, 'ns': 10**9}


def random_dates(r, table, n, unit):
    per = UNITS[unit]
    lo, hi = 63072000, (7000000000 if unit == 'ns' else 30000000000)
    out = []
    for _ in range(n):
        k = r.below(4)
        if k == 0:
            v = r.pick(table)[0] * per + r.range(-2, 2)
        elif k == 1:
            v = (r.pick(table)[0] + r.range(-2, 2)) * per
        elif k == 2:
            v = int(r.uniform(lo, 2000000000) * per)
        else:
            v = int(r.uniform(lo, hi) * per)
        out.append(max(v, lo * per))
    return out


def lookup(r, c):
    table = known() if r.chance(.5) else extended(r, r.range(1, 4))
    put(text(r, table, NOW + 10 * DAY + r.below(3000) * DAY))
    SERVER.update(calls=0, answer=None)
    m = fresh()
    for _ in range(12):
        unit = r.pick(list(UNITS))
        n = r.pick([0, 1, 1, 2, 5, 40]) if r.chance(.97) else r.pick([1000, 4096, 20011])
        v = random_dates(r, table, n, unit)
        if r.chance(.3):
            v.sort(reverse=r.chance(.3))
        want = expect(table, [x * (10**9 // UNITS[unit]) for x in v])
        utc = numpy.array(v, dtype='int64').astype('datetime64[%s]' % unit)
        c.text = ''
        c.note('%s' % utc[:6])
        shape = 'array'
        if n == 1 and r.chance(.5):
            shape = r.pick(['scalar', 'datetime'])
            if shape == 'datetime' and unit != 'ns':
                got = m.get_leap_seconds(datetime.datetime(1970, 1, 1) + datetime.timedelta(microseconds=v[0] * (10**6 // UNITS[unit])))
            else:
                got = m.get_leap_seconds(utc[0])
        elif r.chance(.25) and n:
            shape = 'sorter'
            got = m.get_leap_seconds(utc, sorter=numpy.argsort(utc, kind='stable'))
        elif r.chance(.1) and n == 40:
            shape = 'matrix'
            got = m.get_leap_seconds(utc.reshape(8, 5)).ravel()
        else:
            got = m.get_leap_seconds(utc)
        c.check(list(map(int, numpy.atleast_1d(got))) == want, 'leap-seconds', '%s: %s, expected %s' % (shape, list(got)[:8], want[:8]))
        c.check(numpy.asarray(got).dtype == numpy.uint16, 'leap-seconds-type', str(numpy.asarray(got).dtype))
        c.count('dates', n)
        c.distinct((unit, tuple(v)))
        # Not before 1972.
        if n:
            bad = list(v)
            bad[r.below(n)] = 63072000 * UNITS[unit] - 1 - r.below(1000)
            try:
                m.get_leap_seconds(numpy.array(bad, dtype='int64').astype('datetime64[%s]' % unit))
                c.check(False, 'leap-seconds-before-1972', 'accepted')
            except ValueError:
                pass
    c.check(SERVER['calls'] == 0, 'leap-seconds-network', 'a table which has not expired is downloaded')


def shipped(r, c):
    """The table that is distributed."""
    put(SHIPPED[TABLE])
    SERVER.update(calls=0, answer=None)
    m = fresh()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        v = random_dates(r, known(), 30, 's')
        got = m.get_leap_seconds(numpy.array(v, dtype='int64').astype('datetime64[s]'))
    have = known()
    want = expect(have, [x * 10**9 for x in v])
    # A line may be added to the table one day.
    for x, g, w in zip(v, got, want):
        if x < seconds(2027, 1):
            c.check(int(g) == w, 'leap-seconds-shipped', '%d at %d, expected %d' % (g, x, w))
    c.check(installed() == SHIPPED[TABLE], 'leap-seconds-shipped-file', 'the file distributed is changed')
    c.note('%d dates' % len(v))
    c.distinct(tuple(v))


def update(r, c):
    old_table = known() if r.chance(.6) else known()[:r.range(20, 28)]
    new_table = extended(r, r.range(0, 3))
    missing = r.chance(.1)
    old = None if missing else text(r, old_table, NOW - 10 * DAY - r.below(3000) * DAY)
    new = text(r, new_table, NOW + (1 if r.chance(.9) else -1) * (10 + r.below(300)) * DAY)
    put(old)
    states = set()

    def look():
        states.add(installed())

    kind = r.pick(['good', 'good', 'refused', 'status', 'httperror', 'timeout', 'tls', 'reset', 'incomplete', 'html', 'binary', 'empty', 'cut', 'noexpiry', 'disconnected', 'dns'])
    body, status, error, fail_at, opening = new, 200, None, None, None
    if kind == 'refused':
        opening = urllib.error.URLError(ConnectionRefusedError(111, 'refused'))
    elif kind == 'dns':
        opening = urllib.error.URLError(socket.gaierror(-2, 'Name or service not known'))
    elif kind == 'status':
        status = r.pick([204, 301, 403, 404, 500, 503])
    elif kind == 'httperror':
        opening = urllib.error.HTTPError('https://x', r.pick([403, 404, 500, 503]), 'reason', {}, None)
    elif kind == 'timeout':
        opening = r.pick([socket.timeout('timed out'), urllib.error.URLError(socket.timeout('timed out')), TimeoutError()])
    elif kind == 'tls':
        opening = urllib.error.URLError(ssl.SSLCertVerificationError(1, 'certificate verify failed'))
    elif kind == 'disconnected':
        opening = r.pick([http.client.RemoteDisconnected('closed'), http.client.BadStatusLine('x')])
    elif kind in ('reset', 'incomplete'):
        fail_at = r.below(len(new))
        error = ConnectionResetError(104, 'reset') if kind == 'reset' else http.client.IncompleteRead(new[:fail_at], len(new) - fail_at)
    elif kind == 'html':
        body = b'<html><body>Please log in to the network 2272060800 10 # 1 Jan 1972</body></html>\n' * r.range(1, 30)
    elif kind == 'binary':
        body = bytes(r.below(256) for _ in range(300))
    elif kind == 'empty':
        body = b''
    elif kind == 'cut':
        body = new[:r.below(len(new))]
    elif kind == 'noexpiry':
        body = b'\n'.join(x for x in new.split(b'\n') if b'expires' not in x)

    def answer():
        look()
        if opening is not None:
            raise opening
        return Response(status, body, fail_at, error, look)
    SERVER.update(calls=0, answer=answer)
    c.note('%s: %s table, answer of %d bytes' % (kind, 'no' if missing else 'expired', len(body)))
    m = fresh()

    # Crash points: the file in place is whole at every step of the update.
    def watch(frame, event, arg):
        if 'pyfes' not in frame.f_code.co_filename and 'pathlib' not in frame.f_code.co_filename and 'shutil' not in frame.f_code.co_filename:
            return None
        look()
        return watch
    v = random_dates(r, new_table, 20, 's')
    utc = numpy.array(v, dtype='int64').astype('datetime64[s]')
    error_seen, got = None, None
    watching = r.chance(.3)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if watching:
            sys.settrace(watch)
        try:
            got = [int(x) for x in m.get_leap_seconds(utc)]
        except Exception as e:  # noqa
            error_seen = '%s: %s' % (type(e).__name__, e)
        finally:
            sys.settrace(None)
    look()
    c.count('update.states-seen', len(states))
    if watching:
        c.count('update.watched')
    c.check(SERVER['calls'] >= 1, 'leap-seconds-no-update', 'an expired table is not updated')

    def lines(data):
        out = []
        for x in data.decode('latin-1').splitlines():
            f = x.split()
            if len(f) == 6 and f[0].isdigit() and f[2] == '#':
                out.append((int(f[0]) - 2208988800, int(f[1])))
        return out
    ns = [x * 10**9 for x in v]
    options = []       # the tables that may be in use
    files = [old]
    complete = kind == 'good' or (kind == 'cut' and b'expires' in body and lines(body)[:len(old_table)] == old_table)
    if kind == 'good':
        options, files = [new_table], [new]
    else:
        if not missing:
            options.append(old_table)
        if kind == 'cut':
            if b'expires' in body and (missing or lines(body)[:len(old_table)] == old_table):
                options.append(lines(body))   # nothing tells that it has been cut
                files.append(body)
    if error_seen:
        c.check(missing and kind != 'good', 'leap-seconds-update-fails-' + kind, error_seen)
    else:
        if not (missing and kind == 'cut'):
            c.check(got in [expect(t, ns) for t in options], 'leap-seconds-update-' + kind, 'neither the table in place nor a valid answer is used')
        if kind == 'good':
            SERVER.update(calls=0, answer=None)
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                again = [int(x) for x in m.get_leap_seconds(utc)]
            c.check(again == got, 'leap-seconds-repeat', 'other values the second time')
    if not (missing and kind != 'good'):
        c.check(installed() in files, 'leap-seconds-file-' + kind, 'the file in place is neither the one before nor a valid answer')
        bad = [s for s in states if s not in (old, new) and s not in files]
        c.check(not bad, 'leap-seconds-crash-point', 'at some point the file in place is neither the one before nor the new one: %s' % [None if s is None else len(s) for s in bad][:3])
    # The next process does as well with what is left.
    if not missing and kind not in ('good', 'cut'):
        SERVER.update(calls=0, answer=None)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                after = [int(x) for x in fresh().get_leap_seconds(utc)]
            except Exception as e:  # noqa
                after = '%s: %s' % (type(e).__name__, e)
        c.check(after == expect(old_table, ns), 'leap-seconds-next-process', 'after the failure %s: %s' % (kind, str(after)[:200]))
    c.count('update.' + kind)
    c.distinct((kind, len(body), fail_at, tuple(v[:3])))
    del complete


def expired(r):
    """An expired table, and a new one."""
    old_table = known() if r.chance(.6) else known()[:r.range(20, 28)]
    new_table = extended(r, r.range(1, 3))
    return old_table, text(r, old_table, NOW - 10 * DAY - r.below(3000) * DAY), new_table, text(r, new_table, NOW + (10 + r.below(300)) * DAY)


def disk(r, c):
    """The table cannot be written, or not to its end."""
    old_table, old, _, new = expired(r)
    put(old)
    SERVER.update(calls=0, answer=lambda: Response(200, new, look=lambda: None))
    v = random_dates(r, old_table, 20, 's')
    utc = numpy.array(v, dtype='int64').astype('datetime64[s]')
    m = fresh()
    limit = r.pick([0, r.below(len(new)), r.below(len(new)), len(new) - 1])
    c.note('an answer of %d bytes, room for %d' % (len(new), limit))
    error, got = None, None
    before = resource.getrlimit(resource.RLIMIT_FSIZE)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        resource.setrlimit(resource.RLIMIT_FSIZE, (limit, before[1]))
        try:
            got = [int(x) for x in m.get_leap_seconds(utc)]
        except Exception as e:  # noqa
            error = '%s: %s' % (type(e).__name__, e)
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, before)
    c.check(error is None, 'leap-seconds-disk', str(error))
    c.check(installed() == old, 'leap-seconds-disk-file', 'the table in place is changed')
    c.check(error is not None or got == expect(old_table, [x * 10**9 for x in v]), 'leap-seconds-disk-values', 'the table in place is not used')
    c.count('update.disk')
    c.distinct((len(new), limit, tuple(v[:3])))


def together(r, c):
    """Several threads or processes which update the table at the same time."""
    old_table, old, new_table, new = expired(r)
    put(old)
    n = r.range(2, 4)
    gate = threading.Barrier(n)
    states, ends = set(), threading.Event()
    processes = r.chance(.3)
    delay = r.pick([0, 0, 1e-4, 1e-3])

    def answer():
        def look():
            # The answers end together.
            try:
                gate.wait(1)
            except threading.BrokenBarrierError:
                pass
            if delay:
                time.sleep(delay * r.unit())
        return Response(200, new, look=(lambda: None) if processes else look)
    SERVER.update(calls=0, answer=answer)
    v = random_dates(r, new_table, 20, 's')
    utc = numpy.array(v, dtype='int64').astype('datetime64[s]')
    ns = [x * 10**9 for x in v]
    may = [expect(old_table, ns), expect(new_table, ns)]
    m = fresh()
    out = []

    def one():
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                out.append([int(x) for x in m.get_leap_seconds(utc)])
        except Exception as e:  # noqa
            out.append('%s: %s' % (type(e).__name__, e))

    def watch():
        while not ends.is_set():
            states.add(installed())
    c.note('%d %s' % (n, 'processes' if processes else 'threads'))
    switch = sys.getswitchinterval()
    sys.setswitchinterval(r.pick([1e-6, 1e-5, 1e-4]))
    watcher = threading.Thread(target=watch)
    try:
        if processes:
            sys.stdout.flush()
            children = []
            for _ in range(n):
                pid = os.fork()
                if not pid:
                    one()
                    os._exit(0 if out[0] in may else 1)
                children.append(pid)
            left = set(children)
            while left:
                states.add(installed())
                for pid in sorted(left):
                    done, status = os.waitpid(pid, os.WNOHANG)
                    if done:
                        left.discard(pid)
                        c.check(status == 0, 'leap-seconds-processes', 'a process fails or uses another table')
        else:
            watcher.start()
            threads = [threading.Thread(target=one) for _ in range(n)]
            for t in threads:
                t.start()
            for t in threads:
                t.join(60)
                c.check(not t.is_alive(), 'leap-seconds-threads-hang', 'still running after 60 s')
            ends.set()
            watcher.join()
            c.check(len(out) == n and all(x in may for x in out), 'leap-seconds-threads', str([x for x in out if x not in may])[:300])
    finally:
        ends.set()
        sys.setswitchinterval(switch)
    states.add(installed())
    c.check(states <= {old, new}, 'leap-seconds-together-file', 'the table in place is at some point neither the one before nor the new one: %s' % [None if x is None else len(x) for x in states - {old, new}][:3])
    # What is left serves the next process.
    SERVER.update(calls=0, answer=None)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        got = [int(x) for x in fresh().get_leap_seconds(utc)]
    c.check(got == may[1], 'leap-seconds-together-next', 'the new table is not the one in place')
    c.count('update.together.' + ('processes' if processes else 'threads'), n)
    c.count('update.states-seen', len(states))
    c.distinct((n, processes, tuple(v[:3])))


H.run('lookup', 250, 6000, lookup)
H.run('shipped', 20, 200, shipped)
H.run('update', 500, 12000, update)
H.run('disk', 120, 2000, disk)
H.run('together', 150, 3000, together)
H.finish()
