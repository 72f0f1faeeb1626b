#!/usr/bin/env python3
"""check.py ID [quick|thorough]    runs the check of one property
check.py setup                   builds everything the checks need
check.py replay PATH             runs the case of a replay file again

The checks build the sources of /repo's working tree (VF_REPO to use another
tree) together with the harnesses of harness/, in build/, and run them.
Exit codes: 0 held, 1 violated (a VIOLATION line), 2 no answer."""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import json
import os
import re
import shutil
import signal
import struct
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VF_REPO', '/repo')
BUILD = os.environ.get('VF_BUILD', os.path.join(HERE, 'build'))
HARNESS = os.path.join(HERE, 'harness')
PYTHON = '/opt/veriftools/pyvenv/bin/python3'
if not os.path.exists(PYTHON):
    PYTHON = shutil.which('python3-vt') or sys.executable
JOBS = int(os.environ.get('VF_JOBS', '8'))

COMMON = ['-std=c++14', '-g1', '-Wall', '-Wno-maybe-uninitialized', '-fno-omit-frame-pointer',
          '-D_GLIBCXX_ASSERTIONS', '-DBOOST_DISABLE_ASSERTS', '-ffile-prefix-map=%s/=' % REPO,
          '-I%s/include' % REPO, '-isystem', '/usr/include/eigen3', '-pthread']
VARIANTS = {
    # Memory and undefined behaviour monitors.
    'asan': ['-O1', '-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize-recover=all'],
    # Race detector.
    'tsan': ['-O1', '-fsanitize=thread'],
    # Same monitors, for the Python bindings: core.so, loaded by a Python whose
    # memory is under the eyes of the monitors too.
    'pyasan': ['-O1', '-fPIC', '-fvisibility=hidden', '-fsanitize=address,undefined,float-cast-overflow',
               '-fno-sanitize-recover=all'],
    # As shipped, for the workloads which are too slow otherwise.
    'plain': ['-O2'],
}


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


class NoAnswer(Exception):
    pass


def python_include():
    r = sh([PYTHON, '-c', "import sysconfig; print(sysconfig.get_paths()['include'])"])
    return r.stdout.strip()


def binding_sources():
    return sorted(glob.glob(os.path.join(REPO, 'src/python/core/**/*.cpp'), recursive=True))


def library_sources():
    return sorted(glob.glob(os.path.join(REPO, 'src/library/**/*.cpp'), recursive=True))


def compile_all(targets):
    """targets: list of (harness, variant); returns {target: binary}."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        return compile_locked(targets)


def compile_locked(targets):
    env = dict(os.environ, CCACHE_DIR=os.path.join(BUILD, 'ccache'), CCACHE_NOHASHDIR='1', CCACHE_TEMPDIR=os.path.join(BUILD, 'tmp'))
    for k in ('CCACHE_DISABLE', 'CCACHE_READONLY', 'CCACHE_CONFIGPATH'):
        env.pop(k, None)
    os.makedirs(os.path.join(BUILD, 'tmp'), exist_ok=True)
    ccache = ['ccache'] if shutil.which('ccache') and not os.environ.get('VF_NOCCACHE') else []
    jobs = {}
    result = {}
    for harness, variant in targets:
        sources = library_sources() + [os.path.join(HARNESS, harness + '.cpp')]
        extra = []
        if variant == 'pyasan':
            sources += binding_sources()
            extra = ['-isystem', python_include()]
        objs = []
        for src in sources:
            root = REPO if src.startswith(REPO + '/') else HERE
            obj = os.path.join(BUILD, variant, os.path.relpath(src, root).replace('/', '_') + '.o')
            objs.append(obj)
            jobs[obj] = ccache + ['g++'] + COMMON + VARIANTS[variant] + extra + ['-I' + HARNESS, '-c', src, '-o', obj]
        result[(harness, variant)] = (objs, os.path.join(BUILD, variant, harness))
    for obj in jobs:
        os.makedirs(os.path.dirname(obj), exist_ok=True)
    # The slowest first.
    order = sorted(jobs.items(), key=lambda kv: 0 if 'harness' in kv[0] or 'table' in kv[0] or 'index' in kv[0] else 1)
    with cf.ThreadPoolExecutor(JOBS) as pool:
        for obj, r in zip([o for o, _ in order], pool.map(lambda kv: sh(kv[1], env=env), order)):
            if r.returncode:
                raise NoAnswer('cannot compile %s\n%s' % (obj, r.stdout[-6000:]))

        def link(item):
            (harness, variant), (objs, exe) = item
            return sh(['g++'] + VARIANTS[variant] + (['-shared'] if variant == 'pyasan' else []) + objs + ['-pthread', '-ldl', '-o', exe + '.new'])
        for item, r in zip(result.items(), pool.map(link, result.items())):
            if r.returncode:
                raise NoAnswer('cannot link %s\n%s' % (item[1][1], r.stdout[-6000:]))
            os.rename(item[1][1] + '.new', item[1][1])
    return {k: v[1] for k, v in result.items()}


ENV = {
    'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=1:'
                    'strict_string_checks=1:max_allocation_size_mb=8192:handle_abort=0:quarantine_size_mb=64:malloc_context_size=6',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=99',
    'TSAN_OPTIONS': 'halt_on_error=1:exitcode=66:second_deadlock_stack=1:history_size=4',
}


def monitored_python():
    """The environment of a Python that loads instrumented code: the monitors
    come first, and see the memory of Python itself."""
    libs = [sh(['g++', '-print-file-name=' + n]).stdout.strip() for n in ('libasan.so', 'libubsan.so', 'libstdc++.so')]
    return dict(ENV, LD_PRELOAD=':'.join(os.path.realpath(p) for p in libs), PYTHONMALLOC='malloc')


def parse_report(err, rc):
    """The kind of the failure of a process that died, and where."""
    case = re.findall(r'@CRASH_CASE (\S+)', err)
    where = case[-1] if case else 'unknown'
    m = re.search(r'(\S+?):(\d+):\d+: runtime error: ([^\n]*)', err)
    fn = ''
    for f in re.findall(r'#\d+ 0x[0-9a-f]+ in (.+?) (?:/|\(|[\w/]+\.[ch]pp)', err):
        if 'fes::' in f:
            fn = re.sub(r'[<(].*', '', f)
            break
    if m:
        kind = re.sub(r'[-+]?\d[\d.e+-]*|0x[0-9a-f]+|nan|inf', 'N', m.group(3))
        return 'ub-%s-%s' % (os.path.basename(m.group(1)), re.sub(r'\W+', '-', kind)[:60]), where, m.group(0)
    m = re.search(r'ERROR: AddressSanitizer:? ([^\s(]+)', err)
    if m:
        return 'asan-%s-%s' % (m.group(1), re.sub(r'\W+', '-', fn)), where, err[m.start():m.start() + 1500]
    m = re.search(r'WARNING: ThreadSanitizer: ([^(\n]+)', err)
    if m:
        return 'tsan-%s-%s' % (m.group(1).strip().replace(' ', '-'), re.sub(r'\W+', '-', fn)), where, err[m.start():m.start() + 2500]
    m = re.search(r'@SIGNAL (\d+)', err)
    if m:
        return 'signal-%s' % m.group(1), where, err[-1500:]
    if 'terminate called' in err:
        return 'terminate', where, err[-1500:]
    return 'exit-%s' % rc, where, err[-1500:]


def run_shard(cmd, timeout, env=None):
    start = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace',
                         env=dict(os.environ, **(env or ENV)), cwd=BUILD, start_new_session=True)
    hang = False
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        hang = True
        os.killpg(p.pid, signal.SIGTERM)
        try:
            out, err = p.communicate(timeout=10)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            out, err = p.communicate()
    return {'rc': p.returncode, 'out': out, 'err': err, 'hang': hang, 'cmd': cmd, 'wall': time.time() - start}


class Result:
    def __init__(self):
        self.fails = []      # (key, where, text, cmd)
        self.counts = {}
        self.samples = []
        self.sigs = set()
        self.evaluations = 0


def run_harness(command, name, spec, seed, tier, res):
    """Runs the shards of one harness and gathers what they observed."""
    shards = spec.get('shards', JOBS)
    timeout = spec.get('timeout', 200 if tier == 'quick' else 6000)
    base = command + ['--seed', str(seed), '--tier', tier]
    if spec.get('sections'):
        base += ['--sections', ','.join(spec['sections'])]
    if os.environ.get('VF_SCALE') and 'python' not in spec:
        base += ['--scale', os.environ['VF_SCALE']]
    env = monitored_python() if 'core' in spec else None
    sigdir = os.path.join(BUILD, 'sigs')
    os.makedirs(sigdir, exist_ok=True)

    def one(i):
        sig = os.path.join(sigdir, '%d-%s-%d' % (os.getpid(), name, i))
        cmd = base + ['--shard', '%d/%d' % (i, shards), '--sigs', sig]
        r = run_shard(cmd, timeout, env)
        if r['hang'] or (r['rc'] != 0 and re.search(r'out of memory|cannot allocate|Resource temporarily unavailable', r['err'])):
            r = run_shard(cmd, timeout, env)   # the machine, rather than the code?
        if r['rc'] == -signal.SIGKILL and not r['hang']:
            r = run_shard(cmd, timeout, env)
            if r['rc'] == -signal.SIGKILL and not r['hang']:
                raise NoAnswer('%s was killed' % name)
        r['sig'] = sig
        return r
    with cf.ThreadPoolExecutor(JOBS) as pool:
        runs = list(pool.map(one, range(shards)))
    for r in runs:
        done = False
        replay = ' '.join(base)
        for line in r['out'].splitlines():
            f = line.split('\t')
            if f[0] == '@FAIL' and len(f) >= 4:
                res.fails.append((f[1], f[2], f[3], replay + ' --only ' + f[2]))
            elif f[0] == '@COUNT' and len(f) == 3:
                res.counts[f[1]] = res.counts.get(f[1], 0) + int(f[2])
            elif f[0] == '@SAMPLE' and len(f) >= 2:
                res.samples.append(f[1])
            elif f[0] == '@DONE':
                done = True
                res.evaluations += int(f[1])
        if os.path.exists(r['sig']):
            data = open(r['sig'], 'rb').read()
            res.sigs.update(struct.unpack('<%dQ' % (len(data) // 8), data[:len(data) // 8 * 8]))
            os.remove(r['sig'])
        if r['hang']:
            case = re.findall(r'@CRASH_CASE (\S+)', r['err'])
            w = case[-1] if case else 'unknown'
            res.fails.append(('hang', w, 'did not end within %d s, twice' % timeout, replay + ' --only ' + w))
        elif not done or r['rc'] != 0:
            if r['rc'] in (64, 70) or ('python' in spec and '@CRASH_CASE' not in r['err']):
                raise NoAnswer('%s: %s' % (name, r['err'][-2000:]))
            key, w, text = parse_report(r['err'], r['rc'])
            res.fails.append((key, w, text, replay + ' --only ' + w))


def known_findings(prop):
    with open(os.path.join(HERE, 'known_findings.json')) as f:
        data = json.load(f)
    return {e['key']: e for e in data['findings'] if e['property'] == prop}


def targets_of(runs):
    return sorted({(r['harness'], r.get('variant', 'asan')) for r in runs if 'harness' in r} |
                  {(r['core'], 'pyasan') for r in runs if 'core' in r})


def check(prop, tier):
    sys.path.insert(0, HERE)
    import props
    spec = props.PROPS[prop]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    start = time.time()
    runs = spec['runs']
    if tier == 'quick':
        runs = [r for r in runs if not r.get('thorough_only')]
    targets = targets_of(runs)
    exes = compile_all(targets)
    built = time.time()
    res = Result()
    for r in runs:
        if 'python' in r:
            command = [PYTHON, os.path.join(HARNESS, r['python'] + '.py'), '--repo', REPO]
            if 'core' in r:
                command += ['--core', exes[(r['core'], 'pyasan')]]
            run_harness(command, r['python'], r, seed, tier, res)
        else:
            v = r.get('variant', 'asan')
            run_harness([exes[(r['harness'], v)]], r['harness'] + '-' + v, r, seed, tier, res)
        if any(f[0] == 'hang' for f in res.fails):
            break
    # What must have been observed for the run to mean anything.
    for name, least in spec.get('require', {}).items():
        got = sum(v for k, v in res.counts.items() if k == name)
        if got < least and not res.fails and not os.environ.get('VF_SCALE'):
            raise NoAnswer('%s: only %d %s were observed' % (prop, got, name))
    known = known_findings(prop)
    seen_known = {}
    violations = {}
    for key, where, text, cmd in res.fails:
        if key in known:
            seen_known.setdefault(key, (where, text, cmd))
        else:
            violations.setdefault(key, []).append((where, text, cmd))
    for key, e in sorted(known.items()):
        if key in seen_known:
            print('KNOWN-FINDING: property=%s %s' % (prop, e['what']))
    lines = []
    replay_dir = os.path.join(BUILD, 'replay')
    os.makedirs(replay_dir, exist_ok=True)
    for key, items in sorted(violations.items()):
        path = os.path.join(replay_dir, '%s-%s.json' % (prop, re.sub(r'[^\w.-]+', '_', key)[:80]))
        with open(path, 'w') as f:
            json.dump({'property': prop, 'key': key, 'seed': seed, 'tier': tier, 'command': items[0][2],
                       'cases': [{'case': w, 'what': t} for w, t, _ in items[:20]]}, f, indent=1)
        lines.append('VIOLATION property=%s replay=%s' % (prop, path))
        print('# %s %s: %s' % (key, items[0][0], items[0][1][:600]), flush=True)
    rule = spec['rule']
    if isinstance(rule, dict):
        rule = rule.get(tier, rule['quick'])
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': spec.get('level', 'exploration'),
        'coverage': {
            'evaluations': res.evaluations, 'distinct_nontrivial': len(res.sigs), 'rule': rule,
            'samples': res.samples[:12], 'observed': dict(sorted(res.counts.items())),
            'monitors': spec['monitors'], 'build_s': round(built - start, 1),
        },
        'assumptions': spec.get('assumptions', []),
        'wall_s': round(time.time() - start, 2), 'violations': len(violations),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
    print('%s %s seed=%d: %d evaluations, %d distinct, build %.1f s, total %.1f s, %d violation(s)' % (
        prop, tier, seed, res.evaluations, len(res.sigs), built - start, time.time() - start, len(violations)))
    for line in lines:
        print(line)
    return 1 if lines else 0


def setup():
    sys.path.insert(0, HERE)
    import props
    targets = targets_of([r for s in props.PROPS.values() for r in s['runs']])
    compile_all(targets)
    print('built', len(targets), 'harnesses')
    return 0


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    try:
        if sys.argv[1] == 'setup':
            return setup()
        if sys.argv[1] == 'replay':
            with open(sys.argv[2]) as f:
                data = json.load(f)
            # Rebuilt from the current tree.
            words = data['command'].split()
            built = [w for w in (words[0], words[words.index('--core') + 1] if '--core' in words else '') if w.startswith(BUILD + os.sep)]
            compile_all([(os.path.basename(w), os.path.basename(os.path.dirname(w))) for w in built])
            print('+', data['command'])
            env = monitored_python() if ' --core ' in data['command'] else ENV
            return subprocess.call(data['command'].split(), env=dict(os.environ, **env))
        tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
        return check(sys.argv[1], tier)
    except NoAnswer as e:
        print('NO ANSWER:', e)
        return 2


if __name__ == '__main__':
    sys.exit(main())
