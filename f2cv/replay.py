"""Builds the library from /repo's current sources (address sanitizer, checked containers) and runs the replay drivers of a property."""
import hashlib
import json
import os
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('F2CV_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# need headers that are not installed (steering_functions, or-tools, matplot++)
EXCLUDED = ('path_planning/dubins_curves.cpp', 'path_planning/dubins_curves_cc.cpp', 'path_planning/path_planning.cpp', 'path_planning/reeds_shepp_curves.cpp',
            'path_planning/reeds_shepp_curves_hc.cpp', 'types/Path.cpp', 'route_planning/route_planner_base.cpp', 'utils/visualizer.cpp')
FLAGS = ['-std=c++17', '-O0', '-g1', '-fsanitize=address', '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS', '-ffunction-sections', '-fdata-sections', '-w',
         '-I' + REPO + '/include', '-I' + REPO + '/src', '-I/usr/include/eigen3', '-I/usr/include/gdal']
LIBS = ['-Wl,--gc-sections', '-lgdal', '-lgeos_c', '-ltinyxml2', '-ltbb', '-lpthread', '-lm']


class BuildError(Exception):
    pass


def sources():
    out = []
    for d, _, fs in os.walk(REPO + '/src'):
        for f in fs:
            p = os.path.join(d, f)
            if f.endswith('.cpp') and os.path.relpath(p, REPO + '/src/fields2cover') not in EXCLUDED:
                out.append(p)
    return sorted(out)


def _hash(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()


def headers():
    out = []
    for base in (REPO + '/include', REPO + '/src', VERIF + '/drivers'):
        for d, _, fs in os.walk(base):
            out += [os.path.join(d, f) for f in fs if f.endswith(('.h', '.hpp'))]
    return out


def run(cmd, timeout=600):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors='replace')


class Build(object):
    """compiles in a scratch directory; an optional object cache keyed by the content of every input (F2CV_CACHE)"""

    def __init__(self, drivers, workdir, jobs=8):
        self.dir = workdir
        self.jobs = jobs
        self.drivers = drivers
        self.cache = os.environ.get('F2CV_CACHE')
        self.skipped = {}

    def obj(self, src, hh):
        o = os.path.join(self.dir, hashlib.md5(src.encode()).hexdigest() + '.o')
        key = None
        if self.cache:
            key = os.path.join(self.cache, _hash([src], hh) + '.o')
            if os.path.exists(key):
                shutil.copy(key, o)
                return src, o, ''
        r = run(['g++'] + FLAGS + ['-c', src, '-o', o])
        if r.returncode:
            return src, None, r.stdout
        if key:
            os.makedirs(self.cache, exist_ok=True)
            shutil.copy(o, key + '.tmp%d' % os.getpid())
            os.rename(key + '.tmp%d' % os.getpid(), key)
        return src, o, ''

    def build(self):
        hh = _hash(headers(), ' '.join(FLAGS))
        objs = []
        bins = {}
        drv = [os.path.join(VERIF, 'drivers', d + '.cpp') for d in self.drivers]
        with ThreadPoolExecutor(self.jobs) as ex:
            res = list(ex.map(lambda s: self.obj(s, hh), drv + sources()))
        dobj = {}
        for s, o, err in res:
            if s in drv:
                dobj[s] = (o, err)
            elif o:
                objs.append(o)
            else:
                self.skipped[s] = err[-2000:]
        lib = os.path.join(self.dir, 'libf2c.a')
        r = run(['ar', 'rcs', lib] + objs)
        if r.returncode:
            raise BuildError(r.stdout[-2000:])

        def link(s):
            o, err = dobj[s]
            b = os.path.join(self.dir, os.path.basename(s)[:-4])
            if not o:
                return s, None, err
            r = run(['g++', '-fsanitize=address', o, lib] + LIBS + ['-o', b])
            return s, (b if r.returncode == 0 else None), r.stdout
        with ThreadPoolExecutor(4) as ex:
            for s, b, err in ex.map(link, drv):
                if not b:
                    self.skipped[s] = err[-3000:]
                else:
                    bins[os.path.basename(s)[:-4]] = b
        return bins


ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0', OMP_NUM_THREADS='1')


def one(binary, args, cwd, timeout):
    try:
        r = subprocess.run([binary] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=ENV, timeout=timeout, text=True, errors='replace')
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired as e:
        return 'timeout', (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else '', ''


def campaign(bins, prop, seed, seconds, jobs, workdir):
    """runs every driver; returns (failures, counts, samples)"""
    fails, counts, samples = [], {}, []
    tasks = [(n, b, k) for n, b in bins.items() for k in range(jobs)]

    def go(t):
        n, b, k = t
        sc = os.path.join(workdir, 'run_%s_%d' % (n, k))
        os.makedirs(sc, exist_ok=True)
        st = os.path.join(sc, 'status')
        a = ['--seed', str(seed), '--seconds', str(seconds), '--part', '%d/%d' % (k, jobs), '--prop', prop, '--status', st]
        rc, out, err = one(b, a, sc, seconds * 6 + 240)
        return n, b, k, sc, st, rc, out, err
    with ThreadPoolExecutor(jobs) as ex:
        res = list(ex.map(go, tasks))
    for n, b, k, sc, st, rc, out, err in res:
        j = None
        for l in reversed(out.strip().split('\n')):
            if l.startswith('{'):
                try:
                    j = json.loads(l)
                    break
                except ValueError:
                    pass
        if rc == 0 and j and not j['failed']:
            for t, (c, nt) in j['counts'].items():
                o = counts.setdefault(n + '/' + t, [0, 0])
                o[0] += c
                o[1] += nt
            samples += j['samples']
            continue
        if rc == 3 and j:
            j.update(driver=n, kind='oracle')
            fails.append(j)
            continue
        # the process died: replay the input it was working on, with its description printed first
        try:
            test, it = open(st).read().split()
        except (OSError, ValueError):
            fails.append({'driver': n, 'kind': 'driver', 'test': '?', 'iter': -1, 'seed': seed, 'what': 'driver ended with %s before its first input' % rc,
                          'input': '', 'stderr': err[-3000:], 'undecided': True})
            continue
        rc2, out2, err2 = one(b, ['--seed', str(seed), '--only', test, '--iter', it, '--eager'], sc, 200)
        ok = rc2 == 0
        fails.append({'driver': n, 'kind': 'crash', 'test': test, 'iter': int(it), 'seed': seed,
                      'what': 'the process ended by %s on this input' % ('its time limit' if rc == 'timeout' else 'status %s' % rc),
                      'input': err2.split('\n')[0][:4000], 'stderr': (err2 or err)[-4000:], 'undecided': ok})
    return fails, counts, samples
