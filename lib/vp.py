"""Shared driver for every check: build from /repo's working tree, run, judge, write evidence."""
import fcntl, hashlib, json, os, random, re, shutil, subprocess, sys, time, traceback
import multiprocessing
from concurrent.futures import ProcessPoolExecutor, ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
WORK = os.path.join(ROOT, '_work')
EVID = os.path.join(ROOT, 'evidence')
FLAGS = {
    'san': '-O1 -g1 -w -fsanitize=address,undefined -fno-sanitize=nonnull-attribute '
           '-fno-sanitize-recover=all -fno-omit-frame-pointer',
    'tsan': '-O1 -g1 -w -fsanitize=thread',
}
SRC_DIRS = ['include', 'common', 'qbsp', 'light', 'vis', 'bsputil', 'bspinfo', 'maputil', 'cmake', '3rdparty']
NPROC = min(8, os.cpu_count() or 8)


class Broken(Exception):
    """The machinery itself could not decide (build failure, missing tool)."""


def _manifest():
    out = {}
    tops = [os.path.join(REPO, d) for d in SRC_DIRS] + [os.path.join(ROOT, d) for d in ('shim', 'harness', 'build')]
    files = [os.path.join(REPO, 'CMakeLists.txt')]
    for t in tops:
        for dp, dn, fn in os.walk(t):
            files += [os.path.join(dp, f) for f in fn]
    for f in files:
        try:
            with open(f, 'rb') as h:
                out[f] = hashlib.sha1(h.read()).hexdigest()
        except OSError:
            pass
    return out


def build(variant, targets):
    """(Re)build `targets` of /repo + harnesses in the given sanitizer variant.  Returns the build dir."""
    os.makedirs(WORK, exist_ok=True)
    bdir = os.path.join(WORK, variant)
    lock = open(os.path.join(WORK, variant + '.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        man = _manifest()
        stampf = os.path.join(WORK, variant + '.manifest')
        try:
            old = json.load(open(stampf))
        except Exception:
            old = {'files': {}, 'targets': [], 'time': 0}
        flags = FLAGS[variant]
        if old.get('flags') == flags and old['files'] == man and set(targets) <= set(old['targets']) \
                and all(os.path.exists(os.path.join(bdir, EXE.get(t, t))) for t in targets):
            return bdir
        # a file whose content changed while its mtime did not move past the last build: ninja would miss it
        stale = old.get('flags') != flags
        for f, h in man.items():
            if old['files'].get(f) not in (None, h) and os.stat(f).st_mtime <= old['time']:
                stale = True
        if stale and os.path.isdir(bdir):
            shutil.rmtree(bdir)
        if os.path.exists(stampf):
            os.remove(stampf)
        t0 = time.time()
        env = dict(os.environ, LANG='C.UTF-8', CC='/usr/bin/gcc', CXX='/usr/bin/g++')
        if not os.path.exists(os.path.join(bdir, 'build.ninja')):
            r = subprocess.run(['cmake', '-S', REPO, '-B', bdir, '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=None',
                                '-DCMAKE_CXX_COMPILER=/usr/bin/g++', '-DCMAKE_C_COMPILER=/usr/bin/gcc',
                                '-DCMAKE_CXX_FLAGS=' + flags,
                                '-DCMAKE_PROJECT_ericw-tools_INCLUDE=' + os.path.join(ROOT, 'build', 'inject.cmake'),
                                '-DFETCHCONTENT_FULLY_DISCONNECTED=ON', '-DCMAKE_POLICY_VERSION_MINIMUM=3.5'],
                               env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise Broken('cmake failed:\n' + r.stdout[-3000:])
        r = subprocess.run(['ninja', '-C', bdir] + list(targets), env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise Broken('build failed:\n' + r.stdout[-6000:])
        keep = set(targets)
        if old['files'] == man and not stale:
            keep |= set(old['targets'])
        json.dump({'files': man, 'targets': sorted(keep), 'flags': flags, 'time': t0}, open(stampf, 'w'))
        return bdir
    finally:
        lock.close()


EXE = {'qbsp': 'qbsp/qbsp', 'vis': 'vis/vis', 'light': 'light/light', 'bsputil': 'bsputil/bsputil',
       'bspinfo': 'bspinfo/bspinfo', 'maputil': 'maputil/maputil'}
for _h in os.listdir(os.path.join(ROOT, 'harness')):
    if _h.endswith('.cc'):
        EXE[_h[:-3]] = 'vp_harness/' + _h[:-3]

SAN_ENV = {
    'ASAN_OPTIONS': 'detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=3000:detect_stack_use_after_return=0'
                    ':exitcode=99:abort_on_error=0:handle_abort=1',
    'UBSAN_OPTIONS': 'print_stacktrace=1:exitcode=99',
    'TSAN_OPTIONS': 'exitcode=66:halt_on_error=0:second_deadlock_stack=1',
}


class Run:
    def __init__(self, rc, out, timed_out, argv):
        self.rc, self.out, self.timed_out, self.argv = rc, out, timed_out, argv

    @property
    def sanitizer(self):
        m = re.search(r'(ERROR: AddressSanitizer: [^\n]*|[^\n]*: runtime error: [^\n]*|WARNING: ThreadSanitizer: [^\n]*)', self.out)
        return m.group(1)[:300] if m else None

    @property
    def crashed(self):
        """died from a sanitizer report or signal (not a controlled error exit)"""
        return self.rc < 0 or self.rc == 99 or self.sanitizer is not None

    def site(self):
        """first frame of the report inside /repo (stable identity of a memory finding)"""
        for m in re.finditer(r'#\d+ (?:0x[0-9a-f]+ in )?(.+?) (/repo/[^\s:]+)', self.out):
            return '%s@%s' % (re.sub(r'\(.*', '', m.group(1)), os.path.relpath(m.group(2), REPO))
        m = re.search(r'(/repo/[^\s:]+):\d+:\d+: runtime error', self.out)
        return os.path.relpath(m.group(1), REPO) if m else '?'


def run(argv, cwd=None, timeout=120, env=None, stdin=None, limit_mb=None):
    e = dict(os.environ, **SAN_ENV, LANG='C.UTF-8', TERM='dumb')
    e.setdefault('VP_SCHED', 'threads:4')
    if env:
        e.update(env)
    try:
        p = subprocess.run([str(a) for a in argv], cwd=cwd, env=e, timeout=timeout, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return Run(p.returncode, p.stdout.decode('utf-8', 'replace'), False, argv)
    except subprocess.TimeoutExpired as x:
        return Run(-100, (x.stdout or b'').decode('utf-8', 'replace'), True, argv)


class Ctx:
    def __init__(self, pid, tier, seed):
        self.id, self.tier, self.seed = pid, tier, seed
        self.quick = tier == 'quick'
        self.t0 = time.time()
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.stats = {}
        self.viol = []
        self.known_hit = {}
        self.assumptions = []
        self.rule = ''
        self.known = {}
        try:
            for line in open(os.path.join(ROOT, 'known_findings.txt')):
                m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line.strip())
                if m and m.group(1) == pid:
                    self.known[m.group(2)] = m.group(3)
        except FileNotFoundError:
            pass
        self.scratch = os.path.join(WORK, 'scratch', '%s-%d' % (pid, os.getpid()))
        shutil.rmtree(self.scratch, ignore_errors=True)
        os.makedirs(self.scratch)
        self.replays = os.path.join(EVID, 'replay', pid)
        shutil.rmtree(self.replays, ignore_errors=True)

    def rng(self, *salt):
        return random.Random('%s|%s|%s' % (self.id, self.seed, '|'.join(map(str, salt))))

    def dir(self, name):
        d = os.path.join(self.scratch, name)
        os.makedirs(d, exist_ok=True)
        return d

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def ok(self, n=1, key=None, sample=None):
        """count n oracle evaluations; key identifies a distinct non-trivial situation"""
        self.evaluations += n
        if key is not None:
            self.distinct.add(key if isinstance(key, (str, int)) else json.dumps(key, sort_keys=True))
        if sample is not None and len(self.samples) < 6:
            self.samples.append(sample)

    def stat(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    deferred = None
    stashed = 0

    def fork(self, fn, items, workers=NPROC):
        """run fn(item) in forked processes; each child's observations are merged back here"""
        pool = multiprocessing.get_context('fork')
        global _fork_job
        _fork_job = (self, fn)
        with ProcessPoolExecutor(workers, mp_context=pool) as ex:
            for ev, di, st, sm, df, broken in ex.map(_fork_run, list(items)):
                self.evaluations += ev
                self.distinct |= di
                for k, v in st.items():
                    self.stats[k] = self.stats.get(k, 0) + v
                self.samples = (self.samples + sm)[:6]
                for a in df:
                    self.violation(*a)
                if broken:
                    raise Broken(broken)

    def violation(self, key, what, files=(), data=None):
        if self.deferred is not None:
            if len(self.deferred) < 20:
                st = os.path.join(self.scratch, 'stash%d-%d' % (os.getpid(), self.stashed))
                self.stashed += 1
                os.makedirs(st, exist_ok=True)
                kept = []
                for f in files:
                    if os.path.isfile(f):
                        kept.append(shutil.copy(f, st))
                    elif os.path.isdir(f):
                        kept.append(shutil.copytree(f, os.path.join(st, os.path.basename(f)), dirs_exist_ok=True))
                self.deferred.append((key, what, kept, data))
            return
        if key in self.known:
            if key not in self.known_hit:
                self.known_hit[key] = what
                print('KNOWN-FINDING: property=%s %s (%s)' % (self.id, self.known[key], what.split('\n')[0][:200]), flush=True)
            return
        self.viol.append((key, what))
        if len(self.viol) > 5:
            return
        d = os.path.join(self.replays, 'case%d' % len(self.viol))
        os.makedirs(d, exist_ok=True)
        for f in files:
            try:
                if os.path.isdir(f):
                    shutil.copytree(f, os.path.join(d, os.path.basename(f)), dirs_exist_ok=True)
                elif os.path.exists(f):
                    shutil.copy(f, d)
            except OSError:
                pass
        rp = os.path.join(d, 'replay.json')
        json.dump({'property': self.id, 'seed': self.seed, 'tier': self.tier, 'key': key, 'what': what, 'data': data},
                  open(rp, 'w'), indent=1, default=str)
        print('VIOLATION property=%s replay=%s' % (self.id, rp))
        print('   %s: %s' % (key, what[:1500]), flush=True)

    def crash(self, r, where, files=(), data=None):
        """report an uncontrolled death of a tool"""
        key = 'crash:' + r.site() if not r.timed_out else 'hang:' + where
        self.violation(key, '%s: %s rc=%s\n%s' % (where, ' '.join(map(str, r.argv))[:300], r.rc, (r.sanitizer or '') + '\n' + r.out[-1200:]), files, data)

    def finish(self):
        shutil.rmtree(self.scratch, ignore_errors=True)
        os.makedirs(EVID, exist_ok=True)
        wall = time.time() - self.t0
        ev = {'property': self.id, 'tier': self.tier, 'seed': self.seed, 'level': 'exploration',
              'coverage': {'evaluations': self.evaluations, 'distinct_nontrivial': len(self.distinct),
                           'rule': self.rule, 'samples': [s for s in self.samples][:6], 'observed': self.stats},
              'wall_s': round(wall, 2), 'violations': len(self.viol),
              'known_findings_hit': sorted(self.known_hit), 'assumptions': self.assumptions}
        json.dump(ev, open(os.path.join(EVID, self.id + '.json'), 'w'), indent=1, default=str)
        print('%s %s: %d evaluations, %d distinct, %d violations, %.1fs %s' % (
            self.id, self.tier, self.evaluations, len(self.distinct), len(self.viol), wall, json.dumps(self.stats)[:1500]))
        return 1 if self.viol else 0

    # --- C++ harness protocol: lines "FAIL <key> <text>", "DISTINCT <key>", "STAT <name> <n>", "EVALS <n>", "SAMPLE <text>"
    def harness(self, exe, args, timeout=600, crash_key=None, env=None):
        r = run([exe] + [str(a) for a in args], timeout=timeout, cwd=self.scratch, env=env)
        last = ''
        for line in r.out.split('\n'):
            w = line.split(' ', 2)
            if w[0] == 'FAIL' and len(w) > 2:
                self.violation(w[1], w[2] + '  [replay: %s %s]' % (exe, ' '.join(map(str, args))), data={'argv': [exe] + list(map(str, args))})
            elif w[0] == 'DISTINCT':
                self.distinct.add(line[9:])
            elif w[0] == 'STAT' and len(w) > 2:
                self.stat(w[1], int(w[2]))
            elif w[0] == 'EVALS':
                self.evaluations += int(w[1])
            elif w[0] == 'SAMPLE' and len(self.samples) < 6:
                self.samples.append(line[7:300])
            elif w[0] == 'CASE':
                last = line
        if r.timed_out:
            raise Broken('harness timed out: %s %s; %s' % (exe, args, last))
        if r.crashed or 'HARNESS-DONE' not in r.out:
            self.violation('crash:' + r.site(), 'harness %s died (rc %s) at %s\n%s\n%s' % (
                ' '.join(map(str, [exe] + list(args))), r.rc, last, r.sanitizer, r.out[-1500:]),
                data={'argv': [exe] + list(map(str, args))})
        return r


    def shards(self, exe, mode, total, shards=NPROC, timeout=600, extra=(), env=None):
        """run `total` cases of one harness mode split over processes"""
        per = (total + shards - 1) // shards
        parallel(lambda i: self.harness(exe, [mode, self.seed, i * per, per] + list(extra), timeout=timeout, env=env), range(shards))


def _fork_run(item):
    ctx, fn = _fork_job
    ctx.evaluations, ctx.distinct, ctx.stats, ctx.samples, ctx.deferred = 0, set(), {}, [], []
    broken = None
    try:
        fn(item)
    except Broken as e:
        broken = str(e)
    return ctx.evaluations, ctx.distinct, ctx.stats, ctx.samples, ctx.deferred, broken


def exe(variant, name):
    return os.path.join(WORK, variant, EXE[name])


def parallel(fn, items, workers=NPROC):
    with ThreadPoolExecutor(workers) as ex:
        return list(ex.map(fn, items))


def main(pid, fn):
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ctx = Ctx(pid, tier, seed)
    try:
        fn(ctx)
    except Broken as e:
        shutil.rmtree(ctx.scratch, ignore_errors=True)
        if ctx.viol:
            print('(also: %s)' % e)
            return ctx.finish()
        print('CHECK-BROKEN %s: %s' % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        if ctx.viol:
            return ctx.finish()
        shutil.rmtree(ctx.scratch, ignore_errors=True)
        return 2
    return ctx.finish()
