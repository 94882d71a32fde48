"""Check plumbing: seeds, tiers, evidence, findings, verdicts, scratch space."""
import atexit
import ctypes
import hashlib
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
NPROC = min(8, os.cpu_count() or 1)
NOBODY = 65534


class Inconclusive(Exception):
    """The harness could not reach a verdict: exit 2."""


def scratch_dir(prefix='vp-', mode=0o755):
    d = tempfile.mkdtemp(prefix=prefix, dir='/tmp')
    os.chmod(d, mode)
    owner = os.getpid()
    SCRATCH.append(d)

    def clean():
        if os.getpid() == owner:
            shutil.rmtree(d, ignore_errors=True)
    atexit.register(clean)
    return d


SCRATCH = []


def descendants():
    """The processes below this one."""
    kids = {}
    for p in os.listdir('/proc'):
        if p.isdigit():
            try:
                with open(f'/proc/{p}/stat') as f:
                    kids.setdefault(int(f.read().rsplit(')', 1)[1].split()[1]), []).append(int(p))
            except OSError:
                pass
    out, todo = [], [os.getpid()]
    while todo:
        for k in kids.get(todo.pop(), []):
            out.append(k)
            todo.append(k)
    return out


def reap():
    """Nothing the check started outlives it."""
    for _ in range(5):
        d = descendants()
        if not d:
            return
        for p in d:
            try:
                os.kill(p, signal.SIGKILL)
            except OSError:
                pass
        time.sleep(0.05)


def subreaper():
    """Orphans become children of this process."""
    try:
        ctypes.CDLL(None).prctl(36, 1, 0, 0, 0)
    except (OSError, AttributeError):
        pass


QUITTING = threading.Event()


def quit_now(rc):
    QUITTING.set()
    sys.stdout.flush()
    # pools start new workers in place of those that are killed

    def no(*_):
        raise OSError('quitting')
    os.fork = no
    subprocess._fork_exec = no
    reap()
    for d in SCRATCH:
        shutil.rmtree(d, ignore_errors=True)
    os._exit(rc)


def supervise(c):
    """A broken tree may make every case run into its time limit: once
    something is found the rest gets a minute; without an answer the check ends
    as inconclusive."""
    me = os.getpid()

    def watch():
        first = None
        while True:
            time.sleep(1)
            now = time.time()
            if c.done or os.getpid() != me or QUITTING.is_set():
                return
            if c.violations and first is None:
                first = now
            if first is not None and now - first > GRACE:
                for _ in range(20):
                    try:
                        QUITTING.set()
                        c.log('stopping early')
                        quit_now(c.finish())
                    except RuntimeError:        # the main thread goes on meanwhile
                        continue
            if c.quick() and now - c.t0 > 850:
                print(f'{c.prop}: no answer in time', flush=True)
                quit_now(2)
    threading.Thread(target=watch, daemon=True).start()


GRACE = int(os.environ.get('VP_GRACE', '60'))


class Check:
    def __init__(self, prop, level='exploration'):
        self.prop = prop
        self.level = level
        self.t0 = time.time()
        self.seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        if '--thorough' in sys.argv:
            self.tier = 'thorough'
        self.rng = random.Random(f'{prop}:{self.seed}')
        self.violations = []
        self.done = False
        self.known_hits = []
        self.known = {}
        self.evaluations = 0
        self.nontrivial = set()
        self.samples = []
        self.coverage = {}
        self.assumptions = []
        self.rule = ''
        self.replay_dir = os.path.join(VERIF, 'evidence', 'replay', prop)
        shutil.rmtree(self.replay_dir, ignore_errors=True)
        self._load_known()

    def quick(self):
        return self.tier == 'quick'

    def scale(self, q, t):
        return q if self.quick() else t

    def sub_rng(self, name):
        return random.Random(f'{self.prop}:{self.seed}:{name}')

    def _load_known(self):
        fn = os.path.join(VERIF, 'known-findings.txt')
        if not os.path.exists(fn):
            return
        for line in open(fn):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line)
            if m and m.group(1) == self.prop:
                self.known[m.group(2)] = m.group(3).strip()

    def log(self, *a):
        print(f'[{time.time() - self.t0:7.1f}s]', *a, flush=True)

    def distinct(self, key):
        """Count a distinct non-trivial case."""
        if not isinstance(key, (bytes, str)):
            key = repr(key)
        if isinstance(key, str):
            key = key.encode('utf-8', 'surrogateescape')
        self.nontrivial.add(hashlib.blake2b(key, digest_size=8).digest())

    def sample(self, s, limit=6):
        if len(self.samples) < limit:
            self.samples.append(s)

    def violation(self, key, what, replay=None):
        """key identifies the failing input / call site / history."""
        if key in self.known:
            if key not in [k for k, _ in self.known_hits]:
                self.known_hits.append((key, self.known[key]))
            return
        if any(k == key for k, _, _ in self.violations):
            return
        if len(self.violations) >= 20:
            self.violations.append((key, what, None))
            return
        os.makedirs(self.replay_dir, exist_ok=True)
        path = os.path.join(self.replay_dir, f'{len(self.violations):03d}.json')
        with open(path, 'w') as f:
            json.dump(dict(property=self.prop, key=key, what=what, seed=self.seed, tier=self.tier,
                           replay=replay), f, indent=1, default=repr)
        self.violations.append((key, what, path))
        self.log(f'violation: {key}: {what}'[:1500])

    def finish(self):
        wall = time.time() - self.t0
        cov = dict(self.coverage)
        cov['evaluations'] = self.evaluations
        cov['distinct_nontrivial'] = len(self.nontrivial)
        cov['rule'] = self.rule
        cov['samples'] = self.samples
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  wall_s=round(wall, 2), assumptions=self.assumptions, violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=repr)
            f.write('\n')
        self.log(f'{self.prop}: evaluations={self.evaluations} distinct={len(self.nontrivial)} '
                 + ' '.join(f'{k}={v}' for k, v in self.coverage.items() if isinstance(v, (int, float, str)))[:1500])
        for key, desc in self.known_hits:
            print(f'KNOWN-FINDING: property={self.prop} {desc}')
        if self.violations:
            for key, what, path in self.violations[:20]:
                print(f'VIOLATION property={self.prop} replay={path}')
            return 1
        if self.evaluations == 0 or not self.nontrivial:
            print(f'{self.prop}: nothing was observed')
            return 2
        print(f'{self.prop}: held')
        return 0


def run_check(prop, fn, level='exploration'):
    """Run fn(check) and exit with the interface's status."""
    c = None
    me = os.getpid()
    try:
        c = Check(prop, level)
        subreaper()
        signal.signal(signal.SIGTERM, lambda *a: quit_now(2))
        supervise(c)
        os.register_at_fork(after_in_child=lambda: signal.signal(signal.SIGTERM, signal.SIG_DFL))
        fn(c)
        if QUITTING.is_set():
            time.sleep(1000)
        c.done = True
        rc = c.finish()
    except SystemExit:
        raise
    except BaseException:
        if QUITTING.is_set():
            time.sleep(1000)
        traceback.print_exc()
        print(f'{prop}: check error')
        rc = 2
        if c is not None and c.violations:
            c.done = True
            rc = c.finish()
    sys.stdout.flush()
    reap()
    sys.exit(rc)


ASAN_ENV = {
    'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=86:detect_stack_use_after_return=0:allocator_may_return_null=1:'
                    'max_allocation_size_mb=6000:handle_abort=1',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=86',
    'TSAN_OPTIONS': 'halt_on_error=1:exitcode=66:second_deadlock_stack=1',
    'MSAN_OPTIONS': 'exitcode=88:allocator_may_return_null=1:max_allocation_size_mb=6000:handle_abort=1',
    'LSAN_OPTIONS': 'exitcode=87',
}


def tool_env(leaks=False, **extra):
    e = {'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin', 'LC_ALL': 'C.UTF-8', 'TZ': 'UTC',
         'HOME': '/tmp'}
    e.update(ASAN_ENV)
    if leaks:
        e['ASAN_OPTIONS'] = e['ASAN_OPTIONS'].replace('detect_leaks=0', 'detect_leaks=1')
    e.update(extra)
    return e


def drop_privs(uid=NOBODY, limit_mem=None):
    """preexec_fn: become an unprivileged user."""
    def f():
        if os.getpid() != os.getsid(0):
            os.setsid()
        if os.getuid() == 0:
            try:
                os.setgroups([])
                os.setgid(uid)
                os.setuid(uid)
            except PermissionError:
                pass
    return f


SAN_RE = re.compile(r'(ERROR: AddressSanitizer[^\n]*|WARNING: MemorySanitizer[^\n]*|runtime error: [^\n]*|WARNING: ThreadSanitizer[^\n]*|'
                    r'ERROR: LeakSanitizer[^\n]*|Assertion [^\n]*failed[^\n]*|AddressSanitizer:DEADLYSIGNAL)')


def crash_summary(stderr, rc):
    if isinstance(stderr, bytes):
        stderr = stderr.decode('utf-8', 'replace')
    m = SAN_RE.search(stderr)
    if m:
        s = re.sub(r'(on (unknown )?address )?0x[0-9a-f]+|at pc .*|thread T\d+', '', m.group(1))
        fr = re.findall(r'#\d+ 0x[0-9a-f]+ in (\S+) [^\n]*?/repo/([\w/.\-]+:\d+)', stderr)
        return s + ' @ ' + ' < '.join(f'{a} {b}' for a, b in fr[:4])
    if rc is not None and rc < 0:
        return f'killed by signal {-rc}'
    return f'exit status {rc}'
