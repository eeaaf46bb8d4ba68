"""Exploration core: units of work in forked workers, counting, verdicts.

A check module (mc/checks/<id>.py) provides

    PROPERTY, LEVEL, RULE          strings
    units(tier, seed)              list of work units, simplest first
    explore(unit, rec)             enumerate the unit's cases, calling
                                   rec.run(case) on each
    judge(case, rec)               execute one case on the real code; raise
                                   Violation (or let any exception escape) if
                                   the property is broken

Cases are JSON-serialisable (bytes as {"b": latin-1 text}), so that a
violation can be replayed by `./check --replay FILE`.
"""
import hashlib
import json
import mmap
import os
import pickle
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback

from mc import guard

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MC_REPO', '/repo')
CASE_TIMEOUT = float(os.environ.get('MC_CASE_TIMEOUT', '60'))

SLOW = float(os.environ.get('MC_SLOW', '0'))

# Each worker remembers at most this many distinct cases; the evidence then
# states a lower bound.
DIGESTS = 200000

EXIT_HELD, EXIT_VIOLATION, EXIT_ERROR = 0, 1, 2


class Violation(Exception):
    def __init__(self, message, key=None):
        super().__init__(message)
        self.key = key


class CaseTimeout(BaseException):
    pass


class Stop(BaseException):
    """Another worker (or this one) has found a violation."""


def need(condition, message, *args):
    if not condition:
        raise Violation(message.format(*args) if args else message)


def show(x, limit=300):
    s = repr(x)
    return s if len(s) <= limit else s[:limit] + '...'


def need_equal(got, want, what):
    if got != want:
        raise Violation('%s: got %s, expected %s'
                        % (what, show(got), show(want)))


# ------------------------------------------------------------- serialisation
def pack(x):
    if isinstance(x, bytes):
        return {'b': x.decode('latin-1')}
    if isinstance(x, (list, tuple)):
        return [pack(y) for y in x]
    if isinstance(x, dict):
        return {'d': [[pack(k), pack(v)] for k, v in x.items()]}
    if isinstance(x, str):
        try:
            x.encode('utf-8')
        except UnicodeEncodeError:
            return {'u': [ord(c) for c in x]}
        return x
    if isinstance(x, float):
        return {'f': x.hex()}
    return x


def unpack(x):
    if isinstance(x, dict):
        if 'b' in x:
            return x['b'].encode('latin-1')
        if 'f' in x:
            return float.fromhex(x['f'])
        if 'u' in x:
            return ''.join(map(chr, x['u']))
        return {unpack(k): unpack(v) for k, v in x['d']}
    if isinstance(x, list):
        return tuple(unpack(y) for y in x)
    return x


def digest(x):
    data = x if isinstance(x, bytes) else repr(x).encode('utf-8',
                                                         'backslashreplace')
    return int.from_bytes(hashlib.blake2b(data, digest_size=8).digest(),
                          'little')


# ------------------------------------------------------------------ recorder
class Rec:
    def __init__(self, module, flag, known):
        self.module = module
        self.flag = flag
        self.known = known          # keys of known findings
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.evaluations = 0
        self.nontrivial = set()
        self.samples = []
        self.violation = None       # (unit index, case, message)
        self.known_seen = {}
        self.unit_index = -1
        self.counters = {}
        self._tick = 0

    # coverage ---------------------------------------------------------
    def state(self, x):
        self.states.add(digest(x))

    def step(self, n=1):
        self.transitions += n

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def eval(self, n=1):
        """Additional executions inside one case (schedules, faults)."""
        self.evaluations += n

    def interesting(self, x):
        self.nontrivial.add(digest(x))

    # running ----------------------------------------------------------
    def run(self, case, nontrivial=True):
        if self.flag[0]:
            raise Stop()
        t0 = time.monotonic()
        message = run_case(self.module, case, self)
        if SLOW and time.monotonic() - t0 > SLOW:
            print('slow: %.1f s %r' % (time.monotonic() - t0, case))
            sys.stdout.flush()
        self.traces += 1
        self.evaluations += 1
        if nontrivial and len(self.nontrivial) < DIGESTS:
            self.nontrivial.add(digest(case))
        n = self.traces
        if n in (1, 10, 100, 1000, 10000, 100000) and len(self.samples) < 6:
            self.samples.append(case)
        if message is not None:
            key, text = message
            if key is not None and key in self.known:
                self.known_seen[key] = text
                return
            self.violation = (self.unit_index, case, text)
            self.flag[0] = 1
            raise Stop()


def on_alarm(signum, frame):
    raise CaseTimeout()


def run_case(module, case, rec):
    """None if the case held, else (key, message)."""
    signal.setitimer(signal.ITIMER_REAL, CASE_TIMEOUT)
    try:
        module.judge(case, rec)
    except Violation as e:
        return e.key, str(e)
    except CaseTimeout:
        return None, 'did not finish within %g s' % CASE_TIMEOUT
    except MemoryError:
        raise
    except OSError as e:
        import errno
        if e.errno in (errno.ENOSPC, errno.EMFILE, errno.ENOMEM,
                       errno.EDQUOT, errno.ENFILE) and not getattr(
                           e, 'mc_injected', False):
            raise
        return None, 'raised ' + describe(e)
    except (Stop, KeyboardInterrupt):
        raise
    except BaseException as e:     # also SystemExit from the code under test
        return None, 'raised ' + describe(e)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return None


def describe(e):
    tb = traceback.extract_tb(e.__traceback__)
    where = ['%s:%s %s' % (os.path.basename(f.filename), f.lineno, f.name)
             for f in tb[-4:]]
    return '%s: %s [%s]' % (type(e).__name__, e, ' < '.join(reversed(where)))


# ------------------------------------------------------------- scratch space
_scratch_root = None


def scratch_root():
    global _scratch_root
    if _scratch_root is None:
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
        _scratch_root = os.environ.get('MC_SCRATCH') or \
            tempfile.mkdtemp(prefix='mc-', dir=base)
        tempfile.tempdir = _scratch_root
    return _scratch_root


def scratch(name='s'):
    """A new empty directory, removed when the check ends."""
    return tempfile.mkdtemp(prefix=name + '-', dir=scratch_root())


class Scratch:
    """with Scratch() as d: ... removes the directory afterwards."""
    def __enter__(self):
        self.path = scratch()
        return self.path

    def __exit__(self, *exc):
        shutil.rmtree(self.path, ignore_errors=True)


# ---------------------------------------------------------------- known list
def known_findings(prop):
    path = os.path.join(ROOT, 'KNOWN_FINDINGS.txt')
    result = {}
    try:
        with open(path) as f:
            for line in f:
                if line.startswith('finding: property=%s ' % prop):
                    words = line.split(None, 3)
                    assert words[2].startswith('key='), line
                    result[words[2][4:]] = words[3].strip()
    except FileNotFoundError:
        pass
    return result


# --------------------------------------------------------------------- driver
EXPLORE = 'exploring'


class Exploring:
    """Judges the exploration of a unit itself (which may execute the code
    to find out what there is to explore)."""
    def __init__(self, module):
        self.module = module

    def judge(self, case, rec):
        self.module.explore(case[1], rec)


def explore(module, unit, rec):
    try:
        module.explore(unit, rec)
    except Exception as e:
        if not in_repo(e):
            raise
        rec.violation = (rec.unit_index, (EXPLORE, unit),
                         'raised ' + describe(e))
        rec.flag[0] = 1
        raise Stop()


def in_repo(e):
    """Did the exception come out of the code under test?"""
    while e is not None:
        for f in traceback.extract_tb(e.__traceback__):
            if os.path.realpath(f.filename).startswith(
                    os.path.realpath(REPO) + os.sep):
                return True
        e = e.__cause__ or e.__context__
    return isinstance(e, Violation)


def worker(module, units, read_fd, flag, known, out):
    signal.signal(signal.SIGALRM, on_alarm)
    rec = Rec(module, flag, known)
    error = None
    guard.install(scratch_root())
    if not os.environ.get('MC_DEBUG'):
        # libraries in C complain there of what they are fed on purpose
        os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
    try:
        while not flag[0]:
            b = os.read(read_fd, 4)
            if not b:
                break
            rec.unit_index = struct.unpack('<I', b)[0]
            explore(module, units[rec.unit_index], rec)
    except Stop:
        pass
    except BaseException:
        error = traceback.format_exc()
        flag[0] = 1
    with open(out, 'wb') as f:
        pickle.dump((error, rec.states, rec.transitions, rec.traces,
                     rec.evaluations, rec.nontrivial, rec.samples,
                     rec.violation, rec.known_seen, rec.counters), f)


def run_check(module, tier, seed, jobs=None):
    t0 = time.monotonic()
    prop = module.PROPERTY
    known = known_findings(prop)
    units = list(module.units(tier, seed))
    jobs = jobs or min(8, os.cpu_count() or 1)
    jobs = max(1, min(jobs, len(units)))
    root = scratch_root()
    parent = os.getpid()
    try:
        if hasattr(module, 'prepare'):
            module.prepare(tier, seed)
        assert len(units) < 16000
        read_fd, write_fd = os.pipe()
        for i in range(len(units)):
            os.write(write_fd, struct.pack('<I', i))
        os.close(write_fd)
        flag = mmap.mmap(-1, 1)
        flag[0] = 0
        pids = []
        sys.stdout.flush()
        sys.stderr.flush()
        for j in range(jobs):
            out = os.path.join(root, 'result.%d' % j)
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    worker(module, units, read_fd, flag, known, out)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(code)
            pids.append((pid, out))
        os.close(read_fd)
        merged = Rec(module, [0], known)
        errors, violations = [], []
        for pid, out in pids:
            _, status = os.waitpid(pid, 0)
            try:
                with open(out, 'rb') as f:
                    r = pickle.load(f)
            except (OSError, EOFError, pickle.UnpicklingError):
                errors.append('worker ended with status %d' % status)
                flag[0] = 1
                continue
            if r[0]:
                errors.append(r[0])
            merged.states |= r[1]
            merged.transitions += r[2]
            merged.traces += r[3]
            merged.evaluations += r[4]
            merged.nontrivial |= r[5]
            merged.samples += r[6]
            if r[7]:
                violations.append(r[7])
            merged.known_seen.update(r[8])
            for k, v in r[9].items():
                merged.count(k, v)
    finally:
        if os.getpid() == parent:
            shutil.rmtree(root, ignore_errors=True)
    violations.sort(key=lambda v: v[0])
    if errors and not violations:
        for e in errors:
            print('ERROR', e)
        return EXIT_ERROR
    write_evidence(module, tier, seed, merged, len(violations), len(units),
                   time.monotonic() - t0)
    for key in sorted(merged.known_seen):
        print('KNOWN-FINDING: property=%s %s' % (prop, known[key]))
    if violations:
        _, case, text = violations[0]
        path = write_replay(prop, case, text)
        print('%s: %s' % (prop, text))
        print('case:', show(case, 2000))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return EXIT_VIOLATION
    print('%s %s: held on %d executions, %d states, %d transitions, %.1f s'
          % (prop, tier, merged.evaluations, len(merged.states),
             merged.transitions, time.monotonic() - t0))
    return EXIT_HELD


def write_replay(prop, case, text):
    d = os.path.join(ROOT, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%016x.json' % (prop, digest(case)))
    with open(path, 'w') as f:
        json.dump(dict(property=prop, message=text, case=pack(case)), f,
                  indent=1)
        f.write('\n')
    return path


def write_evidence(module, tier, seed, rec, violations, units, wall):
    samples = [show(s, 1500) for s in rec.samples[:6]]
    coverage = dict(units=units, samples=samples, rule=module.RULE,
                    evaluations=rec.evaluations,
                    distinct_nontrivial=len(rec.nontrivial),
                    exhaustive=not violations)
    if module.LEVEL == 'model_checking':
        coverage.update(states=len(rec.states), transitions=rec.transitions,
                        traces_validated_against_impl=rec.traces)
    coverage.update(rec.counters)
    e = dict(property=module.PROPERTY, tier=tier, seed=seed,
             level=module.LEVEL, coverage=coverage,
             assumptions=list(getattr(module, 'ASSUMPTIONS', ())),
             wall_s=round(wall, 3), violations=violations)
    d = os.path.join(ROOT, 'evidence')
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, '.%s.json.tmp' % module.PROPERTY)
    with open(tmp, 'w') as f:
        json.dump(e, f, indent=1)
        f.write('\n')
    os.replace(tmp, os.path.join(d, module.PROPERTY + '.json'))
