"""P05: concurrent saves and loads through the pickle store stay whole."""
import os

from mc import core, sched, vclock
from mc.checks.p03 import Unpicklable
from mc.core import need, need_equal, show

PROPERTY = 'P05'
LEVEL = 'model_checking'
RULE = ('every schedule, at line granularity and up to a preemption bound, of '
        'two or three threads saving, loading and failing to save the same '
        'file, or holding its lock, through the pickle functions and through the classifier; the '
        'results must be linearisable to a register, the final file must be '
        'the last value in that order, no lock or temporary file may remain. '
        'Non-trivial: more than one thread.')
ASSUMPTIONS = ['a thread waiting for the lock wakes up when the others wait '
               'too or when preempted']

# A scenario: initial value (None: no file), the operations of each thread.
SCENARIOS = {
    'save|load': (0, [['s1'], ['l']]),
    'save|save': (0, [['s1'], ['s2']]),
    'new save|load': (None, [['s1'], ['l']]),
    'new save|save': (None, [['s1'], ['s2']]),
    'save|load load': (0, [['s1'], ['l', 'l']]),
    'save save|load': (0, [['s1', 's2'], ['l']]),
    'load|load': (0, [['l'], ['l']]),
    'bad|load': (0, [['b'], ['l']]),
    'bad|save': (0, [['b'], ['s1']]),
    'bad save|load': (0, [['b', 's1'], ['l']]),
    'load save|load save': (0, [['l', 's1'], ['l', 's2']]),
    'save|save|load': (0, [['s1'], ['s2'], ['l']]),
    'save|load|load': (0, [['s1'], ['l'], ['l']]),
    'save|save|save': (0, [['s1'], ['s2'], ['s3']]),
    'bad|save|load': (0, [['b'], ['s1'], ['l']]),
    'save|hold': (0, [['s1'], ['h']]),
    'new save|hold': (None, [['s1'], ['h']]),
    'bad|hold': (0, [['b'], ['h']]),
    'new save|save|load': (None, [['s1'], ['s2'], ['l']]),
}


def before_import():
    sched.install()


def units(tier, seed):
    t = tier == 'thorough'
    result = []
    parts = 16
    for name, (_, threads) in SCENARIOS.items():
        for how in ('functions', 'classifier'):
            n = sum(map(len, threads))
            if len(threads) == 2:
                bound = 3 if t and n == 2 else 2 if t or n == 2 else 1
            else:
                bound = 2 if t else 1
            if how == 'classifier':
                bound = min(bound, 2 if t else 1)
            result += [(name, how, bound, p, parts) for p in range(parts)]
    return result


def explore(unit, rec):
    name, how, bound, part, parts = unit

    def run(switches):
        rec.run((name, how, switches))
        return _last[0]

    sched.explore(run, bound, part, parts)


_last = [None]
_warm = set()
_dir = []


def directory():
    if not _dir:
        _dir.append(core.scratch())
    for entry in os.scandir(_dir[0]):
        os.unlink(entry.path)
    return _dir[0]


def judge(case, rec):
    name, how, switches = case
    if (name, how) not in _warm:
        _warm.add((name, how))
        if switches:
            execute(name, how, (), rec)
    execute(name, how, switches, rec)


def value(i):
    return ['value', i] * (i + 1)


def handlers(how, path):
    """load() -> number or None, save(number), save_bad()"""
    from sbclassifier.safepickle import pickle_read, pickle_write
    from sbclassifier.classifiers.storage import PickleClassifier

    if how == 'functions':
        def load():
            try:
                v = pickle_read(path)
            except FileNotFoundError:
                return None
            need(type(v) is list and v == value(v[1]),
                 'a load returned {}', show(v))
            return v[1]

        def save(i):
            pickle_write(path, value(i))

        def bad():
            pickle_write(path, ['x' * 100000, Unpicklable()])
    else:
        def make(i):
            c = PickleClassifier(path + '.none')
            c.filename = path
            for k in range(i + 1):
                c.learn([b'w%d' % k, b'all'], True)
            return c

        made = {i: make(i) for i in range(4)}
        broken = make(0)
        broken.wordinfo[Unpicklable()] = Unpicklable()

        def load():
            c = PickleClassifier(path)
            if c.nspam == 0:
                need(not c.wordinfo, 'a load found words without messages')
                return None
            i = c.nspam - 1
            have = {w: (x.spamcount, x.hamcount)
                    for w, x in c.wordinfo.items()}
            want = {b'w%d' % k: (1, 0) for k in range(i + 1)}
            want[b'all'] = i + 1, 0
            need_equal(have, want, 'a load')
            return i

        def save(i):
            made[i].store()

        def bad():
            broken.store()
    return load, save, bad


def hold(path, s):
    """While a thread holds the lock, the file stays as it is."""
    from lockfile import FileLock

    def content():
        try:
            with open(path, 'rb') as f:
                return f.read()
        except FileNotFoundError:
            return None

    with FileLock(path, timeout=20):
        before = content()
        for _ in range(2):
            s.point()
            need(content() == before,
                 'the file changes while another thread holds its lock')


def execute(name, how, switches, rec):
    initial, threads = SCENARIOS[name]
    d = directory()
    path = os.path.join(d, 'db')
    load, save, bad = handlers(how, path)
    need(not os.listdir(d), 'files before the start: {}', os.listdir(d))
    if initial is not None:
        save(initial)
    history = []

    def thread(index, ops):
        for op in ops:
            start = s.tick()
            if op == 'l':
                result = load()
                kind = 'load'
            elif op == 'b':
                kind, result = 'bad', None
                try:
                    bad()
                except TypeError:
                    pass
                else:
                    need(False, 'saving an unpicklable value succeeds')
            elif op == 'h':
                kind, result = 'hold', None
                hold(path, s)
            else:
                kind, result = 'save', int(op[1])
                save(result)
            history.append((start, s.tick(), kind, result, index))

    import lockfile
    s = sched.Scheduler(
        [lambda i=i, ops=ops: thread(i, ops) for i, ops in enumerate(threads)],
        switches, files=sched.code_files(os.path.dirname(lockfile.__file__)))
    results = s.run()
    _last[0] = s.trace
    rec.step(s.step)
    for i, (outcome, e) in enumerate(results):
        if outcome != 'ok':
            if isinstance(e, core.Violation):
                raise e
            raise core.Violation('thread %d (%s) fails: %s' % (
                i, name, core.describe(e) if e else outcome))
    left = [x for x in os.listdir(d) if x != 'db']
    need(not left, 'files left: {}', left)
    final = load()
    need([x for x in os.listdir(d) if x != 'db'] == [],
         'files left by the last load')
    end = s.tick()
    rec.state((name, how, tuple(sorted((x[2:] for x in history), key=repr)),
               final))
    need(linearisable(history, initial, final),
         'no order of the operations explains {} with {} in the end',
         sorted(history), final)


def linearisable(history, state, final):
    if not history:
        return state == final
    first_end = min(x[1] for x in history)
    for x in history:
        if x[0] > first_end:
            continue
        start, end, kind, result, _ = x
        if kind == 'load' and result != state:
            continue
        rest = [y for y in history if y is not x]
        if linearisable(rest, result if kind == 'save' else state, final):
            return True
    return False
