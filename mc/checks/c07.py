"""C07: scoring changes nothing; parallel scorers do not disturb each other."""
import copy
import itertools
import shutil

from mc import sched, stores
from mc.core import Violation, need, need_equal, scratch, show
from mc.ref import Ref, check_counts, check_same, check_score

PROPERTY = 'C07'
LEVEL = 'model_checking'
RULE = ('(a) every schedule of two or three threads, each scoring one or two '
        'messages, on one classifier of each kind, in several training '
        'states, with nothing or everything scored before, up to a '
        'preemption bound, at line and at bytecode granularity; (b) every '
        'sequence of scorings (some from word sources that fail, or score '
        'themselves) up to a depth, after each of which counts, totals, '
        'stored files and all scores are compared; (c) every nesting of one '
        'scoring in the word source of another. Non-trivial: some word is '
        'known.')
ASSUMPTIONS = ['nothing is trained while the threads score',
               'results agree up to 1e-12']

A, B, C, X = b'a', b'b', b'c', b'x'
STATES = {
    'one': [(True, (A,))],
    'two': [(True, (A, B)), (False, (B, C))],
    'many': [(True, (A, B)), (True, (A, C)), (False, (B, C)), (False, (C,)),
             (True, (A,)), (False, (X, B))],
    'forgotten': [(True, (A, B)), (False, (B, C)), (False, (A,)),
                  ('U', (A,))],
}
QUERIES = [(), (A,), (A, B), (C, B, A), (B, X, C, b'unknown'), (C, A, C)]
KINDS = ('memory', 'pairs', 'shelve', 'pickle', 'cdb')
WORDS = (A, B, C, X, b'unknown')


class SourceError(Exception):
    pass


def before_import():
    sched.install()


# what is scored by the threads, by index into QUERIES
LOADS = {
    'same': ((2,), (2,)),
    'other': ((3,), (4,)),
    'short': ((1,), (2,)),
    'twice': ((2, 1), (3,)),
    'three': ((1,), (2,), (1,)),
    'three other': ((2,), (4,), (1,)),
}


def units(tier, seed):
    t = tier == 'thorough'
    result = [('serial', k, s, f, t) for k in KINDS for s in STATES
              for f in range(len(QUERIES) + 2)]
    result += [('nested', k, s) for k in KINDS for s in STATES]
    for kind in KINDS:
        for n in (12, 30) + ((100,) if t else ()):
            if kind == 'memory' or n == 12:
                result += [('wide', kind, n, p, 8) for p in range(8)]
        result += [('large', kind, n) for n in (50, 700, 3000)]
    for kind in KINDS:
        own = kind in ('memory', 'pairs', 'shelve')
        for state in STATES:
            for warm in (False, True):
                for load in LOADS:
                    three = load.startswith('three')
                    deep = own and not warm and (
                        load == 'short' and state == 'two')
                    if t:
                        bound = 1 if three else 2
                        bound += deep and kind != 'pairs'
                        line, opcode = bound, 2 if deep else 1
                        if three and load != 'three':
                            opcode = 0
                    else:
                        if not own and (warm or state != 'two'):
                            continue
                        if warm and load not in ('same', 'other'):
                            continue
                        if three and (state != 'two' or kind == 'pairs' or (
                                load != 'three' and kind != 'memory')):
                            continue
                        line = 2 if deep and kind == 'memory' else 1
                        opcode = int(own and not warm and state == 'two' and
                                     kind != 'pairs' and (
                            load == 'short' or (load in ('same', 'other') and
                                                kind == 'memory')))
                    parts = 8 if max(line, opcode) > 1 else 1
                    for grain, bound in (('line', line), ('opcode', opcode)):
                        if bound:
                            result += [('threads', kind, state, warm, load,
                                        grain, bound, p, parts)
                                       for p in range(parts)]
    return result


def explore(unit, rec):
    if unit[0] == 'large':
        rec.run(unit)
    elif unit[0] == 'wide':
        _, kind, n, part, parts = unit

        def run(switches):
            rec.run(('wide', kind, n, switches))
            return _last[0]

        sched.explore(run, 1, part, parts)
    elif unit[0] == 'serial':
        _, kind, state, first, t = unit
        ops = list(range(len(QUERIES))) + ['fail', 'nest']
        for n in range(4 if t else 3):
            for rest in itertools.product(ops, repeat=n):
                rec.run(('serial', kind, state, (ops[first],) + rest))
    elif unit[0] == 'nested':
        _, kind, state = unit
        for outer, q in enumerate(QUERIES):
            for inner in range(len(QUERIES)):
                for at in range(len(q) + 1):
                    rec.run(('nested', kind, state, outer, inner, at))
    else:
        _, kind, state, warm, load, grain, bound, part, parts = unit

        def run(switches):
            rec.run(('threads', kind, state, warm, load, grain, switches))
            return _last[0]

        sched.explore(run, bound, part, parts)


_last = [None]
_alone = {}
_stores = {}


def build(kind, state):
    """A classifier that has not scored anything."""
    from sbclassifier.classifiers import Classifier
    if kind in ('memory', 'pairs'):
        c = Classifier(use_bigrams=kind == 'pairs')
        teach(c, state)
        return c
    if (kind, state) not in _stores:
        d = scratch('c07')
        c = stores.open_store(kind, d)
        teach(c, state)
        c.store()
        c.close()
        _stores[kind, state] = d
    return stores.open_store(kind, _stores[kind, state])


def teach(c, state):
    for what, words in STATES[state]:
        if what == 'U':
            c.unlearn(list(words), False)
        else:
            c.learn(list(words), what)


def reference(kind, state):
    ref = Ref(kind == 'pairs')
    for what, words in STATES[state]:
        if what == 'U':
            ref.unlearn(words, False)
        else:
            ref.learn(words, what)
    return ref


def alone(kind, state, i):
    """The result of a fresh classifier that scores nothing else."""
    if (kind, state, i) not in _alone:
        c = build(kind, state)
        r = c.spamprob(list(QUERIES[i]), True)
        check_score(c, reference(kind, state), QUERIES[i], result=r)
        finish(c, kind)
        _alone[kind, state, i] = r
    return _alone[kind, state, i]


def finish(c, kind):
    if kind in stores.BACKENDS:
        c.close()


def judge(case, rec):
    if case[0] == 'large':
        large(case, rec)
    elif case[0] == 'wide':
        wide(case, rec)
    elif case[0] == 'serial':
        serial(case, rec)
    elif case[0] == 'nested':
        nested(case, rec)
    else:
        threads(case, rec)


def source(words, action, at):
    for i, w in enumerate(words):
        if i == at:
            action()
        yield w
    if at >= len(words):
        action()


def fail():
    raise SourceError()


def compare_all(c, kind, state, what):
    ref = reference(kind, state)
    check_counts(c, ref, WORDS, what)
    for i in range(len(QUERIES)):
        check_same(c.spamprob(list(QUERIES[i]), True), alone(kind, state, i),
                   '%s: result of %r' % (what, QUERIES[i]))


def serial(case, rec):
    _, kind, state, ops = case
    stored = kind in stores.BACKENDS
    c = build(kind, state)
    before = stores.files(_stores[kind, state]) if stored else None
    inner = []

    def score_inside():
        inner.append(c.spamprob(list(QUERIES[3]), True))

    for op in ops:
        if op == 'fail':
            try:
                c.spamprob(source(QUERIES[3], fail, 2))
            except SourceError:
                pass
            else:
                raise Violation('the error of the word source was swallowed')
        elif op == 'nest':
            r = c.spamprob(source(QUERIES[2], score_inside, 1), True)
            check_same(r, alone(kind, state, 2), 'outer result')
            check_same(inner.pop(), alone(kind, state, 3), 'inner result')
        else:
            check_same(c.spamprob(list(QUERIES[op]), True),
                       alone(kind, state, op), 'result of %r' %
                       (QUERIES[op],))
            s = c.spamprob(list(QUERIES[op]))
            need(abs(s - alone(kind, state, op)[0]) < 1e-12,
                 'score {} without evidence', s)
        rec.step()
    compare_all(c, kind, state, 'after scoring')
    rec.state((kind, state, ops))
    words = set(reference(kind, state).words)
    need_equal(stores.known_words(c), words, 'known words after scoring')
    finish(c, kind)
    if stored:
        need_equal(stores.files(_stores[kind, state]), before,
                   'files after scoring')
        if len(ops) < 3:
            c = stores.open_store(kind, _stores[kind, state])
            for op in ops:
                if op not in ('fail', 'nest'):
                    c.spamprob(list(QUERIES[op]))
            c.store()
            c.close()
            c = stores.open_store(kind, _stores[kind, state])
            need_equal(stores.known_words(c), words,
                       'words saved after scoring')
            compare_all(c, kind, state, 'saved after scoring')
            c.close()


def nested(case, rec):
    _, kind, state, outer, inner, at = case
    c = build(kind, state)
    got = []
    r = c.spamprob(source(QUERIES[outer], lambda: got.append(
        c.spamprob(list(QUERIES[inner]), True)), at), True)
    check_same(r, alone(kind, state, outer), 'outer result')
    need_equal(len(got), 1, 'times the word source was read')
    check_same(got[0], alone(kind, state, inner), 'inner result')
    compare_all(c, kind, state, 'after scoring')
    rec.step(2)
    rec.state(case)
    finish(c, kind)


def build_wide(kind, n, unsaved):
    """n words, each in another number of messages; their counts."""
    from sbclassifier.classifiers import Classifier
    d = scratch('c07')
    c = Classifier(use_bigrams=kind == 'pairs') \
        if kind in ('memory', 'pairs') else stores.open_store(kind, d)
    ref = Ref(kind == 'pairs')
    words = [b'w%d' % i for i in range(n)]
    steps = min(n, 40)
    for i in range(steps):
        m = words[:n * (i + 1) // steps], i % 5 != 3
        c.learn(*m)
        ref.learn(*m)
        if i == steps // 2 and kind in stores.BACKENDS:
            c.store()
    if kind in stores.BACKENDS and not unsaved:
        c.store()
        c.close()
        c = stores.open_store(kind, d)
    return c, ref, words, d


def large(case, rec):
    """Scoring many words loses no training, saved or not."""
    _, kind, n = case
    for unsaved in (False, True):
        c, ref, words, d = build_wide(kind, n, unsaved)
        first = c.spamprob(words, True)
        check_score(c, ref, words, result=first)
        for q in (words[::-1], words[::2], words[1::2], words[:9]):
            check_score(c, ref, q, result=c.spamprob(q, True))
        rec.step(5)
        check_counts(c, ref, words, '%d words scored' % n)
        check_same(c.spamprob(words, True), first, 'scored again')
        if kind in stores.BACKENDS:
            c.store()
            c.close()
            c = stores.open_store(kind, d)
            check_counts(c, ref, words, '%d words scored and saved' % n)
            c.close()
        shutil.rmtree(d)
    rec.state(case)


_wide = {}


def wide(case, rec):
    """Two threads, words of many different counts."""
    _, kind, n, switches = case
    stored = kind in stores.BACKENDS
    first = (kind, n) not in _wide
    if first:
        c, ref, words, d = build_wide(kind, n, False)
        finish(c, kind)
        _wide[kind, n] = d if stored else c, ref, words, []
    made, ref, words, alone = _wide[kind, n]

    def fresh():
        return stores.open_store(kind, made) if stored else \
            copy.deepcopy(made)

    queries = [words, words[::-1]]
    if first:
        for q in queries:
            c = fresh()
            alone.append(c.spamprob(q, True))
            check_score(c, ref, q, result=alone[-1])
            finish(c, kind)
        if switches:
            wide(case[:-1] + ((),), rec)
    c = fresh()
    s = sched.Scheduler([lambda q=q: c.spamprob(list(q), True)
                         for q in queries], switches, False,
                        sched.code_files())
    results = s.run()
    _last[0] = s.trace
    for r, (status, value) in zip(alone, results):
        need(status == 'ok', 'scoring raised {!r}', value)
        check_same(value, r, 'result while others score')
    finish(c, kind)
    rec.step(s.step)
    rec.count('schedules')
    rec.state(case)


_warm = set()


def threads(case, rec):
    _, kind, state, warm, load, grain, switches = case
    queries = LOADS[load]
    for q in queries:
        for i in q:
            alone(kind, state, i)
    if kind not in _warm and switches:
        _warm.add(kind)
        threads(case[:-1] + ((),), rec)
    c = build(kind, state)
    if warm:
        for q in QUERIES:
            c.spamprob(list(q))
    s = sched.Scheduler([lambda q=q: [c.spamprob(list(QUERIES[i]), True)
                                      for i in q] for q in queries],
                        switches, grain == 'opcode', sched.code_files())
    results = s.run()
    _last[0] = s.trace
    for q, (status, value) in zip(queries, results):
        need(status == 'ok', 'scoring {} raised {!r}', show(q), value)
        for i, r in zip(q, value):
            check_same(r, alone(kind, state, i),
                       'result of %r while %r are scored' % (
                           QUERIES[i], queries))
    compare_all(c, kind, state, 'after the threads ended')
    finish(c, kind)
    rec.step(s.step)
    rec.count('schedules')
    rec.state((kind, state, warm, load, grain, switches))
