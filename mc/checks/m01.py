"""M01: a message's id can be set once and never changes."""
import itertools
import os
import pickle

from mc import core
from mc.core import need, need_equal

PROPERTY = 'M01'
LEVEL = 'model_checking'
RULE = ('every sequence up to a depth of setting one of 18 ids (equal, '
        'different, look-alike, empty, reserved, of other types), reading '
        'the id from the headers, changing that header, and unrelated '
        'operations, on messages built in every way, against a write-once '
        'reference. Non-trivial: some operation sets an id.')
ASSUMPTIONS = ['an empty id may be refused or count as no id']

HEADER = 'X-Spambayes-MailId'


class Text(str):
    pass


VALUES = {
    'a': 'a', 'b': 'b', 'A': 'A', 'a ': 'a ', 'empty': '', 'none': None,
    'int': 1, 'zero': 0, 'bytes': b'a', 'empty bytes': b'', 'list': ['a'],
    'tuple': ('a',), 'false': False, 'float': 1.5,
    'start': 'Statistics start date', 'stats': 'Persistent statistics',
    'accent': '\xe9', 'subclass': Text('a'),
}
IDS = ('a', 'b', 'A', 'a ', 'accent', 'subclass')
TEXTS = ('empty', 'start', 'stats')
HEADERS = ('a', 'b', 'start', 'empty')
SET = tuple(('set', k) for k in VALUES)
OTHER = (('headers',),) + tuple(('header', k) for k in HEADERS) + (
    ('no header',), ('add our headers',), ('remove our headers',),
    ('remember',), ('classify',), ('as text',))
BUILD = ('new', 'new a', 'bytes', 'bytes a', 'string', 'string a', 'path a',
         'path', 'bytes b, header a', 'bytes, header b, header a',
         'bytes, header start, header b', 'path, header empty, header b',
         'unpickled', 'unpickled a')


def units(tier, seed):
    d = 4 if tier == 'thorough' else 3
    return [(b, d, op) for b in BUILD for op in SET + OTHER]


def explore(unit, rec):
    b, d, first = unit
    for rest in itertools.product(SET + OTHER, repeat=d - 1):
        rec.run((b, (first,) + rest),
                any(o[0] in ('set', 'headers') for o in (first,) + rest))


def make(build):
    from sbclassifier import message as m
    raw = 'Subject: s\n\nbody\n'
    id = {'a': 'a', 'b': 'b'}.get(build.split(',')[0].split(' ')[-1])
    args = () if id is None else (id,)
    if build.endswith('header a'):
        raw = HEADER + ': a\n' + raw
    if 'header b' in build:
        raw = HEADER + ': b\n' + raw
    for k in 'start', 'empty':
        if 'header ' + k in build:
            raw = HEADER + ': ' + VALUES[k] + '\n' + raw
    if build.startswith('new'):
        return m.Message(*args), id
    if build.startswith('unpickled'):
        return pickle.loads(pickle.dumps(m.Message(*args))), id
    if build.startswith('string'):
        return m.from_string(raw, *args), id
    if build.startswith('path'):
        path = os.path.join(core.scratch_root(), 'm01.%d.%d' % (
            os.getpid(), len(raw)))
        if not os.path.exists(path):
            with open(path, 'w') as f:
                f.write(raw)
        return m.from_path(path, *args), id
    return m.from_bytes(raw.encode(), *args), id


def judge(case, rec):
    build, ops = case
    m, want = make(build)
    header = next((VALUES[p.split()[1]] for p in build.split(', ')
                   if p.startswith('header ')), None)
    need_equal(m.id(), want, 'id of a message built as %r' % build)

    def attempt(action, value, accepted):
        """want after trying to set the id to value"""
        nonlocal want
        try:
            result = action()
        except Exception:
            need(not accepted, '{}: setting {!r} fails when the id is {!r}',
                 ops, value, want)
            result = None
        else:
            if action is not read:
                need(accepted is not False, '{}: setting {!r} is accepted '
                     'when the id is {!r}', ops, value, want)
        got = m.id()
        if accepted:
            want = value
        if accepted is None and got != want:
            need(got == value, '{}: setting {!r} makes the id {!r}', ops,
                 value, got)
            want = value
        need(got == want and type(got) in (type(want), str),
             '{}: the id is {!r}, not {!r}', ops, got, want)
        return result

    def read():
        return m.set_id_from_payload()

    unpickled = build.startswith('unpickled')
    for op in ops:
        rec.step()
        kind = op[0]
        if kind == 'set':
            v = VALUES[op[1]]
            if op[1] == 'empty':
                ok = None if not want else False
            elif op[1] in IDS:
                # after an empty id, another may or may not be accepted
                ok = (want == v or want is None or
                      (None if want == '' else False))
            else:
                ok = False
            attempt(lambda: m.set_id(v), v, ok)
        elif unpickled:
            continue        # a message without content
        elif kind == 'headers':
            v = header
            if v is None or v == VALUES['start']:
                ok = False
            elif v == '':
                ok = None if not want else False
            else:
                ok = (want == v or want is None or
                      (None if want == '' else False))
            result = attempt(read, v, ok)
            need(not result or result == want,
                 '{}: the id from the headers is {!r}, not {!r}', ops, result,
                 want)
            if ok:
                need_equal(result, want, '%r: id from headers' % (ops,))
        elif kind == 'header':
            del m[HEADER]
            header = VALUES[op[1]]
            m[HEADER] = header
        elif kind == 'no header':
            del m[HEADER]
            header = None
        elif kind == 'add our headers':
            m.add_sb_headers(.5, [])
            header = m[HEADER]
        elif kind == 'remove our headers':
            m.remove_sb_headers()
            header = None
        elif kind == 'remember':
            m.remember_trained(True)
        elif kind == 'classify':
            m.set_classification(.99)
        else:
            m.as_string()
            repr(m)
        need_equal(m.id(), want, '%r: id' % (ops,))
        rec.state((unpickled, want, header))
