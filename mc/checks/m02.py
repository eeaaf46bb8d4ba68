"""M02: adding and then removing our headers restores the message."""
import itertools

from mc import core
from mc.core import need, need_equal

PROPERTY = 'M02'
LEVEL = 'model_checking'
RULE = ('(a) every combination of header options, probability and notations '
        '(by class) on messages with every pair of recipient and subject '
        'forms, added and removed; (b) every sequence up to a depth of '
        'adding with several option sets, removing with each choice of '
        'notations, serialising and re-parsing, training marks, and saving, '
        'removing and putting back our headers, against '
        'a reference of the header list. Non-trivial: something was added.')
ASSUMPTIONS = ['recipient and subject texts do not start with a notation',
               'a recipient or subject header that the notation itself '
               'created may stay']

OURS = {'x-spambayes-classification', 'x-spambayes-spam-probability',
        'x-spambayes-level', 'x-spambayes-evidence', 'x-spambayes-mailid',
        'x-spambayes-trained', 'x-spambayes-classification-id'}
CLASSES = ('ham', 'unsure', 'spam')
PROBS = {.01: 'ham', .5: 'unsure', .99: 'spam'}
NOTES = [c for k in range(4) for c in itertools.combinations(CLASSES, k)]

TO = {
    'plain': b'a@example.com', 'two': b'a@x.org, B C <b@y.org>',
    'empty': b'', '8bit': b'caf\xe9@x.org', 'comma': b',a@x.org',
    'inner': b'a@x.org,spam@spambayes.invalid,b@y.org',
    'near': b'spam@spambayes.invalid.org', 'upper': b'SPAM@x,a@y',
    'subject note': b'spam,a@x.org', 'encoded': b'=?utf-8?q?caf=C3=A9?= <a@x>',
    'long': b', '.join(b'user%d@example.com' % i for i in range(9)),
    'folded': b'a@x.org,\n\tb@y.org', 'space': b'a@x.org ,b',
    'next line': b'\n a@x.org', 'blanks': b'a@x.org  ',
}
SUBJECT = {
    'plain': b'hello', 'empty': b'', '8bit': b'd\xe9j\xe0 vu',
    'comma': b',hello', 'inner': b'buy spam,ham,unsure, now',
    'word': b'spam', 'near': b'spammer, go', 'upper': b'Spam,hello',
    'to note': b'spam@spambayes.invalid,hello', 'encoded':
    b'=?utf-8?q?caf=C3=A9?= and more', 'folded': b'hello\n world',
    'long': b'words, ' * 14 + b'x' * 90,
    'ham': b'hamlet,act', 'colon': b'Re: spam,x',
    'next line': b'\n hello', 'blanks': b'hello \t ', 'tab': b'a\n\tb \n c ',
}
# (in the order of the headers) %s: recipients and subject
LAYOUT = {
    'usual': [('From', b'f@x.org'), ('To', None), ('Subject', None),
              ('Date', b'today')],
    'mixed': [('Received', b'one'), ('subject', None),
              ('X-Spambayes-Foo', b'1'), ('Received', b'two'), ('TO', None),
              ('X-Spambayes-Levels', b'***'), ('X-Spam-Level', b'*')],
    'many': [('To', None), ('To', b'second@x.org'), ('Subject', None),
             ('Subject', b'spam,second'), ('Cc', b'spam@spambayes.invalid,c'),
             ('X-Spambayes', b'z'), ('X-Spambayes-Class', b'spam'),
             ('Reply-To', b'ham@spambayes.invalid,r')],
    'no to': [('From', b'f@x.org'), ('Subject', None), ('Cc', b'c@x.org')],
    'no subject': [('To', None), ('Subjects', b'spam,x')],
    'neither': [('Date', b'today')],
}
BODY = {'usual': b'spam,body\n', 'mixed': b'\nX-Spambayes-Level: no\n',
        'many': b'', 'no to': b'To: x\n', 'no subject': b'x', 'neither': b''}


def units(tier, seed):
    t = tier == 'thorough'
    result = []
    for to in TO:
        for layout in LAYOUT:
            if to == 'plain' or 'To' in dict(LAYOUT[layout]) or \
                    'TO' in dict(LAYOUT[layout]):
                result.append(('forms', layout, to))
    for p in PROBS:
        for to in NOTES:
            result.append(('options', p, to))
    ops = OPS if t else QUICK_OPS
    depth = 5 if t else 4
    for i, layout in enumerate(LAYOUT):
        for op in ops:
            for forms in (FORMS[i], FORMS[-1 - i]) if t else FORMS[i:i + 1]:
                result.append(('sequences', layout, forms, op,
                               depth if i < 3 else depth - 1, t))
    return result


# (probability, score, level, evidence, id, to, subject)
def add(p, flags, to, subject):
    return ('add', p) + tuple(flags) + (to, subject)


ALL = (True,) * 4
NONE = (False,) * 4
OPS = (
    add(.99, ALL, ('spam',), ('spam',)),
    add(.01, (False, True, False, False), ('ham', 'spam'), ()),
    add(.5, (True, False, False, True), (), CLASSES),
    add(.99, NONE, (), ('ham',)),
    ('remove', True, True), ('remove', True, False), ('remove', False, True),
    ('remove', False, False), ('reparse',), ('trained',),
    ('notes', True, False), ('notes', False, True), ('restore',),
    ('classify', .99),
)
QUICK_OPS = tuple(o for o in OPS if o[0] not in ('classify',))
FORMS = (('plain', 'long'), ('8bit', 'inner'), ('empty', 'empty'),
         ('subject note', 'to note'), ('inner', '8bit'), ('long', 'plain'))


def explore(unit, rec):
    kind = unit[0]
    if kind == 'forms':
        _, layout, to = unit
        for subject in SUBJECT:
            for p in PROBS:
                for flags in (ALL, NONE):
                    for notes in ((CLASSES, ()), ((), CLASSES),
                                  (CLASSES, CLASSES), ((), ())):
                        rec.run((layout, to, subject,
                                 (add(p, flags, *notes),
                                  ('remove', True, True))))
    elif kind == 'options':
        _, p, to = unit
        for flags in itertools.product((False, True), repeat=4):
            for subject in NOTES:
                for r in itertools.product((False, True), repeat=2):
                    for layout in LAYOUT:
                        rec.run((layout, 'plain', 'plain',
                                 (add(p, flags, to, subject),
                                  ('remove',) + r, ('remove', True, True))))
    else:
        _, layout, forms, first, depth, t = unit
        ops = OPS if t else QUICK_OPS
        for rest in itertools.product(ops, repeat=depth - 1):
            seq = (first,) + rest
            rec.run((layout,) + forms + (seq,),
                    any(o[0] == 'add' for o in seq))


_cache = {}


def raw(layout, to, subject):
    text = b''
    for name, value in LAYOUT[layout]:
        if value is None:
            value = TO[to] if name.lower() == 'to' else SUBJECT[subject]
        text += name.encode() + b': ' + value + b'\n'
    return text + b'\n' + BODY[layout]


def stored(value):
    """The value of a header as parsed (undecoded bytes are surrogates)."""
    return value.decode('ascii', 'surrogateescape')


def theirs(m):
    return [(k, v) for k, v in m.raw_items() if k.lower() not in OURS]


def judge(case, rec):
    from sbclassifier import message as M
    layout, to, subject, ops = case
    m = M.from_bytes(raw(layout, to, subject))
    original = m.as_bytes()
    body = m.get_payload()
    headers = theirs(m)
    m.set_id('the-id')
    # the notations now in front of the first recipient and subject headers
    notes = {'to': [], 'subject': []}
    c = None
    ours = []
    created = []

    def expected():
        result, seen = [], set()
        for k, v in headers:
            name = k.lower()
            if name in notes and name not in seen:
                seen.add(name)
                v = ''.join(notes[name]) + v
            result.append((k, v))
        return result

    for i, op in enumerate(ops):
        rec.step()
        # now and then leave out what is the default
        flags = dict(remove_to_notations=op[1], remove_subject_notations=op[2]
                     ) if op[0] in ('remove', 'notes') else {}
        if i % 2 == 0:
            flags = {k: v for k, v in flags.items()
                     if v != (op[0] == 'remove')}
        if op[0] == 'add':
            _, p, score, level, evidence, id, nt, ns = op
            c = PROBS[p]
            m.add_sb_headers(
                p, [(b'*H*', 1 - p), (b'*S*', p), (b'word', p)],
                include_score=score, include_thermostat=level,
                include_evidence=evidence, add_unique_id=id,
                notate_to=tuple(M.Classification[x] for x in nt) or None,
                notate_subject=tuple(M.Classification[x] for x in ns) or None)
            for name, wanted, note in (('To', nt, c + '@spambayes.invalid'),
                                       ('Subject', ns, c)):
                if c in wanted:
                    if name.lower() in [k.lower() for k, v in headers]:
                        notes[name.lower()].insert(0, note + ',')
                    else:
                        headers.append((name, note))
                        created.append(name)
            ours += ['x-spambayes-classification']
            ours += [n for n, wanted in (
                ('x-spambayes-spam-probability', score),
                ('x-spambayes-level', level),
                ('x-spambayes-evidence', evidence),
                ('x-spambayes-mailid', id)) if wanted]
        elif op[0] == 'remove':
            m.remove_sb_headers(**flags)
            ours = []
        elif op[0] == 'notes':
            m.remove_notations(**flags)
        elif op[0] == 'restore':
            first = {}
            for k, v in m.raw_items():
                if k.lower() in OURS:
                    first.setdefault(k.lower(), v)
            saved = m.current_sb_headers()
            need_equal({k.lower(): v for k, v in saved.items()}, first,
                       'our headers as saved after %s' % (ops,))
            m.remove_sb_headers(remove_to_notations=False,
                                remove_subject_notations=False)
            need_equal(m.current_sb_headers(), {},
                       'our headers once removed after %s' % (ops,))
            for k, v in saved.items():
                m[k] = v
            need_equal(m.current_sb_headers(), saved,
                       'our headers put back after %s' % (ops,))
            ours = sorted(first)
        elif op[0] == 'trained':
            m['X-Spambayes-Trained'] = 'spam'
            ours.append('x-spambayes-trained')
        elif op[0] == 'classify':
            m.set_classification(op[1])
        elif op[0] == 'reparse':
            again = M.from_bytes(m.as_bytes(), 'the-id')
            if c is not None:
                again.set_classification(M.Classification[c])
            m = again
        if op[0] in ('remove', 'notes'):
            for name, wanted in (('to', op[1]), ('subject', op[2])):
                if wanted and notes[name]:
                    del notes[name][0]
        order = sorted if len(created) > 1 else list
        need_equal(order(theirs(m)), order(expected()), 'headers that are '
                   'not ours after %s' % (ops,))
        need_equal(m.get_payload(), body, 'body after %s' % (ops,))
        need_equal(sorted(k.lower() for k in m.keys() if k.lower() in OURS),
                   sorted(ours), 'our headers after %s' % (ops,))
        if not (ours or created or any(notes.values())):
            need_equal(m.as_bytes(), original, 'message after %s' % (ops,))
        rec.state((layout, to, subject, tuple(sorted(ours)),
                   tuple(notes['to']), tuple(notes['subject'])))
