"""M06: recording an exception in a message never damages it."""
import email.header
import itertools
import re

from mc import core
from mc.core import need, need_equal, show

PROPERTY = 'M06'
LEVEL = 'exploration'
RULE = ('every message made of up to two (thorough: three) header lines from '
        'an alphabet x line end x separator form x body form, x exception '
        'texts with every line-break character x id given or not; and every '
        'exception text up to a length over line breaks, colons, spaces and '
        'letters. The result is re-parsed. Non-trivial: all.')
ASSUMPTIONS = ['header sections are well formed: names without spaces, '
               'continuation lines indented, no bare line breaks within']

HEADERS = ['A: b', 'Subject: hello', 'To: a,\n b', 'X-Y:\n\tfolded\n more',
           'Empty:', 'Colon: a: b', 'Accent: caf\xe9', 'A: again',
           'Content-Type: multipart/mixed; boundary="XX"', 'Sp:  two  ',
           'X-Spambayes-MailId: old', 'E: =?utf-8?q?x?=', 'X: \x0b\x0cx']
BODIES = ['', 'body', 'body\n', '\nbody\n', '\n\n', 'A: b\n\nC: d\n',
          'From x\n', 'two\nlines', ' indented\n', '--XX\n\npart\n--XX--\n',
          'X-Spambayes-Exception: no\n', 'a\n\nX-Spambayes-MailId: no\n\n',
          'caf\xe9 \x85 \u2028 end\n']
EOLS = ('\n', '\r\n', '\r')
BREAKS = '\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029'
TEXTS = ['', 'plain', '\n', '\r', '\r\n', '\n\n', '\r\n\r\n', 'a\n\nb',
         'a\r\rb', 'a\nX-Evil: 1', 'a\rX-Evil: 1', 'a\r\nX-Evil: 1\r\n\r\nx',
         'x' * 200, 'x y ' * 60, '\xe9', '\u20ac \U0001f600', '\x00',
         ' ', '\t\n\t', '=?utf-8?q?x?=', '%s %d', '\\', 'caf\udce9',
         'a\n X', 'X-Evil: 1'] + ['a%sX-Evil: 1%sb' % (c, c) for c in BREAKS]
ALPHABET = '\n\r:a \u2028'


def units(tier, seed):
    t = tier == 'thorough'
    result = []
    for eol in EOLS:
        for i in range(-1, len(HEADERS)):
            result.append(('message', eol, i, t))
    result += [('text', a, 6 if t else 4) for a in ALPHABET]
    result += [('texts', i) for i in range(len(TEXTS))]
    return result


def explore(unit, rec):
    kind = unit[0]
    if kind == 'message':
        _, eol, i, t = unit
        first = [] if i < 0 else [i]
        rests = [()] if i < 0 else [
            r for k in range(3 if t else 2)
            for r in itertools.product(range(len(HEADERS)), repeat=k)]
        for rest in rests:
            headers = tuple(first) + rest
            for body in range(len(BODIES)):
                for separator in (True, False):
                    if BODIES[body] and not separator:
                        continue
                    for text in (1, 11):
                        for id in (None, 'an-id'):
                            rec.run((eol, headers, body, separator,
                                     TEXTS[text], id))
            # the header section may end without a line end, too
            rec.run((eol, headers, 0, None, TEXTS[1], 'an-id'))
            rec.run((eol, headers, 0, None, TEXTS[1], None))
    elif kind == 'text':
        for k in range(unit[2]):
            for s in itertools.product(ALPHABET, repeat=k):
                rec.run(('\n', (0, 1), 1, True, unit[1] + ''.join(s), None))
    else:
        text = TEXTS[unit[1]]
        for eol in EOLS:
            for headers in ((), (0,), (1, 2), (3,), (6,)):
                for body in range(len(BODIES)):
                    for id in (None, 'an-id', '', 'a b'):
                        rec.run((eol, headers, body, True, text, id))


class Odd(Exception):
    pass


def squeeze(text):
    return ''.join(text.split())


def header_list(m):
    return [(k, re.sub('\r\n|\r|\n', '\n', v)) for k, v in m.raw_items()]


def judge(case, rec):
    from sbclassifier import message as M
    eol, headers, body, separator, report, id = case
    text = '\n'.join(HEADERS[i] for i in headers)
    if separator is not None and text:
        text += '\n'
    if separator:
        text += '\n' + BODIES[body]
    text = text.replace('\n', eol)
    if not separator and not headers:
        return
    rec.step()
    try:
        raise Odd(report)
    except Odd:
        result = M.insert_exception_header(*((text,) if id is None else
                                             (text, id)))
    need(isinstance(result, tuple) and len(result) == 2, 'returns {!r}',
         result)
    new, details = result
    need(report in details and 'Odd' in details,
         'details {!r} without the exception', details)
    before, after = M.from_string(text), M.from_string(new)
    mine = [('X-Spambayes-Exception', None)]
    if id:
        mine.append(('X-Spambayes-MailId', None))
    want = header_list(before)
    got = header_list(after)
    what = 'in %r: ' % text
    for name, values in (('X-Spambayes-Exception', details),
                         ('X-Spambayes-MailId', id)):
        found = [v for k, v in got if k == name]
        old = [v for k, v in want if k == name]
        for v in old:
            need(v in found, '{}{} {!r} is lost', what, name, v)
            found.remove(v)
        if values:
            need(len(found) == 1, '{}{} new {} headers in {!r}', what,
                 len(found), name, show(new, 2000))
            need(squeeze(values) in (squeeze(found[0]), decoded(found[0])),
                 '{}{} is {!r}, expected {!r}', what, name, found[0], values)
        else:
            need(not found, '{}{} header not asked for', what, name)
    ours = {'X-Spambayes-Exception'} | {'X-Spambayes-MailId'}
    need_equal([(k, v) for k, v in got if k not in ours],
               [(k, v) for k, v in want if k not in ours], what + 'headers')
    need_equal(bodies(after), bodies(before), what + 'body')
    # the body itself, untouched
    if separator and BODIES[body]:
        need(new.endswith(BODIES[body].replace('\n', eol)),
             '{}body text changed to {!r}', what, show(new, 2000))
    # what was added has proper line ends
    added = new
    if separator and BODIES[body]:
        added = new[:-len(BODIES[body].replace('\n', eol))]
    start = added.rindex('X-Spambayes-Exception')
    need(not re.search(r'(?<!\r)\n|\r(?!\n)', added[start:]) and
         added.endswith('\r\n\r\n'),
         '{}line ends of the added headers: {!r}', what,
         show(added[start:], 2000))
    need(not headers or added[:start].endswith((eol, '\r\n')),
         '{}line end before the added headers: {!r}', what,
         show(added, 2000))
    rec.state((eol, headers, body, separator, bool(id)))


def decoded(value):
    try:
        return squeeze(str(email.header.make_header(
            email.header.decode_header(value))))
    except (UnicodeError, LookupError, ValueError):
        return None


def bodies(m):
    if m.is_multipart():
        return [bodies(p) for p in m.get_payload()]
    return m.get_payload()
