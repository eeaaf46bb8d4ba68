"""M05: message text always uses CRLF line ends and re-parses the same."""
import email
import email.generator
import io
import itertools
import re

from mc import core, mail
from mc.core import need, need_equal, show

PROPERTY = 'M05'
LEVEL = 'exploration'
RULE = ('(a) force_crlf on every string up to a length over CR, LF, other '
        'line separators and text; (b) as_string (and its From option) of '
        'the message parsed from every text and every byte string up to a '
        'length over CR, LF, colon, space and letters after several header '
        'sections; (c) every MIME tree up to a size x line ends x encodings '
        'x boundaries; (d) messages built in memory. Non-trivial: the text '
        'has a line end.')
ASSUMPTIONS = ['header sections are well formed when fidelity is compared: '
               'what the email package itself does not write back is judged '
               'on line ends only']


def units(tier, seed):
    t = tier == 'thorough'
    n = 8 if t else 6
    result = [('crlf', a + b, n - 2) for a in '\r\nab\x85\u2028'
              for b in '\r\nab\x85\u2028']
    for how in ('string', 'bytes'):
        for prefix in PREFIXES:
            for a in ALPHABET:
                for b in ALPHABET:
                    result.append(('text', how, prefix, a + b,
                                   5 if t else 3))
    for eol in EOLS:
        for kind in KINDS:
            result.append(('tree', eol, kind, t))
    for eol in EOLS:
        result.append(('raw', eol))
    result.append(('built',))
    return result


ALPHABET = '\r\na: '
PREFIXES = ('', 'S: x', 'S: x\n\n', 'S: x\r\n\r\n', 'S: x\r\r', 'S: x\n y\n',
            'S: x\n\nFrom ', 'S: x\n\n>From a\n')
EOLS = ('\n', '\r\n', '\r')
KINDS = ('text', 'html', 'empty', 'from', 'base64', 'qp', '8bit', 'rfc822',
         'utf8', 'nonl', 'blank', 'report')
BOUNDARIES = ('XX', '=_x', "b'()+_,-./:=?")


def explore(unit, rec):
    kind = unit[0]
    if kind == 'crlf':
        for k in range(unit[2] + 1):
            for s in itertools.product('\r\nab\x85\u2028', repeat=k):
                text = unit[1] + ''.join(s)
                rec.run(('crlf', text), '\r' in text or '\n' in text)
    elif kind == 'text':
        _, how, prefix, start, n = unit
        for k in range(n + 1):
            for s in itertools.product(ALPHABET, repeat=k):
                text = prefix + start + ''.join(s)
                rec.run((how, text), '\r' in text or '\n' in text)
    elif kind == 'tree':
        _, eol, a, t = unit
        for boundary in BOUNDARIES:
            rec.run(('tree', eol, boundary, (a,)))
            for b in KINDS:
                rec.run(('tree', eol, boundary, (a, b)))
                rec.run(('tree', eol, boundary, ((a, b),)))
                if t or boundary == 'XX' and eol == '\n':
                    for c in KINDS:
                        rec.run(('tree', eol, boundary, (a, b, c)))
                        rec.run(('tree', eol, boundary, ((a, b), c)))
                        rec.run(('tree', eol, boundary, (a, (b, c))))
        rec.run(('tree', eol, 'XX', a))
    elif kind == 'raw':
        for name in mail.RAW:
            rec.run(('raw', unit[1], name))
    else:
        for name in BUILT:
            rec.run(('built', name))


PART = {
    'text': ('Content-Type: text/plain', 'some text\nmore\n'),
    'html': ('Content-Type: text/html; charset=utf-8', '<b>x</b>\n\n'),
    'empty': ('Content-Type: text/plain', ''),
    'from': ('', 'From here\n>From there\nFrom\n from\n'),
    'base64': ('Content-Transfer-Encoding: base64', 'aGVsbG8gd29ybGQ=\n'),
    'qp': ('Content-Transfer-Encoding: quoted-printable',
           'caf=C3=A9 soft=\nbreak =3D\n'),
    '8bit': ('Content-Type: text/plain; charset=latin-1\n'
             'Content-Transfer-Encoding: 8bit', 'd\xe9j\xe0 vu\n'),
    'utf8': ('Content-Type: text/plain; charset=utf-8\n'
             'Content-Transfer-Encoding: 8bit', 'd\xc3\xa9j\xc3\xa0\n'),
    'rfc822': ('Content-Type: message/rfc822', 'Subject: inner\n\ninner\n'),
    'nonl': ('Content-Type: text/plain', 'no line end'),
    'blank': ('X-A: b', '\n\n\nblank\n\n'),
    'report': ('Content-Type: message/delivery-status',
               'A: b\nC: d\n\nE: f\n\n'),
}


def part(kind, boundary, depth=0):
    if isinstance(kind, str):
        header, body = PART[kind]
        return (header + '\n' if header else '') + '\n' + body
    b = boundary + 'abc'[depth]
    text = 'Content-Type: multipart/mixed; boundary="%s"\n\n' % b
    if depth == 0:
        text += 'preamble\n'
    for k in kind:
        text += '--%s\n%s\n' % (b, part(k, boundary, depth + 1))
    return text + '--%s--\n' % b


def leaves(m):
    if m.is_multipart():
        result = []
        for p in m.get_payload():
            result += leaves(p)
        return [(m.get_content_type(), 'multipart',
                 [lines(m.preamble), lines(m.epilogue)])] + result
    data = m.get_payload(decode=True)
    return [(m.get_content_type(), m.get('Content-Transfer-Encoding'),
             charset_free(m, data))]


def charset_free(m, data):
    # (as_string may recode text sent as 8bit in a transfer encoding)
    try:
        return lines(data.decode(m.get_content_charset('latin-1')))
    except (LookupError, UnicodeError):
        return lines(data.decode('latin-1'))


def lines(text):
    return text and re.sub('\r\n|\r|\n', '\n', text)


def header_list(m):
    return [(k, lines(str(v))) for k, v in m.items()]


def snapshot(m):
    return (m.items(), m.get_unixfrom(), m.preamble, m.epilogue,
            m.id(), m.classification(), m.is_trained(), m.get_charset(),
            m.get_default_type(),
            [(p.items(), str(type(p)), p.preamble, p.epilogue,
              None if p.is_multipart() else p.get_payload())
             for p in m.walk()], [type(d) for d in m.defects])


def bare(text):
    return re.search(r'(?<!\r)\n|\r(?!\n)', text)


def with_envelope(m):
    text = text_of(m, unixfrom=True)
    line = m.get_unixfrom()
    need(text.startswith('From ' if line is None else line + '\r\n') and
         text.endswith('\r\n' + m.as_string()) and
         '\n' not in text[:-len(m.as_string()) - 1],
         'text with envelope {!r} is {!r}', line, text)


def text_of(m, **kw):
    before = snapshot(m)
    text = m.as_string(**kw)
    need(isinstance(text, str), 'as_string() returns {}', type(text))
    found = bare(text)
    need(not found, 'bare line end at {} in {!r}', found and found.start(),
         text)
    need_equal(snapshot(m), before, 'message after as_string()')
    if not kw.get('unixfrom'):          # (which may contain the time)
        need_equal(m.as_string(**kw), text, 'second as_string()')
    return text


def judge(case, rec):
    from sbclassifier import message as M
    kind = case[0]
    rec.step()
    if kind == 'crlf':
        got = M.force_crlf(case[1])
        need_equal(got, crlf(case[1]), 'force_crlf(%r)' % case[1])
        need_equal(M.force_crlf(got), got, 'force_crlf again')
        rec.state(case[1])
        return
    if kind == 'built':
        m = BUILT[case[1]](M)
        text_of(m)
        if case[1] == 'strange':        # (written part by part)
            text_of(m, unixfrom=True)
            return
        with_envelope(m)
        m.set_unixfrom('From a@b.org Thu Jan  1 00:00:00 2004')
        with_envelope(m)
        return
    if kind == 'tree':
        text = part(case[3], case[2])
        text = 'From: f@x.org\nSubject: s\nMIME-Version: 1.0\n' + text
        data = text.replace('\n', case[1]).encode('latin-1')
        m = M.from_bytes(data)
    elif kind == 'raw':
        data = mail.RAW[case[2]].replace(b'\r\n', b'\n').replace(
            b'\n', case[1].encode())
        m = M.from_bytes(data)
    elif kind == 'bytes':
        data = case[1].encode()
        m = M.from_bytes(data)
    else:
        data = case[1]
        m = M.from_string(data)
    faithful = text_of(m, mangle_from_=False)
    text = text_of(m)
    with_envelope(m)
    need_equal(re.sub('(?m)^>From ', 'From ', text),
               re.sub('(?m)^>From ', 'From ', faithful),
               'text with and without quoting')
    if not preserved(data):
        return
    again = M.from_string(faithful)
    need_equal(header_list(again), header_list(m), '%r: headers after '
               're-parsing' % data)
    need_equal(bodies(again), bodies(m), '%r: bodies after re-parsing'
               % data)
    need_equal(M.from_string(text).as_string(), text,
               '%r: text after re-parsing' % data)
    need_equal(again.as_string(mangle_from_=False), faithful,
               '%r: faithful text after re-parsing' % data)
    rec.state(text)


def bodies(m):
    return leaves(m)


def preserved(data):
    """Does the email package itself preserve this when written with LF?"""
    parse = email.message_from_string if isinstance(data, str) else \
        email.message_from_bytes
    m = parse(data)
    fp = io.StringIO()
    email.generator.Generator(fp, mangle_from_=False).flatten(m)
    n = email.message_from_string(lines(fp.getvalue()))
    return header_list(n) == header_list(m) and bodies(n) == bodies(m)


def crlf(text):
    result = ''
    i = 0
    while i < len(text):
        if text[i] == '\r':
            i += 1 if text[i + 1:i + 2] != '\n' else 2
            result += '\r\n'
        elif text[i] == '\n':
            i += 1
            result += '\r\n'
        else:
            result += text[i]
            i += 1
    return result


def built(*headers, payload=None, parts=None):
    def make(M):
        m = M.Message()
        for k, v in headers:
            m[k] = v
        if payload is not None:
            m.set_payload(payload)
        for p in parts or ():
            m.attach(p(M))
        return m
    return make


BUILT = {
    'nothing': built(),
    'header': built(('A', 'b')),
    'body': built(payload='x\ny\rz\r\n'),
    'both': built(('A', 'b\n c'), payload='x'),
    'parts': built(('Content-Type', 'multipart/mixed; boundary="B"'),
                   parts=[built(payload='a\n'), built(payload='b')]),
    'strange': built(('Content-Type', 'text/plain'),
                     parts=[built(payload='a\n'), built(payload='b')]),
    'nested': built(('Content-Type', 'multipart/alternative; boundary="A"'),
                    parts=[built(('Content-Type', 'multipart/mixed; boundary="B"'),
                                 parts=[built(payload='\r')])]),
    'mixed up': built(('Content-Type', 'message/rfc822'),
                      parts=[built(('S', 't'), payload='b\n')]),
}
