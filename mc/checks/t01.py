"""T01: tokenizing never fails, whatever the message."""
import email
import itertools

from mc import core, tok
from mc.core import need

PROPERTY = 'T01'
LEVEL = 'exploration'
RULE = ('(a) every body of up to three (thorough: four) fragments from an '
        'alphabet of markup, URL, entity, uuencode and 8-bit pieces; (b) '
        'every value of up to three (thorough: four) header-significant '
        'fragments for each analysed header; (c) every damaged transfer '
        'encoding x content type x body, alone and in each place of a '
        'multipart; (d) every byte pair; each with the options off, all on, '
        'and one at a time. Non-trivial: all.')
ASSUMPTIONS = ['image text recognition (CRACK_IMAGES) needs an absent '
               'package', 'name lookups are answered by a stand-in']

BODY = [b'<', b'>', b'&#', b'97', b';', b'<!--', b'-->', b'/', b'<style',
        b'</style>', b'http://', b'ftp://', b'a', b' ', b'\n', b'\xff',
        b'begin 644 ', b'end\n', b'@', b'.', b'%', b'%e9%', b':', b'[', b']',
        b'&#99999999999;', b'&#55296;', b'&nbsp;', b'<br>', b'\0',
        b'www.', b'x' * 13, b'\xe9' * 14, b'80', b'?', b'<script',
        b'<noframes>', b'1.2.3.4', b'&#0;', b"'"]
FEW = [b'http://', b'[', b']', b'%', b'a', b'@', b':', b'.', b'/', b'\xff',
       b'%e9%', b'80', b'&#', b';', b'\n', b'www.', b'&#55296;', b'ftp.']

HEADER = [b'a', b'=?utf-8?q?x?=', b'=?utf-8?b?!!?=', b'=?none?q?x?=',
          b'=?utf-8?q?=ff?=', b'=?', b'?=', b'\xff', b'\xc3\xa9', b'<', b'>',
          b'@', b'"', b',', b';', b'=', b'\n ', b'(', b')', b'boundary=',
          b"filename*=", b"utf-8''%ff", b"none''%e9", b'charset=',
          b'text/plain', b'multipart/mixed', b':', b'\\', b'\0', b'10.1.2.3',
          b'from ', b'host.example.com', b'[', b'x.y', b' ', b'name=',
          b'filename*0*=', b'type=', b'message/rfc822', b'=?utf-8?b?x?=',
          b'=?utf-7?q?+?=', b'=?idna?q?x..?=', b'=?utf-8?b?\xe9?=', b"type*=utf-8''%e9",
          b'text/plain; type*0*=x;type*1=y', b'name*0=a; name*2=c', b'=?utf-16?b?/w==?=', b'fe80::1%eth0', b'fe80::1%']
SHORT = [b'a', b'=?utf-8?q?x?=', b'=?utf-8?b?!!?=', b'\xff', b'<', b'@',
         b'"', b',', b';', b'=', b'\n ', b'filename*=', b"utf-8''%ff",
         b'charset=', b'multipart/mixed', b'text/plain', b':', b'10.1.2.3']
NAMES = ['subject', 'from', 'to', 'content-type', 'content-disposition',
         'message-id', 'received', 'nntp-posting-host', 'x-mailer',
         'content-transfer-encoding', 'cc', 'sender', 'reply-to',
         'x-habeas-swe-1', 'mime-version', 'date', 'X-Other', 'organization']
IMPORTANT = NAMES[:8]

TYPES = [b'text/plain', b'text/html', b'text/plain; charset=none',
         b'text/plain; charset="\xff"', b'text/plain; charset=utf-16',
         b'application/octet-stream', b'image/png', b'message/rfc822',
         b'message/delivery-status', b'multipart/mixed', b'text',
         b'multipart/mixed; boundary=""', b'message/external-body',
         b'text/plain; charset*=utf-8\'\'%ff', b'', b'message/partial',
         b'text/plain; charset=idna', b'text/plain; charset=undefined',
         b'multipart/mixed; boundary="XX"', b'text/plain; charset=\0',
         b'image/*', b'text/plain; charset=utf-7', b'application/x; name=""']
ENCODINGS = [None, b'7bit', b'8bit', b'base64', b'quoted-printable',
             b'x-uuencode', b'uuencode', b'none', b'', b'BASE64 ', b'binary',
             b'=?utf-8?q?base64?=', b'\xff', b'x-uue', b'base64; x=y']
BODIES = [b'', b'\n', b'hello world', b'aGVsbG8', b'aGVsbG8=\n', b'a', b'a=',
          b'====', b'!!!!', b'aGVs\nplain text\n', b'aGVsbG8=\nplain\n',
          b'\xff\xfe', b'=ZZ', b'=', b'=\n', b'=C3=A9', b'begin 644 f\n#86)C'
          b'\n \nend\n', b'begin 644 f\nx', b'begin\n', b'--XX\n\na\n--XX--\n',
          b'--XX\n--XX\n', b'--XX', b'Subject: inner\n\ninner', b'\n\n\n',
          b'aGVsb\xff8=', b'\x00', b'Content-Type: text/plain', b'\xc3\xa9',
          b'aGVsbG8aGVsbG8=x\n\xe9', b' ' * 100]

CONFIGS = [(), tok.ALL] + [(o,) for o in tok.ALL] + [
    tuple(o for o in tok.ALL if o != 'FANCY_URL_RECOGNITION')]


def before_import():
    tok.Resolver.install()


def units(tier, seed):
    global THOROUGH
    THOROUGH = t = tier == 'thorough'
    result = []
    for c in (0, 1) + ((len(CONFIGS) - 1,) if t else ()):
        for i in range(len(BODY)):
            result.append(('body', c, i, t))
        result.append(('pairs', c))
        for name in NAMES:
            for i in range(len(HEADER)):
                result.append(('header', c, name, i, SHORT if t else
                               SHORT[:5] if name in IMPORTANT and c == 1
                               else ()))
    for c in range(len(CONFIGS)):
        for i in range(len(TYPES)):
            result.append(('part', c, i, t or c == 1))
        result.append(('few', c, 4 if t and c < 2 else 3 if t or c == 1
                       else 2))
    result += [('built', c) for c in range(len(CONFIGS))]
    return result


def explore(unit, rec):
    kind, c = unit[:2]
    if kind == 'body':
        _, c, i, t = unit
        a = BODY[i]
        rec.run((c, 'body', a))
        for b in BODY:
            rec.run((c, 'body', a + b))
            if t or c == 1:
                for d in BODY if t else BODY[:14]:
                    rec.run((c, 'body', a + b + d))
    elif kind == 'pairs':
        for a in range(256):
            rec.run((c, 'body', bytes([a])))
            rec.run((c, 'header', 'subject', bytes([a])))
            for b in b'<&a ;\xff\n':
                rec.run((c, 'body', bytes([a, b])))
                rec.run((c, 'body', bytes([b, a])))
    elif kind == 'few':
        for k in range(1, unit[2] + 1):
            for s in itertools.product(FEW, repeat=k):
                rec.run((c, 'body', b'http://' + b''.join(s)))
    elif kind == 'built':
        for i in range(len(TYPES)):
            for e in range(len(ENCODINGS) if c < 2 else 2):
                for payload in BUILT:
                    rec.run((c, 'built', i, e, payload))
    elif kind == 'header':
        _, c, name, i, more = unit
        a = HEADER[i]
        rec.run((c, 'header', name, a))
        for b in HEADER:
            rec.run((c, 'header', name, a + b))
            for d in more:
                rec.run((c, 'header', name, a + b + d))
    else:
        _, c, i, more = unit
        for e in range(len(ENCODINGS) if more or c < 2 else 4):
            for b in range(len(BODIES)):
                rec.run((c, 'part', i, e, b, 0))
                if more:
                    for place in (1, 2, 3):
                        rec.run((c, 'part', i, e, b, place))


BUILT = ('none', 'empty', 'text', 'accent', 'snowman', 'surrogate', 'bytes',
         'no parts', 'parts', 'one')


def build(case):
    """A message made by a program instead of parsed."""
    from sbclassifier.message import Message
    _, _, i, e, payload = case
    m = Message()
    if TYPES[i]:
        m['Content-Type'] = TYPES[i].decode('latin-1')
    if ENCODINGS[e] is not None:
        m['Content-Transfer-Encoding'] = ENCODINGS[e].decode('latin-1')
    inner = Message()
    inner.set_payload('inner words')
    text = {'empty': '', 'text': 'some words\n', 'accent': 'd\xe9j\xe0 vu',
            'snowman': '\u2603 snow', 'surrogate': 'x\udce9y \ud800',
            'bytes': None, 'no parts': [], 'parts': [inner, Message()],
            'one': [inner]}
    if payload != 'none' and payload != 'bytes':
        m.set_payload(text[payload])
    elif payload == 'bytes':
        m.set_payload(b'some \xe9 words')
    return m


def leaf(i, e, b):
    text = b'Content-Type: ' + TYPES[i] + b'\n' if TYPES[i] else b''
    if ENCODINGS[e] is not None:
        text += b'Content-Transfer-Encoding: ' + ENCODINGS[e] + b'\n'
    return text + b'\n' + BODIES[b]


def raw(case):
    kind = case[1]
    if kind == 'body':
        return b'Subject: s\n\n' + case[2]
    if kind == 'header':
        value = case[3]
        body = b'\nhello world\n'
        if b'multipart' in value or b'boundary' in value:
            body = b'\n--a\n\nhello\n--a--\n'
        return case[2].encode() + b': ' + value + b'\n' + body
    _, _, i, e, b, place = case
    part = leaf(i, e, b)
    if place == 0:
        return part
    plain = b'Content-Type: text/plain\n\nplain words\n'
    parts = {1: [part], 2: [plain, part], 3: [part, plain]}[place]
    text = b'Content-Type: multipart/mixed; boundary="YY"\n\n'
    for p in parts:
        text += b'--YY\n' + p + b'\n'
    return text + b'--YY--\n'


THOROUGH = True            # (when replaying)


def simple(case):
    if case[1] == 'header':
        return case[3] in HEADER or case[2] in ('subject', 'content-type')
    if case[1] == 'body':
        return len(case[2]) < 8
    return case[5] == 0


def judge(case, rec):
    t = tok.configure(CONFIGS[case[0]])
    rec.step()
    if case[1] == 'built':
        for x in t.tokenize(build(case)):
            need(isinstance(x, bytes), 'token {!r} is not a byte string', x)
        return
    data = raw(case)
    result = tok.tokens(data, t)
    if case[0] == 1 and (THOROUGH or simple(case)):
        for again in (email.message_from_bytes(data),
                      email.message_from_string(data.decode('latin-1')),
                      data.decode('latin-1')):
            for x in t.tokenize(again):
                need(isinstance(x, bytes), 'token {!r} is not a byte string',
                     x)
        if case[1] == 'header':
            for only in (False, True):
                for x in t.tokenize(tok.message(data), True, only):
                    need(isinstance(x, bytes), 'token {!r} is not a byte '
                         'string', x)
    rec.state((case[0], tuple(result)))
