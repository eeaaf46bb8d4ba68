"""T08: section removal keeps exactly the text outside matched sections."""
import itertools
import re

from mc.core import need

PROPERTY = 'T08'
LEVEL = 'exploration'
RULE = ('every sequence of up to five (thorough: six) fragments (starts and '
        'ends in several spellings, near misses, text) for each kind of '
        'section; every string of up to nine (thorough: eleven) characters '
        'over a start, an end and text for a stripper of one\'s own, whose '
        'tokens are also compared; every one or two fragments with 300 to '
        '131000 (thorough: 1100000) characters of text before, between or '
        'after them. Non-trivial: all.')
ASSUMPTIONS = ['text is in lower case, as the tokenizer passes it',
               'blank lines after the end of a uuencoded section are not '
               'used']

COMMENT = [b'<!--', b'-->', b'<comment>', b'</comment>', b'a', b' ', b'--',
           b'< comment x>', b'<!-', b'->', b'>', b'<comment', b'\xe9\n',
           b'< \n\tcomment\n>', b'<', b'-']
STYLE = [b'<style>', b'</style>', b'a', b'<style x="y">', b'<styles>', b'<',
         b'< \tstyle\n>', b'</style', b'>', b'<style', b' ', b'</ style>',
         b'</styles>', b'\xe9\n']
NOFRAMES = [b'<noframes>', b'</noframes>', b'a', b'< noframes\n>', b'<', b'>',
            b'</noframes \t>', b'<noframes x>', b'<noframes', b'</noframes',
            b' ', b'\xe9\n', b'</ noframes>', b'noframes>']
UU = [b'begin 644 a.txt\n', b'end\n', b'text\n', b'begin\t600  b c.d\n',
      b'begin  755\tx/y.z \n', b'xbegin 644 a\n', b'sender\n', b' end\n',
      b'endless\n', b'm123 45\n', b'end \t\n', b'\xe9nd\n', b' begin 6 a\n',
      b'end x\n', b'beginning of it\n', b'begin rw- x\n', b'begin 644 a+b$c\n',
      b'begin 6 a b\n']
LAST = [b'', b'end', b'begin 644 q', b'text', b'begin 644 q ']
URL = [b'http://', b'https://', b'ftp://', b'a', b' ', b'<', b'/b.c', b'"',
       b'://', b'http:/', b'\n', b'\xe9', b'>', b"'", b'xhttp://y',
       b'\x7f', b'gopher://', b'?']
# in the place of which long text is used
GAP, RUN = b'\x01\n', b'\x02'
TAGS = {'style': [b'<style x="' + RUN + b'">', b'<  style ' + RUN + b'>'],
        'comment': [b'<comment ' + RUN + b'>']}
LONG = [300, 4096, 65600, 131000, 1100000]
SPACE = b' \t\n\r\x0b\x0c'

KINDS = {'comment': COMMENT, 'style': STYLE, 'noframes': NOFRAMES, 'uu': UU,
         'url': URL}


def units(tier, seed):
    t = tier == 'thorough'
    result = [(k, i, j, 6 if t else 5 if k != 'url' else 4)
              for k in KINDS for i in range(len(KINDS[k]))
              for j in range(len(KINDS[k]))]
    result += [('long', k, i, t) for k in KINDS for i in range(len(KINDS[k]))]
    result += [('own', a, b, 11 if t else 9) for a in '()a' for b in '()a']
    return result


def explore(unit, rec):
    if unit[0] == 'long':
        _, kind, i, t = unit
        a = KINDS[kind][i]
        for n in LONG[:None if t else -1]:
            for tag in TAGS.get(kind, ()):
                for case in ((tag, a), (a, tag), (tag, b'x', a), (b'y', a)):
                    rec.run(('long', kind, b''.join(case), n))
        for n in LONG[:None if t else -1]:
            gap = GAP if kind == 'uu' else b'\n' + GAP
            for b in KINDS[kind] + [b'']:
                for case in ((gap, a, b), (a, gap, b), (a, b, gap)) + (
                        ((b' ', a, RUN, b),) if kind == 'url' else ()):
                    rec.run(('long', kind, b''.join(case), n))
        return
    kind, i, j, n = unit
    alphabet = KINDS.get(kind)
    if kind == 'uu' and i == j:
        for c in range(33, 127):
            # every character in a mode, a name, and a path
            for s in '%c', 'a%c', 'a%cb', 'x/%cy', '%c/z', 'a.%c%c':
                name = s.replace('%c', chr(c)).encode()
                rec.run((kind, alphabet[i] + b'begin ' + name + b' ' + name
                         + b'\nm123\nend\n'))
    if kind == 'own':
        for k in range(n - 1):
            for rest in itertools.product('()a', repeat=k):
                rec.run((kind, i + j + ''.join(rest)))
        if i == j == '(':
            rec.run((kind, ''))
            for c in '()a':
                rec.run((kind, c))
        return
    if j == 0:
        rec.run((kind, alphabet[i]))
    for k in range(n - 1):
        few = alphabet if k < 3 else alphabet[:8] if k < 4 else alphabet[:6]
        for rest in itertools.product(few, repeat=k):
            text = alphabet[i] + alphabet[j] + b''.join(rest)
            if kind == 'uu':
                for last in LAST if k < 3 else LAST[:1]:
                    rec.run((kind, text + last))
            else:
                rec.run((kind, text))


def skip_space(text, i):
    while i < len(text) and text[i] in SPACE:
        i += 1
    return i


def tag(text, i, name):
    """The position after '<', white space, and name at i, or None."""
    if text[i:i + 1] != b'<':
        return None
    k = skip_space(text, i + 1)
    return k + len(name) if text.startswith(name, k) else None


def word(c):
    return c.isalnum() or c == b'_'


def start_at(kind, text, i):
    """The end of the start marker at i, or None."""
    if kind == 'comment':
        if text.startswith(b'<!--', i):
            return i + 4
        k = tag(text, i, b'comment')
    elif kind == 'style':
        k = tag(text, i, b'style')
        if k is not None and word(text[k:k + 1]):
            return None
    elif kind == 'noframes':
        k = tag(text, i, b'noframes')
        if k is None:
            return None
        k = skip_space(text, k)
        return k + 1 if text[k:k + 1] == b'>' else None
    elif kind == 'uu':
        if i and text[i - 1:i] != b'\n':
            return None
        line = text[i:].split(b'\n')[0]
        parts = line.split()
        if line[:5] == b'begin' and line[5:6].isspace() and len(parts) == 3:
            return i + len(line)
        return None
    else:
        for p in b'https://', b'http://', b'ftp://':
            if text.startswith(p, i):
                k = i + len(p)
                while k < len(text) and text[k] not in SPACE + b'<>"\'' and \
                        text[k] < 127:
                    k += 1
                return k if k > i + len(p) else None
        return None
    if k is None:
        return None
    end = text.find(b'>', k)
    return end + 1 if end >= 0 else None


def end_at(kind, text, i):
    """The end of the end marker at i, or None."""
    if kind == 'comment':
        for e in b'-->', b'</comment>':
            if text.startswith(e, i):
                return i + len(e)
    elif kind == 'style':
        return i + 8 if text.startswith(b'</style>', i) else None
    elif kind == 'noframes':
        if text.startswith(b'</noframes', i):
            k = skip_space(text, i + 10)
            return k + 1 if text[k:k + 1] == b'>' else None
    elif kind == 'uu':
        line, n, _ = text[i:].partition(b'\n')
        if n and line.rstrip() == b'end' and (not i or
                                              text[i - 1:i] == b'\n'):
            return i + len(line) + 1
    else:
        return i
    return None


def strip(kind, text):
    """(text outside, starts)"""
    outside, starts = b'', 0
    i = 0
    while i < len(text):
        k = start_at(kind, text, i)
        if k is None:
            outside += text[i:i + 1]
            i += 1
            continue
        starts += 1
        for e in range(k, len(text) + 1):
            end = end_at(kind, text, e)
            if end is not None:
                break
        else:
            return outside + text[i:], starts
        i = end
    return outside, starts


_strippers = {}


def stripper(kind):
    from sbclassifier import strippers as s
    if not _strippers:
        _strippers.update(comment=s.CommentStripper, style=s.StyleStripper,
                          noframes=s.NoframesStripper,
                          uu=s.UUencodeStripper(), url=s.URLStripper())

        class Own(s.Stripper):
            separator = b'|'

            def tokenize(self, m):
                return [m.start(), b'token']

        _strippers['own'] = Own(re.compile(br'\(').search,
                                re.compile(br'\)').search)
        _strippers['plain'] = s.Stripper(re.compile(br'\(').search,
                                         re.compile(br'\)').search)
    return _strippers[kind]


def own(text):
    pieces, tokens = [], []
    i = 0
    while True:
        a = text.find(b'(', i)
        if a < 0:
            return pieces + [text[i:]], tokens
        pieces.append(text[i:a])
        tokens += [a, b'token']
        b = text.find(b')', a + 1)
        if b < 0:
            return pieces + [text[a:]], tokens
        i = b + 1


def judge(case, rec):
    rec.step()
    kind, text = case[:2]
    if kind == 'own':
        text = text.encode()
        pieces, tokens = own(text)
        got = stripper('own').analyze(text)
        need(got[0] == b'|'.join(pieces) and list(got[1]) == tokens,
             'own stripper of {!r}: {!r}, expected {!r}', text, got,
             (b'|'.join(pieces), tokens))
        got = stripper('plain').analyze(text)
        need(got[0] == b''.join(pieces) and not list(got[1]),
             'stripper of {!r}: {!r}, expected {!r}', text, got,
             (b''.join(pieces), []))
        return
    if kind == 'long':
        kind, text, n = case[1:]
        want, starts = strip(kind, text)
        text, want = [x.replace(GAP, (b'text ' * n)[:n] + b'\n')
                      .replace(RUN, b'x' * n) for x in (text, want)]
        got, tokens = stripper(kind).analyze(text)
        if got != want:
            got, want, text = [x if len(x) < 100 else x[:40] + b'...' + x[-40:]
                               for x in (got, want, text)]
            need(False, '{} sections removed from {!r}: {!r}, expected {!r}',
                 kind, text, got, want)
        return
    got, tokens = stripper(kind).analyze(text)
    want, starts = strip(kind, text)
    need(got == want, '{} sections removed from {!r}: {!r}, expected {!r}',
         kind, text, got, want)
    need(starts or not tokens, 'tokens {!r} of {!r} without a section',
         tokens, text)
    if kind == 'uu':
        names = ['%s' % x for x in uu_clues(text)]
        need([x if isinstance(x, str) else x.decode('latin-1')
              for x in tokens] == names,
             'sections of {!r} reported as {!r}, not {!r}', text, tokens,
             names)
    rec.state((kind, want))


def uu_clues(text):
    """The mode and the file name of each start that opens a section (also
    of one that is not closed)."""
    i = 0
    while i < len(text):
        k = start_at('uu', text, i)
        if k is None:
            i += 1
            continue
        _, mode, name = text[i:k].decode('latin-1').split()
        yield 'uuencode mode:' + mode
        yield 'uuencode:fname:' + name
        parts = split(name, '/\\:')
        for part in parts:
            if len(parts) > 1:
                yield 'uuencode:fname comp:' + part
            pieces = split(part, ';?:@&=+,$.')
            if len(pieces) > 1:
                for x in pieces:
                    yield 'uuencode:fname piece:' + x
        i = next((e for e in (end_at('uu', text, j)
                              for j in range(k, len(text) + 1))
                  if e is not None), len(text))


def split(text, marks):
    result = ['']
    for c in text:
        if c in marks:
            result.append('')
        else:
            result[-1] += c
    return result
