"""T02: tokenizing is repeatable and independent of everything else."""
import email
import json
import os
import subprocess
import sys

from mc import core, mail, sched, tok
from mc.core import need, need_equal, show

PROPERTY = 'T02'
LEVEL = 'model_checking'
RULE = ('(a) every sequence of two (thorough: three) messages out of 30 x '
        'options, tokenized one after the other from shared or fresh '
        'objects, and of pairs that differ at one end of one item only; (b) every pair of messages x every point at which the '
        'tokenizing of one is suspended for the other (thorough: every two '
        'points) or abandoned; (c) other processes with other hash seeds and '
        'orders; (d) every schedule of two or three tokenizing threads up to '
        'a preemption bound, at line and at bytecode granularity. The tokens '
        'are compared with those of a process that did nothing else. '
        'Non-trivial: more than one tokenizing.')
ASSUMPTIONS = ['name lookups are answered by a stand-in']

MESSAGES = {
    'rich': b'From: "Ann Lee" <ann@example.com>, bob@x.org\nTo: a@h.com, '
            b'b@h.com\nCc: =?utf-8?q?caf=C3=A9?= <c@h.com>\nSubject: Buy '
            b'=?latin-1?q?=E9t=E9?= NOW!!! 50% $9.95\nReceived: from '
            b'mail.example.com ([10.1.2.3]) by h (may be forged)\nReceived: '
            b'from other.example.org (192.0.2.1)\nMessage-Id: <1@h.org>\n'
            b'X-Mailer: Some  Mailer\nNNTP-Posting-Host: host.example.com\n'
            b'Date: x\ndate: y\nOrganization: z\nX-Habeas-SWE-1: winter into '
            b'spring\nX-Habeas-SWE-2: bad\n\nSome words http://u:p@site.com:8'
            b'0/a%41b?c=d and ftp://x.y/ z a b c <b>bold</b> <!-- no --> '
            b'extraordinarily long words\xe9\xe9\xe9abcdefghij me@example.org '
            b'begin 644 f.txt\n',
    'uu': b'Subject: uu\n\nbefore\nbegin 644 a/b.c.d\nM123456\nend\nafter '
          b'begin 600 x\n',
    'html': b'Subject: h\nContent-Type: text/html; charset="UTF-8"\n\n<style>'
            b'hidden</style>shown<br>next&nbsp;one&#97;two<noframes>gone'
            b'</noframes><script>x</script><img src="cid:1" width=0>',
    'html open': b'Subject: h\nContent-Type: text/html\n\nwords <style> '
                 b'<!-- <noframes> open sections',
    'octet': b'Subject: o\nContent-Type: application/octet-stream; name=x.exe'
             b'\nContent-Disposition: attachment; filename="a/b.c.exe"\n\n'
             b'MZabcdef',
    'image': b'Content-Type: image/gif\nContent-Transfer-Encoding: base64\n\n'
             b'aGVsbG8gd29ybGQ=\n',
    'bad base64': b'Content-Transfer-Encoding: base64\n\naGVsbG8\nplain text '
                  b'follows\n',
    'many to': b'To: ' + b', '.join(b'u%d@h.com' % i for i in range(9)) +
               b'\nSubject: same\n\nx',
    'ip host': b'NNTP-Posting-Host: 10.1.2.3\nSubject: same\n\nwww.x.com yes',
    'v6 host': b'NNTP-Posting-Host: fe80::1\nSubject: Same\n\nwww.x.com no',
    'mixed': b'Content-Type: multipart/mixed; boundary=B\n\n--B\n\nfirst part'
             b'\n--B\nContent-Type: text/html; charset=none\n\n<p>second '
             b'http://one.two/three\n--B\nContent-Type: image/png\n\nabc\n'
             b'--B--\n',
    'charsets': b'Subject: =?none?q?abc?= =?utf-8?b?!!?=\nContent-Type: '
                b'text/plain; charset="\xff"\n\n\xff\xfe words',
    'urls': b'Subject: u\n\n' + b'http://a.b/c http://d.e/f?g=h ' * 2,
    'short': b'a: b\n\nhello',
    'short2': b'a: b\n\nworld wide',
}
MESSAGES.update(mail.RAW)
NAMES = list(MESSAGES)
SMALL = ['short', 'short2', 'uu', 'urls', 'ip host', 'html open']
ONE_BY_ONE = ('SUMMARIZE_EMAIL_PREFIXES', 'COUNT_ALL_HEADER_LINES',
              'X_PICK_APART_URLS', 'X_MINE_NNTP_HEADERS', 'X_SHORT_RUNS')
OPTIONS = {'none': (), 'all': tok.ALL}
OPTIONS.update((x, (x,)) for x in ONE_BY_ONE)

PAIRS = [('short', 'short2'), ('uu', 'urls'), ('urls', 'urls'),
         ('short', 'html open'), ('ip host', 'v6 host'), ('uu', 'uu'),
         ('rich', 'short')]


# messages that differ only at the end or at the start of one item
FIELDS = {
    'subject': b'Subject: %s\n\nx', 'name': b'From: %s <a@b.com>\n\nx',
    'address': b'To: %s@b.com, c@d.org\n\nx',
    'domain': b'Cc: a@%s.com\n\nx', 'mailer': b'X-Mailer: %s\n\nx',
    'received': b'Received: from %s.org ([10.1.2.3])\n\nx',
    'id': b'Message-Id: <1@%s>\n\nx', 'other': b'X-Some: %s\n\nx',
    'field': b'X-%s: value\n\nx',
    'type': b'Content-Type: text/%s\n\nx',
    'charset': b'Content-Type: text/plain; charset=%s\n\nx',
    'disposition': b'Content-Disposition: %s\n\nx',
    'file': b'Content-Disposition: inline; filename="%s"\n\nx',
    'host': b'NNTP-Posting-Host: %s.com\n\nx',
    'habeas': b'X-Habeas-SWE-1: winter into spring%s\n\nx',
    'word': b'Subject: s\n\none %s two', 'tag': b'a: b\n\n<%s> word',
    'url': b'a: b\n\nhttp://%s/x', 'path': b'a: b\n\nhttp://a.b/%s?x',
    'uu': b'a: b\n\nbegin 644 %s\nM12\nend\n',
    'style': b'a: b\n\n<style %s>hidden</style> shown',
    'body': b'a: b\n\n%s and more', 'octets':
    b'Content-Type: application/octet-stream\n\n%s',
    'part': b'Content-Type: multipart/mixed; boundary=B\n\n--B\n\nsome\n--B'
            b'\n\n%s\n--B--\n',
}
LENGTHS = (0, 1, 2, 5, 9, 19, 31, 39, 64, 100, 127, 128, 255, 256, 1000)
ENDS = (b'k', b'm', b'K')


def alike(name):
    _, field, n, at_start, end = name
    same = b'abcde' * (n // 5) + b'abcde'[:n % 5]
    return FIELDS[field] % (
        ENDS[end] + same if at_start else same + ENDS[end])


def before_import():
    sched.install()


def setup():
    tok.Resolver.install()


def units(tier, seed):
    t = tier == 'thorough'
    result = [('same', n) for n in NAMES]
    result += [('alike', f) for f in FIELDS]
    result += [('seed', s) for s in range(24 if t else 8)]
    result += [('sequence', n, t) for n in NAMES]
    result += [('suspend', n, m, t) for n in NAMES for m in NAMES
               if t or m == n or m in SMALL or m == 'rich']
    for i, (n, m) in enumerate(PAIRS):
        if not t and i in (3, 5, 6):
            continue
        parts = 16 if t else 4
        bound = 2 if t and i in (0, 3, 4) else 1
        result += [('threads', (n, m), o, 'line',
                    bound if o == 'none' else 1, p, parts)
                   for o in (('none', 'all') if t or i == 4 else ('none',))
                   for p in range(parts)]
        if t or i < 1:
            result += [('threads', (n, m), 'none', 'opcode', 1, p, parts)
                       for p in range(parts)]
    result += [('threads', x, 'none', 'line', 1, p, 16)
               for x in [('short', 'uu', 'urls'), ('short', 'short2',
                                                   'short')]
               for p in range(16) if t]
    return result


def explore(unit, rec):
    start_server()
    kind = unit[0]
    if kind == 'same':
        for o in OPTIONS:
            for how in HOW:
                rec.run(('sequence', o, how, [unit[1]] * 3))
    elif kind == 'alike':
        for n in LENGTHS:
            for start in (0, 1):
                names = [('alike', unit[1], n, start, end) for end in range(3)]
                for o in ('none', 'all'):
                    for a, b in ((0, 1), (0, 2), (2, 1)):
                        rec.run(('sequence', o, 'fresh',
                                 [names[a], names[b], names[a]]))
    elif kind == 'seed':
        rec.run(unit)
    elif kind == 'sequence':
        for m in NAMES:
            for o in OPTIONS:
                rec.run(('sequence', o, 'fresh', [unit[1], m, unit[1]]))
            if unit[2]:
                for k in NAMES:
                    rec.run(('sequence', 'all', 'fresh',
                             [m, k, unit[1], m]))
                    rec.run(('sequence', 'none', 'shared',
                             [m, k, unit[1], m]))
    elif kind == 'suspend':
        _, n, m, t = unit
        for o in ('none', 'all') if t else ('all',):
            size = len(baseline(o, 'fresh', n))
            other = len(baseline(o, 'fresh', m))
            for i in range(size + 1):
                rec.run(('suspend', o, n, m, i, -1))
                if t and o == 'all' and m in SMALL:
                    for j in range(other + 1):
                        rec.run(('suspend', o, n, m, i, j))
            if n == m:
                for i in range(size + 1):
                    rec.run(('twice', o, n, i))
                    rec.run(('abandon', o, n, i))
    else:
        _, names, options, grain, bound, part, parts = unit

        def run(switches):
            rec.run(('threads', names, options, grain, switches))
            return _last[0]

        sched.explore(run, bound, part, parts)


def build(how, name):
    raw = alike(name) if isinstance(name, tuple) else MESSAGES[name]
    if how == 'email':
        return email.message_from_bytes(raw)
    if how == 'str':
        return raw.decode('ascii', 'surrogateescape')
    return tok.message(raw)


HOW = ('fresh', 'shared', 'email', 'str')
_baseline = {}
_last = [None]
_shared = {}


def serve(requests, answers):
    """Tokenize each message in a process of its own, forked from this one,
    which never tokenizes."""
    for line in requests:
        pid = os.fork()
        if pid == 0:
            o, how, name = core.unpack(json.loads(line))
            try:
                t = tok.configure(OPTIONS[o])
                x = core.pack(list(t.tokenize(build(how, name))))
            except BaseException as e:
                x = 'raised ' + core.describe(e)
            answers.write(json.dumps(x) + '\n')
            answers.flush()
            os._exit(0)
        os.waitpid(pid, 0)


_server = []


def start_server():
    """To be called before this process tokenizes anything."""
    if _server:
        return
    r, w = os.pipe()
    r2, w2 = os.pipe()
    if os.fork() == 0:
        try:
            os.close(w)
            os.close(r2)
            serve(os.fdopen(r), os.fdopen(w2, 'w'))
        finally:
            os._exit(0)
    os.close(r)
    os.close(w2)
    _server.extend((os.fdopen(w, 'w'), os.fdopen(r2)))


def baseline(o, how, name):
    """The tokens found by a process that did nothing else."""
    if how != 'str':
        how = 'fresh'
    key = o, how, name
    if key not in _baseline:
        out, answers = _server
        out.write(json.dumps(core.pack(key)) + '\n')
        out.flush()
        data = json.loads(answers.readline())
        need(not isinstance(data, str), 'message {}: {}', name, data)
        _baseline[key] = list(core.unpack(data))
    return _baseline[key]


def snapshot(m):
    if isinstance(m, str):
        return m
    return (m.items(), m.get_unixfrom(), m.get_charset(), m.preamble,
            m.epilogue, m.get_default_type(),
            [snapshot(p) for p in m.get_payload()] if m.is_multipart()
            else m.get_payload())


def same(got, want, what):
    if got != want:
        for i, (a, b) in enumerate(zip(got, want)):
            if a != b:
                break
        else:
            i = min(len(got), len(want))
        raise core.Violation('%s: %d tokens instead of %d; from token %d on '
                             'they are %s instead of %s' %
                             (what, len(got), len(want), i,
                              show(got[i:i + 5]), show(want[i:i + 5])))


def judge(case, rec):
    start_server()
    kind = case[0]
    if kind == 'sequence':
        _, o, how, names = case
        t = tok.configure(OPTIONS[o])
        for name in names:
            if how == 'shared':
                m = _shared.get(name) or build(how, name)
                _shared[name] = m
            else:
                m = build(how, name)
            before = snapshot(m)
            same(list(t.tokenize(m)), baseline(o, how, name),
                 'message %s in the sequence %r' % (name, names))
            need_equal(snapshot(m), before, 'tokenizing changed a message')
            rec.step()
        rec.state((o, tuple(names)))
    elif kind == 'suspend':
        _, o, n, m, i, j = case
        t = tok.configure(OPTIONS[o])
        a, b = build('fresh', n), build('fresh', m)
        x, y = iter(t.tokenize(a)), iter(t.tokenize(b))
        got = [next(x) for _ in range(i)]
        if j < 0:
            other = list(y)
            got += x
        else:
            other = [next(y) for _ in range(j)]
            got += x
            other += y
        same(got, baseline(o, 'fresh', n), 'the suspended message ' + n)
        same(other, baseline(o, 'fresh', m), 'the interposed message ' + m)
        rec.step(2)
        rec.state((o, n, m, i, j))
    elif kind == 'twice':
        _, o, n, i = case
        t = tok.configure(OPTIONS[o])
        a = build('fresh', n)
        before = snapshot(a)
        x, y = iter(t.tokenize(a)), iter(t.tokenize(a))
        got = [next(x) for _ in range(i)]
        other = list(y)
        got += x
        same(got, baseline(o, 'fresh', n), 'a message tokenized twice at '
             'the same time, first')
        same(other, baseline(o, 'fresh', n), 'a message tokenized twice at '
             'the same time, second')
        need_equal(snapshot(a), before, 'tokenizing changed a message')
        rec.step(2)
    elif kind == 'abandon':
        _, o, n, i = case
        t = tok.configure(OPTIONS[o])
        a = build('fresh', n)
        before = snapshot(a)
        x = iter(t.tokenize(a))
        for _ in range(i):
            next(x)
        del x
        need_equal(snapshot(a), before, 'tokenizing changed a message')
        same(list(t.tokenize(a)), baseline(o, 'fresh', n),
             'after tokenizing the message in part')
        rec.step(2)
    elif kind == 'seed':
        other_process(case[1], rec)
    else:
        threads(case, rec)


CHILD = """
import hashlib, json, sys
sys.path[:0] = [%r, %r]
from mc import core, tok
from mc.checks import t02
tok.Resolver.install()
import sbclassifier
result = []
for o in t02.OPTIONS:
    t = tok.configure(t02.OPTIONS[o])
    names = t02.NAMES if %d %% 2 else t02.NAMES[::-1]
    for n in names:
        result.append([o, n, core.pack(list(t.tokenize(
            t02.build('fresh', n))))])
print(json.dumps(result))
"""


def other_process(seed, rec):
    env = dict(os.environ, PYTHONHASHSEED=str(seed * 7919))
    out = subprocess.run([sys.executable, '-c',
                          CHILD % (core.REPO, core.ROOT, seed)], env=env,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    need(out.returncode == 0, 'another process failed: {}',
         out.stderr.decode('utf-8', 'replace')[-500:])
    for o, name, found in json.loads(out.stdout):
        same(list(core.unpack(found)), baseline(o, 'fresh', name),
             'message %s in a process with hash seed %d' % (name,
                                                            seed * 7919))
        rec.step()
        rec.eval()


_warm = set()


def threads(case, rec):
    _, names, options, grain, switches = case
    if (names, options) not in _warm:
        _warm.add((names, options))
        if switches:
            threads((_, names, options, grain, ()), rec)
    t = tok.configure(OPTIONS[options])
    # the same name stands for the same message object
    messages = {n: build('fresh', n) for n in names}
    before = {n: snapshot(messages[n]) for n in messages}
    s = sched.Scheduler([lambda n=n: list(t.tokenize(messages[n]))
                         for n in names], switches, grain == 'opcode',
                        sched.code_files())
    results = s.run()
    _last[0] = s.trace
    for n, (status, value) in zip(names, results):
        need(status == 'ok', 'tokenizing {} raised {!r}', n, value)
        same(value, baseline(options, 'fresh', n),
             'message %s, while %r are tokenized' % (n, names))
    for n in messages:
        need_equal(snapshot(messages[n]), before[n],
                   'tokenizing changed a message')
    rec.step(s.step)
    rec.count('schedules')
    rec.state((names, options, grain, switches))
