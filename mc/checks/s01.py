"""S01: following links never changes anything unless the first score is
unsure."""
import itertools
import os
import shutil
import socket

from mc import core
from mc.core import need, need_equal, show

PROPERTY = 'S01'
LEVEL = 'model_checking'
RULE = ('(a) every sequence up to a depth of scoring, training and untraining '
        'messages with and without links, reopening, and waiting for the '
        'cache to expire, compared step by step with the plain classifier '
        'given the words of the page; (b) every outcome of the lookup and of '
        'the retrieval x when (scoring, training) x again x reopened; (c) '
        'every pair out of 24 similar addresses (the first one failing or not), and of 25 when only the base '
        'of an address is followed; (d) every number of clues '
        'around the limit x first scores around the cutoffs; (e) every page '
        'out of 30 read again from the cache; (f) every pair of ages of a page '
        'x days it is kept; (g) every truncation of every file that remembers '
        'failures, and other garbage in it; (h) the options of a proxy x '
        'outcomes; (i) every order of scoring and training up to three '
        'addresses that fail, in every pair of ways, each retrieved once.'
        ' Non-trivial: some link.')
ASSUMPTIONS = ['messages have their link in the last text part',
               'the site, the resolver are stand-ins; files are made older']

MAX = 150
HAM, SPAM = 0.20, 0.90
ADDRESSES = ['site.com/a', 'site.com/a/', 'site.com/b', 'site.com/a_b',
             'site.com/a-b', 'site.com/a?b', 'site.com/a.b', 'site.com',
             'SITE.com/A', 'site.com:80/a', 'site.com/a%20b', 'site.org/a',
             'site.com/a&b', 'site.com/' + 'x' * 300,
             'site.com/' + 'x' * 301, 'site.com/' + 'x' * 50 + '/1',
             'site.com/' + 'x' * 50 + '/2', '10.1.2.3/', 'site.com/a#b',
             'site.com/%41', 'u@site.com/a', 'site.com/a=b', 'x/a', '-/a',
             'a.js.com/x', 'site.com/c.png.html', 'site.com/c.png',
             'site.com/png', 'site.com/c.js?x']

# address -> what is left of it when only base addresses are followed
BASES = {'site.com/a': 'site.com', 'site.com': 'site.com',
         'www.site.com/a/b.html?you=me': 'site.com',
         'a.b.c.site.com/x.png': 'site.com', 'site.org/site.com': 'site.org',
         'www.massey.ac.nz/~x/index.html': 'massey.ac.nz',
         'massey.ac.nz': 'massey.ac.nz', 'a.b.massey.ac.nz/': 'massey.ac.nz',
         'site.com/www.massey.ac.nz': 'site.com', 'a.nz/x': 'a.nz',
         'www.a.info/x.gif': 'a.info', 'host/x/y': 'host', 'host': 'host',
         '10.1.2.3/x': '10.1.2.3', '10.1.2.30/x.y': '10.1.2.30',
         'www.site.com?id=1.2': 'site.com', 'site.com#a.b.c': 'site.com',
         'www.site.com:8080/x.y': 'site.com:8080',
         'www.massey.ac.nz:81/x': 'massey.ac.nz:81',
         '10.1.2.3:80/x': '10.1.2.3:80', 'u.v@www.site.com/x': 'site.com',
         'nowhere.com/y': 'nowhere.com', 'www.nowhere.com': 'nowhere.com',
         'www.gone.net/page': 'gone.net', 'gone.net': 'gone.net'}

PAGE_HEADERS = {'Content-Type': 'text/html; charset=utf-8',
                'Server': 'some server', 'X-Y': 'z'}
GOOD = b'<p>alpha beta <b>gamma</b> http://other.com/x delta'
BAD = b'<p>kilo lima mike november oscar http://site.com/mixed'
MIXED = b'<p>alpha kilo papa'


class Site:
    """What is at an address: address -> outcome."""
    pages = {}
    asked = []
    resolved = []
    proxies = []

    @classmethod
    def get(cls, url, *args, **kw):
        import requests
        proto, _, address = url.partition('://')
        cls.asked.append(address)
        cls.proxies.append(kw.get('proxies'))
        outcome = cls.pages.get(address, ('page', 200, PAGE_HEADERS, GOOD))
        if outcome[0] == 'raise':
            raise EXCEPTIONS[outcome[1]]()
        r = requests.Response()
        r.url = url
        _, r.status_code, headers, r._content = outcome
        r.headers = requests.structures.CaseInsensitiveDict(headers)
        r._content_consumed = True
        r.reason = 'Reason'
        return r

    @classmethod
    def getaddrinfo(cls, host, port, *args, **kw):
        cls.resolved.append(host)
        host.encode('idna')
        for outcome, bad in cls.pages.items():
            if bad[0] == 'unresolved' and host == outcome.split('/')[0]:
                raise LOOKUP[bad[1]]()
        return [(2, 1, 6, '', ('192.0.2.1', 80))]


LOOKUP = [lambda: socket.gaierror(-2, 'not known'),
          lambda: socket.timeout('timed out'),
          lambda: UnicodeError('label too long'),
          lambda: OSError(101, 'Network is unreachable'),
          lambda: socket.gaierror(-8, 'Servname not supported'),
          lambda: ValueError('null')]
EXCEPTIONS = []


def exceptions():
    from requests import exceptions as e
    import urllib3
    names = ['ConnectionError', 'Timeout', 'ConnectTimeout', 'ReadTimeout',
             'TooManyRedirects', 'InvalidURL', 'MissingSchema',
             'InvalidSchema', 'ChunkedEncodingError', 'ContentDecodingError',
             'SSLError', 'ProxyError', 'RetryError', 'InvalidHeader',
             'StreamConsumedError', 'RequestException', 'HTTPError',
             'UnrewindableBodyError']
    for n in names:
        EXCEPTIONS.append(lambda c=getattr(e, n): c('injected'))
    EXCEPTIONS.append(lambda: urllib3.exceptions.LocationParseError('x'))
    EXCEPTIONS.append(lambda: UnicodeError('label too long'))
    EXCEPTIONS.append(lambda: ValueError('odd'))


def before_import():
    import requests
    exceptions()
    requests.get = requests.api.get = Site.get
    requests.request = requests.api.request = \
        lambda method, url, **kw: Site.get(url, **kw)
    requests.Session.request = \
        lambda self, method, url, *a, **kw: Site.get(
            url, proxies=kw.get('proxies') or self.proxies)
    requests.Session.get = lambda self, url, **kw: Site.get(
        url, proxies=kw.get('proxies') or self.proxies)
    socket.getaddrinfo = Site.getaddrinfo


def setup():
    import sbclassifier.tokenizer as t
    import sbclassifier.classifiers.slurping as s
    t.crack_urls = s.SlurpingURLStripper().analyze


# ------------------------------------------------------------------ messages
def text(body, headers=b''):
    return b'Subject: s\n' + headers + b'\n' + body


# name -> (raw, followed address or None)
MESSAGES = {
    'none': (text(b'quebec romeo'), None),
    'spam link': (text(b'quebec http://site.com/bad here'), 'site.com/bad'),
    'ham link': (text(b'quebec http://site.com/good'), 'site.com/good'),
    'mixed link': (text(b'romeo (http://site.com/mixed)'), 'site.com/mixed'),
    'gone': (text(b'quebec http://site.com/gone.'), 'site.com/gone'),
    'unresolved': (text(b'quebec http://nowhere.com/x'), 'nowhere.com/x'),
    'picture': (text(b'quebec http://site.com/x.png'), 'site.com/x.png'),
    'sure': (text(b'kilo lima mike november http://site.com/good'),
             'site.com/good'),
    'other protocol': (text(b'quebec https://site.com/bad ftp://site.com/x'),
                       None),
    'no text': (text(b'aGVsbG8=', b'Content-Type: image/png\n'
                     b'Content-Transfer-Encoding: base64\n'), None),
    'empty': (text(b''), None),
    'nothing there': (text(b'quebec http://) http://? x'), ''),
    'parts': (text(b'--B\n\nhttp://site.com/good text\n--B\nContent-Type: '
                   b'text/html\n\n<a href="http://site.com/bad">x</a>\n'
                   b'--B--\n',
                   b'Content-Type: multipart/alternative; boundary=B\n'),
              'site.com/bad'),
    'attached': (text(b'--B\n\nhttp://site.com/bad text\n--B\nContent-Type: '
                      b'image/png\n\nabc\n--B--\n',
                      b'Content-Type: multipart/mixed; boundary=B\n'),
                 'site.com/bad'),
}
PAGES = {'site.com/bad': ('page', 200, PAGE_HEADERS, BAD),
         'site.com/good': ('page', 200, PAGE_HEADERS, GOOD),
         'site.com/mixed': ('page', 200, PAGE_HEADERS, MIXED),
         'site.com/gone': ('page', 404, PAGE_HEADERS, b'not here'),
         'nowhere.com/x': ('unresolved', 0),
         'site.com/x.png': ('page', 200, {'Content-Type': 'image/png'},
                            b'x')}

OPS = [('score', m) for m in MESSAGES] + \
    [('spam', m) for m in ('none', 'spam link', 'mixed link', 'gone',
                           'no text', 'sure', 'attached')] + \
    [('ham', m) for m in ('ham link', 'unresolved', 'other protocol')] + \
    [('scored', m) for m in ('spam link', 'mixed link', 'gone', 'none')] + \
    [('unspam', 'spam link'), ('unham', 'ham link'), ('unspam', 'gone'),
     ('reopen',), ('week',), ('score again',)]
FEW = [('score', 'spam link'), ('score', 'none'), ('spam', 'spam link'),
       ('score', 'gone'), ('ham', 'mixed link'), ('reopen',), ('week',),
       ('score', 'no text'), ('unspam', 'spam link'), ('scored', 'ham link')]

# pages (status, headers, content) that must read the same from the cache
HTML = {'Content-Type': 'text/html'}
ODD_PAGES = [
    (200, HTML, b''), (200, HTML, b'alpha\r\nbeta\r\n'),
    (200, HTML, b'alpha\rbeta\n\n\n'), (200, HTML, b'From alpha\nFrom beta'),
    (200, HTML, b'\xff\xfe\x00alpha\x85beta'), (200, HTML, b'alpha \xa0beta'),
    (200, {'Content-Type': 'text/html; charset=utf-16'}, b'a\0l\0p\0'),
    (200, {'Content-Type': 'text/html', 'X-Long': 'word ' * 60}, b'alpha'),
    (200, {'Content-Type': 'text/html', 'Server': 'caf\xe9 x'}, b'alpha'),
    (200, {'Content-Type': 'text/html', 'Content-Transfer-Encoding':
           'base64'}, b'aGVsbG8gd29ybGQ='),
    (200, {'Content-Type': 'text/html', 'Content-Transfer-Encoding':
           'quoted-printable'}, b'alpha=3Dbeta=\ngamma'),
    (200, {'Content-Type': 'text/html', 'Subject': 'the subject'}, b'alpha'),
    (200, {'Content-Type': 'text/html', 'From': 'a@b.c'}, b'alpha'),
    (200, {'Content-Type': 'text/html', 'Message-Id': '<own>'}, b'alpha'),
    (200, {'Content-Type': 'text/html', 'X-Spambayes-MailId': '7'}, b'alp'),
    (200, {'Content-Type': 'text/html', 'Content-Encoding': 'gzip'}, b'alp'),
    (200, {'Content-Type': 'text/html', 'Empty': ''}, b'alpha beta'),
    (200, {'Content-Type': 'text/html;'}, b'alpha beta'),
    (204, HTML, b''), (301, HTML, b'moved alpha'), (203, HTML, b'alpha'),
    (200, HTML, b'alpha ' * 20000), (200, HTML, b'x' * 100000),
    (200, HTML, b'\n\nalpha'), (200, HTML, b'Name: alpha\n\nbeta'),
    (200, HTML, b'.\nalpha\n.'), (200, HTML, b'alpha\0beta gamma'),
    (200, {'X-First': 'one', 'Content-Type': 'text/html'}, b'--x\nalpha'),
    (200, {'Content-Type': 'text/html', 'X-A': 'a\tb  c'}, b'alpha'),
    (200, {'Content-Type': 'text/html', 'Date': 'now', 'Received': 'yes'},
     b'<!-- alpha'),
]
OUTCOMES = [('page',) + p for p in ODD_PAGES] + \
    [('page', s, HTML, b'error') for s in (400, 401, 403, 404, 410, 500, 503,
                                           599)] + \
    [('page', 200, h, b'alpha beta') for h in (
        {}, {'Content-Type': 'text/plain'}, {'Content-Type': ''},
        {'Content-Type': 'application/pdf'}, {'Content-Type': 'text'},
        {'Content-Type': 'image/png'}, {'Content-Type': 'x-text/html'},
        {'Content-Type': 'application/x; was=text/html'},
        {'Content-Type': 'text/plain, text/html'})] + \
    [('raise', i) for i in range(21)] + [('unresolved', i)
                                         for i in range(len(LOOKUP))]


# what may be at the first of two addresses
BAD_PAGES = [('page', 404, PAGE_HEADERS, b'gone'),
             ('page', 200, {'Content-Type': 'text/plain'}, b'alpha'),
             ('raise', 1)]
FAILING = [x for n in (1, 2, 3) for x in itertools.permutations(
    ('gone', 'unresolved', 'picture'), n)]
# outcomes of which several may be remembered
FAILURES = [('page', 404, PAGE_HEADERS, b'gone'),
            ('page', 503, PAGE_HEADERS, b'later'),
            ('page', 200, {'Content-Type': 'text/plain'}, b'alpha'),
            ('raise', 1), ('raise', 18), ('unresolved', 0)]
GARBAGE = [b'garbage', b'\0' * 40, b'.', b'\n' * 9, b'\x80\x04',
           b'\x80\x04.', b'cnothing\nthere\n.', b'\xff' * 9]
# user, password, server, port
PROXIES = [('', '', '', 8080), ('', '', 'proxy.org', 8080),
           ('u', 'p', 'proxy.org', 3128), ('u', '', '10.9.8.7', 80),
           ('name', 'pass word', 'proxy', 8081), ('u', 'p', '', 3128)]


def units(tier, seed):
    t = tier == 'thorough'
    result = [('history', a, b, 4 if t else 3, bigrams, t)
              for a in range(len(OPS)) for b in range(len(OPS))
              for bigrams in (0, 1) if not bigrams or a % 6 == b % 6]
    result += [('few', a, b, 5 if t else 3) for a in range(len(FEW))
               for b in range(len(FEW))]
    result += [('outcome', i, t) for i in range(len(OUTCOMES))]
    result += [('addresses', i, t) for i in range(len(ADDRESSES))]
    result += [('base', i, t) for i in range(len(BASES))]
    result += [('days', n) for n in (1, 2, 7, 30)]
    result += [('damaged', seq) for seq in FAILING]
    result += [('failures', i, j, 5 if t else 4)
               for i in range(len(FAILURES)) for j in range(len(FAILURES))]
    result += [('proxy', i) for i in range(len(PROXIES))]
    result += [('limit', n) for n in range(140, 160)] + [('limit', 5)]
    return result


def explore(unit, rec):
    kind = unit[0]
    if kind == 'history':
        _, a, b, n, bigrams, t = unit
        for k in range(n - 1):
            for rest in itertools.product(OPS[::1 if k < 2 else 3] if t
                                          else OPS[a % 5::5],
                                          repeat=k):
                rec.run(('history', bigrams, (OPS[a], OPS[b]) + rest))
    elif kind == 'few':
        _, a, b, n = unit
        for rest in itertools.product(FEW, repeat=n - 2):
            rec.run(('history', 0, (FEW[a], FEW[b]) + rest))
    elif kind == 'outcome':
        for n, seq in enumerate(itertools.product(
                ('score', 'spam', 'reopen'), repeat=3)):
            if not unit[2] and n % 3 != unit[1] % 3:
                continue
            for prefix in ('', 'web:') if unit[2] else (('', 'web:')[n % 2],):
                rec.run(('outcome', unit[1], seq, prefix))
    elif kind == 'addresses':
        _, i, t = unit
        for j in range(len(ADDRESSES)):
            for reopen in (0, 1) if t else ((i + j) % 2,):
                rec.run(('addresses', (i, j), reopen))
            for bad in range(1, 1 + len(BAD_PAGES)) if t else \
                    (1 + (i + j) % len(BAD_PAGES),):
                rec.run(('addresses', (i, j), (i + j + bad) % 2, bad))
            if t:
                for k in range(len(ADDRESSES)):
                    rec.run(('addresses', (i, j, k), 0))
    elif kind == 'damaged':
        for op in 'score', 'spam':
            for which in range(2):
                for cut in list(range(1, 140)) + [None]:
                    rec.run(('damaged', unit[1], op, which, cut))
                for g in GARBAGE:
                    rec.run(('damaged', unit[1], op, which, g))
    elif kind == 'failures':
        _, i, j, n = unit
        for order in itertools.product(range(3), repeat=n):
            # which address comes first does not matter
            if order[0] == 0 and len(set(order)) < n and \
                    (2 not in order or 1 in order[:order.index(2)]):
                for how in range(4):
                    rec.run(('failures', (i, j, i), order, how))
    elif kind == 'proxy':
        for m in MESSAGES:
            for op in 'score', 'spam':
                rec.run(('proxy', unit[1], m, op))
    elif kind == 'days':
        for ages in itertools.product((.001, .04, .53, .98, 1.01, 3, 6.9, 7.1,
                                       29.9, 40), repeat=2):
            for op in 'score', 'spam':
                rec.run(('days', unit[1], ages, op))
    elif kind == 'base':
        _, i, t = unit
        for j in range(len(BASES)):
            for reopen in (0, 1) if t else ((i + j) % 2,):
                rec.run(('base', (i, j), reopen))
            if t:
                for k in range(len(BASES)):
                    rec.run(('base', (i, j, k), 0))
    else:
        for spam, ham in ((0, 0), (1, 0), (0, 1), (1, 1), (3, 0), (0, 3),
                          (6, 0), (0, 6), (12, 0), (0, 12)):
            rec.run(('limit', unit[1], spam, ham))


# ----------------------------------------------------------------- reference
class World:
    """The slurping classifier beside a plain one."""
    def __init__(self, bigrams=0, prefix='', base=False):
        import sbclassifier.classifiers.slurping as s
        from sbclassifier.classifiers.basic import Classifier
        self.dir = core.scratch()
        s.X_CACHE_DIRECTORY = os.path.join(self.dir, 'cache')
        s.X_WEB_PREFIX = prefix
        s.X_ONLY_SLURP_BASE = base
        self.prefix = prefix.encode()
        self.make = lambda: s.SlurpingClassifier(use_bigrams=True) \
            if bigrams else s.SlurpingClassifier()
        self.bigrams = bigrams
        self.it = self.make()
        self.plain = Classifier(use_bigrams=True) if bigrams else \
            Classifier()
        Site.asked, Site.resolved = [], []
        self.fetched = {}       # address -> times retrieved since expiry
        self.ever = set()
        # the words of the pages are known
        for words, is_spam in (([b'kilo', b'lima', b'mike', b'november',
                                 b'oscar'], True),
                               ([b'alpha', b'beta', b'gamma', b'delta'],
                                False)) * 3:
            self.it.learn(self.quiet(words), is_spam)
            self.plain.learn(words, is_spam)

    def quiet(self, words):
        """The words as if of a message without a link."""
        return itertools.chain(self.tokens(text(b''))[:0], words)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def tokens(self, raw):
        from sbclassifier.message import from_bytes
        from sbclassifier.tokenizer import tokenize
        return list(tokenize(from_bytes(raw)))

    def clues_of(self, address):
        """What the page at an address contributes."""
        from email import message_from_bytes
        import sbclassifier.tokenizer as t
        outcome = Site.pages.get(address,
                                 ('page', 200, PAGE_HEADERS, GOOD))
        if outcome[0] == 'unresolved' or not address:
            return [b'url:non_resolving']
        if address.split('.')[-1] in ('jpg', 'gif', 'png', 'css', 'js'):
            return [b'url:non_html']
        if outcome[0] == 'raise':
            return [b'url:unknown_error']
        _, status, headers, content = outcome
        if status >= 400:
            return [b'url:http_%d' % status]
        if not headers.get('Content-Type', '').startswith('text/html'):
            return [b'url:non_html']
        raw = ''.join('%s: %s\r\n' % h for h in headers.items()).encode() + \
            b'\r\n' + content
        return [self.prefix + x for x in t.tokenize(
            message_from_bytes(raw), True, True)]

    def learn(self, raw, address, is_spam, sign=1, scored=False):
        tokens = self.tokens(raw)
        extra = self.clues_of(address) if address is not None else []
        if self.bigrams:
            # bigrams are of the message alone
            self.plain_bigrams(tokens, extra, is_spam, sign)
        elif sign > 0:
            self.plain.learn(tokens + extra, is_spam)
        else:
            self.plain.unlearn(tokens + extra, is_spam)
        del Site.asked[:]
        stream = self.stream(raw)
        if scored:
            # the same words, once tokenized
            stream = list(stream)
            self.it.spamprob(stream)
        (self.it.learn if sign > 0 else self.it.unlearn)(stream, is_spam)
        if address:
            self.retrieved(address)
        else:
            need(not Site.asked, 'training a message without a link '
                 'retrieved {}', Site.asked)

    def plain_bigrams(self, tokens, extra, is_spam, sign):
        from sbclassifier.classifiers.basic import Classifier
        words, last = list(tokens), b''
        pairs = []
        for w in tokens:
            if last:
                pairs.append(b'bi:' + last + b' ' + w)
            last = w
        # trained by a plain classifier that takes the words as they are
        self.plain = self.copy(self.plain, Classifier())
        (self.plain.learn if sign > 0 else self.plain.unlearn)(
            words + pairs + extra, is_spam)
        self.plain = self.copy(self.plain, Classifier(use_bigrams=True))

    @staticmethod
    def copy(old, new):
        new.wordinfo = old.wordinfo
        new.nspam, new.nham = old.nspam, old.nham
        return new

    def stream(self, raw):
        from sbclassifier.message import from_bytes
        from sbclassifier.tokenizer import tokenize
        return tokenize(from_bytes(raw))

    def retrieved(self, address):
        outcome = Site.pages.get(address, ('page', 200))
        need(set(Site.asked) <= {address}, 'retrieved {} for a link to {}',
             Site.asked, address)
        count = self.fetched[address] = self.fetched.get(address, 0) + \
            len(Site.asked)
        need(count <= 1, '{} retrieved {} times ({})', address, count,
             show(outcome))
        if outcome[0] != 'unresolved' \
                and address.split('.')[-1] not in ('png', 'gif', 'jpg',
                                                   'css', 'js'):
            need(count == 1 or address in self.ever, '{} never retrieved',
                 address)
        if count:
            self.ever.add(address)

    def score(self, raw, address):
        tokens = self.tokens(raw)
        self.tokens(text(b''))
        p, clues = self.plain.spamprob(tokens, True)
        consult = address is not None and HAM < p < SPAM and \
            len(clues) - 2 < MAX
        want = p, clues
        if consult:
            second = self.plain.spamprob(
                self.clues_of(address) + [w for w, _ in clues[2:]], True)
            if not HAM < second[0] < SPAM:
                want = second
        del Site.asked[:]
        got = self.it.spamprob(self.stream(raw), True)
        if consult and address:
            self.retrieved(address)
        else:
            need(not Site.asked, 'scoring retrieved {} although {}',
                 Site.asked, 'there is no link' if not address else
                 'the first score is %r with %d clues' % (p, len(clues) - 2))
        need_equal((got[0], sorted(got[1])), (want[0], sorted(want[1])),
                   'score (plain %r, link %s)' % (p, address))
        del Site.asked[:]
        stream = list(self.stream(raw))
        again = self.it.spamprob(stream)
        need_equal(self.it.spamprob(stream), again,
                   'score, then score of the same words')
        need(again == got[0], 'score {!r}, then {!r}', got[0], again)
        need(not Site.asked, 'scoring again retrieved {}', Site.asked)
        return consult

    def compare(self):
        need_equal((self.it.nspam, self.it.nham),
                   (self.plain.nspam, self.plain.nham), 'message counts')
        need_equal(sorted(self.it._wordinfokeys()),
                   sorted(self.plain._wordinfokeys()), 'words known')
        self.tokens(text(b''))
        for raw in (text(b'quebec romeo'), text(b'alpha kilo'),
                    text(b'papa lima gamma'), text(b'')):
            tokens = self.tokens(raw)
            need_equal(self.it.spamprob(self.quiet(tokens)),
                       self.plain.spamprob(tokens), 'score of %r' % raw)
        for name in (b'url:non_resolving', b'url:non_html',
                     b'url:http_404', b'url:unknown_error', b'oscar',
                     b'quebec'):
            need_equal(self.it.spamprob(self.quiet([name])),
                       self.plain.spamprob([name]), 'score of %r' % name)

    def age(self, days=8):
        """Days go by."""
        for d, _, files in os.walk(self.dir):
            for f in files:
                path = os.path.join(d, f)
                t = os.stat(path).st_mtime - days * 24 * 3600
                os.utime(path, (t, t))

    def reopen(self):
        # the training goes on in the new one
        self.it = self.copy(self.it, self.make())


def judge(case, rec):
    kind = case[0]
    Site.pages = dict(PAGES)
    if kind == 'history':
        w = World(case[1])
        try:
            history(w, case[2], rec)
        finally:
            w.close()
    elif kind == 'outcome':
        _, i, seq, prefix = case
        Site.pages = {'site.com/x': OUTCOMES[i]}
        if OUTCOMES[i][0] == 'unresolved':
            Site.pages = {'nowhere.com/x': OUTCOMES[i]}
        address = next(iter(Site.pages))
        raw = text(b'quebec http://' + address.encode())
        w = World(prefix=prefix)
        try:
            for op in seq:
                if op == 'reopen':
                    w.reopen()
                elif op == 'score':
                    w.score(raw, address)
                else:
                    w.learn(raw, address, True)
                rec.step()
            w.score(raw, address)
            w.compare()
        finally:
            w.close()
        rec.state(case)
    elif kind == 'damaged':
        _, seq, op, which, damage = case
        w = World()
        try:
            def act(m):
                if op == 'score':
                    w.score(*MESSAGES[m])
                else:
                    w.learn(*MESSAGES[m], True)
                rec.step()

            for m in seq:
                act(m)
            files = sorted(os.path.join(d, f)
                           for d, _, fs in os.walk(w.dir) for f in fs)
            if which < len(files):
                with open(files[which], 'rb+') as f:
                    if isinstance(damage, bytes):
                        f.truncate(0)
                        f.write(damage)
                    else:
                        size = f.seek(0, 2)
                        f.truncate(0 if damage is None else
                                   max(0, size - damage))
            w.reopen()
            # what was remembered may have been forgotten
            w.fetched.clear()
            for m in seq + ('ham link',):
                act(m)
            w.reopen()
            for m in seq + ('ham link',):
                act(m)
            w.compare()
        finally:
            w.close()
        rec.state((seq, which, damage))
    elif kind == 'failures':
        _, outcomes, order, how = case
        addresses = ['one.com/x', 'two.com/x', 'three.com/x']
        Site.pages = {a: FAILURES[o] for a, o in zip(addresses, outcomes)}
        w = World()
        try:
            for k, n in enumerate(order):
                a = addresses[n]
                raw = text(b'quebec http://' + a.encode())
                if (k + how) % 2:
                    w.score(raw, a)
                else:
                    w.learn(raw, a, True)
                if how > 1:
                    w.reopen()
                rec.step()
            w.compare()
        finally:
            w.close()
        rec.state(case)
    elif kind == 'proxy':
        import sbclassifier.classifiers.slurping as s
        _, i, m, op = case
        user, password, server, port = PROXIES[i]
        w = World()
        old = (s.PROXY_USERNAME, s.PROXY_PASSWORD, s.PROXY_SERVER,
               s.PROXY_PORT)
        (s.PROXY_USERNAME, s.PROXY_PASSWORD, s.PROXY_SERVER,
         s.PROXY_PORT) = PROXIES[i]
        del Site.proxies[:]
        try:
            if op == 'score':
                w.score(*MESSAGES[m])
            else:
                w.learn(*MESSAGES[m], True)
            w.compare()
            rec.step()
            for proxies in Site.proxies:
                used = (proxies or {}).get('http', '')
                if not server:
                    need(not used, 'retrieved through {} without a proxy',
                         used)
                else:
                    need(used.rstrip('/').endswith(
                        '%s:%d' % (server, port)),
                        'retrieved through {!r}, not {}', used, server)
                    need(not user or 'http://%s:' % user in used and (
                        ' ' in password or
                        ':%s@' % password in used),
                        'proxy used as {!r}, not {!r}', used, user)
        finally:
            (s.PROXY_USERNAME, s.PROXY_PASSWORD, s.PROXY_SERVER,
             s.PROXY_PORT) = old
            w.close()
        rec.state((case, len(Site.proxies)))
    elif kind == 'days':
        import sbclassifier.classifiers.slurping as s
        _, limit_days, ages, op = case
        w = World()
        s.X_CACHE_EXPIRY_DAYS = limit_days
        try:
            raw, address = MESSAGES['mixed link']
            total = 0
            for days in (0,) + ages:
                w.age(days)
                total += days
                w.reopen()
                if total > limit_days:
                    # the page is forgotten, and must be retrieved again
                    total = 0
                    w.fetched.clear()
                    w.ever.clear()
                if op == 'score':
                    w.score(raw, address)
                else:
                    w.learn(raw, address, True)
                rec.step()
            w.compare()
        finally:
            s.X_CACHE_EXPIRY_DAYS = 7
            w.close()
        rec.state(case)
    elif kind in ('addresses', 'base'):
        _, which, reopen, *bad = case
        base = kind == 'base'
        addresses = list(BASES) if base else ADDRESSES
        follow = BASES.get if base else lambda a: a.rstrip('/').lower()
        Site.pages = {}
        if base:
            Site.pages = {'nowhere.com': ('unresolved', 0),
                          'gone.net': ('page', 404, PAGE_HEADERS, b'gone')}
        for n, i in enumerate(dict.fromkeys(which)):
            a = follow(addresses[i])
            Site.pages.setdefault(a, BAD_PAGES[bad[0] - 1] if bad and not n
                                  else (
                'page', 200, PAGE_HEADERS, b'page%d kilo' % n +
                b' alpha beta gamma delta' * (n % 2)))
        w = World(base=base)
        try:
            for i in which:
                a = addresses[i]
                raw = text(b'quebec "http://' + a.encode() + b'" x')
                address = follow(a)
                w.score(raw, address)
                w.learn(raw, address, True)
                if reopen:
                    w.reopen()
                w.score(raw, address)
                w.compare()
                for n in range(3):
                    need_equal(w.it.spamprob(w.quiet([b'page%d' % n])),
                               w.plain.spamprob([b'page%d' % n]),
                               'score of a word of page %d' % n)
                rec.step()
        finally:
            w.close()
        rec.state(case)
    else:
        limit(case, rec)


def limit(case, rec):
    """Messages with a given number of clues."""
    _, n, spam, ham = case
    w = World()
    try:
        s = [b'spamword%d' % i for i in range(80)]
        h = [b'hamword%d' % i for i in range(80)]
        for words, is_spam in (s, True), (h, False):
            for _ in range(3):
                w.it.learn(w.quiet(words), is_spam)
                w.plain.learn(words, is_spam)
        half = n // 2
        words = s[:half + spam] + h[:n - half + ham - spam] \
            if spam else s[:half - ham] + h[:n - half + ham]
        raw = text(b' '.join(words) + b' http://site.com/bad')
        consult = w.score(raw, 'site.com/bad')
        rec.step()
        rec.state((case, consult))
        w.compare()
    finally:
        w.close()


def history(w, ops, rec):
    trained = []
    last = None
    for op in ops:
        if op[0] == 'reopen':
            w.reopen()
        elif op[0] == 'week':
            w.age()
            w.reopen()
            w.fetched = {}
        elif op[0] == 'score again':
            if last:
                w.score(*MESSAGES[last])
        else:
            last = op[1]
            raw, address = MESSAGES[last]
            if op[0] == 'score':
                w.score(raw, address)
            elif op[0] in ('spam', 'ham', 'scored'):
                w.learn(raw, address, op[0] != 'ham', 1, op[0] == 'scored')
                trained.append(('spam' if op[0] != 'ham' else 'ham', last))
            elif (op[0][2:], last) in trained:
                trained.remove((op[0][2:], last))
                w.learn(raw, address, op[0] == 'unspam', -1)
        rec.step()
        rec.state((w.plain.nspam, w.plain.nham, tuple(sorted(trained)),
                   tuple(sorted(w.fetched.items())), op))
    # every shorter history is one of its own
    w.compare()
