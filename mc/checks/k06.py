"""K06: a directory corpus never touches files outside its directory."""
import itertools
import os
import sys

from mc import core, mail, vclock
from mc.core import need, need_equal, show

PROPERTY = 'K06'
LEVEL = 'exploration'
RULE = ('every id made of up to three (thorough: five) pieces from an alphabet of separators, '
        'dots, NULs and names (and names of files and directories '
        'around the corpus), for every operation that takes one (add with '
        'the id as argument or in the message, remove, get, index, '
        'membership, also with the id in the memory cache), on corpora with '
        'several filters; the whole tree around the corpus is compared '
        'before and after. Non-trivial: the id is not a plain name.')
ASSUMPTIONS = ['nobody else changes the directory meanwhile']

PIECES = ['/', '..', '.', 'm1', 'out', 'sub', '\0', '\\', '']
FILTERS = ['*', 'm*', '*1', '../*', '*/*']
CONTROL = ['add', 'add id', 'remove', 'get', 'index', 'contains']


def before_import():
    vclock.install()
    # before the guard, which refuses what leaves the scratch directory
    sys.addaudithook(audit)


def absolute(name, top):
    return name.replace('TOP', top)


SPECIAL = ['TOP/out', 'TOP/corpus/m1', 'TOP/corpus/new', '/', '//',
           'TOP/outdir/x', '../corpus/m1', '../corpus/new', './m1', 'm1/',
           'm1/.', 'sub/../m1', 'sub/x', 'sub/new', '~', '~/x', 'm1\0', '\0m1', 'm1\0/../../out',
           'file:///etc/passwd', 'C:\\x', '..\\out', '%2e%2e%2fout',
           '\u2024\u2024/out', '\uff0fout', '..\u2215out', '-rf', '*', '?',
           '....//out', '..;/out', ' ../out', '../out ', '..', '.', '']


def units(tier, seed):
    t = tier == 'thorough'
    n = 5 if t else 3
    result = []
    for f in FILTERS:
        for i in range(len(PIECES)):
            for j in range(len(PIECES)):
                result.append(('pieces', f, n, i, j))
        result.append(('special', f))
    result += [('filter', i) for i in range(len(FILTERS))]
    return result


def explore(unit, rec):
    kind = unit[0]
    if kind == 'pieces':
        _, f, n, i, j = unit
        seen = set()
        for k in range(n - 1):
            for rest in itertools.product(PIECES, repeat=k):
                id = PIECES[i] + PIECES[j] + ''.join(rest)
                if id not in seen:
                    seen.add(id)
                    for op in CONTROL:
                        rec.run(('id', f, op, id))
    elif kind == 'special':
        for id in SPECIAL:
            for op in CONTROL:
                rec.run(('id', unit[1], op, id))
    else:
        for ops in itertools.permutations(range(5)):
            rec.run(('filter', FILTERS[unit[1]], ops))


TREE = {
    'out': b'Subject: out\n\nout\n',
    'm2': b'Subject: m2\n\nout\n',
    'outdir/x': b'Subject: x\n\nout\n',
    'outdir/m1': b'Subject: x\n\nout\n',
    'corpus/m1': b'Subject: m1\n\nin\n',
    'corpus/n2': b'Subject: n2\n\nin\n',
    'corpus/M3': b'Subject: capital\n\nin\n',
    'corpus/.x1': b'Subject: hidden\n\nin\n',
    'corpus/sub/x': b'Subject: sub\n\nin\n',
    'corpus/sub/m1': b'Subject: sub\n\nin\n',
    'corpus-not/m1': b'Subject: sibling\n\nout\n',
}


def build(top):
    for name, data in TREE.items():
        path = os.path.join(top, 't', name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'wb') as f:
            f.write(data)
    return os.path.join(top, 't')


def tree(top):
    result = {}
    for d, dirs, names in os.walk(top):
        result[os.path.relpath(d, top)] = None
        for name in names:
            path = os.path.join(d, name)
            if os.path.islink(path):
                result[os.path.relpath(path, top)] = os.readlink(path)
            else:
                with open(path, 'rb') as f:
                    result[os.path.relpath(path, top)] = f.read()
    return result


def plain(id):
    return id not in ('', '.', '..') and '/' not in id and '\0' not in id


_built = []


def fixture():
    """The tree, rebuilt only when something has changed."""
    if not _built:
        scratch = core.scratch()
        top = build(scratch)
        _built[:] = [scratch, top, tree(top), signature(top)]
    return _built[1:]


def signature(top):
    """Cheap summary of the tree: names, inodes and times."""
    result = []
    for d, dirs, names in os.walk(top):
        for name in names:
            s = os.lstat(os.path.join(d, name))
            result.append((d, name, s.st_ino, s.st_size, s.st_mtime_ns,
                           s.st_ctime_ns))
        result.append((d,) + tuple(sorted(dirs)))
    return sorted(result, key=repr)


def reset():
    import shutil
    if _built:
        shutil.rmtree(_built[0], ignore_errors=True)
        del _built[:]


class Opened:
    """Files that Python code opens, by the audit events."""
    log = None
    code = tuple(os.path.join(p, '') for p in
                 {core.REPO, sys.prefix, sys.base_prefix + '/lib'} |
                 {p for p in sys.path if p not in ('', '/')})


def audit(event, args):
    if Opened.log is not None:
        if event == 'open' and isinstance(args[0], (str, bytes)):
            path = os.fsdecode(args[0])
            if not path.startswith(Opened.code):    # imports
                Opened.log.append(path)
        elif event in ('os.remove', 'os.rename', 'os.rmdir', 'os.mkdir',
                       'os.truncate', 'os.symlink', 'os.link',
                       'shutil.rmtree', 'os.chmod', 'os.utime'):
            Opened.log.append(os.fsdecode(args[0]))


def watched(action):
    """(result or None, exception or None, files opened)"""
    Opened.log = []
    try:
        try:
            return action(), None, Opened.log
        except Exception as e:
            return None, e, Opened.log
    finally:
        Opened.log = None


def inside(path, corpus):
    """Is this the name of a file directly in the corpus directory?"""
    path = os.path.join(os.getcwd(), path)
    if os.path.normpath(path) == corpus:
        return True                     # say, to flush the directory
    return os.path.normpath(os.path.dirname(path)) == corpus and \
        os.path.basename(path) not in ('', '.', '..')


def judge(case, rec):
    if case[0] == 'filter':
        return judge_filter(case, rec)
    from sbclassifier.corpora.filesystem import FileCorpus
    _, f, op, id = case
    top, before, sign = fixture()
    id = absolute(id, top)
    corpus = os.path.join(top, 'corpus')
    c = FileCorpus(corpus, f)
    m = mail.message('plain')
    if op != 'add id':
        m.messageid = id        # also ids that set_id() would not take
    action = {
        'add': lambda: c.add_message(m),
        'add id': lambda: c.add_message(m, message_id=id),
        'remove': lambda: c.remove_message(m),
        'get': lambda: c.get(id),
        'index': lambda: c[id],
        'contains': lambda: id in c,
    }[op]
    rec.step()
    result, error, opened = watched(action)
    what = '%s with id %r and filter %r' % (op, id, f)
    for path in opened:
        need(inside(path, corpus), '{} opens {!r}', what, path)
    changed = signature(top) != sign
    if changed:
        now = tree(top)
        reset()
        different = {k for k in set(now) | set(before)
                     if now.get(k, 0) != before.get(k, 0)}
        allowed = {os.path.join('corpus', id)} if plain(id) else set()
        need(different <= allowed, '{} changes {}', what,
             sorted(different - allowed))
        need(op in ('add', 'add id', 'remove'), '{} changes {}', what,
             sorted(different))
    if op in ('get', 'index') and error is None and result is not None:
        need(plain(id) and id in os.listdir(corpus), '{} finds {}', what,
             show(result.as_bytes()))
    if op == 'contains':
        need(error is None, '{} fails: {}', what, error)
        need(not result or plain(id), '{} is true', what)
    if op == 'get':
        need(error is None, '{} fails: {}', what, error)
    if op in ('add', 'add id', 'remove') and not plain(id):
        need(error is not None, '{} is not refused', what)
        need(not changed, '{} is refused after changing something', what)
        if op != 'remove':
            need(id not in list(c.keys()), '{}: then it is listed', what)
            need(c.get(id) is None, '{}: then it can be read', what)
    rec.state((f, op, plain(id), error is None, changed))


def judge_filter(case, rec):
    """Operations on matching messages never touch files that do not match."""
    from sbclassifier.corpora.filesystem import ExpiryFileCorpus
    import fnmatch
    _, f, ops = case
    reset()
    top, before, _ = fixture()
    corpus = os.path.join(top, 'corpus')
    for name in os.listdir(corpus):
        os.utime(os.path.join(corpus, name), (1000, 1000))
    matching = [n for n in os.listdir(corpus) if fnmatch.fnmatch(n, f)
                and os.path.isfile(os.path.join(corpus, n))]
    c = ExpiryFileCorpus(1000000, corpus, f, 1)

    def add():
        for id in ('m1', 'n2', 'k1', 'zzz', 'out', 'x'):
            if fnmatch.fnmatch(id, f):
                c.add_message(mail.message('other', id))
                if id not in matching:
                    matching.append(id)
            else:
                try:
                    c.add_message(mail.message('other', id))
                except ValueError:
                    pass
                else:
                    need(False, 'adding {} does not fail', id)

    def remove():
        for id in ('m1', 'n2', 'zzz', 'out', 'x', 'sub'):
            try:
                c.remove_message(mail.message('other', id))
            except (ValueError, KeyError, OSError):
                pass
            if id in matching:
                matching.remove(id)

    def read():
        for id in ('m1', 'n2', 'out', 'x', 'sub', 'M3', 'm3', '.x1'):
            got = c.get(id)
            need((got is not None) == (id in matching),
                 '{} is {}found', id, '' if got is not None else 'not ')

    def listing():
        need_equal(sorted(c.keys()), sorted(matching), 'keys')
        need_equal(len(list(c.values())), len(matching), 'values')

    def expire():
        c.remove_expired_messages()

    for i in ops:
        action = (add, remove, read, listing, expire)[i]
        if action is expire:
            for name in os.listdir(corpus):
                os.utime(os.path.join(corpus, name), (1000, 1000))
        _, error, opened = watched(action)
        if error is not None:
            raise error
        for path in opened:
            need(inside(path, corpus), '{} opens {!r}', action.__name__,
                 path)
            name = os.path.basename(path)
            need(os.path.join('corpus', name) not in before or
                 fnmatch.fnmatch(name, f),
                 '{} touches {!r}', action.__name__, path)
        if action is expire:
            matching[:] = [n for n in matching
                           if os.path.exists(os.path.join(corpus, n))]
        rec.step()
    now = tree(top)
    reset()
    for name, data in before.items():
        if not (os.path.dirname(name) == 'corpus' and
                fnmatch.fnmatch(os.path.basename(name), f) and
                data is not None):
            need(name in now and now[name] == data,
                 '{} was changed or deleted (filter {})', name, f)
    for name in now:
        need(name in before or (os.path.dirname(name) == 'corpus' and
                                fnmatch.fnmatch(os.path.basename(name), f)),
             '{} was created (filter {})', name, f)
