"""Crash and fault injection through the LD_PRELOAD shim (mc/shim.c)."""
import ctypes
import os
import shutil
import subprocess
import sys
import tempfile

from mc import core

COUNT, CRASH, TORN, FAIL, FAILALL = range(5)
CRASHED = 77


def ensure_preloaded():
    """Called before the repository is imported: restarts this process with
    the shim preloaded."""
    if os.environ.get('MC_SHIM'):
        return
    directory = core.scratch_root()
    so = os.path.join(directory, 'shim.so')
    src = os.path.join(core.ROOT, 'mc', 'shim.c')
    subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-w', '-o', so, src,
                    '-ldl'], check=True)
    os.chdir('/')
    env = dict(os.environ, MC_SHIM=so, LD_PRELOAD=so, MC_SCRATCH=directory)
    os.execve(sys.executable, [sys.executable, '-m', 'mc.run'] + sys.argv[1:],
              env)


_lib = []


def lib():
    if not _lib:
        _lib.append(ctypes.CDLL(os.environ['MC_SHIM']))
        _lib[0].mc_arm.argtypes = [ctypes.c_char_p, ctypes.c_int,
                                   ctypes.c_long, ctypes.c_long, ctypes.c_int]
    return _lib[0]


class Op:
    def __init__(self, line):
        n, kind, ino, a, b, path = line.split('\t')
        self.n, self.kind, self.ino = int(n), kind, int(ino)
        self.a, self.b, self.path = int(a), int(b), path

    def __repr__(self):
        return '%d:%s(%s)' % (self.n, self.kind, self.path or self.ino)


NOTES = ('synced', 'created', 'named', 'CRASH', 'TORN')


def run(directory, action, mode=COUNT, at=0, arg=0):
    """Run action() in a child with file operations below directory
    intercepted. Returns (outcome, value, ops): outcome is 'ok', 'error' or
    'crash'; ops the log."""
    log = tempfile.TemporaryFile(dir=core.scratch_root())
    out = tempfile.TemporaryFile(dir=core.scratch_root())
    shim = lib()
    pid = os.fork()
    if pid == 0:
        code = 70
        try:
            prefix = (directory.rstrip('/') + '/').encode()
            shim.mc_arm(prefix, mode, at, arg, log.fileno())
            try:
                value = 'ok\n' + repr(action())
            except BaseException as e:
                value = 'error\n' + core.describe(e)
            shim.mc_disarm()
            os.write(out.fileno(), value.encode('utf-8', 'replace')[:60000])
            code = 0
        finally:
            os._exit(code)
    _, status = os.waitpid(pid, 0)
    log.seek(0)
    ops = [Op(x) for x in log.read().decode('utf-8', 'replace').split('\n')
           if x.count('\t') == 5]
    out.seek(0)
    text = out.read().decode()
    log.close()
    out.close()
    code = os.waitstatus_to_exitcode(status)
    if code == CRASHED:
        return 'crash', None, ops
    if code < 0:
        return 'killed', str(code), ops
    if code != 0:
        raise RuntimeError('child ended with %s' % code)
    outcome, _, value = text.partition('\n')
    return outcome, value, ops


def operations(ops):
    return [o for o in ops if o.kind not in NOTES]


def crash_points(ops):
    """(mode, n, arg) of every crash point of a recorded run: before every
    operation, and after every prefix class of every write."""
    for o in operations(ops):
        if o.kind in ('read', 'stat', 'fstat', 'mmap'):
            continue
        yield CRASH, o.n, 0
        if o.kind == 'write':
            for k in sorted({1, o.b // 2, o.b - 1}):
                if 0 < k < o.b:
                    yield TORN, o.n, k


def unsynced(ops):
    """inode -> (synced size, [(offset, length)] written since)."""
    dirty = {}
    done = ops[:]
    # the operation at which the crash happened was not (fully) performed
    crashed = bool(done) and done[-1].kind in ('CRASH', 'TORN')
    last = done[-1].n if crashed else None
    torn = done[-1].a if crashed and done[-1].kind == 'TORN' else 0
    for o in done:
        d = dirty.setdefault(o.ino, [0, []]) if o.ino else None
        if o.kind == 'write':
            n = torn if o.n == last else o.b
            if n:
                d[1].append((o.a, n))
        elif o.kind == 'synced':
            d[0], d[1] = o.a, []
        elif o.kind == 'created' and o.a:
            d[0] = 0
    return {i: d for i, d in dirty.items() if d[1]}


def lost_write_variants(directory, ops):
    """Yields directories' alternative contents after the crash: what is on
    disk now, and with unsynced data lost in several ways. The directory is
    changed in place for each variant."""
    yield 'as written'
    dirty = unsynced(ops)
    targets = []
    for name in sorted(os.listdir(directory)):
        path = os.path.join(directory, name)
        if os.path.isfile(path) and os.stat(path).st_ino in dirty:
            targets.append((path, dirty[os.stat(path).st_ino]))
    if not targets:
        return
    original = {}
    for path, _ in targets:
        with open(path, 'rb') as f:
            original[path] = f.read()
    for variant in ('unsynced data lost', 'half of unsynced data lost',
                    'unsynced data zeroed'):
        for path, (synced, writes) in targets:
            data = original[path]
            if variant == 'unsynced data lost':
                data = data[:synced]
            elif variant == 'half of unsynced data lost':
                data = data[:(synced + len(data)) // 2]
            else:
                for off, n in writes:
                    end = min(off + n, len(data))
                    data = data[:off] + b'\0' * max(0, end - off) + data[end:]
            with open(path, 'wb') as f:
                f.write(data)
        yield variant
    for path, data in original.items():
        with open(path, 'wb') as f:
            f.write(data)


def restore(source, directory):
    """Make directory a copy of source."""
    shutil.rmtree(directory, ignore_errors=True)
    shutil.copytree(source, directory)
