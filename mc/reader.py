"""A separate process (with another hash seed) that opens saved classifiers.

Protocol: pickled requests on stdin, pickled answers on stdout."""
import logging
import os
import pickle
import struct
import subprocess
import sys

from mc import core


def serve():
    sys.path.insert(0, core.REPO)
    logging.disable(logging.CRITICAL)
    inp, out = sys.stdin.buffer, sys.stdout.buffer
    sys.stdout = sys.stderr
    from mc import stores
    while True:
        head = inp.read(4)
        if len(head) < 4:
            return
        backend, path = pickle.loads(inp.read(struct.unpack('<I', head)[0]))
        try:
            if backend == 'raw':
                from sbclassifier.safepickle import pickle_read
                c = pickle_read(path)
                words = set(c._wordinfokeys())
                extra = getattr(c, '_use_bigrams', None)
            else:
                c = stores.cls(backend)(path)
                words = stores.known_words(c)
                extra = None
            counts = {}
            for w in words:
                r = c._wordinfoget(w)
                counts[w] = r and (r.spamcount, r.hamcount)
            answer = ('ok', c.nspam, c.nham, counts, extra)
            if backend != 'raw':
                c.close()
        except Exception as e:
            answer = ('error', core.describe(e))
        data = pickle.dumps(answer)
        out.write(struct.pack('<I', len(data)) + data)
        out.flush()


class Reader:
    def __init__(self):
        env = dict(os.environ, PYTHONHASHSEED='4242')
        self.p = subprocess.Popen([sys.executable, '-m', 'mc.reader'],
                                  stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, env=env)

    def read(self, backend, path):
        data = pickle.dumps((backend, path))
        self.p.stdin.write(struct.pack('<I', len(data)) + data)
        self.p.stdin.flush()
        head = self.p.stdout.read(4)
        if len(head) < 4:
            raise core.Violation('the process opening the file died')
        return pickle.loads(self.p.stdout.read(struct.unpack('<I', head)[0]))


_reader = {}


def reader():
    pid = os.getpid()
    if pid not in _reader:
        _reader.clear()
        _reader[pid] = Reader()
    return _reader[pid]


if __name__ == '__main__':
    serve()
