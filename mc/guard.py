"""Keeps the effects of the code under test inside the scratch directory.

An audit hook refuses, before it happens, every operation of Python code that
would change a file outside the scratch directory (or signal another process).
The refusals are recorded: K06 judges them.
"""
import errno
import os
import sys

WRITING = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
PATHS = {                       # event: which arguments are names changed
    'os.remove': (0,), 'os.rmdir': (0,), 'os.mkdir': (0,),
    'os.rename': (0, 1), 'os.link': (1,), 'os.symlink': (1,),
    'os.truncate': (0,), 'os.chmod': (0,), 'os.chown': (0,),
    'os.utime': (0,), 'os.setxattr': (0,), 'os.removexattr': (0,),
    'os.chflags': (0,),
    'shutil.rmtree': (0,), 'shutil.move': (0, 1), 'shutil.copyfile': (1,),
    'shutil.copytree': (1,), 'shutil.copymode': (1,), 'shutil.copystat': (1,),
    'shutil.chown': (0,), 'shutil.unpack_archive': (1,),
    'shutil.make_archive': (0,),
}
DEVICES = ('/dev/null', '/dev/tty')

refused = []
_state = {'root': None, 'pids': ()}


def outside(path):
    if not isinstance(path, (str, bytes)):
        return False                    # a descriptor
    path = os.fsdecode(path)
    if path in DEVICES:
        return False
    path = os.path.normpath(os.path.join(os.getcwd(), path)
                            if not path.startswith('/') else path)
    root = _state['root']
    return path != root and not path.startswith(root + '/')


def refuse(event, what):
    refused.append((event, what))
    raise PermissionError(errno.EACCES,
                          'the guard refuses %s' % event, str(what))


def hook(event, args):
    if event == 'open':
        path, mode, flags = args
        if isinstance(flags, int) and flags & WRITING or \
                isinstance(mode, str) and mode.strip('rbtU'):
            if outside(path):
                refuse(event, path)
    elif event in PATHS:
        for i in PATHS[event]:
            if outside(args[i]):
                refuse(event, args[i])
    elif event in ('os.kill', 'os.killpg'):
        if args[0] not in _state['pids'] and args[0] != os.getpid():
            refuse(event, args[0])


def install(root):
    """Call in the process that runs the code under test, once."""
    first = _state['root'] is None
    _state['root'] = os.path.realpath(root)
    del refused[:]
    if first:
        sys.addaudithook(hook)
