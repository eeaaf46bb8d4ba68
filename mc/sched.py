"""Stateless exploration of thread schedules of real code.

Threads run one at a time; a trace function makes every line (or bytecode
instruction) of the code of interest a scheduling point. A schedule is given
by its switches {step: thread}; without a switch the running thread goes on.
explore() enumerates every schedule with at most `bound` preemptions (switches
away from a thread that could go on); where the running thread ends, sleeps or
waits for a lock, every choice of the next one is enumerated.

time.sleep() of a managed thread only waits until the virtual time comes,
which happens when nothing else can run, or when the schedule says so.
"""
import os
import sys
import threading

from mc import core, vclock

real_lock, real_rlock = threading.Lock, threading.RLock
MAX_STEPS = 400000


class Abort(BaseException):
    pass


class Thread:
    def __init__(self, index, function):
        self.index, self.function = index, function
        self.baton = real_lock()
        self.baton.acquire()
        self.state = 'ready'        # ready, asleep, waiting, done
        self.wake = 0.0
        self.waits_for = None
        self.result = None
        self.start = self.end = None


_current = [None]


class Scheduler:
    def __init__(self, functions, switches=(), opcodes=False, files=()):
        self.threads = [Thread(i, f) for i, f in enumerate(functions)]
        self.switches = dict(switches)
        self.opcodes = opcodes
        self.files = tuple(files)
        self.step = 0
        self.trace = []             # (step, thread, others, free)
        self.aborting = False
        self.problem = None
        self.finished = real_lock()
        self.finished.acquire()
        self.by_ident = {}
        self.cached = {}
        self.clock = 0

    # ------------------------------------------------------------ the run
    def run(self):
        """Results ('ok', value) or ('error', exception) of the functions."""
        _current[0] = self
        try:
            real = [threading.Thread(target=self.body, args=(t,), daemon=True)
                    for t in self.threads]
            for r in real:
                r.start()
            self.choose(None)
            self.finished.acquire()
            for r in real:
                r.join()
        finally:
            _current[0] = None
        if self.problem:
            raise core.Violation(self.problem)
        return [t.result for t in self.threads]

    def body(self, thread):
        thread.baton.acquire()
        self.by_ident[threading.get_ident()] = thread
        thread.start = self.tick()
        try:
            sys.settrace(self.on_call)
            try:
                value = thread.function()
            finally:
                sys.settrace(None)
            thread.result = 'ok', value
        except Abort:
            thread.result = 'aborted', None
        except BaseException as e:
            thread.result = 'error', e
        thread.end = self.tick()
        thread.state = 'done'
        del self.by_ident[threading.get_ident()]
        self.choose(thread)

    def tick(self):
        """A logical clock for the order of what the threads do."""
        self.clock += 1
        return self.clock

    # ------------------------------------------------------------- tracing
    def on_call(self, frame, event, arg):
        code = frame.f_code
        interesting = self.cached.get(code)
        if interesting is None:
            interesting = self.cached[code] = code.co_filename.startswith(
                self.files)
        if not interesting:
            return None
        frame.f_trace_opcodes = self.opcodes
        if self.opcodes:
            frame.f_trace_lines = False
        return self.on_line

    def on_line(self, frame, event, arg):
        if event in ('line', 'opcode'):
            self.point()
        return self.on_line

    # ---------------------------------------------------------- scheduling
    def me(self):
        return self.by_ident.get(threading.get_ident())

    def runnable(self):
        result = []
        for t in self.threads:
            if t.state == 'ready' or t.state == 'asleep' or (
                    t.state == 'waiting' and t.waits_for.free_for(t)):
                result.append(t)
        return result

    def point(self):
        """The running thread may be preempted here."""
        if self.aborting:
            raise Abort()
        thread = self.me()
        if thread is None:
            return
        self.step += 1
        if self.step > MAX_STEPS:
            self.abort('the threads do not finish')
            raise Abort()
        others = [t.index for t in self.runnable() if t is not thread]
        if others:
            self.trace.append((self.step, thread.index, others, False))
            target = self.switches.get(self.step)
            if target is not None and target in others:
                self.transfer(thread, self.threads[target])

    def transfer(self, thread, target):
        if target.state == 'asleep':
            vclock.state['offset'] += max(0, target.wake - vclock.now())
        target.state = 'ready'
        target.waits_for = None
        target.baton.release()
        if thread is not None and thread.state != 'done':
            thread.baton.acquire()
            if self.aborting:
                raise Abort()

    def choose(self, thread):
        """The running thread cannot go on (or is none): pick the next."""
        if all(t.state == 'done' for t in self.threads):
            self.finished.release()
            return
        if self.aborting:
            for t in self.threads:
                if t.state != 'done':
                    t.state = 'ready'
                    t.baton.release()
                    return
        self.step += 1
        candidates = [t for t in self.runnable() if t.state != 'asleep']
        if not candidates:
            asleep = [t for t in self.runnable()]
            if not asleep:
                self.abort('deadlock: every thread waits for a lock')
                waiting = [t for t in self.threads if t.state != 'done'
                           and t is not thread]
                if thread is not None and thread.state != 'done':
                    raise Abort()
                waiting[0].state = 'ready'
                waiting[0].baton.release()
                return
            candidates = sorted(asleep, key=lambda t: (t.wake, t.index))[:1]
        default = candidates[0]
        others = [t.index for t in candidates[1:]]
        if others:
            self.trace.append((self.step, default.index, others, True))
            target = self.switches.get(self.step)
            if target in others:
                default = self.threads[target]
        if default is thread:
            if thread.state == 'asleep':
                vclock.state['offset'] += max(0, thread.wake - vclock.now())
            thread.state = 'ready'
            thread.waits_for = None
            return
        self.transfer(thread, default)

    def abort(self, problem):
        self.problem = self.problem or problem
        self.aborting = True

    # ------------------------------------------------------------ blocking
    def sleep(self, thread, seconds):
        thread.state = 'asleep'
        thread.wake = vclock.now() + max(0, seconds)
        self.choose(thread)

    def wait(self, thread, lock):
        thread.state = 'waiting'
        thread.waits_for = lock
        self.choose(thread)


def sleep(seconds):
    s = _current[0]
    thread = s and s.me()
    if thread is None or s.aborting:
        vclock.sleep(seconds)
        if thread is not None:
            raise Abort()
    else:
        s.sleep(thread, seconds)


class CoopLock:
    """threading.Lock or RLock of the code under test: waiting is known to
    the scheduler."""
    def __init__(self, recursive):
        self.recursive = recursive
        self.owner = None
        self.depth = 0

    def free_for(self, thread):
        return self.owner is None or (self.recursive and
                                      self.owner is thread)

    def acquire(self, blocking=True, timeout=-1):
        s = _current[0]
        thread = s and s.me()
        who = thread or threading.get_ident()
        if s is not None and thread is not None:
            s.point()
            while not self.free_for(thread):
                if not blocking or timeout >= 0:
                    return False
                s.wait(thread, self)
                if s.aborting:
                    raise Abort()
        elif self.owner is not None and not self.free_for(who):
            if not blocking or timeout >= 0:
                return False
            raise core.Violation('deadlock: the lock is never released')
        self.owner = who
        self.depth += 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError('release unlocked lock')
        self.depth -= 1
        if self.depth <= 0:
            self.owner, self.depth = None, 0

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *args):
        self.release()


def factory(real, recursive):
    def make():
        name = sys._getframe(1).f_globals.get('__name__', '')
        if name.split('.')[0] in ('sbclassifier', 'lockfile'):
            return CoopLock(recursive)
        return real()
    return make


def install():
    """Before the code under test is imported."""
    import time
    vclock.install()
    time.sleep = sleep
    threading.Lock = factory(real_lock, False)
    threading.RLock = factory(real_rlock, True)


def code_files(*extra):
    return (os.path.join(os.path.realpath(core.REPO), 'sbclassifier') +
            os.sep,
            os.path.join(core.REPO, 'sbclassifier') + os.sep) + extra


# ---------------------------------------------------------------- enumeration
def explore(run, bound, part=0, parts=1):
    """run(switches) executes one schedule and returns its trace. Enumerates
    the schedules whose first switch falls into this part (all schedules, for
    one part)."""
    trace = run(())
    if trace is None:
        return
    for step, thread, others, free in trace:
        if step % parts != part:
            continue
        for t in others:
            descend(run, ((step, t),), bound - (not free))


def descend(run, switches, left):
    if left < 0:
        return
    trace = run(switches)
    last = switches[-1][0]
    for step, thread, others, free in trace:
        if step <= last or (left == 0 and not free):
            continue
        for t in others:
            descend(run, switches + ((step, t),), left - (not free))
