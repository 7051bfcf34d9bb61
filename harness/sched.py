"""
Runs code which uses threads under a scheduler of our own, which decides at
every operation on a lock (and so at every operation of queues, events,
conditions and joins, which are made of locks), at every read of a source and,
on request, at every line of the library, which thread goes on.  One thread
runs at a time, and the schedule is a function of the strategy, so that every
run can be repeated.

This has to be imported before the library is.
"""
import random
import sys
import _thread
import threading
import queue
import time

real_lock = _thread.allocate_lock
real_start = _thread.start_new_thread

S = None                    # the scheduler which is running, if any


class Killed(BaseException):
    """Ends threads which would never end."""


class Lock(object):
    """A lock of scheduled threads."""
    def __init__(self):
        self.held = False
        self.waiters = []

    def acquire(self, blocking=True, timeout=-1):
        s = S
        if s is None:
            if self.held:
                if not blocking or timeout >= 0:
                    return False
                raise AssertionError('no schedule for threads')
            self.held = True
            return True
        s.point()
        while self.held:
            if not blocking or timeout == 0:
                return False
            if not s.wait(self, timeout):
                return False
        self.held = True
        return True

    __enter__ = acquire
    acquire_lock = acquire

    def release(self):
        if not self.held:
            raise RuntimeError('release unlocked lock')
        self.held = False
        if self.waiters:
            for t in self.waiters:
                t.ready = True
            self.waiters = []

    release_lock = release

    def __exit__(self, *args):
        if S is not None and S.killing and not self.held:
            return
        self.release()

    def locked(self):
        return self.held

    def _at_fork_reinit(self):
        self.held = False


class T(object):
    def __init__(self, idx, parent):
        self.idx = idx
        self.parent = parent
        self.app = None
        self.gate = real_lock()
        self.gate.acquire()
        self.ready = True
        self.done = False
        self.deadline = None
        self.expired = False
        self.sentinel = None
        self.reads = 0
        self.run = 0            # steps since it was last chosen anew


class Scheduler(object):
    def __init__(self, strategy, max_steps=200000, lines=0.0, seed=0,
                 files=(), slow=0.0):
        self.strategy = strategy
        self.max_steps = max_steps
        self.threads = []
        self.current = None
        self.steps = 0
        self.switches = 0
        self.killing = False
        self.why = ''
        self.now = 0.0
        self.over = real_lock()
        self.over.acquire()
        self.lines = lines
        self.files = files
        self.slow = slow
        self.rng = random.Random(seed)
        self.events = []
        self.tracing = False
        self.left = 0
        self.alone = {}
        self.ahead = 0
        self.apps = 0

    # -- called by the scheduled threads
    def point(self):
        if self.killing:
            raise Killed()
        self.steps += 1
        if self.steps > self.max_steps:
            self.kill('endless')
        if self.slow and self.rng.random() < self.slow:
            # The thread is suspended for long.
            self.wait(None, self.rng.choice([.01, 1, 100, 1e4, 1e6]))
            return
        ready = [t for t in self.threads if t.ready]
        if len(ready) > 1:
            self.hand(self.strategy(ready, self.current, self))

    def wait(self, lock, timeout):
        me = self.current
        if self.killing:
            raise Killed()
        me.ready = False
        me.expired = False
        me.deadline = self.now + timeout if timeout > 0 else None
        if lock is not None:
            lock.waiters.append(me)
        self.hand(self.pick())
        me.deadline = None
        if me.expired:
            if lock is not None and me in lock.waiters:
                lock.waiters.remove(me)
            return False
        return True

    def pick(self):
        ready = [t for t in self.threads if t.ready]
        if not ready:
            late = [t for t in self.threads
                    if not t.done and t.deadline is not None]
            if late:
                t = min(late, key=lambda t: t.deadline)
                self.now = max(self.now, t.deadline)
                t.expired = True
                t.ready = True
                return t
            live = [t for t in self.threads if not t.done]
            self.left = len(live)
            if live and not self.killing:
                self.killing = True
                self.why = 'stuck'
            if not live:
                return None
            for t in live:
                t.ready = True
            return live[0]
        if len(ready) == 1:
            return ready[0]
        return self.strategy(ready, self.current, self)

    def hand(self, t):
        me = self.current
        if t is not me:
            self.switches += 1
            self.alone.clear()
            self.current = t
            if t is None:
                self.over.release()
            else:
                t.gate.release()
            if not me.done:
                me.gate.acquire()
                if self.killing:
                    raise Killed()
        elif self.killing:
            raise Killed()

    def kill(self, why):
        self.why = why
        self.killing = True
        for t in self.threads:
            if not t.done:
                t.ready = True
        self.left = sum(not t.done for t in self.threads)
        raise Killed()

    def read(self, number):
        """A source is read."""
        me = self.current
        me.reads += 1
        self.point()
        # Reads of a source since another thread has done anything.
        self.alone[number] = n = self.alone.get(number, 0) + 1
        self.ahead = max(self.ahead, n)

    def note(self, *event):
        if self.tracing:
            self.events.append((self.current.idx,) + event)

    # -- the threads themselves
    def start(self, function, args, kwargs={}):
        t = T(len(self.threads), self.current)
        # The application thread on whose behalf it works.
        if self.threads and self.current is self.threads[0]:
            t.app = self.apps
            self.apps += 1
        else:
            t.app = self.current.app
        self.threads.append(t)

        def body():
            t.gate.acquire()
            try:
                if self.lines:
                    sys.settrace(self.trace)
                if not self.killing:
                    function(*args, **kwargs)
            except BaseException:
                pass
            finally:
                sys.settrace(None)
                t.done = True
                t.ready = False
                if t.sentinel is not None and t.sentinel.held:
                    t.sentinel.release()
                self.hand(self.pick())
        real_start(body, ())
        return t

    def trace(self, frame, event, arg):
        if event == 'call':
            name = frame.f_code.co_filename
            return self.trace if name in self.files else None
        if event == 'line' and self.rng.random() < self.lines:
            if not self.killing:
                self.point()
        return self.trace

    def go(self, functions, wall=20):
        """Run the functions in threads of their own; the outcomes."""
        global S
        results = [('none', None)] * len(functions)

        def call(i, f):
            try:
                results[i] = ('ok', f())
            except Killed:
                raise
            except BaseException as e:
                results[i] = ('raised', e)
        threads = [threading.Thread(target=call, args=(i, f))
                   for i, f in enumerate(functions)]
        first = T(-1, None)
        first.done = True

        def boot():
            # The application threads exist from the beginning.
            for thread in threads:
                thread.daemon = True
                thread.start()
        self.current = first
        S = self
        try:
            self.start(boot, ())
            t = self.threads[0]
            self.current = t
            t.gate.release()
            ended = self.over.acquire(True, wall)
        finally:
            S = None
        if not ended:
            self.why = 'no answer'
            raise Hang(self)
        return results


class Hang(Exception):
    """A thread does not come back to the scheduler."""


# ------------------------------------------------------------ installation
class RLock(object):
    """A re-entrant lock of scheduled threads."""
    def __init__(self):
        self._block = Lock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._owner == me:
            self._count += 1
            return True
        if self._block.acquire(blocking, timeout):
            self._owner = me
            self._count = 1
            return True
        return False

    __enter__ = acquire

    def release(self):
        if self._owner != _thread.get_ident():
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if not self._count:
            self._owner = None
            self._block.release()

    def __exit__(self, *args):
        if S is not None and S.killing and self._owner != _thread.get_ident():
            return
        self.release()

    def _release_save(self):
        state = self._count, self._owner
        self._count = 0
        self._owner = None
        self._block.release()
        return state

    def _acquire_restore(self, state):
        self._block.acquire()
        self._count, self._owner = state

    def _is_owned(self):
        return self._owner == _thread.get_ident()


def start_new_thread(function, args, kwargs={}):
    if S is None:
        return real_start(function, args, kwargs)
    S.start(function, args, kwargs)
    S.point()
    return 0


def set_sentinel():
    if S is None:
        return _thread._set_sentinel()
    lock = Lock()
    S.current.sentinel = lock
    return lock


def sleep(seconds):
    if S is None:
        return real_sleep(seconds)
    S.point()
    S.wait(None, max(seconds, 1e-9))


def clock():
    return real_clock() if S is None else S.now


real_sleep, real_clock = time.sleep, time.monotonic
queue_put, queue_get = queue.Queue.put, queue.Queue.get


def kind(item):
    if item is None:
        return 'end'
    if item is Exception:
        return 'abort'
    return 'chunk'


def put(self, item, block=True, timeout=None):
    queue_put(self, item, block, timeout)
    if S is not None:
        S.note('put', id(self), kind(item))


def get(self, block=True, timeout=None):
    item = queue_get(self, block, timeout)
    if S is not None:
        S.note('get', id(self), kind(item))
    return item


def install():
    threading.Lock = Lock
    threading._allocate_lock = Lock
    threading.RLock = RLock
    threading._RLock = RLock
    threading._CRLock = RLock
    threading._PyRLock = RLock
    threading._start_new_thread = start_new_thread
    threading._set_sentinel = set_sentinel
    threading._time = clock
    threading.excepthook = lambda args: None
    queue.time = clock
    time.sleep = sleep
    _thread.start_new_thread = start_new_thread
    _thread.allocate_lock = Lock
    queue.Queue.put, queue.Queue.get = put, get
    queue.SimpleQueue = queue._PySimpleQueue


# -------------------------------------------------------------- strategies
def uniform(seed):
    rng = random.Random(seed)

    def choose(ready, current, s):
        return ready[int(rng.random() * len(ready))]
    return choose


def lazy(seed, p=.1):
    """Go on with the same thread but for a few preemptions."""
    rng = random.Random(seed)

    def choose(ready, current, s):
        if current.ready and not current.done and rng.random() > p:
            return current
        return ready[int(rng.random() * len(ready))]
    return choose


def pct(seed, depth=3, length=300):
    """Priorities which change at a few points."""
    rng = random.Random(seed)
    prio = {}
    points = sorted(rng.randrange(1, length) for _ in range(depth))
    low = [0]

    def choose(ready, current, s):
        for t in ready:
            if t.idx not in prio:
                prio[t.idx] = rng.random()
        best = max(ready, key=lambda t: prio[t.idx])
        while points and s.steps >= points[0]:
            points.pop(0)
            low[0] -= 1
            prio[best.idx] = low[0]
            best = max(ready, key=lambda t: prio[t.idx])
        return best
    return choose


def order(name, seed):
    """Always prefer the same threads."""
    rng = random.Random(seed)
    rank = {'readers': lambda t: (t.reads > 0, rng.random()),
            'others': lambda t: (t.reads == 0, rng.random()),
            'newest': lambda t: t.idx,
            'oldest': lambda t: -t.idx}[name]

    def choose(ready, current, s):
        return max(ready, key=rank)
    return choose


def hold(seed):
    """One thread only goes on when no other can."""
    rng = random.Random(seed)
    victim = rng.randrange(2, 9)

    def choose(ready, current, s):
        rest = [t for t in ready if t.idx != victim] or ready
        return rest[int(rng.random() * len(rest))]
    return choose


def script(names):
    """Follow a list of ranks: a choice for each point with several ready."""
    todo = list(names)

    def choose(ready, current, s):
        n = todo.pop(0) if todo else 0
        return ready[n % len(ready)]
    return choose


def strategy(name, seed):
    if name == 'uniform':
        return uniform(seed)
    if name == 'lazy':
        return lazy(seed)
    if name == 'rare':
        return lazy(seed, .02)
    if name == 'pct':
        return pct(seed)
    if name == 'hold':
        return hold(seed)
    return order(name, seed)


STRATEGIES = ('uniform', 'lazy', 'rare', 'pct', 'hold', 'readers', 'others',
              'newest', 'oldest')
