"""Seams below the library: locks, import locks, clock, sleep, entropy, sockets.

Installed before the library is imported; each falls back to the real thing
unless a simulated thread is running.
"""
import sys, _thread, threading, time, os, random, hashlib, datetime
import importlib._bootstrap as _boot

_real_alloc = _thread.allocate_lock
_get_ident = _thread.get_ident
SCHED = None            # the scheduler of the current run
FORKED = False          # this process was forked by the simulated program
PROC = 0                # number of the simulated process
STUCK = None            # called when the only thread of a simulated process would wait for ever; does not return


def cur():
    s = SCHED
    return s.me() if s is not None else None


class VClock:
    def __init__(self, now=0.0):
        self.now = now


VC = VClock()
CLOCK_ON = False
BASE = 1_700_000_000.0


class SimLock:
    """threading.Lock whose waiting is decided by the scheduler inside a run."""

    def __init__(self):
        self._l = _real_alloc()

    def acquire(self, blocking=True, timeout=-1):
        if self._l.acquire(False):
            return True
        if not blocking:
            return False
        if cur() is None:
            if STUCK is not None and (FORKED or _thread._count() == 0):
                # the only thread of the process waits for a lock that nobody else can release
                if timeout is None or timeout < 0:
                    STUCK('lock')
                VC.now += timeout
                return False
            return self._l.acquire(True, timeout)
        wake = VC.now + timeout if timeout is not None and timeout >= 0 else None
        SCHED.block(lambda: not self._l.locked(), wake, 'lock')
        while True:
            if self._l.acquire(False):
                return True
            if wake is not None and VC.now >= wake:
                return False
            SCHED.block(lambda: not self._l.locked(), wake, 'lock')

    def release(self):
        self._l.release()

    def locked(self):
        return self._l.locked()

    def _at_fork_reinit(self):
        self._l = _real_alloc()

    acquire_lock, release_lock, locked_lock = acquire, release, locked
    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class SimRLock:
    def __init__(self):
        self._b = SimLock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _get_ident()
        if self._owner == me:
            self._count += 1
            return True
        r = self._b.acquire(blocking, timeout)
        if r:
            self._owner, self._count = me, 1
        return r

    def release(self):
        if self._owner != _get_ident():
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if not self._count:
            self._owner = None
            self._b.release()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._owner == _get_ident()

    def _release_save(self):
        s = (self._count, self._owner)
        self._count, self._owner = 0, None
        self._b.release()
        return s

    def _acquire_restore(self, s):
        self._b.acquire()
        self._count, self._owner = s

    def _at_fork_reinit(self):
        self._b = SimLock()
        self._owner, self._count = None, 0

    def _recursion_count(self):
        return self._count if self._owner == _get_ident() else 0


def _modlock_acquire(self):
    tid = _get_ident()
    with _boot._BlockingOnManager(tid, self):
        while True:
            with self.lock:
                if self.count == [] or self.owner == tid:
                    self.owner = tid
                    self.count.append(True)
                    return True
                if self.has_deadlock():
                    raise _boot._DeadlockError(f'deadlock detected by {self!r}')
                sim = cur() is not None
                if not sim and self.wakeup.acquire(False):
                    self.waiters.append(None)
            if sim:
                SCHED.block(lambda: self.count == [] or self.owner == tid, None, 'import ' + self.name)
            else:
                self.wakeup.acquire()
                self.wakeup.release()


def install_locks():
    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._RLock = SimRLock
    threading._allocate_lock = SimLock
    # `_thread.allocate_lock` itself stays real: the scheduler and the interpreter use it
    _boot._ModuleLock.acquire = _modlock_acquire
    import queue
    queue.SimpleQueue = queue._PySimpleQueue
    real_sleep = time.sleep

    def sleep(s):
        if cur() is not None:
            SCHED.block(lambda: False, VC.now + s, 'sleep')
        elif CLOCK_ON:
            VC.now += s
        else:
            real_sleep(s)
    time.sleep = sleep
    real_start = threading.Thread.start

    def start(self):
        """A thread started by the code under test becomes a simulated thread."""
        me = cur()
        if me is None:
            return real_start(self)
        t = SCHED.spawn(lambda thr: self.run())
        self._started.set()
        self._sim = t
        _thread.start_new_thread(SCHED._body, (t,))
        import sched as _s
        while t.ident is None:
            _s.time_sleep(0.0001)
    threading.Thread.start = start
    real_join = threading.Thread.join

    def join(self, timeout=None):
        t = getattr(self, '_sim', None)
        if t is None:
            return real_join(self, timeout)
        SCHED.block(lambda: t.done, None if timeout is None else VC.now + timeout, 'join')
    threading.Thread.join = join
    real_alive = threading.Thread.is_alive
    threading.Thread.is_alive = lambda self: (not self._sim.done) if getattr(self, '_sim', None) else real_alive(self)


_real_time = {n: getattr(time, n) for n in ('time', 'monotonic', 'perf_counter', 'time_ns', 'monotonic_ns', 'perf_counter_ns', 'process_time')}


def install_clock():
    """time.* read the virtual clock while CLOCK_ON."""
    def mk(name, base, ns):
        real = _real_time[name]
        if ns:
            return lambda: int((base + VC.now) * 1e9) if CLOCK_ON else real()
        return lambda: base + VC.now if CLOCK_ON else real()
    time.time = mk('time', BASE, False)
    time.time_ns = mk('time_ns', BASE, True)
    for n in ('monotonic', 'perf_counter', 'process_time'):
        setattr(time, n, mk(n, 1000.0, False))
    for n in ('monotonic_ns', 'perf_counter_ns'):
        setattr(time, n, mk(n, 1000.0, True))
    RD = datetime.datetime

    class SimDatetime(RD):
        @classmethod
        def now(cls, tz=None):
            return RD.fromtimestamp(time.time(), tz) if CLOCK_ON else RD.now(tz)

        @classmethod
        def utcnow(cls):
            return RD.fromtimestamp(time.time(), datetime.timezone.utc).replace(tzinfo=None) if CLOCK_ON else RD.utcnow()

        @classmethod
        def today(cls):
            return cls.now()
    datetime.datetime = SimDatetime


_ent = None


def install_entropy(seed):
    """os.urandom and friends become a function of the seed."""
    rng = random.Random('entropy%d' % seed)

    def urandom(n):
        return rng.randbytes(n)
    os.urandom = urandom
    os.getpid = lambda: 4242        # temporary names hold it
    real_seed = random.Random.seed

    def seed(self, a=None, version=2):
        # random.Random() without a seed asks the kernel from C
        return real_seed(self, rng.getrandbits(64) if a is None else a, version)
    random.Random.seed = seed
    random.seed = random._inst.seed
    random._urandom = urandom
    random.seed(rng.getrandbits(64))
