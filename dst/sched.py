"""Deterministic scheduler for real threads, and deterministic interruption.

Exactly one simulated thread runs at any moment; the others are parked on a raw
lock.  The running thread can lose the processor only inside the monitoring
callback (one event per executed instruction or line of the code under test) or
where it would block (module import lock, lock, sleep, simulated socket).  Who
runs next is decided here, from a seeded PRNG or from an explicit list of
switches (replay), never by the operating system.

Steps are counted per thread in one of two domains: "all" (every event) and
"hot" (only instructions that touch state which may be shared: stores to
globals, attributes and items, mutating calls, reads of data globals).
"""
import sys, _thread, random, dis, builtins
import importlib._bootstrap as _boot
from time import sleep as time_sleep   # the real one, bound before the clock is virtualised

mon = sys.monitoring
TOOL = 3
_get_ident = _thread.get_ident


class SimAbort(BaseException):
    pass


_OP = dis.opmap
HOT_STORE = {_OP[n] for n in ('STORE_GLOBAL', 'STORE_ATTR', 'STORE_SUBSCR', 'STORE_DEREF', 'DELETE_GLOBAL',
                              'DELETE_ATTR', 'DELETE_SUBSCR', 'STORE_SLICE')}
HOT_CALL = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'update', 'setdefault', 'sort', 'reverse',
            'add', 'discard', 'popitem', 'acquire', 'release', 'get', 'move_to_end', 'cache_clear', 'discard',
            '__setitem__', '__getitem__', 'appendleft', 'popleft', 'put', 'simplefilter', 'filterwarnings'}
_BUILTIN = set(dir(builtins)) | {'re', 'os', 'warnings', 'reduce', 'cmp_to_key', 'zip'}
FILE_CALL = {'open', 'replace', 'rename', 'write', 'writestr', 'read', 'close', 'unlink', 'rmtree', 'mkdir', 'makedirs', 'mkdtemp', 'mkstemp', 'exists', 'isfile', 'is_file', 'isdir', 'copy', 'copyfile', 'move',
             'write_text', 'write_bytes', 'read_text', 'read_bytes', 'touch', 'flush', 'truncate', 'seek', 'tell', 'getvalue', 'link', 'symlink', 'stat', 'utime', 'chdir', '__exit__'}
FILEISH = {'os', 'open', 'tempfile', 'shutil', 'ZipFile', 'zipfile', 'Path', 'BytesIO', 'StringIO', 'writestr', 'namelist'}
_CACHES = {}
for _n, _o in _OP.items():
    if _o < 256:
        _CACHES[_o] = dis._inline_cache_entries[_o] if isinstance(dis._inline_cache_entries, list) else dis._inline_cache_entries.get(_n, 0)
_LG, _LA, _CALLS = _OP['LOAD_GLOBAL'], _OP['LOAD_ATTR'], {_OP['CALL'], _OP['CALL_FUNCTION_EX']}
_EXT, _BS, _CO, _SN = _OP['EXTENDED_ARG'], _OP['BINARY_SUBSCR'], _OP['CONTAINS_OP'], _OP['STORE_NAME']
HOTMAP = {}


def hot_offsets(code):
    """Byte offsets before which, and after which, a switch is interesting."""
    h = HOTMAP.get(id(code))        # (hashing a code object hashes all it contains)
    if h is not None:
        return h[0]
    h = set()
    b, names = code.co_code, code.co_names
    i, n, ext, after, pend = 0, len(b), 0, False, 0
    mod = code.co_name == '<module>'
    filey = not mod and not FILEISH.isdisjoint(names)   # places where files are handled: other processes and threads see those too
    while i < n:
        op, arg = b[i], b[i + 1] | ext
        at = i
        i += 2 + 2 * _CACHES.get(op, 0)
        if op == _EXT:
            ext = arg << 8
            continue
        ext = 0
        if after:
            h.add(at)
            after = False
        if op in HOT_STORE:
            h.add(at)
            after = True
        elif op == _LA and (names[arg >> 1] in HOT_CALL or filey and names[arg >> 1] in FILE_CALL):
            pend = 1
        elif filey and op == _LG and names[arg >> 1] == 'open':
            pend = 1
        elif pend and op in _CALLS:
            h.add(at)
            after = True
            pend = 0
        elif op == _LG and not mod:
            nm = names[arg >> 1]
            if nm not in _BUILTIN and (nm[:1] == '_' or nm.isupper() or nm[:1].islower()):
                h.add(at)
        elif op == _CO:
            h.add(at)
            after = True
        elif mod and op == _SN:
            if at % 8 == 0:
                h.add(at)
    HOTMAP[id(code)] = frozenset(h), code       # (holding on to it, so that its address is not used again)
    return HOTMAP[id(code)][0]


def importing():
    """Is some module being imported at this moment?"""
    for r in list(_boot._module_locks.values()):
        l = r()
        if l is not None and l.owner is not None:
            return True
    return False


_TURN = (lambda: None).__code__


class Thr:
    __slots__ = ('id', 'lock', 'done', 'cond', 'wake', 'steps', 'ident', 'fn', 'prio', 'ctx')

    def __init__(self, id, fn):
        self.id, self.fn = id, fn
        self.lock = _thread.allocate_lock()
        self.lock.acquire()
        self.done = False
        self.cond = None      # callable: may run when true
        self.wake = None      # virtual time at which it may run
        self.steps = 0
        self.ident = None
        self.prio = 0
        self.ctx = {}


class Sched:
    """spec: mode   serial | rw (random walk) | pct (priorities) | first (prefer places not visited yet)
                    | hot (only at hot instructions)
             seed, mean (steps between switches), p, depth, horizon, gran instr|line,
             explicit [[tid, step, next], ...] with dom (replay of a recorded schedule)"""

    def __init__(self, spec, scope, vclock, max_steps=40_000_000):
        self.spec = spec or {'mode': 'serial'}
        self.scope = tuple(scope)
        self.vclock = vclock
        self.thr = []
        self.nident = 0
        self.cur = None
        self.steps = 0
        self.switches = []          # recorded decisions [tid, step, next]
        self.sites = []             # where the switches happened (for the interleaving measure)
        self.max_steps = max_steps
        self.deadlock = None
        self.overrun = False
        self.main_lock = _thread.allocate_lock()
        self.main_lock.acquire()
        self.rng = random.Random(self.spec.get('seed', 0))
        self.mode = self.spec.get('mode', 'serial')
        self.dom = self.spec.get('dom') or ('hot' if self.mode == 'hot' else 'all')
        self.line = self.spec.get('gran', 'instr') == 'line' and self.dom == 'all'
        self.explicit = None
        if 'explicit' in self.spec:
            self.explicit = {(a, b): c for a, b, c in self.spec['explicit']}
            self.mode = 'explicit'
        self.seen = {}
        self.known = {}       # by address: equal code objects of a module imported twice are different places, and hashing them is slow
        self.count = self._gap()
        self.p = self.spec.get('p', 0.3)
        if self.mode == 'pct':
            h = self.spec.get('horizon', 50000)
            self.change = sorted(self.rng.randrange(1, h) for _ in range(self.spec.get('depth', 3)))
        self.turn_at = 1 << 60      # when the whole process gives way to others
        if 'turn' in self.spec:
            k, self.turn_mean, self.turn_fn = self.spec['turn']
            self.turn_rng = random.Random(k)
            self.turn_at = 1 + int(self.turn_rng.expovariate(1 / self.turn_mean))
        self.solo = False
        self.intr = None            # {'tid', 'at': step number or site number, 'by': 'step'|'site'|'hot', 'how', 'mk'}
        self.intr_n = 0
        self.marks = None           # where in the count each file begins
        self.intr_fired = None
        self.active = False
        self.watch = None           # called at each switch inside the code under test

    def _gap(self):
        m = self.spec.get('mean', 100)
        if m <= 1:
            return 1
        return 1 + int(self.rng.expovariate(1.0 / m))

    # ---- events ----
    def install(self):
        mon.use_tool_id(TOOL, 'sim')
        self.ev = mon.events.LINE if self.line else mon.events.INSTRUCTION
        mon.register_callback(TOOL, self.ev, self._event_hot if self.dom == 'hot' else self._event)
        mon.register_callback(TOOL, mon.events.PY_START, self._start)
        mon.set_events(TOOL, mon.events.PY_START)
        self.active = True

    def _start(self, code, off):
        """First call of any function: those of the code under test get events."""
        if code.co_filename.startswith(self.scope) and id(code) not in self.known:
            self.known[id(code)] = code
            mon.set_local_events(TOOL, code, self.ev)
        return mon.DISABLE

    def uninstall(self):
        self.active = False
        mon.set_events(TOOL, 0)
        for c in self.known.values():
            mon.set_local_events(TOOL, c, 0)
        mon.restart_events()
        mon.register_callback(TOOL, self.ev, None)
        mon.register_callback(TOOL, mon.events.PY_START, None)
        mon.free_tool_id(TOOL)

    def arm_interrupt(self, tid, at, by, how, mk):
        self.intr = (tid, at, by, how, mk)
        if self.solo:
            mon.set_events(TOOL, mon.events.PY_START)
            mon.restart_events()
        self.intr_n = 0
        self.intr_seen = set()
        self.intr_fired = None

    def disarm_interrupt(self):
        self.intr = None
        if self.solo:               # other calls run at full speed
            mon.set_events(TOOL, 0)
            for c in self.known.values():
                mon.set_local_events(TOOL, c, 0)
            self.known = {}

    def _interrupt(self, t, code, off):
        tid, at, by, how, mk = self.intr
        if t.id != tid:
            return False
        if by == 'site':
            if (id(code), off) in self.intr_seen:
                return False
            self.intr_seen.add((id(code), off))
        elif by == 'hot' and off not in hot_offsets(code):
            return False
        elif by == 'mod' and code.co_name != '<module>':
            return False
        self.intr_n += 1
        if how == 'nest':
            # other calls begin and end here, in this very thread (a signal handler, a finalizer, a greenlet)
            if self.intr_n >= at and not importing():
                self.intr = None
                nx = mk([code.co_filename.rsplit('/', 1)[-1], code.co_qualname, off])
                if nx is not None:
                    self.intr = (tid, nx, by, how, mk)
            return False
        if at is None or self.intr_n != at:
            if self.marks is not None and (not self.marks or self.marks[-1][1] != code.co_filename):
                self.marks.append([self.intr_n, code.co_filename])
            return False
        self.intr_fired = [code.co_filename.rsplit('/', 1)[-1], code.co_qualname, off]
        self.intr = None
        if how == 'sync':
            raise mk()
        mk()
        return True

    def turn(self, t):
        """The simulated thread t may lose the processor here, outside the code under test."""
        t.steps += 1
        if self.explicit is not None:
            nx = self.explicit.get((t.id, t.steps))
            if nx is not None:
                self._switch_to(nx, _TURN, 0)
        elif self.mode == 'pct':
            if self.rng.random() < .3:
                t.prio = min(x.prio for x in self.thr) - 1
                self._prio_switch(_TURN, 0)
        elif self.mode != 'serial' and self.rng.random() < .6:
            self._random_switch(_TURN, 0)

    def _tick(self, t):
        t.steps += 1
        self.steps += 1
        if self.steps >= self.turn_at:
            self.turn_at = self.steps + 1 + int(self.turn_rng.expovariate(1 / self.turn_mean))
            self.turn_fn()
        if self.steps > self.max_steps:
            self.overrun = True
            self.steps = 0
            raise SimAbort('step budget')

    def _event_hot(self, code, off):
        if off not in hot_offsets(code):
            return mon.DISABLE
        t = self.cur
        if t is None or t.ident != _get_ident():
            return
        self._tick(t)
        if self.intr is not None and self._interrupt(t, code, off):
            return
        if self.explicit is not None:
            nx = self.explicit.get((t.id, t.steps))
            if nx is not None:
                self._switch_to(nx, code, off)
            return
        k = (t.id, id(code), off)
        n = self.seen.get(k, 0)
        self.seen[k] = n + 1
        if self.rng.random() < self.p / (1 + 4 * n):
            self._random_switch(code, off)

    def _event(self, code, off):
        t = self.cur
        if t is None or t.ident != _get_ident():
            return
        self._tick(t)
        if self.solo:
            # one thread, nothing to switch to: only the interruption matters
            if self.intr is None:
                return mon.DISABLE
            by = self.intr[2]
            if by == 'hot' and off not in hot_offsets(code) or by == 'mod' and code.co_name != '<module>':
                return mon.DISABLE      # no place of this kind, ever
            self._interrupt(t, code, off)
            return mon.DISABLE if by == 'site' else None
        if self.intr is not None and self._interrupt(t, code, off):
            return
        m = self.mode
        if m == 'serial':
            return
        if m == 'explicit':
            nx = self.explicit.get((t.id, t.steps))
            if nx is not None:
                self._switch_to(nx, code, off)
            return
        if m == 'rw':
            self.count -= 1
            if self.count <= 0:
                self.count = self._gap()
                self._random_switch(code, off)
            return
        if m == 'pct':
            if self.change and self.steps >= self.change[0]:
                self.change.pop(0)
                t.prio = min(x.prio for x in self.thr) - 1
                self._prio_switch(code, off)
            return
        if m == 'first':
            k = (t.id, id(code), off)
            if k not in self.seen:
                self.seen[k] = 1
                if self.rng.random() < self.p:
                    self._random_switch(code, off)
                return
            self.count -= 1
            if self.count <= 0:
                self.count = self._gap()
                self._random_switch(code, off)

    # ---- switching ----
    def _ready(self, t):
        if t.done:
            return False
        if t.wake is not None and t.wake > self.vclock.now:
            return bool(t.cond and t.cond())
        if t.cond is not None and t.wake is None:
            return bool(t.cond())
        return True

    def _random_switch(self, code, off):
        o = [x for x in self.thr if x is not self.cur and self._ready(x)]
        if o:
            self._go(o[self.rng.randrange(len(o))] if len(o) > 1 else o[0], code, off)

    def _prio_switch(self, code, off):
        o = [x for x in self.thr if self._ready(x)]
        b = max(o, key=lambda x: (x.prio, -x.id))
        if b is not self.cur:
            self._go(b, code, off)

    def _switch_to(self, nx, code, off):
        for x in self.thr:
            if x.id == nx and x is not self.cur and self._ready(x):
                self._go(x, code, off)

    def _go(self, to, code, off):
        me = self.cur
        if self.watch is not None:
            self.watch(me, code, off)
        self.switches.append([me.id, me.steps, to.id])
        if len(self.sites) < 20000:
            self.sites.append((me.id, code.co_name, off, to.id))
        self.cur = to
        to.lock.release()
        me.lock.acquire()
        if self.deadlock:
            raise SimAbort('deadlock')

    def me(self):
        """The simulated thread that is executing, or None."""
        t = self.cur
        return t if (self.active and t is not None and t.ident == _get_ident()) else None

    def block(self, cond, wake=None, what='?'):
        """The current thread cannot go on until cond() (or virtual time wake)."""
        me = self.cur
        if wake is not None and wake <= self.vclock.now:
            return
        if cond is not None and cond():
            return
        me.cond, me.wake = cond, wake
        self._leave(me, what)
        me.cond = me.wake = None

    def _leave(self, me, what):
        """Hand the processor to someone else; returns when me is scheduled again."""
        while True:
            r = [x for x in self.thr if self._ready(x)]
            if r:
                if self.explicit is not None:
                    nx = self.explicit.get((me.id, -1 - me.steps))
                    to = next((x for x in r if x.id == nx), r[0])
                elif self.mode == 'pct':
                    to = max(r, key=lambda x: (x.prio, -x.id))
                elif self.mode == 'serial':
                    to = r[0]
                else:
                    to = r[self.rng.randrange(len(r))]
                if len(r) > 1:
                    self.switches.append([me.id, -1 - me.steps, to.id])
                if to is me:
                    return
                self.cur = to
                to.lock.release()
                if me.done:
                    return
                me.lock.acquire()
                if self.deadlock:
                    raise SimAbort('deadlock')
                return
            w = [x.wake for x in self.thr if not x.done and x.wake is not None]
            if w:
                self.vclock.now = max(self.vclock.now, min(w))
                continue
            if all(x.done for x in self.thr):
                self.cur = None
                self.main_lock.release()
                return
            self.deadlock = [[x.id, what if x is me else 'waiting'] for x in self.thr if not x.done]
            if getattr(self, 'solo', False):
                import seams
                seams.STUCK(what)
            self.cur = None
            self.main_lock.release()
            if me.done:
                return
            me.lock.acquire()      # never released: the run is over
            return

    # ---- running ----
    def spawn(self, fn):
        t = Thr(len(self.thr), fn)
        self.thr.append(t)
        return t

    def _body(self, t):
        t.ident = _get_ident()
        t.lock.acquire()
        try:
            t.fn(t)
        except BaseException as e:
            t.ctx['uncaught'] = repr(e)
        t.done = True
        self._leave(t, 'end')

    def run(self):
        for t in self.thr:
            _thread.start_new_thread(self._body, (t,))
        n = len(self.thr)
        while any(t.ident is None for t in self.thr):
            time_sleep(0.0001)
        if self.mode == 'pct':
            ps = list(range(n))
            self.rng.shuffle(ps)
            for t, p in zip(self.thr, ps):
                t.prio = p + 1
        if self.explicit is not None:
            first = self.thr[min(self.spec.get('first', 0), n - 1)]
        elif self.mode == 'pct':
            first = max(self.thr, key=lambda x: x.prio)
        elif self.mode == 'serial':
            first = self.thr[0]
        else:
            first = self.thr[self.rng.randrange(n)]
        self.first = first.id
        self.cur = first
        first.lock.release()
        self.main_lock.acquire()
