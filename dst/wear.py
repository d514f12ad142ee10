"""Does a long-lived process wear out?  Each template call is made some hundred times with texts that differ; where what
the process holds (memory, descriptors, threads, connections, temporary files) or the steps of one and the same call seem
to grow, it is made some ten thousand times, until the growth ends (a cache has filled) or has gone on all the time."""
import sys, os, re, gc, io, random, ctypes, threading
import sched, seams
import life


class _MI(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in 'arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost'.split()]


_libc = ctypes.CDLL(None)
_libc.mallinfo2.restype = _MI
CAP = 16000            # calls after which growth that has not ended counts as endless
WARM, SEG = 30, 25


class Null(io.TextIOBase):
    def write(self, s):
        return len(s)


def held(purge=False):
    """What the process holds: memory blocks, bytes of larger memory, then things that are counted one by one."""
    old = life.sim.simos_arm(0)
    try:
        sys._clear_type_cache()     # these caches are bounded, and not the library's
        if seams.SCHED is not None:
            seams.SCHED.intr_seen = set()
        if purge:
            re.purge()
            if 'regex' in sys.modules:
                sys.modules['regex'].purge()
        gc.collect()
        _libc.malloc_trim(0)
        m = _libc.mallinfo2()
        return (sys.getallocatedblocks(), m.uordblks + m.hblkhd, len(os.listdir('/proc/self/fd')), threading.active_count(), len(_socks()), len(_tmp()))
    finally:
        life.sim.simos_arm(old)


WHAT = ['memory', 'memory', 'open files', 'threads', 'connections', 'temporary files']
LEAST = [.2, 6, .01, .01, .01, .01]      # growth per call that counts


def _socks():
    s = sys.modules.get('simnet')
    return [1 for x in s.LIVE if x.state == 'open'] if s and s.NET else []


def _tmp():
    d = life.Env.dir
    return [n for s in ('tmp', 'home') for n in os.listdir(os.path.join(d, s))] if d and os.path.isdir(d + '/tmp') else []


def word(rng, chars):
    return ''.join(rng.choice(chars) for _ in range(rng.choice([2, 3, 4, 5, 7])))


def varied(rng, op, chars):
    """The same kind of call with a text not used before."""
    w = word(rng, chars)
    if op['f'] == 'html_api':
        h = op['html']
        i = h.rfind('</')
        return dict(op, html=h[:i] + ' ' + w + h[i:] if i > 0 else h + ' ' + w)
    t = op.get('txt')
    if not isinstance(t, str):
        return op
    x = rng.random()
    if x < .4:
        return dict(op, txt=w + ' ' + t)
    if x < .8:
        return dict(op, txt=t + ' ' + w)
    return dict(op, txt=w + ' ' + word(rng, chars))


class Steps:
    """Lines of the library that one call takes."""

    def __enter__(self):
        mon = sys.monitoring
        mon.use_tool_id(4, 'wear')
        self.n = 0

        def line(code, no):
            if not code.co_filename.startswith(life.SCOPE[0]):
                return mon.DISABLE
            self.n += 1
        mon.register_callback(4, mon.events.LINE, line)
        mon.set_events(4, mon.events.LINE)
        return self

    def __exit__(self, *a):
        sys.monitoring.set_events(4, 0)
        sys.monitoring.free_tool_id(4)


def steps(fn):
    best = None
    for _ in range(3):
        with Steps() as s:
            fn()
        best = s.n if best is None else min(best, s.n)
    return best


def one(op, sc, thread):
    if thread:
        done = sched._thread.allocate_lock()
        done.acquire()

        def body():
            life.run_op(op)
            done.release()
        sched._thread.start_new_thread(body, ())
        done.acquire()
        while sched._thread._count():
            sched.time_sleep(.00001)
    else:
        r = life.run_op(op, 0, sc)
        if r.get('fired'):
            COUNT[op['intr']['kind']] = COUNT.get(op['intr']['kind'], 0) + 1
        for f, h in zip(op.get('flt', ()), r.get('hit', ())):
            if h:
                k = 'disk_%s' % f['ops'][0]
                COUNT[k] = COUNT.get(k, 0) + 1
        if r['o'][0] == 'e':
            COUNT['calls_that_raised'] = COUNT.get('calls_that_raised', 0) + 1


COUNT = {}


def tidy():
    s = sys.modules.get('simnet')
    if s and s.NET:
        s.NET.requests.clear()
        s.NET.events.clear()
        s.NET.n %= max(1, len(s.NET.plans))     # the outages come again


def wear_op(op, rng, sc, thread):
    """-> (number of calls, what grows without end or None)"""
    chars = [c for c in (op.get('txt') or '') if c.isalpha()] if isinstance(op.get('txt'), str) else []
    chars = sorted(set(chars))
    if len(chars) < 4:
        chars += list('\u0905\u0915\u0924\u092e') if op.get('src') == 'Devanagari' else list('akimtu')
    it = op.get('intr')
    base = {k: v for k, v in op.items() if k != 'intr'}
    n = 0
    total = 0
    if it:
        life.run_op(base)
        r = life.run_op(dict(base, intr={'kind': 'count', 'by': it['by'], 'at': None}), 0, sc)
        total = r['n']

    def go(k):
        nonlocal n
        for _ in range(k):
            o = varied(rng, base, chars)
            if it and total:
                o = dict(o, intr={'kind': it['kind'], 'by': it['by'], 'at': rng.randrange(1, total + 1)})
            one(o, sc, thread)
            n += 1
            tidy()

    def plain():
        life.run_op(base)
        tidy()
    go(WARM)
    s0 = steps(plain)
    M = [held()]
    for _ in range(4):
        go(SEG)
        M.append(held())
    s1 = steps(plain)
    G = [[b[j] - a[j] for a, b in zip(M, M[1:])] for j in range(len(WHAT))]
    sus = [j for j, g in enumerate(G) if (min(g) > 0 if j > 1 else sum(g) > 100 * SEG * 4 and sum(x > 0 for x in g) > 2 if j == 1 else min(g) >= LEAST[0] * SEG)]
    slow = s1 > 1.3 * s0 + 200
    if not sus and not slow:
        return n, None
    # again and again, until it ends
    k, last = 200, [held(True)]
    while n < CAP and (sus or slow):
        go(k)
        a = held(True)
        go(k)
        b = held(True)
        c = last[-1]
        sus = [j for j in sus if b[j] - c[j] >= LEAST[j] * 2 * k and (j == 1 or min(a[j] - c[j], b[j] - a[j]) > 0)]
        last.append(b)
        if slow:
            s2 = steps(plain)
            slow, s1 = s2 > 1.02 * s1, s2
        k *= 2
    if sus:
        return n, 'the %s the process holds grow%s with every call' % (WHAT[sus[0]], '' if WHAT[sus[0]].endswith('s') else 's')
    if slow:
        return n, 'the same call takes more and more steps'
    return n, None


def wear(ph):
    fd = os.dup(2)
    null = os.open('/dev/null', os.O_WRONLY)
    os.dup2(null, 2)
    os.close(null)
    so, sys.stdout = sys.stdout, Null()
    life.sim.simos_arm(1)
    out = []
    sc = None
    if any(o.get('intr') for o in ph['wear']):
        sc = sched.Sched(None, life.SCOPE, seams.VC, 1 << 60)
        seams.SCHED = sc
        t = sched.Thr(0, None)
        t.ident = sched._get_ident()
        sc.thr.append(t)
        sc.cur = t
        sc.solo = True
        sc.install()
        sc.disarm_interrupt()
    for k, op in enumerate(ph['wear']):
        n, what = wear_op(op, random.Random('%s/%s' % (ph.get('seed', 0), life.json.dumps(op, sort_keys=True))), sc, ph.get('thread') and not op.get('intr'))
        out.append([n, what])
        if what:
            break
    if sc:
        sc.uninstall()
        seams.SCHED = None
    life.sim.simos_arm(0)
    sys.stdout = so
    os.dup2(fd, 2)
    os.close(fd)
    return {'wear': out, 'count': COUNT, 'out': [], 'net': 0, 'uops': 0}
