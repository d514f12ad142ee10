"""One simulated life of a process: executes a run description inside a forked child.

A run is a list of phases; a phase is one list of operations per simulated
thread.  Everything that happens is returned as plain JSON values.
"""
import sys, os, io, re, json, base64, hashlib, warnings, threading, _thread, ctypes, errno
import signal, random, locale, logging, gc, socket, tempfile, types, collections, marshal
import sched, seams
from time import monotonic as _mono   # the real one

REPO = os.environ.get('DST_REPO', '/repo').rstrip('/') + '/'
SCOPE = [REPO + 'aksharamukha/']
sim = ctypes.CDLL(None)


class LogEnt(ctypes.Structure):
    _fields_ = [('op', ctypes.c_int), ('cls', ctypes.c_int), ('res', ctypes.c_int), ('fault', ctypes.c_int)]


sim.simos_log.restype = ctypes.POINTER(LogEnt)
sim.simos_ops.restype = ctypes.c_long
sim.simos_netcalls.restype = ctypes.c_long
sim.simos_fault.argtypes = [ctypes.c_int, ctypes.c_long, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long]
OPN = {'open_r': 1, 'open_w': 2, 'read': 4, 'write': 8, 'close': 16, 'rename': 32, 'unlink': 64, 'fsync': 128,
       'trunc': 256, 'mkdir': 512, 'chmod': 1024, 'link': 2048, 'opendir': 4096}
ACT = {'errno': 1, 'short': 2, 'crash_before': 3, 'crash_after': 4, 'torn': 5, 'sticky': 6, 'close_err': 7}


class SimTimeout(BaseException):
    """An interruption by a watchdog, as BaseException."""


class SimTimeoutError(Exception):
    """An interruption by a watchdog, as Exception."""


INTR = {'kbd': KeyboardInterrupt, 'mem': MemoryError, 'base': SimTimeout, 'exc': SimTimeoutError, 'exit': SystemExit}


def _crash():
    os._exit(77)


# ---------------------------------------------------------------- operations
W = {}           # thread ident -> warnings of the running operation
NOT_COUNTED = (SyntaxWarning, DeprecationWarning, PendingDeprecationWarning, ResourceWarning, ImportWarning,
               FutureWarning, BytesWarning)


def _showwarning(message, category, filename, lineno, file=None, line=None):
    if not issubclass(category, NOT_COUNTED):
        l = W.get(_thread.get_ident())
        if l is not None:
            l.append([category.__name__, str(message)])


class Out(io.StringIO):
    """Stands for the host program's standard output."""


class Env:
    outs = []
    counts = {}
    kids, kids_n = [], 0
    lists = {}
    dir = None
    strs = {}


def _lst(x):
    if isinstance(x, str) and x[:1] == '@':
        return Env.lists[x]
    return x if x is None or isinstance(x, str) else list(x)


def _opts(op, pre, post):
    kw = {}
    if 'nativize' in op:
        kw['nativize'] = op['nativize']
    if 'pre' in op:
        kw[pre] = _lst(op['pre'])
    if 'post' in op:
        kw[post] = _lst(op['post'])
    return kw


def _path(op):
    return op['path'] if op.get('rel') else os.path.join(Env.dir, op['path'])


def call(op):
    f = op['f']
    if f == 'tree':
        old = sim.simos_arm(0)
        try:
            return {'tree': tree(Env.dir)}
        finally:
            sim.simos_arm(old)
    if f == 'put':
        old = sim.simos_arm(0)
        try:
            with open(os.path.join(Env.dir, op['path']), 'wb') as h:
                h.write(base64.b64decode(op['d']))
        finally:
            sim.simos_arm(old)
        return None
    if f == 'import':
        import importlib
        old = set(sys.modules)
        importlib.import_module(op['m'])
        return [n for n, m in sys.modules.items() if n.startswith('aksharamukha') and n not in old and getattr(m, '__file__', None)] if op.get('names') else None
    if f == 'sleep':
        import time
        time.sleep(op['s'])
        return None
    if f == 'fork':
        return fork(op)
    from aksharamukha import transliterate as T
    if f == 'process':
        kw = _opts(op, 'pre_options', 'post_options')
        if 'param' in op:
            kw['param'] = op['param']
        return T.process(op['src'], op['tgt'], op['txt'], **kw)
    if f == 'convert_default':
        return T.convert_default(op['src'], op['tgt'], op['txt'], **_opts(op, 'pre_options', 'post_options'))
    if f == 'convert':
        return T.convert(op['src'], op['tgt'], op['txt'], op.get('nativize', True), _lst(op.get('pre', [])), _lst(op.get('post', [])))
    if f == 'auto_detect':
        return T.auto_detect(op['txt'], **({'plugin': True} if op.get('plugin') else {}))
    if f == 'detect_pre':
        return T.detect_preoptions(op['txt'], op['src'])
    if f == 'tr':
        from aksharamukha import gimeltra
        return gimeltra.tr(op['txt'], op['src'], op['tgt']) if op.get('src') else gimeltra.tr(op['txt'])
    if f == 'file':
        from aksharamukha import transliterate_file as F
        return F.process(op['src'], op['tgt'], _path(op), **_opts(op, 'pre_options', 'post_options'))
    if f == 'html_api':
        from aksharamukha import transliterate_file as F
        return F.convert_html(op['src'], op['tgt'], op['html'], is_api_mode=True, **_opts(op, 'pre_options', 'post_options'))
    if f == 'docx_api':
        from aksharamukha import transliterate_file as F
        r = F.convert_docx(op['src'], op['tgt'], op['docx'], is_api_mode=True, **_opts(op, 'pre_options', 'post_options'))
        return {'b64': base64.b64encode(r.getvalue() if hasattr(r, 'getvalue') else bytes(r)).decode()}
    raise AssertionError('unknown operation ' + f)


def fork(op):
    """The process is forked; the child makes calls of its own.  At op['at'] steps of all threads, when no import is under way."""
    sc = seams.SCHED
    if sc is not None and sc.me() is not None:
        me = sc.me()
        sc.block(lambda: not sched.importing() and (sc.steps >= op.get('at', 0) or not any(x.cond is None and sc._ready(x) for x in sc.thr if x is not me)), None, 'fork')
    busy = sum(1 for t in sc.thr if t is not sc.cur and not t.done and t.steps) if sc is not None else 0
    n = Env.kids_n = Env.kids_n + 1
    out_r, out_w = os.pipe()
    go_r, go_w = os.pipe()
    old = sim.simos_arm(0)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        pid = os.fork()
    if pid == 0:
        try:
            os.close(out_r)
            os.close(go_w)
            try:
                res = _child(op, n, sc, go_r, out_w)
            except BaseException as e:
                import traceback
                res = {'harness': repr(e), 'tb': traceback.format_exc()}
            _put(out_w, res)
        finally:
            os._exit(0)
    os.close(out_w)
    os.close(go_r)
    kid = [pid, out_r, go_w, op, None]
    if op.get('when') == 'par':
        # the child takes turns with the threads of this process: one of them stands for it
        Env.kids.append(kid)

        def proxy(t):
            while True:
                os.write(go_w, b'g')
                if os.read(out_r, 1) != b'y':
                    break
                sc.turn(t)
            kid[4] = _collect(kid)
        t = sc.spawn(proxy)
        _thread.start_new_thread(sc._body, (t,))
        while t.ident is None:
            sched.time_sleep(0.0001)
        sim.simos_arm(old)
        return {'busy': busy}
    if op.get('when') == 'end':
        Env.kids.append(kid)
        sim.simos_arm(old)
        return {'busy': busy}
    r = _reap(kid)
    sim.simos_arm(old)
    return {'child': r, 'busy': busy}


def _put(fd, res):
    sim.simos_arm(0)
    v = memoryview(b'r' + json.dumps(res).encode())
    while v:
        v = v[os.write(fd, v):]


def _child(op, n, sc, go, fd):
    if sc is not None and sc.active:
        sc.uninstall()
    seams.SCHED = None
    seams.PROC = n
    seams.FORKED = True
    seams.install_entropy(op.get('seed', 0) * 64 + n)
    os.getpid = lambda: 4242 + n
    W.clear()
    if op.get('when') in ('end', 'par'):
        os.read(go, 1)

    def turn():
        # the other processes have their turn
        os.write(fd, b'y')
        os.read(go, 1)

    def stuck(what):
        _put(fd, {'deadlock': [[0, what]], 'out': Env.outs})
        os._exit(0)
    seams.STUCK = stuck
    if 'simnet' in sys.modules and sys.modules['simnet'].NET:
        sys.modules['simnet'].NET.requests = []
    sp = dict(op.get('sched') or {'mode': 'serial'})
    if op.get('when') == 'par':
        sp['turn'] = [op.get('seed', 0), op.get('mean', 100), turn]
    r = run_phase({'ops': op['T'], 'sched': sp})
    if op.get('state'):
        r['state'] = lib_state()
    return r


def _collect(kid):
    pid, out_r, go_w = kid[:3]
    b = []
    while True:
        c = os.read(out_r, 1 << 20)
        if not c:
            break
        b.append(c)
    os.close(out_r)
    os.close(go_w)
    st = os.waitpid(pid, 0)[1]
    try:
        return json.loads(b''.join(b))
    except ValueError:
        return {'died': os.waitstatus_to_exitcode(st)}


def _reap(kid):
    if kid[3].get('when') == 'par':
        return kid[4] or {'lost': True}
    os.write(kid[2], b'g')
    os.read(kid[1], 1)
    return _collect(kid)


def tree(root):
    """Everything below root, by relative path."""
    out = {}
    for d, ds, fs in os.walk(root):
        ds.sort()
        for n in sorted(ds + fs):
            p = os.path.join(d, n)
            r = os.path.relpath(p, root)
            st = os.lstat(p)
            if os.path.islink(p):
                out[r] = ['l', os.readlink(p)]
            elif os.path.isdir(p):
                out[r] = ['d', st.st_mode & 0o7777]
            else:
                with open(p, 'rb') as f:
                    out[r] = ['f', st.st_mode & 0o7777, base64.b64encode(f.read()).decode()]
    return out


_ADDR = re.compile(r'0x[0-9a-fA-F]+')


def scrub(s):
    s = _ADDR.sub('0x', s)
    if Env.dir:
        s = s.replace(Env.dir, '<dir>')
    return s


def jval(v):
    if v is None or isinstance(v, (str, bool, int)) or (isinstance(v, dict) and set(v) == {'b64'}):
        return v
    if isinstance(v, dict):
        return v
    if isinstance(v, (list, tuple)) and all(isinstance(x, str) for x in v):
        return list(v)
    return 'repr:' + scrub(repr(v))


def chain(e):
    seen, out = set(), []
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        out.append(type(e).__name__)
        e = e.__cause__ or e.__context__
    return out


def _own(op):
    # a generator has its own record of the exception being handled: an interruption inside a handler, where the real
    # interpreter would not deliver one, cannot leave its exception behind as the context of later ones
    yield call(op)


def run_op(op, tid=0, sc=None):
    """-> {'o': outcome, ...}; outcome = ['v', value, warnings] or ['e', type, message, warnings]"""
    ident = _thread.get_ident()
    outer = W.get(ident)
    W[ident] = ws = []
    rec = {}
    flt = op.get('flt')
    if flt is not None:
        set_faults(flt)
    n0 = sim.simos_ops(0)
    said0 = sys.stdout.tell() if isinstance(sys.stdout, Out) else 0
    it = op.get('intr')
    if it is not None:
        k = it['kind']
        sc.marks = [] if it.get('marks') else None
        if k == 'crash':
            sc.arm_interrupt(tid, it['at'], it['by'], 'call', _crash)
        elif k == 'count':
            sc.arm_interrupt(tid, None, it['by'], 'call', None)
        elif k == 'nest':
            rec['nested'] = []
            l = sorted([1 + int(x['share'] * Env.counts.get(it['of'], 0)) if x.get('at') is None else x['at'], j] for j, x in enumerate(it['calls']))

            def nest(place):
                at, j = l.pop(0)
                rec['nested'].append([j, at, place, []])
                for o in it['calls'][j]['ops']:
                    rec['nested'][-1][3].append(run_op(o, tid, sc))
                return l[0][0] if l else None
            sc.arm_interrupt(tid, l[0][0], it['by'], 'nest', nest)
        else:
            cls = INTR[k]
            at = it['at']
            if at is None:          # a share of the way through the call, as measured earlier in this life
                at = 1 + int(it['share'] * Env.counts.get(it['of'], 0))
            rec['at'] = at
            sc.arm_interrupt(tid, at, it['by'], 'sync', cls)
    try:
        try:
            for v in _own(op):
                pass
        finally:
            if it is not None:
                sc.disarm_interrupt()
        o = ['v', jval(v), ws]
    except sched.SimAbort:
        raise
    except BaseException as e:
        o = ['e', type(e).__name__, scrub(str(e)), ws]
        rec['chain'] = chain(e)
        if isinstance(e, OSError) and e.errno:
            rec['errno'] = e.errno
        e.__traceback__ = None
        del e
    W.pop(ident, None)
    if outer is not None:
        W[ident] = outer
    rec['o'] = o
    rec['dops'] = sim.simos_ops(0) - n0
    if isinstance(sys.stdout, Out) and sys.stdout.tell() > said0:
        rec['said'] = scrub(sys.stdout.getvalue()[said0:])[:400]
    if it is not None:
        rec['fired'] = sc.intr_fired
        rec['n'] = sc.intr_n
        if it.get('marks'):
            rec['marks'] = sc.marks
        if it['kind'] == 'count' and 'of' in it:
            Env.counts[it['of']] = sc.intr_n
    if flt is not None:
        rec['hit'] = [sim.simos_fired(i) for i in range(len(flt))]
        sim.simos_clear_faults()
    return rec


def set_faults(flt):
    sim.simos_clear_faults()
    for f in flt:
        sim.simos_fault(f['cls'], f['k'], ACT[f['act']], f.get('err', 0),
                        sum(OPN[x] for x in f['ops']), f.get('arg', 0))


# ---------------------------------------------------------------- state of the host program
_MODS = ['builtins', 'os', 'os.path', 'io', 're', 'json', 'string', 'warnings', 'logging', 'unicodedata', 'random', 'socket',
         'locale', 'tempfile', 'time', 'datetime', 'threading', 'html', 'itertools', 'functools', 'collections', 'codecs',
         'sys', 'gc', 'signal', 'importlib', 'yaml', 'requests', 'requests.api', 'requests.sessions', 'langcodes', 'regex', 'zipfile', 'shutil',
         'bs4', 'bs4.builder', 'lxml.etree', 'urllib3', 'copy', 'math', 'inspect', 'contextlib', 'ssl', 'http.client', 'ast', 'types', 'pathlib',
         'fontTools.unicodedata', 'operator', 'base64', 'textwrap', 'hashlib', 'secrets', 'uuid', 'decimal', 'heapq', 'bisect', 'pickle']
_MODVALS = {'socket': ['_GLOBAL_DEFAULT_TIMEOUT'], 'regex': ['DEFAULT_VERSION'], 'string': ['punctuation', 'whitespace', 'ascii_letters', 'digits']}


_TOKS = {}


def tok(x):
    """A number that stands for this very object in this life: the same in a replay, unlike its address."""
    t = _TOKS.get(id(x))
    if t is None:
        t = _TOKS[id(x)] = ('#%d' % len(_TOKS), x)      # the reference keeps the address from being used again
    return t[0]


def host_state():
    import yaml
    s = {}
    try:
        s['cwd'] = os.getcwd()
    except OSError as e:
        s['cwd'] = repr(e)
    s['environ'] = dict(os.environ)
    u = os.umask(0)
    os.umask(u)
    s['umask'] = u
    s['locale'] = locale.setlocale(locale.LC_ALL)
    for n in ('path', 'argv', 'meta_path', 'path_hooks', 'warnoptions', 'orig_argv'):
        s['sys.' + n] = [x if isinstance(x, str) else tok(x) for x in getattr(sys, n)]
    for n in ('excepthook', 'displayhook', 'unraisablehook', 'breakpointhook', 'stdin', 'stdout', 'stderr', '__stdout__', '__stderr__', '__stdin__'):
        s['sys.' + n] = tok(getattr(sys, n, None))
    for n in ('getrecursionlimit', 'getswitchinterval', 'gettrace', 'getprofile', 'get_int_max_str_digits', 'get_asyncgen_hooks', 'get_coroutine_origin_tracking_depth'):
        s['sys.' + n] = repr(getattr(sys, n)())
    for n in ('dont_write_bytecode', 'pycache_prefix', 'tracebacklimit', 'ps1', 'stdlib_dir'):
        s['sys.' + n] = repr(getattr(sys, n, None))
    for n in ('stdin', 'stdout', 'stderr'):
        f = getattr(sys, n)
        s['std.' + n] = [getattr(f, 'closed', None), getattr(f, 'encoding', None), getattr(f, 'errors', None), getattr(f, 'line_buffering', None)]
    s['warnings.filters'] = [repr(x) for x in warnings.filters]
    s['warnings.hooks'] = [tok(warnings.showwarning), tok(warnings._showwarnmsg), tok(warnings.formatwarning), warnings.defaultaction, repr(warnings.onceregistry)]
    r = logging.root
    s['logging'] = [r.level, r.disabled, r.manager.disable, logging.raiseExceptions, tok(logging.getLoggerClass()), tok(logging.getLogRecordFactory()), logging.logThreads]
    s['logging.root.handlers'] = [tok(h) for h in r.handlers] + [tok(f) for f in r.filters]
    s['logging.lastResort'] = [tok(logging.lastResort), logging.lastResort.level if logging.lastResort else None]
    s['loggers'] = {n: [l.level, l.disabled, l.propagate, [tok(h) for h in l.handlers]] for n, l in sorted(r.manager.loggerDict.items()) if isinstance(l, logging.Logger)}
    s['logging.levels'] = dict(logging._nameToLevel)
    s['random'] = hashlib.sha256(repr(random.getstate()).encode()).hexdigest()
    s['signals'] = {}
    for n in range(1, 65):
        try:
            h = signal.getsignal(n)
            s['signals'][str(n)] = h if isinstance(h, int) else tok(h)
        except ValueError:
            pass
    s['sigmask'] = sorted(signal.pthread_sigmask(signal.SIG_BLOCK, []))
    s['itimer'] = [signal.getitimer(x)[1] for x in (0, 1, 2)] + [signal.getitimer(x)[0] > 0 for x in (0, 1, 2)]
    s['socket.timeout'] = socket.getdefaulttimeout()
    s['threads'] = sorted(t.name for t in threading.enumerate() if not t.name.startswith('Dummy-'))   # the simulator's own threads
    s['threading'] = [tok(threading.excepthook), threading.stack_size(), repr(threading.gettrace()), repr(threading.getprofile())]
    s['gc'] = [gc.isenabled(), gc.get_threshold(), gc.get_debug(), len(gc.callbacks)]
    import decimal, atexit, resource, contextvars
    s['decimal'] = repr(decimal.getcontext())
    s['atexit'] = atexit._ncallbacks()
    s['rlimits'] = [resource.getrlimit(x) for x in range(0, 10)]
    s['priority'] = os.getpriority(os.PRIO_PROCESS, 0)
    s['contextvars'] = sorted(v.name for v in contextvars.copy_context() if v.name != 'decimal_context')
    fds = {}
    for n in os.listdir('/proc/self/fd'):
        try:
            fds[n] = os.readlink('/proc/self/fd/' + n)
        except OSError:
            pass
    s['fds'] = {n: p for n, p in fds.items() if not p.endswith('/fd')}
    s['yaml'] = [sorted(map(str, c.yaml_constructors)) + sorted(map(str, c.yaml_implicit_resolvers)) for c in (yaml.SafeLoader, yaml.Loader, yaml.FullLoader)]
    import zipfile
    s['zipfile'] = [zipfile.ZIP64_LIMIT]
    for m in _MODS:
        mod = sys.modules.get(m)
        if mod is not None:
            for k, v in list(vars(mod).items()):
                if (callable(v) and not k.startswith('__')) or k in _MODVALS.get(m, ()):
                    s['attr %s.%s' % (m, k)] = tok(v) if callable(v) else repr(v)
    s['stdout'] = sys.stdout.getvalue() if isinstance(sys.stdout, Out) else ''
    if Env.dir:
        s['tempdir'] = sorted(os.listdir(os.path.join(Env.dir, 'tmp'))) if os.path.isdir(os.path.join(Env.dir, 'tmp')) else []
        s['home'] = sorted(os.listdir(os.path.join(Env.dir, 'home'))) if os.path.isdir(os.path.join(Env.dir, 'home')) else []
        try:
            s['cwd files'] = sorted(os.listdir('.'))
        except OSError:
            pass
    return s


def preset(l):
    """What an ordinary host program may have set before it calls the library."""
    for k in l:
        if k == 'gc_off':
            gc.disable()
        elif k == 'gc_threshold':
            gc.set_threshold(5000, 20, 30)
        elif k == 'recursion':
            sys.setrecursionlimit(3333)
        elif k == 'filter_ignore':
            warnings.filterwarnings('ignore', message='nothing like this')
        elif k == 'filter_once':
            warnings.filterwarnings('once', category=DeprecationWarning)
        elif k == 'log_level':
            logging.getLogger().setLevel(logging.ERROR)
        elif k == 'log_debug':
            logging.getLogger().setLevel(logging.DEBUG)
            logging.getLogger().addHandler(logging.NullHandler())
        elif k == 'log_disable':
            logging.disable(logging.INFO)
        elif k == 'log_lib':
            logging.getLogger('aksharamukha').setLevel(logging.CRITICAL)
            logging.getLogger('aksharamukha').propagate = False
        elif k == 'log_urllib3':
            logging.getLogger('urllib3').setLevel(logging.WARNING)
        elif k == 'socket':
            socket.setdefaulttimeout(33.0)
        elif k == 'umask':
            os.umask(0o077)
        elif k == 'locale_c':
            locale.setlocale(locale.LC_ALL, 'C')
        elif k == 'locale_numeric':
            locale.setlocale(locale.LC_COLLATE, 'POSIX')
        elif k == 'switch':
            sys.setswitchinterval(0.02)
        elif k == 'decimal':
            import decimal
            decimal.getcontext().prec = 9
        elif k == 'signals':
            signal.signal(signal.SIGALRM, lambda *a: None)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            signal.signal(signal.SIGTERM, signal.SIG_IGN)
        elif k == 'random':
            random.seed(7)
            random.random()
        elif k == 'environ':
            os.environ['LC_NUMERIC'] = 'de_DE'
            os.environ['HOST_PROGRAM'] = '1'
        elif k == 'bytecode':
            sys.dont_write_bytecode = not sys.dont_write_bytecode
        elif k == 'path':
            sys.path.append('/nonexistent/host')
        elif k == 'intmax':
            sys.set_int_max_str_digits(5000)
        elif k == 'stdout':
            sys.stdout = Out()
        elif k == 'cwd' and Env.dir:
            os.makedirs(os.path.join(Env.dir, 'home', 'elsewhere'), exist_ok=True)
            os.chdir(os.path.join(Env.dir, 'home', 'elsewhere'))
        elif k == 'tempdir' and Env.dir:
            tempfile.tempdir = os.path.join(Env.dir, 'home')
        elif k == 'hook':
            sys.excepthook = lambda *a: None


def light_state():
    """What other threads of the host program see at this very moment."""
    try:
        cwd = os.getcwd()
    except OSError:
        cwd = None
    u = os.umask(0)
    os.umask(u)
    r = logging.root
    return {'cwd': cwd, 'umask': u, 'locale': locale.setlocale(locale.LC_ALL), 'environ': dict(os.environ), 'recursion limit': sys.getrecursionlimit(),
            'standard streams': [tok(sys.stdin), tok(sys.stdout), tok(sys.stderr)], 'warning filters': [repr(x) for x in warnings.filters],
            'warning hooks': [tok(warnings.showwarning), tok(warnings._showwarnmsg)],
            'logging': [r.level, r.disabled, r.manager.disable, [tok(h) for h in r.handlers]], 'socket timeout': socket.getdefaulttimeout(), 'gc': gc.isenabled(),
            'switch interval': sys.getswitchinterval(), 'random': random.getstate(), 'sys.path': list(sys.path), 'excepthook': tok(sys.excepthook),
            'bytecode': sys.dont_write_bytecode, 'tempdir': tempfile.tempdir, 'signals': [repr(signal.getsignal(n)) for n in (2, 14, 15)]}


def watcher(bad):
    base = light_state()
    left = [2500]

    def look(t, code, off):
        if bad or left[0] <= 0:
            return
        left[0] -= 1
        now = light_state()
        if now != base:
            for k in base:
                if now[k] != base[k] and not (k == 'tempdir' and base[k] is None):
                    x = [base[k], now[k]] if k not in ('random',) else ['...', '...']
                    if k == 'environ':
                        x = [[n, base[k].get(n), now[k].get(n)] for n in sorted(set(base[k]) | set(now[k])) if base[k].get(n) != now[k].get(n)]
                    bad.append([k + ' while a call was running', scrub(repr(x))[:300], 'in %s' % code.co_name])
                    return
            base.update(now)
    return look


def host_diff(a, b, ignore=()):
    d = []
    for k in sorted(set(a) | set(b)):
        x, y = a.get(k), b.get(k)
        if x == y:
            continue
        if k.startswith('attr ') and (k not in a or k not in b):
            if k not in a:
                continue           # a module or attribute imported later
        if k == 'loggers':
            y = {n: v for n, v in y.items() if n in x}
            if x == y:
                continue
            diff = {n: [v, y.get(n)] for n, v in x.items() if y.get(n) != v}
            d.append([k, repr(diff)[:300]])
            continue
        if k == 'environ':
            d.append([k, repr({n: [x.get(n), y.get(n)] for n in set(x) | set(y) if x.get(n) != y.get(n)})[:300]])
            continue
        if isinstance(x, list) and isinstance(y, list) and len(repr(x)) > 200:
            d.append([k, scrub(repr([[p for p in x if p not in y][:3], [p for p in y if p not in x][:3]]))[:300]])
            continue
        xs, ys = repr(x), repr(y)
        d.append([k, scrub(xs[-200:] + ' -> ' + ys[-200:])])
    return d


# ---------------------------------------------------------------- state of the library's own data
_ADDR = re.compile(' at 0x[0-9a-f]+')


def _dig(h, v, depth=0):
    if isinstance(v, (list, dict, set, frozenset, tuple, str, int, float, type(None), bytes, collections.Counter, collections.deque)):
        try:
            r = repr(v)
            if ' at 0x' in r:
                r = _ADDR.sub('', r)
            h.update(r.encode('utf8', 'surrogatepass'))
        except Exception:
            pass


def _cells(f):
    """Plain data a function keeps in its closure."""
    out = []
    for c in f.__closure__ or ():
        try:
            v = c.cell_contents
        except ValueError:
            continue
        if isinstance(v, (list, dict, set, int, str, tuple)):
            out.append(v)
    return out


def lib_state():
    """Digest per module of the library's data reachable from its modules: globals, defaults and attributes of
    functions, class attributes (used to decide where to look, never to judge)."""
    out = {}
    for n, m in sorted(sys.modules.items()):
        if n.startswith('aksharamukha') and m is not None:
            h = hashlib.md5()
            for k, v in sorted(vars(m).items()):
                if k.startswith('__') and k.endswith('__'):
                    continue
                if isinstance(v, types.ModuleType):
                    continue
                h.update(k.encode())
                if hasattr(v, 'cache_info'):
                    continue
                if isinstance(v, types.FunctionType):
                    if v.__defaults__ or v.__kwdefaults__ or v.__dict__ or v.__closure__:
                        _dig(h, _cells(v))
                        h.update(v.__code__.co_name.encode())
                        _dig(h, v.__defaults__)
                        _dig(h, v.__kwdefaults__)
                        _dig(h, {a: b for a, b in v.__dict__.items() if a != '__wrapped__'})
                elif isinstance(v, type):
                    if getattr(v, '__module__', None) == n:
                        for a, b in sorted(vars(v).items()):
                            if isinstance(b, types.FunctionType):
                                _dig(h, b.__defaults__)
                            else:
                                _dig(h, b)
                else:
                    _dig(h, v)
                    if hasattr(v, '__dict__') and type(v).__module__ == n:
                        _dig(h, vars(v))
            out[n] = h.hexdigest()[:12]
    return out


_PLAIN = {list, dict, set, frozenset, tuple, str, int, float, bool, type(None), bytes}
_SKIP = {'__builtins__', '__spec__', '__loader__', '__cached__', '__file__', '__doc__', '__name__', '__package__', '__path__', '__warningregistry__'}


def quick_state(mods):
    """A cheap digest of the same data, to skip the full one where nothing changed."""
    out = []
    for m in mods:
        flat = []
        d = vars(m)
        for k, v in d.items():
            t = type(v)
            if t in _PLAIN:
                if k not in _SKIP:
                    flat.append(v)
            elif t is types.FunctionType:
                if v.__defaults__ or v.__kwdefaults__ or v.__dict__ or v.__closure__:
                    flat.append([v.__defaults__, v.__kwdefaults__, [x for x in v.__dict__.items() if x[0] != '__wrapped__'], _cells(v)])
            elif isinstance(v, type):
                if getattr(v, '__module__', None) == m.__name__:
                    for a, b in vars(v).items():
                        flat.append(b.__defaults__ if isinstance(b, types.FunctionType) else b if type(b) in _PLAIN else None)
            elif getattr(type(v), '__module__', None) == m.__name__ and hasattr(v, '__dict__'):
                flat.append(vars(v))
            elif not isinstance(v, types.ModuleType) and not hasattr(v, 'cache_info'):
                flat.append(_ADDR.sub('', repr(v)) if isinstance(v, (collections.Counter, collections.deque, collections.OrderedDict, collections.defaultdict)) else None)
        try:
            out.append(hash(marshal.dumps(flat, 2)))
        except ValueError:
            out.append(hash(_ADDR.sub('', repr(flat))))
    return out


def scout(ops, seed, budget):
    """Which calls alter the library's own data or the host process, even for a moment?  Each call runs twice: once to
    count its lines, once to be looked at in the middle.  A hint where to search, never a verdict."""
    mon, tool = sys.monitoring, 4
    mon.use_tool_id(tool, 'scout')
    rng = random.Random(seed)
    n, at, mid, busy, hs0 = 0, 0, None, False, None
    end = _mono() + budget

    def hst():
        h = host_state()
        h.pop('fds', None)
        return h

    def line(code, no):
        nonlocal n, mid
        if not code.co_filename.startswith(SCOPE[0]) or len(code.co_code) < 80:
            return mon.DISABLE
        n += 1
        if n == at:
            old = sim.simos_arm(0)
            mid = quick_state(mods), hst()
            sim.simos_arm(old)
    mon.register_callback(tool, mon.events.LINE, line)
    mods = [m for k, m in sorted(sys.modules.items()) if k.startswith('aksharamukha') and m is not None]
    mon.set_events(tool, mon.events.LINE)
    h0 = hst()
    out, full, quick, done = [], lib_state(), quick_state(mods), 0
    for op in ops:
        if _mono() > end:
            break
        done += 1
        n, at, mid, c = 0, 0, None, set()
        t = _mono()
        run_op(op)
        if _mono() - t < .15 and n:
            total, n = n, 0
            at = 1 + int(total * rng.uniform(.1, 1))
            run_op(op)
        q = quick_state(mods)
        if q != quick:
            # altered for good
            st = lib_state()
            c |= {k for k in full if st.get(k) != full[k]}
            full, quick = st, q
        if mid:
            # altered for a moment
            c |= {m.__name__ for m, x, y in zip(mods, mid[0], q) if x != y}
            hc = {'host:' + k for k, _ in host_diff(h0, mid[1])}
            if hc:
                c |= hc
                h0 = hst()
        if c:
            out.append([op, sorted(c)])
    mon.set_events(tool, 0)
    mon.free_tool_id(tool)
    return {'hot': out, 'done': done}


# ---------------------------------------------------------------- phases
def run_phase(ph):
    if 'scout' in ph:
        sim.simos_reset()
        return scout(ph['scout'], ph.get('seed', 0), ph.get('budget', 5))
    if 'wear' in ph:
        import wear
        sim.simos_reset()
        return wear.wear(ph)
    threads = ph['ops']
    res = {}
    sim.simos_reset()
    spec = ph.get('sched')
    need = spec is not None or len(threads) > 1 or any('intr' in o for t in threads for o in t)
    if ph.get('flt'):
        set_faults(ph['flt'])
    if ph.get('preset'):
        preset(ph['preset'])
    snap = host_state() if ph.get('host') else None
    seen = []
    st0 = lib_state() if ph.get('lib') else None
    sim.simos_arm(1)
    outs = Env.outs = [[] for _ in threads]
    if not need:
        for op in threads[0]:
            outs[0].append(run_op(op))
    else:
        sc = sched.Sched(spec, SCOPE, seams.VC, ph.get('max_steps', 40_000_000))
        seams.SCHED = sc

        def body(i):
            def fn(t):
                for op in threads[i]:
                    outs[i].append(run_op(op, t.id, sc))
            return fn
        if len(threads) == 1 and spec is None:
            # interrupted in the main thread, as a KeyboardInterrupt is
            t = sched.Thr(0, None)
            t.ident = _thread.get_ident()
            sc.thr.append(t)
            sc.cur = t
            sc.solo = True
            sc.install()
            sc.disarm_interrupt()
            for op in threads[0]:
                outs[0].append(run_op(op, 0, sc))
            sc.uninstall()
        else:
            for i in range(len(threads)):
                sc.spawn(body(i))
            if ph.get('host'):
                sc.watch = watcher(seen)
            sc.install()
            sc.run()
            if not sc.deadlock:
                sc.uninstall()
            else:
                sc.active = False
        seams.SCHED = None
        res.update(switches=sc.switches, steps=sc.steps, first=getattr(sc, 'first', 0), dom=sc.dom, gran='line' if sc.line else 'instr')
        res['sites'] = hashlib.md5(repr(sc.sites).encode()).hexdigest()[:16]
        if sc.deadlock:
            res['deadlock'] = sc.deadlock
        if sc.overrun:
            res['overrun'] = True
        unc = [t.ctx['uncaught'] for t in sc.thr if 'uncaught' in t.ctx]
        if unc:
            res['uncaught'] = unc
    sim.simos_arm(0)
    if ph.get('flt'):
        res['hit'] = [sim.simos_fired(i) for i in range(len(ph['flt']))]
    sim.simos_clear_faults()
    res['out'] = outs
    res['net'] = sim.simos_netcalls()
    res['uops'] = sim.simos_ops(1)
    if ph.get('log'):
        L = sim.simos_log()
        res['log'] = [[L[i].op, L[i].cls, L[i].res, L[i].fault] for i in range(sim.simos_nlog())]
    if snap is not None and not res.get('deadlock'):
        res['host'] = seen + host_diff(snap, host_state())
    if st0 is not None:
        st1 = lib_state()
        res['lib'] = sorted(k for k in st0 if st1.get(k) != st0[k])
    return res


def setup_dir(spec):
    d = spec.get('dir')
    Env.dir = d
    if not d:
        return
    for sub in ('tmp', 'home'):
        if not spec.get('keep') or not os.path.isdir(d + '/' + sub):
            os.makedirs(d + '/' + sub, exist_ok=True)
    os.environ['TMPDIR'] = d + '/tmp'
    os.environ['HOME'] = d + '/home'
    tempfile.tempdir = None
    for f in spec.get('files', ()):
        p = os.path.join(d, f['p'])
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if f.get('dirent'):
            os.makedirs(p, exist_ok=True)
            continue
        with open(p, 'wb') as h:
            h.write(base64.b64decode(f['d']))
        if 'm' in f:
            os.chmod(p, f['m'])
    if not spec.get('stay'):
        os.chdir(os.path.join(d, spec.get('cwd', '.')))


def live(spec, finish):
    sys.stdout = Out()
    out = []

    def stuck(what):
        """The only thread waits for ever: the life ends here."""
        finish({'phases': out + [{'deadlock': [[0, what]], 'out': Env.outs, 'host': [], 'net': 0, 'uops': 0, 'hit': [], 'lists': {}}], 'vtime': 0})
        os._exit(0)
    seams.STUCK = stuck
    warnings.resetwarnings()
    warnings.simplefilter('always')
    warnings.showwarning = _showwarning
    seams.install_entropy(spec.get('seed', 0))
    seams.VC.now = float(spec.get('now', 0.0))
    seams.CLOCK_ON = True
    setup_dir(spec)
    Env.lists = {k: list(v) for k, v in spec.get('lists', {}).items()}
    if 'net' in spec:
        import simnet
        simnet.install(spec['net'])
    if spec.get('pre'):
        import importlib
        for m in spec['pre']:
            importlib.import_module(m)
    for ph in spec['phases']:
        r = run_phase(ph)
        out.append(r)
        if Env.lists:
            r['lists'] = {k: list(v) for k, v in Env.lists.items()}
        if r.get('deadlock') or r.get('overrun'):
            break
    kids = [_reap(k) for k in Env.kids]
    res = {'phases': out, 'vtime': seams.VC.now - float(spec.get('now', 0.0))}
    if kids:
        res['kids'] = kids
    if 'net' in spec:
        res['net'] = simnet.report()
    if spec.get('state'):
        res['state'] = lib_state()
    if spec.get('tree'):
        res['tree'] = tree(Env.dir)
    return res
