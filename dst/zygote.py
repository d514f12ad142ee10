"""Zygote: imports the code under test once, then forks one child per simulated life.

Speaks length-prefixed JSON on two inherited pipes (argv: read fd, write fd, config JSON).
"""
import sys, os, json, struct, select, signal, time, gc

RFD, WFD = int(sys.argv[1]), int(sys.argv[2])
CFG = json.loads(sys.argv[3])
_now = time.monotonic
_sleep = time.sleep
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('DST_REPO', '/repo').rstrip('/')


def rd(fd, n):
    b = b''
    while len(b) < n:
        c = os.read(fd, n - len(b))
        if not c:
            os._exit(0)
        b += c
    return b


def recv():
    return json.loads(rd(RFD, struct.unpack('<I', rd(RFD, 4))[0]))


def send(o):
    b = json.dumps(o).encode()
    b = struct.pack('<I', len(b)) + b
    v = memoryview(b)
    while v:
        v = v[os.write(WFD, v):]


def boot():
    # third-party libraries first: the seams go below the library, not below them
    import ctypes, random, datetime, decimal, locale, logging, socket, tempfile, resource, contextvars, zipfile, base64
    import requests, yaml, langcodes, bs4, lxml.etree, regex, fontTools.unicodedata, html, inspect, unicodedata
    import requests.packages, encodings.idna, encodings.utf_8_sig, encodings.latin_1, encodings.cp437, stringprep
    import lxml.html, urllib3.util.connection
    try:
        import pykakasi, jaconv
        pykakasi.kakasi().convert('本')
    except ImportError:
        pass
    try:
        import bs4.builder._lxml
    except ImportError:
        pass
    # the first finalizer of a process registers an exit handler
    import weakref
    weakref.finalize(type('X', (), {})(), id, 0)
    langcodes.find('hindi')
    langcodes.get('hi')
    # bs4, requests: let them do their lazy imports now
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        str(bs4.BeautifulSoup('<p>x</p>'))
    try:
        locale.setlocale(locale.LC_ALL, CFG.get('locale', ''))
    except locale.Error:
        pass                    # as a host program with a locale that is not installed
    random.seed(CFG.get('rseed', 0))
    import seams
    seams.install_locks()
    seams.install_clock()
    seams.install_entropy(CFG.get('rseed', 0))
    seams.VC.now = float(CFG.get('now', 0.0))
    seams.CLOCK_ON = True
    if CFG.get('cwd'):
        os.chdir(CFG['cwd'])
        if CFG.get('rmcwd'):
            os.rmdir(CFG['cwd'])
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        print('the library is imported now', file=sys.stderr, flush=True)
        for m in CFG.get('order', ()):          # the order in which the library's modules are first imported
            __import__(m)
        if not CFG.get('bare'):     # bare: the lives import the library themselves
            import aksharamukha.transliterate
            import aksharamukha.transliterate_file
    print('the library is imported', file=sys.stderr, flush=True)
    seams.CLOCK_ON = False
    if CFG.get('bare'):
        import importlib.util, ast, asyncio
        m = importlib.util.find_spec('aksharamukha')
        f = m.origin or list(m.submodule_search_locations)[0]
        assert not any(n.startswith('aksharamukha') for n in sys.modules)
    else:
        f = sys.modules['aksharamukha'].__file__ or list(sys.modules['aksharamukha'].__path__)[0]
    if not f.startswith(REPO + '/'):
        raise SystemExit('wrong library: ' + f)
    import life, sched
    assert life.sim.simos_present() == 1
    life.sim.simos_roots_clear()
    life.sim.simos_root((REPO + '/aksharamukha').encode(), 0)
    if sys.pycache_prefix:
        life.sim.simos_root((sys.pycache_prefix + REPO + '/aksharamukha').encode(), 0)
    life.sim.simos_root(CFG['scratch'].encode(), 1)
    if CFG.get('hot', True):
        # hot places of everything loaded, computed once for all children
        todo = []
        for n, m in list(sys.modules.items()):
            if n.startswith('aksharamukha'):
                for v in vars(m).values():
                    if hasattr(v, '__wrapped__'):
                        v = v.__wrapped__
                    if hasattr(v, '__code__'):
                        todo.append(v.__code__)
                    elif isinstance(v, type) and v.__module__ == n:
                        todo += [x.__code__ for x in vars(v).values() if hasattr(x, '__code__')]
        while todo:
            c = todo.pop()
            if c.co_filename.startswith(life.SCOPE[0]) and id(c) not in sched.HOTMAP:
                sched.hot_offsets(c)
                todo += [x for x in c.co_consts if hasattr(x, 'co_code')]
    gc.collect()
    gc.freeze()


def serve():
    import life
    while True:
        spec = recv()
        if spec.get('cmd') == 'info':
            send({'pid': os.getpid(), 'modules': sorted(m for m in sys.modules if m.startswith('aksharamukha'))})
            continue
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            os.setpgid(0, 0)
            try:
                def finish(res):
                    life.sim.simos_arm(0)
                    b = json.dumps(res).encode()
                    v = memoryview(b)
                    while v:
                        v = v[os.write(w, v):]
                try:
                    res = life.live(spec, finish)
                except BaseException as e:
                    import traceback
                    res = {'harness': repr(e), 'tb': traceback.format_exc()}
                finish(res)
            finally:
                os._exit(0)
        os.close(w)
        end = _now() + spec.get('timeout', 30)
        buf, late = [], False
        while True:
            left = end - _now()
            if left <= 0:
                late = True
                break
            if not select.select([r], [], [], left)[0]:
                continue
            c = os.read(r, 1 << 20)
            if not c:
                break
            buf.append(c)
        os.close(r)
        if late:
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
        _, st = os.waitpid(pid, 0)
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        code = os.waitstatus_to_exitcode(st)
        b = b''.join(buf)
        if late:
            send({'timeout': True})
        elif code == 77:
            send({'crash': True})
        elif code != 0 or not b:
            send({'died': code})
        else:
            try:
                send(json.loads(b))
            except ValueError as e:
                send({'harness': 'bad result: %r' % e})


boot()
send({'ready': True})
serve()
