"""Simulated resolver, network and transcription service, below the real requests / urllib3 / http.client.

install(cfg): cfg = {'plan': [request plan, ...], 'host': name}
A request plan says what happens to the n-th connection attempt (dns, connect) or n-th request on any
connection; the last-but-nothing default is a healthy, prompt service.

  {'at': 'dns',     'what': 'fail'|'again'|'slow'}
  {'at': 'connect', 'what': 'refused'|'unreach'|'silent'|'reset'|'slow'}
  {'at': 'send',    'what': 'pipe'|'reset'|'stall'}
  {'at': 'status',  'what': 'silent'|'close'|'reset'|'garbage'|code, ...}
  {'at': 'head',    'cut': n, 'what': 'close'|'reset'|'silent'}
  {'at': 'body',    'cut': n, 'what': 'close'|'reset'|'silent'}
  plus for every plan: 'enc': 'length'|'chunked'|'gzip'|'badgzip'|'close', 'seg': segment size, 'delay': s per segment
"""
import weakref, socket, io, os, zlib, gzip, hashlib, errno, select, urllib.parse
import seams

HOST = 'anunaadam.appspot.com'
REAL_SOCKET = socket.socket
NET = None
LIVE = weakref.WeakSet()         # the sockets that still exist


OTHER = 'கலந்தது'


class Hang(BaseException):
    """A real process would wait here forever."""


def answer(text):
    """What the service says about a text; different for different texts."""
    h = hashlib.sha256(text.encode('utf8', 'surrogatepass')).hexdigest()[:10]
    ipa = 'ɐaːɪiːʊuːeːoːkŋtʃɲʈɳt̪npmjɾlʋɻɭ'
    return '[' + ''.join(ipa[int(c, 16)] for c in h) + ' ' + h + '] ' + ' '.join('ʊ%x' % ord(c) for c in text[:40]) + ' |%d' % len(text)


ANSWERS = {'empty': '', 'blank': ' ', 'newline': '\n', 'spaces': '  ɐ ʋ  ', 'lines': 'ɐ\r\nʋ\n\nt̪\n', 'markup': '<b>ɐ</b> &amp; &#x2c; &lt;', 'error': 'Error 500: over quota', 'html': '<html><body>Internal Server Error</body></html>',
           'null': 'null', 'list': '[]', 'none': 'None', 'false': 'False', 'zero': '0', 'json': '{"error": "x", "text": "ɐ"}', 'long': 'ʊɐ' * 30000, 'bom': '\ufeffɐ', 'astral': 'ɐ😀𝐚', 'quote': '"ɐ"', 'escape': '\\u0250 %C9%90', 'tamil': 'தமிழ்', 'nul': 'a\x00ɐ'}


def reply(text, plan):
    """The answer to a text under a plan: usually one of its own, sometimes a peculiar one."""
    a = plan.get('ans')
    if a == 'echo':
        return text
    return ANSWERS[a] if a else answer(text)


class Net:
    def __init__(self, cfg):
        self.plans = list(cfg.get('plan', ()))
        self.hosts = [HOST]
        self.requests, self.events, self.n = [], [], 0
        self.hang, self.injected = False, 0.0
        self.dns = self.conns = 0
        self.fired = {}

    def plan(self):
        return self.plans[self.n] if self.n < len(self.plans) else {}

    def fire(self, what):
        self.fired[what] = self.fired.get(what, 0) + 1


def wait(seconds, tmo):
    """Virtual waiting of `seconds` (None: for ever), at most `tmo`; True when the time came, False on timeout."""
    if seconds is not None and (tmo is None or seconds <= tmo):
        if seconds:
            NET.injected += seconds
            sleep(seconds)
        return True
    if tmo is None:
        NET.hang = True
        if seams.cur() is not None:
            seams.SCHED.block(lambda: False, None, 'silent network')
        raise Hang('the call would wait for ever')
    sleep(tmo)
    return False


def sleep(s):
    if seams.cur() is not None:
        seams.SCHED.block(lambda: False, seams.VC.now + s, 'network')
    else:
        seams.VC.now += s


def yield_():
    """A network operation lets other threads run."""
    if seams.cur() is not None:
        seams.SCHED.block(lambda: False, seams.VC.now + 0.001, 'network')


CUTS = {'kbd': KeyboardInterrupt, 'mem': MemoryError}


def cut(N, w):
    """The call is interrupted while it waits."""
    N.fire('interrupted_' + w)
    raise CUTS[w]('interrupted')


def getaddrinfo(host, port, family=0, type=0, proto=0, flags=0):
    N = NET
    N.dns += 1
    h = host.decode() if isinstance(host, bytes) else host
    N.events.append(['dns', h])
    yield_()
    p = N.plan()
    if p.get('at') == 'dns' and h in N.hosts:
        w = p['what']
        N.fire('dns_' + w)
        if w == 'slow':
            sleep(20)
            N.injected += 20
        else:
            N.n += 1
            if w in CUTS:
                cut(N, w)
            if w == 'again':
                sleep(30)
                N.injected += 30
                raise socket.gaierror(socket.EAI_AGAIN, 'Temporary failure in name resolution')
            raise socket.gaierror(socket.EAI_NONAME, 'Name or service not known')
    if h not in N.hosts:
        raise socket.gaierror(socket.EAI_NONAME, 'Name or service not known')
    return [(socket.AF_INET, socket.SOCK_STREAM, 6, '', ('192.0.2.7', int(port or 0)))]


class SimSocket:
    """A stream socket to the simulated service."""

    def __init__(self, family=-1, type=-1, proto=-1, fileno=None):
        if family == -1:
            family = socket.AF_INET
        if type == -1:
            type = socket.SOCK_STREAM
        self.family, self.type, self.proto = family, type, proto
        self.tmo = socket.getdefaulttimeout()
        LIVE.add(self)
        self.proc = seams.PROC
        self.state = 'new'
        self.inbuf, self.segs = b'', []
        self.end = None
        self.id = None
        self.refs, self.closing = 0, False

    def setsockopt(self, *a):
        pass

    def getsockopt(self, *a):
        return 0

    def settimeout(self, t):
        self.tmo = t

    def gettimeout(self):
        return self.tmo

    def setblocking(self, b):
        self.tmo = None if b else 0.0

    def getblocking(self):
        return self.tmo != 0.0

    timeout = property(lambda s: s.tmo)

    def bind(self, a):
        if a and a[0] in ('::1',):
            raise OSError(errno.EADDRNOTAVAIL, 'x')

    def fileno(self):
        return -1 if self.state == 'closed' else 900 + (self.id or 0)

    def getpeername(self):
        return ('192.0.2.7', 80)

    def getsockname(self):
        return ('192.0.2.1', 40000 + (self.id or 0))

    def connect(self, addr):
        N = NET
        N.conns += 1
        self.id = N.conns
        N.events.append(['connect', list(addr)[:2]])
        yield_()
        p = N.plan()
        if p.get('at') == 'connect':
            w = p['what']
            N.fire('connect_' + w)
            if w == 'slow':
                if not wait(15, self.tmo):
                    N.n += 1
                    raise socket.timeout('timed out')
            else:
                N.n += 1
                if w in CUTS:
                    cut(N, w)
                if w == 'silent':
                    # the kernel itself gives up after a little over two minutes
                    if not wait(127 if self.tmo is None else None, self.tmo):
                        raise socket.timeout('timed out')
                    raise TimeoutError(errno.ETIMEDOUT, 'Connection timed out')
                raise {'refused': ConnectionRefusedError(errno.ECONNREFUSED, 'Connection refused'),
                       'reset': ConnectionResetError(errno.ECONNRESET, 'Connection reset by peer'),
                       'emfile': OSError(errno.EMFILE, 'Too many open files'),
                       'unreach': OSError(errno.EHOSTUNREACH, 'No route to host')}[w]
        self.state = 'open'

    def connect_ex(self, addr):
        try:
            self.connect(addr)
            return 0
        except OSError as e:
            return e.errno or errno.ETIMEDOUT

    def sendall(self, data, flags=0):
        N = NET
        if self.state != 'open':
            raise OSError(errno.ENOTCONN, 'Transport endpoint is not connected')
        yield_()
        p = N.plan()
        if p.get('at') == 'send':
            N.n += 1
            N.fire('send_' + p['what'])
            if p['what'] in CUTS:
                cut(N, p['what'])
            if p['what'] == 'pipe':
                raise BrokenPipeError(errno.EPIPE, 'Broken pipe')
            if p['what'] == 'reset':
                raise ConnectionResetError(errno.ECONNRESET, 'Connection reset by peer')
            wait(None, self.tmo)
            raise socket.timeout('timed out')
        self.inbuf += bytes(data)
        self.serve()

    def send(self, data, flags=0):
        self.sendall(data)
        return len(data)

    # ---- the service ----
    def serve(self):
        N = NET
        while b'\r\n\r\n' in self.inbuf:
            head, rest = self.inbuf.split(b'\r\n\r\n', 1)
            lines = head.decode('latin-1').split('\r\n')
            hd = {k.strip().lower(): v.strip() for k, _, v in (l.partition(':') for l in lines[1:])}
            n = int(hd.get('content-length', 0) or 0)
            if len(rest) < n:
                return
            body, self.inbuf = rest[:n], rest[n:]
            self.respond(lines[0], hd, body)

    def respond(self, line, hd, body):
        N = NET
        p = N.plan()
        N.n += 1
        idx = len(N.requests)
        try:
            meth, url, _ = line.split(' ')
        except ValueError:
            meth, url = 'GET', '/bad'
        u = urllib.parse.urlsplit(url)
        q = urllib.parse.parse_qs(u.query, keep_blank_values=True, errors='surrogateescape')
        if meth == 'POST':
            q.update(urllib.parse.parse_qs(body.decode('latin-1'), keep_blank_values=True))
        texts = q.get('text')
        req = {'line': line[:300], 'host': hd.get('host'), 'text': texts, 'method': q.get('method'), 'frag': u.fragment, 'conn': self.id, 'plan': p}
        N.requests.append(req)
        code = 200
        if u.path != '/api' or not texts or len(texts) != 1 or q.get('method') != ['2']:
            code = 400
        if self.proc != seams.PROC:
            # parent and child write to one connection at the same time: this one gets the answer the other asked for
            N.fire('shared_connection')
            texts = [OTHER]
        out = (reply(texts[0], p) if code == 200 else 'Bad Request').encode('utf8', 'surrogatepass')
        at, w = p.get('at'), p.get('what')
        if at == 'status':
            N.fire('status_%s' % w)
            if isinstance(w, int):
                code = w
                out = ('<html><h1>Error %d</h1>over quota</html>' % w).encode()
            elif w == 'garbage':
                self.segs += [(0, b'\x00\x01garbage no http\r\n\r\n')]
                self.end = 'close'
                return
            else:
                self.end = w
                return
        enc = p.get('enc', 'length')
        keep = hd.get('connection', '').lower() != 'close'
        h = 'HTTP/1.1 %d %s\r\nContent-Type: text/html; charset=utf-8\r\nServer: sim\r\n' % (code, {200: 'OK'}.get(code, 'Error'))
        if code in (301, 302):
            h += 'Location: http://%s/nowhere\r\n' % 'elsewhere.invalid'
        if enc in ('gzip', 'badgzip'):
            out = gzip.compress(out, mtime=0)
            h += 'Content-Encoding: gzip\r\n'
            if enc == 'badgzip':
                N.fire('corrupt_gzip')
                out = out[:12] + bytes(b ^ 0x5a for b in out[12:])
        if enc == 'chunked':
            h += 'Transfer-Encoding: chunked\r\n'
            m = max(1, len(out) // 3)
            out = b''.join(b'%x\r\n%s\r\n' % (len(out[i:i + m]), out[i:i + m]) for i in range(0, len(out), m)) + b'0\r\n\r\n'
        else:
            h += 'Content-Length: %d\r\n' % len(out)
        h += 'Connection: %s\r\n\r\n' % ('keep-alive' if keep else 'close')
        h = h.encode()
        if enc != 'length':
            N.fire('enc_' + enc)
        full, end = h + out, (None if keep else 'close')
        if at == 'head':
            N.fire('head_' + w)
            # an orderly close after the status line looks to http.client like a complete header
            full, end = h[:p['cut'] % (12 if w == 'close' else max(1, len(h) - 1))], w
        elif at == 'body':
            N.fire('body_' + w)
            full, end = h + out[:p['cut'] % max(1, len(out) - 1)] if len(out) > 1 else h[:-1], w
        elif at == 'late':
            N.fire('late_close')
            end = 'close'
        sg, dl = p.get('seg') or len(full) or 1, p.get('delay', 0)
        if p.get('seg'):
            N.fire('split')
        if dl:
            N.fire('delay')
        self.segs += [(dl if i < 40 else 0, full[i * sg:(i + 1) * sg]) for i in range((len(full) + sg - 1) // sg)]
        self.end = end

    def readable(self):
        return bool(self.segs) or self.end in ('close', 'reset') or self.state != 'open'

    def recv(self, n, flags=0):
        N = NET
        if self.state != 'open':
            raise OSError(errno.EBADF, 'Bad file descriptor')
        yield_()
        if not self.segs:
            if self.end == 'close':
                return b''
            if self.end == 'reset':
                raise ConnectionResetError(errno.ECONNRESET, 'Connection reset by peer')
            if self.end in CUTS:
                cut(N, self.end)
            wait(None, self.tmo)
            raise socket.timeout('timed out')
        d, s = self.segs[0]
        if d:
            if not wait(d, self.tmo):
                self.segs[0] = (d - self.tmo, s)
                raise socket.timeout('timed out')
            self.segs[0] = (0, s)
        out, rest = s[:n], s[n:]
        if rest:
            self.segs[0] = (0, rest)
        else:
            self.segs.pop(0)
        return out

    def recv_into(self, b, n=0, flags=0):
        d = self.recv(n or len(b))
        b[:len(d)] = d
        return len(d)

    def makefile(self, mode='r', buffering=None, **kw):
        self.refs += 1
        raw = _Raw(self)
        if buffering == 0:
            return raw
        if 'b' in mode:
            return io.BufferedReader(raw, 8192)
        return io.TextIOWrapper(io.BufferedReader(raw), kw.get('encoding'))

    def shutdown(self, how):
        if self.state != 'open':
            raise OSError(errno.ENOTCONN, 'x')

    def close(self):
        self.closing = True
        if self.refs <= 0:
            self.state = 'closed'

    def _drop(self):
        self.refs -= 1
        if self.closing and self.refs <= 0:
            self.state = 'closed'

    def detach(self):
        self.state = 'closed'
        return -1

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class _Raw(io.RawIOBase):
    def __init__(self, s):
        self.s = s

    def readable(self):
        return True

    def readinto(self, b):
        return self.s.recv_into(b)

    def close(self):
        if not self.closed:
            io.RawIOBase.close(self)
            self.s._drop()


def install(cfg):
    global NET
    NET = Net(cfg)
    for k in list(os.environ):
        if k.lower().endswith('_proxy'):
            del os.environ[k]
    socket.getaddrinfo = getaddrinfo
    socket.gethostbyname = lambda h: getaddrinfo(h, 0)[0][4][0]
    socket.socket = SimSocket
    import urllib3.util.wait as uw, urllib3.util as uu, urllib3.connection as uc, urllib3.util.connection as ucc

    def wait_for_read(sock, timeout=None):
        return sock.readable() if isinstance(sock, SimSocket) else False
    for m in (uw, uu, uc, ucc):
        if hasattr(m, 'wait_for_read'):
            m.wait_for_read = wait_for_read


def report():
    N = NET
    return {'requests': N.requests, 'events': N.events[:50], 'hang': N.hang, 'injected': N.injected, 'dns': N.dns, 'conns': N.conns, 'fired': N.fired}
