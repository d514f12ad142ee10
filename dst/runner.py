"""Driver side: laboratory directory, zygote processes, worker pool, search loop, minimiser, evidence."""
import os, sys, json, struct, subprocess, tempfile, shutil, hashlib, random, time, select, signal, re, collections, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('DST_REPO', '/repo').rstrip('/')
PY = '/opt/venv/bin/python'


class HarnessError(Exception):
    pass


def digest(o):
    return hashlib.sha256(json.dumps(o, sort_keys=True).encode()).hexdigest()[:24]


class Lab:
    """Temporary directory with everything built from the current tree."""

    def __init__(self, tag):
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) and shutil.disk_usage('/dev/shm').free > 1 << 30 else None
        self.dir = tempfile.mkdtemp(prefix='dst-%s-' % tag, dir=base)
        self.pid = os.getpid()
        for d in ('ref', 'scratch', 'pyc', 'home', 'log', 'cwd'):
            os.mkdir(os.path.join(self.dir, d))
        self.so = os.path.join(self.dir, 'simos.so')
        p = subprocess.run(['gcc', '-O2', '-shared', '-fPIC', '-o', self.so, os.path.join(HERE, 'simos.c'), '-ldl'], capture_output=True, text=True)
        if p.returncode:
            raise HarnessError('gcc: ' + p.stderr)
        self.seq = 0
        # bytecode of the current tree and of the libraries below it, outside /repo
        env = self.env()
        del env['PYTHONDONTWRITEBYTECODE'], env['LD_PRELOAD']
        a = subprocess.Popen([PY, '-W', 'ignore', '-m', 'compileall', '-q', '-j', '8', os.path.join(REPO, 'aksharamukha')], env=env, cwd=self.dir, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        out = a.communicate()[0]
        Z = Zygote(self, write=True)
        Z.close()

    def env(self, extra=None):
        e = {'PATH': '/usr/bin:/bin', 'HOME': os.path.join(self.dir, 'home'), 'LANG': 'C.UTF-8', 'PYTHONHASHSEED': '0',
             'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONPYCACHEPREFIX': os.path.join(self.dir, 'pyc'), 'LD_PRELOAD': self.so,
             'DST_REPO': REPO, 'PYTHONPATH': REPO, 'TMPDIR': os.path.join(self.dir, 'home')}
        for k, v in (extra or {}).items():
            if v is None:
                e.pop(k, None)
            else:
                e[k] = v
        return e

    def close(self):
        if os.getpid() == self.pid:
            subprocess.run(['chmod', '-R', 'u+rwX', self.dir])
            shutil.rmtree(self.dir, ignore_errors=True)


class Zygote:
    def __init__(self, lab, cfg=None, env=None, write=False, flags=()):
        self.lab = lab
        ra, wa = os.pipe()
        rb, wb = os.pipe()
        c = {'scratch': os.path.join(lab.dir, 'scratch'), 'cwd': os.path.join(lab.dir, 'cwd')}
        c.update(cfg or {})
        e = lab.env(env)
        if write:
            del e['PYTHONDONTWRITEBYTECODE']
        self.log = os.path.join(lab.dir, 'log', 'z%d-%d.err' % (os.getpid(), lab.seq))
        lab.seq += 1
        with open(self.log, 'wb') as err:
            self.p = subprocess.Popen([PY, '-W', 'ignore', *flags, os.path.join(HERE, 'zygote.py'), str(ra), str(wb), json.dumps(c)],
                                      pass_fds=(ra, wb), env=e, cwd=lab.dir, stdin=subprocess.DEVNULL, stdout=err, stderr=err)
        os.close(ra)
        os.close(wb)
        self.w, self.r = wa, rb
        try:
            r = self._recv(120)
        except HarnessError as x:
            t = open(self.log, errors='replace').read()
            y = HarnessError('the code under test cannot be started: %s\n%s' % (x, t[-3000:]))
            y.in_library = 'the library is imported now' in t and 'the library is imported\n' not in t
            raise y
        assert r.get('ready'), r

    def _rd(self, n, end):
        b = []
        while n:
            left = end - time.monotonic()
            if left <= 0 or not select.select([self.r], [], [], left)[0]:
                raise HarnessError('zygote silent')
            c = os.read(self.r, min(n, 1 << 20))
            if not c:
                raise HarnessError('zygote gone')
            b.append(c)
            n -= len(c)
        return b''.join(b)

    def _recv(self, tmo):
        end = time.monotonic() + tmo
        return json.loads(self._rd(struct.unpack('<I', self._rd(4, end))[0], end))

    def call(self, spec):
        b = json.dumps(spec).encode()
        v = memoryview(struct.pack('<I', len(b)) + b)
        while v:
            v = v[os.write(self.w, v):]
        r = self._recv(spec.get('timeout', 30) + 120)
        if 'harness' in r:
            raise HarnessError(r['harness'] + '\n' + r.get('tb', ''))
        return r

    def close(self):
        for fd in (self.w, self.r):
            try:
                os.close(fd)
            except OSError:
                pass
        self.p.kill()
        self.p.wait()


REF_KEYS = ('f', 'src', 'tgt', 'txt', 'nativize', 'pre', 'post', 'param', 'plugin', 'html', 'docx')


class Worker:
    """What a property's judge can ask for."""

    def __init__(self, lab):
        self.lab = lab
        self.z = Zygote(lab)
        self.memo = {}
        self.st = collections.Counter()
        self.nlife = 0
        self.hung = False       # a run of this worker was seen to never end

    def run(self, spec):
        self.nlife += 1
        self.st['lives'] += 1
        r = self.z.call(spec)
        if r.get('timeout'):
            # a deterministic run that never ends, or a slow machine: ask again with patience
            if not self.hung:
                s = dict(spec, timeout=spec.get('timeout', 30) * 2)
                r = self.z.call(s)
            if r.get('timeout'):
                r['hang'] = self.hung = True
        if any(ph.get('overrun') for ph in r.get('phases', ())) and not self.hung:
            # endless, or only long: three times as far
            s = dict(spec, timeout=240, phases=[dict(ph, max_steps=120_000_000) for ph in spec['phases']])
            r = self.z.call(s)
            if r.get('timeout'):
                r = {'hang': True}
            self.hung = bool(r.get('hang') or any(ph.get('overrun') for ph in r.get('phases', ())))
        for ph in r.get('phases', ()):
            self.st['ops'] += sum(len(x) for x in ph['out'])
            self.st['steps'] += ph.get('steps', 0)
            self.st['switches'] += len(ph.get('switches', ()))
        self.st['vtime_ms'] += int(1000 * r.get('vtime', 0))
        return r

    def _memo(self, kind, op, fn):
        k = kind + digest(op)
        if k in self.memo:
            return self.memo[k]
        p = os.path.join(self.lab.dir, 'ref', k)
        try:
            with open(p) as f:
                v = json.load(f)
        except FileNotFoundError:
            v = fn()
            t = p + '.%d' % os.getpid()
            with open(t, 'w') as f:
                json.dump(v, f)
            os.rename(t, p)
        if len(self.memo) > 20000:
            self.memo.clear()
        self.memo[k] = v
        return v

    def ref(self, op, lists=None):
        """Outcome of this call alone in a freshly started process."""
        o = {k: op[k] for k in REF_KEYS if k in op}
        for k in ('pre', 'post'):
            if isinstance(o.get(k), str):
                o[k] = list(lists[o[k]])

        def fn():
            self.st['refs'] += 1
            r = self.z.call({'phases': [{'ops': [[o]]}], 'timeout': 120})
            if 'phases' not in r:
                return ['x', json.dumps(r)]
            return r['phases'][0]['out'][0][0]['o']
        return self._memo('r', o, fn)

    def count(self, op, by):
        """How many interruption points of this kind the call has in a fresh process."""
        o = {k: op[k] for k in REF_KEYS if k in op}

        def fn():
            r = self.z.call({'phases': [{'ops': [[dict(o, intr={'kind': 'count', 'by': by, 'at': None})]]}], 'timeout': 120})
            if 'phases' not in r:
                return 0
            return r['phases'][0]['out'][0][0]['n']
        return self._memo('c' + by, o, fn)

    def dops(self, op):
        """How many operations on the library's data files the call performs in a fresh process."""
        o = {k: op[k] for k in REF_KEYS if k in op}

        def fn():
            r = self.z.call({'phases': [{'ops': [[o]]}], 'timeout': 120})
            return r['phases'][0]['out'][0][0]['dops'] if 'phases' in r else 0
        return self._memo('d', o, fn)

    def pristine(self):
        """Digests of the library's modules as they are when first imported."""
        def fn():
            mods = library_modules()
            r = self.z.call({'phases': [{'ops': [[{'f': 'import', 'm': m} for m in mods]]}], 'state': True, 'timeout': 120})
            return r.get('state', {})
        return self._memo('p', '', fn)

    def changed(self, r):
        """Modules of the library whose data is not what it was when imported (tells where to look, never a verdict)."""
        st, p = r.get('state') or {}, self.pristine()
        return sorted(m for m in st if m in p and st[m] != p[m])

    def scratch(self):
        d = os.path.join(self.lab.dir, 'scratch', 'w%d' % os.getpid())
        if os.path.isdir(d):
            subprocess.run(['chmod', '-R', 'u+rwX', d]) if getattr(self, 'dirty', False) else None
            shutil.rmtree(d)
        os.makedirs(d)
        return d

    def close(self):
        self.z.close()


def rng_for(prop, seed, i):
    return random.Random('%s/%d/%d' % (prop, seed, i))


# ------------------------------------------------------------------ worker pool
def worker_main(P, lab, rfd, wfd, seed, tier):
    def send(o):
        b = (json.dumps(o) + '\n').encode()
        v = memoryview(b)
        while v:
            v = v[os.write(wfd, v):]
    try:
        W = Worker(lab)
        rf = os.fdopen(rfd, 'r')
        for line in rf:
            i = json.loads(line)
            if i is None:
                break
            before = collections.Counter(W.st)
            rng = rng_for(P.id, seed, i)
            rep = P.gen(rng, i, W)
            if rep is None:
                send({'i': i, 'skip': True})
                continue
            msg, info = P.judge(rep, W)
            d = collections.Counter(W.st)
            d.subtract(before)
            out = {'i': i, 'st': {k: v for k, v in d.items() if v}, 'keys': info.get('keys', []), 'nontrivial': info.get('nontrivial', 1),
                   'log': info.get('log')}
            if i < 3 or msg:
                out['rep'] = rep
            if msg:
                out['msg'] = msg
                out['info'] = {k: v for k, v in info.items() if k in ('explicit',)}
            send(out)
        W.close()
    except BaseException as e:
        send({'error': repr(e), 'tb': traceback.format_exc()})
    os._exit(0)


class Pool:
    def __init__(self, P, lab, n, seed, tier):
        self.w = []
        for _ in range(n):
            ra, wa = os.pipe()
            rb, wb = os.pipe()
            pid = os.fork()
            if pid == 0:
                for x in self.w:
                    os.close(x['w'])
                    os.close(x['r'])
                os.close(wa)
                os.close(rb)
                signal.signal(signal.SIGINT, signal.SIG_IGN)
                worker_main(P, lab, ra, wb, seed, tier)
                os._exit(0)
            os.close(ra)
            os.close(wb)
            self.w.append({'pid': pid, 'w': wa, 'r': rb, 'buf': b'', 'busy': None, 'since': 0})

    def map(self, indices, stop, on):
        """Run the cases; `on(result)`; ends when all are done or stop() says so."""
        it = iter(indices)
        done = False

        def feed(x):
            nonlocal done
            if done or stop():
                done = True
                x['busy'] = None
                return
            try:
                i = next(it)
            except StopIteration:
                done = True
                x['busy'] = None
                return
            x['busy'], x['since'] = i, time.monotonic()
            os.write(x['w'], b'%d\n' % i)
        for x in self.w:
            feed(x)
        while any(x['busy'] is not None for x in self.w):
            fds = {x['r']: x for x in self.w if x['busy'] is not None}
            rd = select.select(list(fds), [], [], 5)[0]
            for fd in rd:
                x = fds[fd]
                c = os.read(fd, 1 << 20)
                if not c:
                    raise HarnessError('worker died in case %r' % x['busy'])
                x['buf'] += c
                while b'\n' in x['buf']:
                    l, x['buf'] = x['buf'].split(b'\n', 1)
                    r = json.loads(l)
                    if 'error' in r:
                        raise HarnessError('case %r: %s\n%s' % (x['busy'], r['error'], r['tb']))
                    if os.environ.get('DST_SLOW') and time.monotonic() - x['since'] > float(os.environ['DST_SLOW']):
                        print('slow: case %r took %.1f s' % (x['busy'], time.monotonic() - x['since']), flush=True)
                    on(r)
                    feed(x)
            now = time.monotonic()
            for x in self.w:
                if x['busy'] is not None and now - x['since'] > 800:
                    raise HarnessError('case %r takes too long' % x['busy'])

    def close(self):
        for x in self.w:
            for fd in (x['w'], x['r']):
                try:
                    os.close(fd)
                except OSError:
                    pass
            try:
                os.kill(x['pid'], signal.SIGTERM)
            except OSError:
                pass
            try:
                os.waitpid(x['pid'], 0)
            except OSError:
                pass


# ------------------------------------------------------------------ minimising
def minimise(P, rep, msg, W, budget=60.0):
    """Greedy: take the first simpler run that still violates; repeat."""
    end = time.monotonic() + budget
    tried = 0
    improved = True
    seen = {digest(rep)}
    while improved and time.monotonic() < end:
        improved = False
        for cand in P.simpler(rep):
            if time.monotonic() > end:
                break
            h = digest(cand)
            if h in seen:
                continue
            seen.add(h)
            tried += 1
            try:
                m, info = P.judge(cand, W)
            except Exception:       # the simpler run makes no sense
                if os.environ.get('DST_DEBUG'):
                    traceback.print_exc()
                continue
            if m:
                rep, msg, improved = info.get('explicit') or cand, m, True
                break
    return rep, msg, tried


def ddmin_lists(lst):
    """Candidates with a chunk removed, big chunks first."""
    n = len(lst)
    k = n
    while k >= 1:
        for i in range(0, n, k):
            yield lst[:i] + lst[i + k:]
        k //= 2


def tree_id():
    """Identity of the code under test, for the replay file."""
    h = hashlib.sha256()
    for d, ds, fs in os.walk(os.path.join(REPO, 'aksharamukha')):
        ds[:] = sorted(x for x in ds if x not in ('__pycache__', 'test'))
        for f in sorted(fs):
            if f.endswith(('.py', '.json', '.yaml')):
                h.update(open(os.path.join(d, f), 'rb').read())
    return h.hexdigest()[:16]


# ------------------------------------------------------------------ known findings
def known_findings():
    out = []
    try:
        for l in open(os.path.join(VERIF, 'known_findings.txt'), encoding='utf8'):
            m = re.match(r'finding: property=(\S+) match=(.*?) :: (.*)', l.strip())
            if m:
                out.append((m.group(1), m.group(2), m.group(3)))
    except FileNotFoundError:
        pass
    return out


# ------------------------------------------------------------------ scouting
def library_modules():
    base, mods = os.path.join(REPO, 'aksharamukha'), []
    for d, ds, fs in os.walk(base):
        ds[:] = sorted(x for x in ds if x not in ('__pycache__', 'test', 'tests'))
        mods += [os.path.relpath(os.path.join(d, f), REPO)[:-3].replace(os.sep, '.') for f in sorted(fs) if f.endswith('.py') and f not in ('__init__.py', 'demo.py')]
    return mods


def scout(lab, seed, tier, jobs):
    """-> [[call, [what it alters for good or for a moment]]]: calls worth looking at more closely."""
    import gens
    ops = [o for o in gens.OPS if o['f'] in ('process', 'convert', 'convert_default', 'auto_detect', 'detect_pre', 'tr') and not gens.unfit(o)]
    rng = rng_for('scout', seed, 0)
    ops = gens.cheap(rng, [gens.cp(o) for o in ops], .9)
    rng.shuffle(ops)
    if tier == 'quick':
        ops = ops[:1700]
    ops += [gens.detectable(rng) for _ in range(40)] + [gens.gen_op(rng) for _ in range(200)]
    pids, res, total = [], [], 0
    for k in range(jobs):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                z = Zygote(lab)
                mods = library_modules()
                a = z.call({'phases': [{'ops': [[{'f': 'import', 'm': m} for m in mods]]}, {'scout': ops[k::jobs], 'seed': seed, 'budget': 9 if tier == 'quick' else 60}], 'timeout': 120})
                z.close()
                b = json.dumps(a['phases'][1] if len(a.get('phases', ())) > 1 else {}).encode()
                with os.fdopen(w, 'wb') as f:
                    f.write(b)
            except BaseException:
                if os.environ.get('DST_DEBUG'):
                    traceback.print_exc()
            os._exit(0)
        os.close(w)
        pids.append((pid, r))
    for pid, r in pids:
        with os.fdopen(r, 'rb') as f:
            b = f.read()
        os.waitpid(pid, 0)
        try:
            d = json.loads(b)
            res += d.get('hot', [])
            total += d.get('done', 0)
        except ValueError:
            pass
    return res, total


# ------------------------------------------------------------------ main
def main(P, argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('DST_JOBS', '8')))
    ap.add_argument('--cases', type=int)
    ap.add_argument('--first', type=int, default=0)
    ap.add_argument('--log', help='write one line per case (for the determinism check)')
    ap.add_argument('--out', default=os.path.join(VERIF, 'replays'))
    a = ap.parse_args(argv)
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = os.environ.get('VERIF_TIER', 'quick')
    P.tier, P.seed = tier, seed
    t0 = time.monotonic()
    lab = Lab(P.id)
    pool = None
    try:
        if hasattr(P, 'setup'):
            P.setup(lab)
        if a.replay:
            d = json.load(open(a.replay))
            W = Worker(lab)
            msg, info = P.judge(d['run'], W)
            W.close()
            if msg:
                same = 'exactly as recorded' if msg == d.get('message') else 'differently from the recorded message: ' + d.get('message', '')
                print('reproduced, ' + same)
                print('  ' + msg[:2000])
                print('VIOLATION property=%s replay=%s' % (P.id, a.replay))
                return 1
            print('not reproduced: the property holds on this run')
            return 0
        n = a.cases or P.cases(tier)
        cap = P.wall(tier)
        print('%s seed=%d tier=%s cases=%d tree=%s' % (P.id, seed, tier, n, tree_id()), flush=True)
        hot, scouted = scout(lab, seed, tier, 8) if getattr(P, 'scout', False) and not os.environ.get('DST_NOSCOUT') else ([], 0)
        import gens
        gens.HOT[:] = sorted(hot, key=digest)[:600]
        pool = Pool(P, lab, a.jobs, seed, tier)
        st = collections.Counter()
        keys = collections.defaultdict(set)
        samples, viol, known, lines = [], {}, {}, {}
        if scouted:
            st['hit:calls_scouted'], st['hit:calls_altering_data'] = scouted, len(hot)
        done = [0, 0]
        kf = [k for k in known_findings() if k[0] == P.id]

        def on(r):
            if r.get('skip'):
                st['skipped'] += 1
                return
            done[0] += 1
            done[1] += 1 if r.get('nontrivial') else 0
            st.update(r['st'])
            for k in r['keys']:
                keys[k[0]].add(k[1])
            if 'rep' in r and len(samples) < 3 and 'msg' not in r:
                samples.append({'case': r['i'], 'run': r['rep']})
            if a.log:
                lines[r['i']] = r.get('log')
            if 'msg' in r:
                for _, pat, what in kf:
                    if re.search(pat, r['msg']):
                        known[what] = known.get(what, 0) + 1
                        return
                viol[r['i']] = r

        def stop():
            return bool(viol) or time.monotonic() - t0 > cap
        pool.map(range(a.first, a.first + n), stop, on)
        pool.close()
        pool = None
        if done[0] == 0:
            raise HarnessError('no case was run')
        wall = time.monotonic() - t0
        if a.log:
            with open(a.log, 'w') as f:
                for i in sorted(lines):
                    f.write('%d %s\n' % (i, lines[i]))
        replay = None
        if viol:
            i = min(viol)
            r = viol[i]
            W = Worker(lab)
            rep, msg = r['info'].get('explicit') or r['rep'], r['msg']
            m, info = P.judge(rep, W)
            if not m:
                rep = r['rep']
                m, info = P.judge(rep, W)
                if not m:
                    # not reproducible: a fault of the simulator, not a verdict
                    raise HarnessError('case %d violated once but not on replay: %s\n%s' % (i, msg, json.dumps(rep)[:2000]))
            left = 30.0 if tier == "quick" else max(15.0, min(90.0, 780 - wall))
            rep, msg, tried = minimise(P, rep, m, W, left)
            m2, _ = P.judge(rep, W)
            W.close()
            os.makedirs(a.out, exist_ok=True)
            replay = os.path.join(a.out, '%s-%d-%d.json' % (P.id, seed, i))
            with open(replay, 'w') as f:
                json.dump({'property': P.id, 'seed': seed, 'case': i, 'tier': tier, 'tree': tree_id(), 'message': msg, 'run': rep,
                           'original_run': r['rep'], 'minimiser_runs': tried}, f, indent=1, ensure_ascii=True)
            print('case %d: %s' % (i, msg[:1500]))
            # the replay file, in a fresh process
            p = subprocess.run([sys.executable, os.path.join(VERIF, 'check.py'), P.id, '--replay', replay], capture_output=True, text=True)
            print('replay in a fresh process: exit %d %s' % (p.returncode, p.stdout.strip().splitlines()[0] if p.stdout.strip() else p.stderr[-300:]))
        hours = max(wall, 1e-6) / 3600
        cov = {'evaluations': done[0], 'distinct_nontrivial': len(keys['case']) if 'case' in keys else done[1], 'rule': P.rule, 'samples': shrink_samples(samples),
               'simulated_runs_per_hour': int(done[0] / hours), 'seeds_per_hour': int(done[0] / hours), 'processes_forked': st['lives'],
               'operations': st['ops'], 'simulated_seconds': st['vtime_ms'] / 1000, 'scheduler_steps': st['steps'], 'context_switches': st['switches'],
               'faults_fired': {k[6:]: v for k, v in sorted(st.items()) if k.startswith('fault:')},
               'faults_planned': {k[5:]: v for k, v in sorted(st.items()) if k.startswith('plan:')},
               'reached': {k[4:]: v for k, v in sorted(st.items()) if k.startswith('hit:')},
               'distinct': {k: len(v) for k, v in sorted(keys.items())},
               'real_components': P.real, 'stubbed_components': P.stub, 'cases_planned': n, 'stopped_by_time': done[0] < n and not viol}
        if known:
            cov['known_findings_seen'] = known
        ev = {'property': P.id, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
              'assumptions': P.assumptions, 'wall_s': round(time.monotonic() - t0, 1), 'violations': len(viol)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', P.id + '.json') if not os.environ.get('DST_NOEVIDENCE') else os.devnull, 'w') as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        print('%d runs in %.0f s, %s' % (done[0], wall, json.dumps({'faults': cov['faults_fired'], 'reached': cov['reached'], 'distinct': cov['distinct']})))
        for w in known:
            print('KNOWN-FINDING: property=%s %s' % (P.id, w))
        if viol:
            print('VIOLATION property=%s replay=%s' % (P.id, replay))
            return 1
        return 0
    except HarnessError as e:
        print('HARNESS ERROR: ' + str(e), file=sys.stderr)
        return 3
    except Exception:
        traceback.print_exc()
        return 3
    finally:
        if pool:
            pool.close()
        lab.close()


def shrink_samples(s):
    t = json.dumps(s, ensure_ascii=False)
    if len(t) > 6000:
        return [{'case': x['case'], 'run': json.dumps(x['run'], ensure_ascii=False)[:1800]} for x in s]
    return s
