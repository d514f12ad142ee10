"""C08: the same call gives the same outcome in every process."""
import json, os, re, shutil, base64, zipfile, io, hashlib
import gens, docs, runner
from props.common import *

ENVNAMES = ['LANG', 'LANGUAGE', 'LC_CTYPE', 'LC_COLLATE', 'LC_NUMERIC', 'LC_TIME', 'LC_MESSAGES', 'USER', 'LOGNAME', 'TERM', 'SHELL', 'PWD', 'OLDPWD', 'DEBUG', 'NO_COLOR', 'CI', 'COLUMNS', 'DISPLAY',
            'HTTP_PROXY', 'https_proxy', 'NO_PROXY', 'XDG_CONFIG_HOME', 'XDG_CACHE_HOME', 'XDG_DATA_HOME', 'AKSHARAMUKHA', 'AKSHARAMUKHA_DATA', 'AKSHARAMUKHA_DEBUG', 'AKSHARAMUKHA_CACHE', 'AKSHARAMUKHA_LOCALE',
            'PYTHONWARNINGS', 'PYTHONUNBUFFERED', 'PYTHONASYNCIODEBUG', 'PYTHONIOENCODING', 'PYTHONINTMAXSTRDIGITS', 'SOURCE_DATE_EPOCH', 'DJANGO_SETTINGS_MODULE', 'FLASK_ENV', 'TESTING', 'PYTEST_CURRENT_TEST', 'VIRTUAL_ENV']
ZONES = ['UTC', 'Asia/Kolkata', 'America/New_York', 'XXX-14', 'YYY+12', 'Asia/Kathmandu', '']
CORE_MODS = ['aksharamukha.GeneralMap', 'aksharamukha.Convert', 'aksharamukha.ConvertFix', 'aksharamukha.PreProcess', 'aksharamukha.PostProcess', 'aksharamukha.PostOptions', 'aksharamukha.PreOptions', 'aksharamukha.FallBack', 'aksharamukha.gimeltra',
             'aksharamukha.transliterate_file', 'aksharamukha.transliterate']
TIMES = [0, -1.6e9, -1.2e9, 1e8, 4.0e8, 2.1e9, 3.5e9, 86399, 1234567.891]


def norm_docx(s):
    """An archive by its members, so that the time of its making does not matter."""
    try:
        z = zipfile.ZipFile(io.BytesIO(base64.b64decode(s)))
        return [[i.filename, hashlib.md5(z.read(i)).hexdigest()] for i in z.infolist()]
    except Exception:
        return s


def norm_o(o):
    if o[0] == 'v' and isinstance(o[1], dict) and 'b64' in o[1]:
        return ['v', norm_docx(o[1]['b64']), o[2]]
    return o


CONFIGS = ['data.json', 'config.ini', 'config.json', '.aksharamukharc', 'aksharamukha.json', 'aksharamukha.yaml', 'aksharamukha.ini', 'aksharamukha.toml', '.aksharamukha', 'setup.cfg', '.config/aksharamukha/config.json', '.env']


class Prop:
    id = 'C08'
    rule = ('one evaluation is one newly started process with its own hash seed, locale, directory, environment variables, clock, zone, random seed, optimisation flag and order of first imports, '
            'whose outcomes for a few batches of calls and documents are compared with the same batches in the standard process; distinct by configuration and batch')
    real = REAL_LIB + ['interpreter start with real environment variables, flags and locales (C, C.UTF-8 and POSIX, the ones installed)']
    stub = STUB_STD
    assumptions = ['outcomes are compared batch against batch, so that what one call leaves for the next (C02) does not enter',
                   'modules that cannot be imported in any order (the unfinished GreekModern table) are left out of the orders']

    def cases(self, tier):
        return 170 if tier == 'quick' else 6000

    def wall(self, tier):
        return 60 if tier == 'quick' else 760

    def setup(self, lab):
        env = lab.env()
        del env['PYTHONDONTWRITEBYTECODE'], env['LD_PRELOAD']
        import subprocess
        for f in ('-O', '-OO'):
            subprocess.run([runner.PY, '-W', 'ignore', f, '-m', 'compileall', '-q', '-j', '8', os.path.join(runner.REPO, 'aksharamukha')], env=env, cwd=lab.dir, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            runner.Zygote(lab, write=True, flags=(f,)).close()
        mods, names, files = [], set(ENVNAMES), []
        base = os.path.join(runner.REPO, 'aksharamukha')
        for d, ds, fs in os.walk(base):
            ds[:] = sorted(x for x in ds if x not in ('__pycache__', 'test', 'tests'))
            for f in sorted(fs):
                p = os.path.join(d, f)
                if f.endswith('.py'):
                    m = os.path.relpath(p, runner.REPO)[:-3].replace(os.sep, '.')
                    mods.append(m[:-9] if m.endswith('.__init__') else m)
                    names.update(re.findall(r'''(?:environ(?:\.get|\.setdefault|\.pop)?\s*[\[(]|getenv\s*\()\s*['"](\w+)''', open(p, encoding='utf8', errors='replace').read()))
                else:
                    files.append(os.path.relpath(p, base))
        mods = [m for m in mods if m != 'aksharamukha.demo']
        z = runner.Zygote(lab)
        r = z.call({'phases': [{'ops': [[{'f': 'import', 'm': m} for m in mods]]}], 'timeout': 120})
        z.close()
        if 'phases' not in r:
            raise runner.HarnessError('modules cannot be imported: %s' % r)
        self.mods = [m for m, x in zip(mods, r['phases'][0]['out'][0]) if x['o'][0] == 'v']
        self.names = sorted(names)
        def other(x):
            if isinstance(x, dict):
                return {k: other(v) for k, v in x.items()}
            if isinstance(x, list):
                return [other(v) for v in x]
            return x[::-1] + 'x' if isinstance(x, str) else x
        self.decoys = {'decoy': [], 'other': []}
        for f in files + ['yaml.py', 'aksharamukha.py', 'requests.py', 'regex.py', 'json.py'] + CONFIGS:
            t, full = '{"decoy": 1}\nraise SystemExit(3)\n', os.path.join(base, f)
            for p in sorted({f, os.path.basename(f), os.path.join('aksharamukha', f)}):
                self.decoys['decoy'].append((p, t))
            # the same with contents that can be read, but are others
            if f.endswith('.json') and os.path.exists(full):
                t = json.dumps(other(json.load(open(full, encoding='utf8'))))
            elif f.endswith('.yaml') and os.path.exists(full):
                t = re.sub(r'[^\x00-\x7f]', 'x', open(full, encoding='utf8').read())
            elif f in CONFIGS:
                t = '{"nativize": false, "post_options": ["RemoveDiacritics"], "decoy": "1"}\n' if not f.endswith(('cfg', 'ini', 'toml')) else '[aksharamukha]\nnativize = false\n'
            elif f.endswith('.py'):
                continue
            for p in sorted({f, os.path.basename(f), os.path.join('aksharamukha', f)}):
                self.decoys['other'].append((p, t))
        self.z = None

    # ---------------------------------------------------------------- generation
    def config(self, rng):
        env, cfg, flags = {}, {'rseed': rng.getrandbits(16)}, []
        if rng.random() < .9:
            env['PYTHONHASHSEED'] = str(rng.randrange(1, 1 << 32))
        x = rng.random()
        if x < .4:
            env.update(LC_ALL=rng.choice(['C', 'POSIX']), LANG=rng.choice(['C', '']), PYTHONUTF8='0', PYTHONCOERCECLOCALE='0')
        elif x < .55:
            env.update(LANG=rng.choice(['de_DE.ISO-8859-1', 'tr_TR', 'nonsense', '']))
            cfg['locale'] = 'C'
        if rng.random() < .5:
            env['TZ'] = rng.choice(ZONES)
        if rng.random() < .6:
            cfg['now'] = rng.choice(TIMES)
        x = rng.random()
        if x < .2:
            flags.append('-O')
        elif x < .45:
            flags.append('-OO')
        if rng.random() < .1:
            flags += ['-X', 'dev'] if rng.random() < .5 else ['-b']
        if rng.random() < .6:
            for n in rng.sample(self.names, rng.choice([1, 4, 12])):
                if n not in env:
                    env[n] = rng.choice(['', '0', '1', 'x', 'de_DE.UTF-8', 'C', '/nonexistent', 'true', 'Tamil'])
            for n in set(self.names) - set(ENVNAMES):
                env[n] = rng.choice(['', '0', '1', 'x', '/nonexistent', 'true'])
        env.pop('PYTHONIOENCODING', None) if rng.random() < .5 else None
        if 'PYTHONIOENCODING' in env:
            env['PYTHONIOENCODING'] = rng.choice(['ascii', 'utf-8', 'latin-1'])
        if 'PYTHONWARNINGS' in env:
            env['PYTHONWARNINGS'] = rng.choice(['ignore', 'default', 'always'])
        if 'PYTHONINTMAXSTRDIGITS' in env:
            env['PYTHONINTMAXSTRDIGITS'] = '700'
        if rng.random() < .3:
            env['HOME'] = rng.choice(['/nonexistent', '', None])
        x = rng.random()
        if x < .5:
            cfg['order'] = rng.sample([m for m in CORE_MODS if m in self.mods], rng.choice([1, 2, 4]))
        elif x < .65:
            cfg['order'] = rng.sample(self.mods, len(self.mods))
        elif x < .8:
            cfg['order'] = rng.sample(self.mods, min(8, len(self.mods)))
        cwd = rng.choice(['same', 'decoy', 'decoy', 'other', 'other', 'root', 'gone', 'lib'])
        if rng.random() < .25:
            env[rng.choice(['HOME', 'XDG_CONFIG_HOME', 'XDG_CACHE_HOME', 'XDG_DATA_HOME'])] = rng.choice(['@decoy', '@other'])
        return {'env': env, 'cfg': cfg, 'flags': flags, 'cwd': cwd}

    def gen(self, rng, i, W):
        rep = self.config(rng)
        rep['seeds'] = [rng.getrandbits(16), rng.getrandbits(16)]
        ops, files = [], []
        for _ in range(6):
            ops += gens.related(rng, 8)
        ops += [gens.gen_op(rng) for _ in range(16)]
        ops += [gens.cp(gens.OPS[rng.choice(gens.BY_F[k])]) for k in sorted(gens.BY_F)]
        ops = gens.cheap(rng, [o for o in ops if not gens.unfit(o)], .5)
        rng.shuffle(ops)
        rep['batches'] = [{'ops': ops, 'files': []}]
        ops = []
        for k in range(5):
            d = docs.document(rng, 'd%d' % k, ascii_only=True)
            ops.append(d['op'])
            if not d['api']:
                files.append(d['file'])
        rep['batches'].append({'ops': ops, 'files': files, 'beside': rng.random() < .6})
        return rep

    # ---------------------------------------------------------------- judgement
    def variant(self, rep, W):
        k = digest([rep['env'], rep['cfg'], rep['flags'], rep['cwd']])
        if self.z and self.z[0] == k:
            return self.z[1]
        if self.z:
            self.z[1].close()
            self.z = None
        dirs = {k: os.path.join(W.lab.dir, 'cwd-%s-%d' % (k, os.getpid())) for k in ('decoy', 'other', 'lib')}
        for k, d in dirs.items():
            if not os.path.isdir(d):
                if k == 'lib':          # a copy, in case something writes there
                    shutil.copytree(os.path.join(runner.REPO, 'aksharamukha'), d, ignore=shutil.ignore_patterns('__pycache__', 'test', 'tests'))
                    continue
                for p, t in self.decoys[k]:
                    p = os.path.join(d, p)
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    with open(p, 'w') as h:
                        h.write(t)
        cfg = dict(rep['cfg'])
        cfg['cwd'] = {'same': os.path.join(W.lab.dir, 'cwd'), 'root': '/', 'gone': None, **dirs}[rep['cwd']]
        if cfg['cwd'] is None:
            cfg['cwd'] = os.path.join(W.lab.dir, 'gone-%d' % os.getpid())
            os.makedirs(cfg['cwd'], exist_ok=True)
            cfg['rmcwd'] = True
        env = {k: dirs[v[1:]] if isinstance(v, str) and v[:1] == '@' else v for k, v in rep['env'].items()}
        z = runner.Zygote(W.lab, cfg, env=env, flags=tuple(rep['flags']))
        self.z = (k, z)
        W.st['hit:processes_started'] += 1
        return z

    def conf(self, rep):
        e = dict(rep['env'])
        return 'env %s, %s, flags %s, cwd %s' % (gens.short(e, 300), gens.short(rep['cfg'], 200), rep['flags'], rep['cwd'])

    def judge(self, rep, W):
        info = {'keys': [['case', h8(rep)], ['configurations', h8([rep['env'], rep['cfg'], rep['flags'], rep['cwd']])]]}
        try:
            z = self.variant(rep, W)
        except runner.HarnessError as e:
            if not getattr(e, 'in_library', False):
                raise
            return 'the library cannot be imported in a process with %s: %s' % (self.conf(rep), str(e)[-600:]), info
        for k, v in (('ascii_locale', rep['env'].get('PYTHONUTF8') == '0'), ('optimised', any(f.startswith('-O') for f in rep['flags'])), ('import_order', bool(rep['cfg'].get('order'))), ('other_clock', 'now' in rep['cfg']),
                     ('cwd_' + rep['cwd'], True), ('hash_seed', 'PYTHONHASHSEED' in rep['env']), ('zone', 'TZ' in rep['env'])):
            if v:
                W.st['hit:' + k] += 1
        log = []
        for b in rep['batches']:
            spec = {'phases': [{'ops': [b['ops']]}], 'timeout': 30}
            if b['files'] or any(o['f'] in ('html_api', 'docx_api', 'file') for o in b['ops']):
                spec.update(files=b['files'], tree=True)
            res = []
            for j, who in enumerate((W.z, z)):
                s = dict(spec, seed=rep['seeds'][j], stay=True)
                if j and b.get('beside') and 'files' in s:
                    # what lies beside the documents has no say either
                    ds = sorted({os.path.dirname(f['p']) for f in s['files']})
                    s['files'] = s['files'] + [{'p': os.path.join(x, n), 'd': docs.b64(t.encode())} for x in ds for n, t in self.decoys['other'] if os.path.basename(n) == n and len(t) < 200000]
                if j and 'now' in rep['cfg']:
                    s['now'] = rep['cfg']['now']
                if 'tree' in s:
                    s['dir'] = W.scratch()
                W.st['lives'] += 1
                r = who.call(s)
                if 'phases' not in r:
                    r = who.call(dict(s, timeout=180)) if r.get('timeout') else r
                    if 'phases' not in r:
                        return '%s: %s' % ('the standard process' if not j else 'a process with ' + self.conf(rep), r), info
                W.st['ops'] += len(b['ops'])
                res.append(r)
            a, v = res
            for o, x, y in zip(b['ops'], a['phases'][0]['out'][0], v['phases'][0]['out'][0]):
                if norm_o(x['o']) != norm_o(y['o']):
                    return '%s gave %s in the standard process and %s in a process with %s' % (gens.show(o), gens.short(x['o']), gens.short(y['o']), self.conf(rep)), info
            if 'tree' in a:
                for p in sorted(set(a['tree']) | set(v['tree'])):
                    x, y = a['tree'].get(p), v['tree'].get(p)
                    if x is None and any(os.path.basename(p) == n for n, _ in self.decoys['other']):
                        continue
                    if x != y and not (x and y and p.endswith('.docx') and norm_docx(x[2]) == norm_docx(y[2])):
                        return 'the file %s is %s in the standard process and %s in a process with %s' % (p, gens.short(x), gens.short(y), self.conf(rep)), info
            log.append(h8([a, v]))
        info['log'] = h8(log)
        return None, info

    def simpler(self, rep):
        B = rep['batches']
        if len(B) > 1:
            for i in range(len(B)):
                yield dict(rep, batches=B[:i] + B[i + 1:])
        for i, b in enumerate(B):
            if b.get('beside'):
                yield dict(rep, batches=B[:i] + [dict(b, beside=False)] + B[i + 1:])
        for k, v in (('cwd', 'same'), ('flags', []), ('cfg', {}), ('env', {})):
            if rep[k] != v:
                yield dict(rep, **{k: v})
        for k in ('cfg', 'env'):
            for n in sorted(rep[k]):
                yield dict(rep, **{k: {a: b for a, b in rep[k].items() if a != n}})
        o = rep['cfg'].get('order')
        if o and len(o) > 1:
            for c in chunks(o):
                yield dict(rep, cfg=dict(rep['cfg'], order=c))
        for i, b in enumerate(B):
            if len(b['ops']) > 1:
                for c in chunks(b['ops']):
                    yield dict(rep, batches=B[:i] + [dict(b, ops=c)] + B[i + 1:])
            for j, op in enumerate(b['ops'][:4]):
                for o in simpler_op(op):
                    yield dict(rep, batches=B[:i] + [dict(b, ops=b['ops'][:j] + [o] + b['ops'][j + 1:])] + B[i + 1:])


from runner import digest
P = Prop()
