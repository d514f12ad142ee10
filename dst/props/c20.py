"""C20: the library can be imported under any circumstances."""
import errno, os, random
import gens, runner
from props.common import *
from props.c07 import PRESETS

PUBLIC = ['aksharamukha.transliterate', 'aksharamukha.transliterate', 'aksharamukha.transliterate', 'aksharamukha.transliterate_file', 'aksharamukha.transliterate_file', 'aksharamukha.gimeltra', 'aksharamukha']
NOT = {'demo', '__init__', 'GreekModern', 'SyriacMalayalam'}       # a script to be run; tables that were never finished
ERRS = {'open_r': ['EIO', 'EMFILE', 'ENFILE', 'ENOMEM', 'EACCES', 'EINTR'], 'read': ['EIO', 'EINTR', 'ENOMEM', 'short', 'short'], 'opendir': ['EIO', 'EMFILE', 'ENFILE', 'ENOMEM']}
OPCODE = {1: 'open_r', 4: 'read', 4096: 'opendir'}


def imp(m, **k):
    return dict({'f': 'import', 'm': m}, **k)


class Prop:
    id = 'C20'
    rule = ('one evaluation is one process that has not imported the library yet: its first imports are cut short by interruptions and failing reads, or made by several threads at the same time, '
            'with the host\'s settings compared before and after; then imports again and calls against a process with an undisturbed import; non-trivial when a fault or interruption struck or threads overlapped; '
            'distinct by imports, place of the disturbance and switch places')
    real = REAL_LIB
    stub = STUB_STD + ['results of open, read and opendir on files below the library\'s directory and its byte-code cache']
    assumptions = ['the third-party and standard modules the library needs are imported already and their import is not disturbed',
                   'several threads import the public modules (transliterate, transliterate_file, gimeltra); modules behind them are imported first by one thread only',
                   'directory listings fail with I/O or resource errors only: the import system itself takes "permission denied" for an empty directory']

    def cases(self, tier):
        return 1500 if tier == 'quick' else 60000

    def wall(self, tier):
        return 50 if tier == 'quick' else 600

    def setup(self, lab):
        base = os.path.join(runner.REPO, 'aksharamukha')
        self.inner = ['aksharamukha.' + f[:-3] for f in sorted(os.listdir(base)) if f.endswith('.py') and f[:-3] not in NOT]
        self.all = sorted('aksharamukha.' + os.path.relpath(os.path.join(d, f), base)[:-3].replace(os.sep, '.').removesuffix('.__init__')
                          for d, _, fs in os.walk(os.path.join(base, 'ScriptMap')) for f in fs if f.endswith('.py') and f[:-3] not in NOT)

    def bare(self, W):
        if not hasattr(W, 'bare'):
            W.bare = runner.Zygote(W.lab, {'bare': True})
        return W.bare

    def undisturbed(self, W, m):
        """Places of interruption of both kinds and file operations of the import of m by itself; None when it cannot be imported."""
        def fn():
            z, out = self.bare(W), {}
            for by in ('site', 'hot'):
                r = z.call({'phases': [{'ops': [[imp(m, intr={'kind': 'count', 'by': by, 'at': None, 'marks': True})]]}], 'timeout': 120})
                if 'phases' not in r or r['phases'][0]['out'][0][0]['o'][0] != 'v':
                    return None
                rec = r['phases'][0]['out'][0][0]
                l = rec['marks'] + [[rec['n'] + 1, '']]
                parts = {}
                for (k, f), (k2, _) in zip(l, l[1:]):
                    parts.setdefault(os.path.relpath(f, runner.REPO), []).append([k, k2])
                out[by] = parts
            r = z.call({'phases': [{'ops': [[imp(m, names=True)]], 'log': True}], 'timeout': 120})
            out['log'] = [x[0] for x in r['phases'][0]['log'] if x[1] == 0 and x[0] in OPCODE]
            names = r['phases'][0]['out'][0][0]['o'][1]
            # each module with a file opens one file, in the order in which they are begun
            out['names'] = names if len(names) == out['log'].count(1) else []
            return out
        return W._memo('u', {'m': m}, fn)

    def module(self, rng, W):
        return rng.choice(PUBLIC + self.inner) if rng.random() < .8 else rng.choice(self.all)

    # ---------------------------------------------------------------- generation
    def interruption(self, rng, W, m):
        by = rng.choice(['site', 'hot'])
        parts = (self.undisturbed(W, m) or {}).get(by)
        if not parts:
            return None
        l = [r for x in parts.values() for r in x]
        if rng.random() < .7:       # each file alike, the tables less
            own = sorted(k for k in parts if 'ScriptMap' not in k)
            l = parts[rng.choice(own if own and rng.random() < .7 else sorted(parts))]
        k = rng.randrange(sum(b - a for a, b in l))
        for a, b in l:
            if k < b - a:
                break
            k -= b - a
        return {'kind': rng.choice(['kbd', 'mem', 'base', 'exc']), 'by': by, 'at': a + k}

    def faults(self, rng, W, m):
        u = self.undisturbed(W, m) or {}
        lg, out = u.get('log'), []
        if not lg:
            return []
        count = {o: lg.count(o) for o in set(lg)}
        if u['names'] and rng.random() < .6:
            # one module of those that are imported, all or part of what is read for it
            own = [n for n in u['names'] if 'ScriptMap' not in n]
            k = u['names'].index(rng.choice(own if own and rng.random() < .7 else u['names']))
            e, n = rng.choice(['EIO', 'EMFILE', 'ENFILE', 'ENOMEM', 'EACCES']), rng.choice([1, 2, 2, 2, 3, 4])
            return [{'cls': 0, 'ops': ['open_r'], 'k': j, 'act': 'errno', 'err': getattr(errno, e)} for j in range(k, k + n)]
        for _ in range(rng.choice([1, 1, 2, 4])):
            op = rng.choice(lg) if rng.random() < .6 else rng.choice(sorted(count))
            e, k = rng.choice(ERRS[OPCODE[op]]), rng.randrange(count[op])
            if e == 'short':
                out += [{'cls': 0, 'ops': ['read'], 'k': kk, 'act': 'short', 'arg': rng.choice([0, 1, 7, rng.getrandbits(16)])} for kk in range(k, min(k + rng.choice([1, 12]), count[op]))]
            elif e != 'EINTR' and rng.random() < .3:
                out.append({'cls': 0, 'ops': [OPCODE[op]], 'k': k, 'act': 'sticky', 'err': getattr(errno, e)})
            else:
                out.append({'cls': 0, 'ops': [OPCODE[op]], 'k': k, 'act': 'errno', 'err': getattr(errno, e)})
        return out[:30]

    def calls(self, rng, n):
        """Calls from a pool: what they give in an undisturbed process is found out once."""
        if not hasattr(self, 'pool'):
            r = random.Random('C20 pool/%d' % self.seed)
            self.pool = [o for _ in range(60) for o in gens.related(r, 3)] + [gens.cp(gens.OPS[r.choice(gens.BY_F[k])]) for k in sorted(gens.BY_F) for _ in range(8)]
            self.pool = gens.cheap(r, [o for o in self.pool if not gens.unfit(o)], .6)
        return [gens.cp(o) for o in rng.sample(self.pool, n)]

    def gen(self, rng, i, W):
        first = sorted(set(PUBLIC + self.inner))
        if i < len(first):          # each module by itself
            return {'mode': 'plain', 'seed': 0, 'sched': None, 'preset': [], 'T': [[imp(first[i])]], 'post': self.calls(rng, 4), 'again': [imp(m) for m in rng.sample(first, 4)] + [imp(PUBLIC[0])]}
        mode = rng.choice(['intr', 'intr', 'intr', 'flt', 'flt', 'threads', 'threads', 'plain'])
        rep = {'mode': mode, 'seed': rng.getrandbits(16), 'sched': None, 'preset': []}
        rep['post'] = self.calls(rng, rng.choice([2, 4, 6]))
        if mode == 'threads':
            T = []
            for _ in range(rng.choice([2, 2, 3, 4])):
                t = [imp(rng.choice(PUBLIC)) for _ in range(rng.choice([0, 1, 1, 2]))]
                t += self.calls(rng, rng.choice([0, 1, 2]) if t else 1)
                T.append(t or [imp(PUBLIC[0])])
            if rng.random() < .3:
                m = rng.choice(PUBLIC)
                T[0] = [imp(m, intr=self.interruption(rng, W, m))]
            rep['T'] = T
            rep['sched'] = sched_plan(rng, len(T))
        else:
            l = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                m = self.module(rng, W)
                o = imp(m)
                if mode == 'intr':
                    o['intr'] = self.interruption(rng, W, m)
                elif mode == 'flt':
                    o['flt'] = self.faults(rng, W, m)
                l.append(o)
            if rng.random() < .3:
                rng.shuffle(l)
            rep['T'] = [l]
        for t in rep['T']:
            for o in t:
                for k in ('intr', 'flt'):
                    if k in o and not o[k]:
                        del o[k]
        if rng.random() < .6:
            rep['preset'] = rng.sample([x for x in PRESETS], rng.choice([1, 3, 6, 12]))
        rep['again'] = [imp(self.module(rng, W)) for _ in range(rng.choice([0, 1, 3]))] + [imp('aksharamukha.transliterate'), imp('aksharamukha.transliterate_file')]
        return rep

    # ---------------------------------------------------------------- judgement
    def judge(self, rep, W):
        p = {'ops': rep['T'], 'host': True}
        if len(rep['T']) > 1:
            p['sched'] = rep['sched'] or {'mode': 'serial'}
        if rep['preset']:
            p['preset'] = rep['preset']
        d = W.scratch()
        spec = {'phases': [p, {'ops': [rep['again']], 'host': True}, {'ops': [rep['post']]}], 'seed': rep['seed'], 'dir': d, 'cwd': 'home', 'timeout': 60, 'state': not rep.get('noprobe')}
        z, W.z = W.z, self.bare(W)
        try:
            r = W.run(spec)
        finally:
            W.z = z
        info = {'nontrivial': 0}
        msg = dead(r) or lost(r)
        if msg or 'phases' not in r:
            return msg or 'the run was cut off: %s' % r, info
        info['log'] = norm(r).replace(d, '')
        a, b, c = r['phases']
        info['explicit'] = explicit(rep, a) if rep['sched'] else rep
        W.st['hit:mode_' + rep['mode']] += 1
        struck = False
        who = 'the first imports (%s)' % gens.short(rep['T'], 500)
        for t, out in zip(rep['T'], a['out']):
            for o, rec in zip(t, out):
                hit = bool(o.get('intr') and rec.get('fired')) or any(rec.get('hit', ()))
                if o.get('intr') and rec.get('fired'):
                    W.st['fault:' + o['intr']['kind']] += 1
                for f, h in zip(o.get('flt', ()), rec.get('hit', ())):
                    n = '%s:%s%s' % (f['ops'][0], errno.errorcode.get(f.get('err'), 'short'), ':sticky' if f['act'] == 'sticky' else '')
                    W.st['plan:' + n] += 1
                    W.st['fault:' + n] += bool(h)
                struck = struck or hit
                if o['f'] == 'import':
                    if rec['o'][0] == 'e':
                        # (an import in another thread fails with the one it was waiting for)
                        if not hit and not any(x.get('intr') for u in rep['T'] if u is not t for x in u):
                            return '%s: importing %s failed without a fault: %s' % (who, o['m'], gens.short(rec['o'])), info
                        W.st['hit:imports_cut_short'] += 1
                    else:
                        W.st['hit:imports_done'] += 1
                elif not any(x.get('intr') for u in rep['T'] for x in u):
                    want = W.ref(o)
                    if rec['o'] != want:
                        return '%s: %s' % (who, differs(o, rec['o'], want)), info
            if len(out) < len(t):
                return 'an import never finished: %s' % who, info
        if len(rep['T']) > 1 and len(a.get('switches', ())) > len(rep['T']):
            struck = True
        info['nontrivial'] = 1 if struck else 0
        info['keys'] = [['case', h8([rep['T'], a.get('sites')])], ['places', h8([[o.get('intr'), o.get('flt'), o.get('m')] for t in rep['T'] for o in t])]]
        for x, w in ((a, who), (b, 'imports after ' + who)):
            if x['net']:
                return '%s: the network was used' % w, info
            if x.get('host'):
                return '%s: process-wide state changed: %s' % (w, gens.short(x['host'][:3], 500)), info
        for o, rec in zip(rep['again'], b['out'][0]):
            if rec['o'][0] != 'v':
                return 'after %s: importing %s again fails: %s' % (who, o['m'], gens.short(rec['o'])), info
        w = 'after %s, call %%d: ' % who.replace('%', '')
        m = compare(W, rep['post'], c['out'][0], where=w)
        if m or rep.get('noprobe'):
            return m, info
        W.z = self.bare(W)
        try:
            p = deep(W, r, spec, rep['post'])
        finally:
            W.z = z
        if p:
            info['explicit'] = dict(info['explicit'], post=rep['post'] + p[0], noprobe=1)
            return w % (len(rep['post']) + len(p[0])) + differs(p[0][-1], p[1], p[2]), info
        return None, info

    def simpler(self, rep):
        rep = dict(rep, noprobe=1)
        if rep['preset']:
            for c in [[]] + list(chunks(rep['preset'])):
                yield dict(rep, preset=c)
        for k in ('post', 'again'):
            if len(rep[k]) > 1:
                for c in chunks(rep[k]):
                    yield dict(rep, **{k: c})
        T = rep['T']
        for i, t in enumerate(T):
            if len(T) > 2:
                yield dict(rep, T=T[:i] + T[i + 1:])
            if len(t) > 1:
                for c in chunks(t):
                    yield dict(rep, T=T[:i] + [c] + T[i + 1:])
            for j, o in enumerate(t):
                if len(o.get('flt', ())) > 1:
                    for c in chunks(o['flt']):
                        yield dict(rep, T=T[:i] + [t[:j] + [dict(o, flt=c)] + t[j + 1:]] + T[i + 1:])
                for k in ('intr', 'flt'):
                    if k in o:
                        yield dict(rep, T=T[:i] + [t[:j] + [{a: b for a, b in o.items() if a != k}] + t[j + 1:]] + T[i + 1:])
        yield from simpler_sched(rep)


P = Prop()
