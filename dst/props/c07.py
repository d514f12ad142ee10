"""C07: a call leaves the host process as it found it."""
import json, errno, base64
import gens, docs
from props.common import *
from props.c02 import broken
from props import c05
C05 = c05.P

PRESETS = ['gc_off', 'gc_threshold', 'recursion', 'filter_ignore', 'filter_once', 'log_level', 'log_debug', 'log_disable', 'log_lib', 'log_urllib3', 'socket', 'umask', 'locale_c', 'locale_numeric',
           'switch', 'decimal', 'signals', 'random', 'environ', 'bytecode', 'path', 'intmax', 'stdout', 'cwd', 'tempdir', 'hook']


class Prop:
    id = 'C07'
    scout = True
    rule = ('one evaluation is one process life in which process-wide state is compared before and after a group of calls that return, fail, are interrupted, '
            'meet faults or overlap in threads; distinct by calls, fault and schedule')
    real = REAL_LIB
    stub = STUB_STD
    assumptions = ['the compared state is what an ordinary program can set: directory, environment, umask, locale, sys settings and hooks, warning filters, logging, random, '
                   'signals, timers, socket defaults, threads, gc, decimal, exit handlers, limits, descriptors, temporary files, replaced functions in 60 standard and third-party modules',
                   'the file converter may print (it says which file it created); other calls print nothing']

    def cases(self, tier):
        return 1500 if tier == 'quick' else 40000

    def wall(self, tier):
        return 55 if tier == 'quick' else 600

    def gen(self, rng, i, W):
        mode = rng.choice(['plain', 'many', 'many', 'fail', 'intr', 'intr', 'flt', 'threads', 'threads', 'file', 'file', 'fileflt', 'filethreads', 'net', 'net'])
        rep = {'mode': mode, 'seed': rng.getrandbits(16), 'warm': [], 'files': [], 'sched': None, 'flt': []}
        if mode == 'net':
            n = rng.choice([1, 1, 1, 2])
            T = [[C05.tamop(rng) if rng.random() < .85 else gens.cheap(rng, [gens.gen_op(rng)], .9)[0] for _ in range(rng.choice([1, 2, 5]))] for _ in range(n)]
            rep['net'] = [c05.plan(rng, rng.choice([0, .5, 1])) for _ in range(sum(map(len, T)))]
        elif mode.startswith('file'):
            n = 2 if mode == 'filethreads' else 1
            T = []
            for k in range(n):
                l = []
                for j in range(rng.choice([1, 2])):
                    d = docs.document(rng, 'd%d%d' % (k, j), small=True)
                    if d['api']:
                        l.append(d['op'])
                    else:
                        rep['files'].append(d['file'])
                        l.append(d['op'])
                T.append(l)
            if mode == 'fileflt':
                op = rng.choice(['open_r', 'open_w', 'read', 'write', 'close'])
                rep['flt'] = [{'cls': 1, 'ops': [op], 'k': rng.randrange(0, 3), 'act': 'errno', 'err': rng.choice([errno.EIO, errno.ENOSPC, errno.EMFILE])}]
                if rng.random() < .4:
                    rep['flt'] = []
                    o = T[0][-1]
                    o['intr'] = {'kind': rng.choice(['kbd', 'mem', 'exc']), 'by': 'site', 'at': rng.randrange(1, 300)}
        elif mode == 'many':
            l = gens.theme(rng, rng.choice([60, 120, 240]))
            gens.cheap(rng, l, .8)
            for o in l:
                if rng.random() < .3 and o.get('src') in gens.ALLSET:
                    o['txt'] = gens.soup(rng, o['src'])
            T = [l]
        else:
            l = gens.related(rng, rng.choice([2, 4, 8]))
            if rng.random() < .3:
                l += [gens.gen_op(rng) for _ in range(6)]
            gens.cheap(rng, l, .4)
            T = [l]
            if mode == 'fail':
                T = [[broken(rng, o) if rng.random() < .7 else o for o in l]]
                for o in T[0]:
                    if rng.random() < .2:
                        o['txt'] = None
            elif mode == 'intr':
                for o in l[:3]:
                    c = W.count(o, 'hot' if rng.random() < .5 else 'site')
                    if c:
                        o['intr'] = {'kind': rng.choice(['kbd', 'mem', 'base', 'exc']), 'by': 'site', 'at': rng.randrange(1, c + 1)}
            elif mode == 'flt':
                o = l[0]
                o['flt'] = [{'cls': 0, 'ops': [rng.choice(['open_r', 'read'])], 'k': rng.randrange(0, 10), 'act': rng.choice(['sticky', 'errno']), 'err': rng.choice([errno.EIO, errno.EMFILE])}]
            elif mode == 'threads':
                n = rng.choice([2, 2, 3])
                T = [t for t in (l[k::n] for k in range(n)) if t]
        rep['ops'] = T
        if len(T) > 1:
            rep['sched'] = sched_plan(rng, len(T))
        if rng.random() < .3:
            rep['warm'] = [gens.gen_op(rng)]
        if rng.random() < .5:
            rep['preset'] = rng.sample(PRESETS, rng.choice([1, 3, 6, 12]))
        return rep

    def judge(self, rep, W):
        ph = []
        if rep['warm']:
            ph.append({'ops': [rep['warm']]})
        p = {'ops': rep['ops'], 'host': True}
        if len(rep['ops']) > 1:
            p['sched'] = rep['sched'] or {'mode': 'serial'}
        if rep['flt']:
            p['flt'] = rep['flt']
        if rep.get('preset'):
            p['preset'] = rep['preset']
        ph.append(p)
        spec = {'phases': ph, 'seed': rep['seed'], 'timeout': 30}
        if 'net' in rep:
            spec['net'] = {'plan': rep['net']}
        d = W.scratch()
        spec.update(dir=d, files=rep['files'], cwd='home')
        r = W.run(spec)
        info = {}
        msg = dead(r)
        if msg or 'phases' not in r:
            return msg or 'the run was cut off: %s' % r, info
        info['log'] = norm(r).replace(d, '')
        last = r['phases'][-1]
        info['explicit'] = explicit(rep, last) if rep['sched'] else rep
        info['nontrivial'] = 1
        info['keys'] = [['case', h8([rep['ops'], rep['flt'], last.get('sites')])]] + [['calls', h8(gens.kind(o))] for t in rep['ops'] for o in t]
        W.st['hit:mode_' + rep['mode']] += 1
        for ops, out in zip(rep['ops'], last['out']):
            for o, rec in zip(ops, out):
                if o.get('intr') and rec.get('fired'):
                    W.st['fault:' + o['intr']['kind']] += 1
                if o.get('flt') and any(rec.get('hit', ())):
                    W.st['fault:data_fault'] += 1
                if rec['o'][0] == 'e':
                    W.st['hit:failing_calls'] += 1
        if any(last.get('hit', ())):
            W.st['fault:disk_fault'] += 1
        if 'net' in rep:
            for k, v in r['net']['fired'].items():
                W.st['fault:net_' + k] += v
        if last['net']:
            return 'the network was used', info
        diff = last.get('host') or []
        if rep['mode'].startswith('file'):
            diff = [x for x in diff if x[0] != 'stdout']     # it says which file it created
        if diff:
            return 'process-wide state changed: %s by %s' % (gens.short(diff[:3], 500), gens.short(' || '.join('; '.join(gens.show(o) for o in t) for t in rep['ops']), 900)), info
        return None, info

    def simpler(self, rep):
        if rep.get('preset'):
            for c in [[]] + list(chunks(rep['preset'])):
                yield dict(rep, preset=c)
        if rep['warm']:
            yield dict(rep, warm=[])
        if rep['flt']:
            yield dict(rep, flt=[])
        if rep.get('net'):
            for c in chunks(rep['net']):
                yield dict(rep, net=c)
        yield from simpler_threads(rep)
        for i, l in enumerate(rep['ops']):
            for j, op in enumerate(l):
                for k in ('intr', 'flt'):
                    if k in op:
                        o = {a: b for a, b in op.items() if a != k}
                        yield dict(rep, ops=rep['ops'][:i] + [l[:j] + [o] + l[j + 1:]] + rep['ops'][i + 1:])
        yield from simpler_sched(rep)


P = Prop()
