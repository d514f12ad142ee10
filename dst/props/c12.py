"""C12: documents converted at the same time do not mix."""
import json
import gens, docs
from props.filecommon import *


class Prop:
    id = 'C12'
    scout = True
    rule = ('one evaluation is one process in which 2 or 3 threads convert 2 to 6 documents (different ones, or one source into several scripts; on disk and in memory) and texts under one schedule, '
            'each compared with the same conversion alone in a fresh process; non-trivial when the threads overlapped; distinct by documents and switch places')
    real = REAL_FILE
    stub = STUB_FILE
    assumptions = ['a conversion alone in a freshly started process is the specification of that conversion',
                   'threads are switched between instructions of the library\'s own code and wherever a lock, an import or a sleep makes one wait']

    def cases(self, tier):
        return 1500 if tier == 'quick' else 40000

    def wall(self, tier):
        return 55 if tier == 'quick' else 700

    def gen(self, rng, i, W):
        n = rng.choice([2, 2, 3, 4, 6])
        x = rng.random()
        ds = doc_set(rng, n, small=rng.random() < .85, share=.6 if x < .4 else .15)
        ds = [d for d in ds if len(d['data']) < 20000]
        if len(ds) < 2:
            return None
        if x > .7:
            # the same document with other options, or the same scripts with another document
            for d in ds[1:]:
                if rng.random() < .5 and d['kind'] == ds[0]['kind'] and docs.out_path(d) != docs.out_path(ds[0]):
                    d['src'], d['tgt'] = ds[0]['src'], ds[0]['tgt']
                    d.pop('pre', None)
                    d['op'] = docs.op_of(d)
            if len({docs.out_path(d) for d in ds if not d['api']}) < len([d for d in ds if not d['api']]):
                return None
        k = rng.choice([2, 2, 3]) if len(ds) > 2 else 2
        T = [list(range(len(ds)))[j::k] for j in range(k)]
        T = [[['d', j] for j in t] for t in T if t]
        if rng.random() < .25:
            T[rng.randrange(len(T))].insert(0, ['o', gens.cheap(rng, [gens.gen_op(rng)], .9)[0]])
        if rng.random() < .2:
            t = rng.choice(T)
            t.append(['d', rng.choice([x[1] for x in t if x[0] == 'd'] or [0])] if any(x[0] == 'd' for x in t) else ['o', gens.cheap(rng, [gens.gen_op(rng)], .9)[0]])
        rep = {'docs': ds, 'T': T, 'sched': sched_plan(rng, len(T)), 'seed': rng.getrandbits(16), 'old': [docs.old_output(rng, d) for d in ds if not d['api'] and rng.random() < .2], 'intr': None, 'warm': rng.random() < .25}
        if rng.random() < .12:
            rep['intr'] = {'kind': rng.choice(['kbd', 'mem', 'exc']), 'by': 'site', 'at': rng.randrange(1, 500)}
        return rep

    def judge(self, rep, W):
        ds = rep['docs']
        ops = [[dict(ds[x[1]]['op']) if x[0] == 'd' else dict(x[1]) for x in t] for t in rep['T']]
        if rep['intr']:
            ops[0][0]['intr'] = rep['intr']
        wants = [alone(W, d) for d in ds]
        ph = [{'ops': ops, 'sched': rep['sched'] if len(ops) > 1 else None}]
        if rep.get('warm'):
            ph.insert(0, {'ops': [[{'f': 'convert', 'src': d['src'], 'tgt': d['tgt'], 'txt': gens.TEXTS.get(d['src'], ['a'])[0]} for d in ds]]})
        spec = {'phases': ph, 'dir': W.scratch(), 'files': files_of(ds) + rep['old'], 'cwd': 'home', 'seed': rep['seed'], 'tree': True, 'timeout': 30}
        r = W.run(spec)
        info = {'nontrivial': 0}
        msg = dead(r)
        if msg or 'phases' not in r:
            return msg or 'the run was cut off: %s' % r, info
        info['log'] = norm(r)
        p = r['phases'][-1]
        info['explicit'] = explicit(rep, p) if len(ops) > 1 else rep
        info['nontrivial'] = 1 if len(p.get('switches', ())) > len(ops) else 0
        info['keys'] = [['case', h8([ds, rep['T'], p.get('sites')])], ['switch_places', p.get('sites')]] + [['conversions', h8(conv_kind(x))] for x in ds]
        W.st['hit:family_%s' % (rep['sched'] or {}).get('mode', 'explicit')] += 1
        m = lost(r)
        if m:
            return m, info
        spoiled = set()
        for i, (t, out) in enumerate(zip(rep['T'], p['out'])):
            for j, (x, rec) in enumerate(zip(t, out)):
                if i == 0 and j == 0 and rep['intr'] and rec.get('fired'):
                    W.st['fault:' + rep['intr']['kind']] += 1
                    if rec['o'][0] == 'e':
                        if x[0] == 'd':
                            spoiled.add(x[1])
                        continue
                if x[0] == 'd':
                    d = ds[x[1]]
                    if not same_o(d, rec['o'], wants[x[1]][0]):
                        return 'with others at the same time, %s gave %s, alone %s' % (show_doc(d), gens.short(rec['o']), gens.short(wants[x[1]][0])), info
                    W.st['hit:conversions_compared'] += 1
                    if not d['api']:
                        spoiled.discard(x[1])
                else:
                    want = W.ref(x[1])
                    if rec['o'] != want:
                        return 'next to documents, ' + differs(x[1], rec['o'], want), info
            if len(out) < len(t):
                return 'a conversion never finished', info
        for k, d in enumerate(ds):
            if d['api'] or k in spoiled or not any(x == ['d', k] for t in rep['T'] for x in t):
                continue
            o = docs.out_path(d)
            got = r['tree'].get(o, [0, 0, None])[2]
            want = wants[k][1]
            if want is None and got is not None and any(f['p'] == o for f in rep['old']):
                continue
            if not same_out(d, got, want):
                return 'with others at the same time, the output of %s has %s bytes and differs from the %s bytes it has alone' % (show_doc(d), len(docs.ub(got)) if got is not None else 'no', len(docs.ub(want)) if want is not None else 'no'), info
        return None, info

    def simpler(self, rep):
        if rep['intr']:
            yield dict(rep, intr=None)
        if rep.get('warm'):
            yield dict(rep, warm=False)
        if rep['old']:
            yield dict(rep, old=[])
        for i in range(len(rep['T'])):
            if len(rep['T']) > 2:
                yield dict(rep, T=rep['T'][:i] + rep['T'][i + 1:])
        for i, t in enumerate(rep['T']):
            if len(t) > 1:
                for c in chunks(t):
                    yield dict(rep, T=rep['T'][:i] + [c] + rep['T'][i + 1:])
        used = {x[1] for t in rep['T'] for x in t if x[0] == 'd'}
        for i in sorted(used):
            for e in docs.simpler_doc(rep['docs'][i]):
                yield dict(rep, docs=rep['docs'][:i] + [e] + rep['docs'][i + 1:])
        yield from simpler_sched(rep)


P = Prop()
