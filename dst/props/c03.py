"""C03: a call cut short at any point leaves nothing behind."""
import json, random
import gens
from props.common import *

CLS = {'kbd': 'KeyboardInterrupt', 'mem': 'MemoryError', 'base': 'SimTimeout', 'exc': 'SimTimeoutError', 'exit': 'SystemExit'}


class Prop:
    id = 'C03'
    scout = True
    rule = ('one evaluation is one process life: earlier calls, one call interrupted at a chosen instruction, later calls compared with the same calls in a fresh process; '
            'non-trivial when the interruption fired; distinct by (function, instruction, kind) interrupted and by the interrupted call')
    real = REAL_LIB
    stub = STUB_STD + ['asynchronous exceptions (raised at a chosen instruction of the library)']
    assumptions = ['interruptions are delivered between instructions of the library\'s own code; inside third-party code and the interpreter\'s C code they are not',
                   'a call alone in a freshly started process is the specification of that call']

    def cases(self, tier):
        return 1500 if tier == 'quick' else 40000

    def wall(self, tier):
        return 55 if tier == 'quick' else 760

    def sweep(self, rng):
        """Many calls, each interrupted at several places of one warm process and repeated afterwards."""
        n = rng.choice([20, 40, 80])
        l = []
        for o in gens.theme(rng, n) if rng.random() < .5 else [gens.opt_op(rng, rng.choice(gens.ALL), rng.choice(gens.ALL)) if rng.random() < .5 else gens.gen_op(rng) for _ in range(n)]:
            if o['f'] != 'sleep':
                l.append(o)
        gens.cheap(rng, l, .85)
        seq, cut = [], []
        for j, o in enumerate(l):
            by = rng.choice(['site', 'site', 'site', 'hot', 'step'])
            seq.append(dict(o, intr={'kind': 'count', 'by': by, 'at': None, 'of': j}))
            for _ in range(rng.choice([1, 2, 4])):
                cut.append(dict(o, intr={'kind': rng.choice(['kbd', 'mem', 'mem', 'base', 'exc', 'exc']), 'by': by, 'at': None, 'share': rng.random(), 'of': j}))
            if rng.random() < .3:
                cut.append(gens.cp(o))
        rng.shuffle(cut)
        end = [gens.cp(o) for o in l]
        rng.shuffle(end)
        return {'sweep': seq + cut + end, 'seed': rng.getrandbits(16)}

    def judge_sweep(self, rep, W):
        ops = rep['sweep']
        sp = {'phases': [{'ops': [ops]}], 'seed': rep['seed'], 'timeout': 45, 'state': True}
        r = W.run(sp)
        msg = dead(r)
        if msg or 'phases' not in r:
            return msg or 'the run was cut off: %s' % r, {}
        recs = r['phases'][0]['out'][0]
        info = {'log': norm(r), 'nontrivial': 0, 'keys': []}
        first = {}
        for k, (o, rec) in enumerate(zip(ops, recs)):
            c = json.dumps({x: o[x] for x in o if x != 'intr'}, sort_keys=True)
            it = o.get('intr')
            f = rec.get('fired')
            if it and it['kind'] != 'count':
                W.st['plan:' + CLS[it['kind']]] += 1
                if f:
                    W.st['fault:' + CLS[it['kind']]] += 1
                    info['nontrivial'] = 1
                    info['keys'] += [['case', h8([f, it['kind'], gens.kind(o)])], ['sites', h8(f)], ['victims', h8(gens.kind(o))]]
                    if CLS[it['kind']] in rec.get('chain', ()):
                        W.st['hit:reported'] += 1
                        continue
                    W.st['hit:finished_correctly'] += 1
            if c not in first:
                first[c] = rec['o']
            elif rec['o'] != first[c]:
                info['explicit'] = self.pin(rep, recs, k)
                v = {x: o[x] for x in o if x != 'intr'}
                want = W.ref(v)
                w = 'call %d of a sequence, %s' % (k, 'interrupted by %s at %s' % (CLS[it['kind']], f) if f else 'after interrupted calls')
                if rec['o'] != want:
                    return '%s: %s' % (w, differs(v, rec['o'], want)), info
                return 'a call before %s: %s' % (w, differs(v, first[c], want)), info
        if len(recs) < len(ops):
            return 'the call %s never finished' % gens.show(ops[len(recs)]), info
        d = deep(W, r, sp, ops)
        if d:
            e = self.pin(rep, recs, len(ops) - 1)
            info['explicit'] = dict(e, sweep=e['sweep'] + d[0])
            return 'after a sequence of interrupted calls: ' + differs(d[0][-1], d[1], d[2]), info
        return None, info

    def pin(self, rep, recs, k):
        """The same sequence up to call k with every interruption at its absolute place."""
        l = []
        for o, rec in zip(rep['sweep'][:k + 1], recs):
            it = o.get('intr')
            o = {x: o[x] for x in o if x != 'intr'}
            if it and it['kind'] != 'count':
                if not rec.get('fired'):
                    continue
                o['intr'] = {'kind': it['kind'], 'by': it['by'], 'at': rec['at']}
            l.append(o)
        return {'sweep': l, 'seed': rep['seed'], 'final': 1}

    def final(self, rep, W):
        """A pinned sequence: its last call against a fresh process."""
        ops = rep['sweep']
        r = W.run({'phases': [{'ops': [ops]}], 'seed': rep['seed'], 'timeout': 45})
        msg = dead(r)
        if msg or 'phases' not in r:
            return msg or 'the run was cut off: %s' % r, {}
        recs = r['phases'][0]['out'][0]
        info = {'log': norm(r), 'nontrivial': 1, 'keys': []}
        if len(recs) < len(ops) or not ops:
            return None, info
        o, rec = ops[-1], recs[-1]
        it = o.get('intr')
        if it and rec.get('fired') and CLS[it['kind']] in rec.get('chain', ()):
            return None, info
        v = {x: o[x] for x in o if x != 'intr'}
        want = W.ref(v)
        if rec['o'] != want:
            b = [(CLS[q['intr']['kind']], z.get('fired'), gens.show({x: q[x] for x in q if x != 'intr'})) for q, z in zip(ops, recs) if q.get('intr') and z.get('fired')]
            return 'with interruptions %s: %s' % (b[-3:], differs(v, rec['o'], want)), info
        return None, info

    def gen(self, rng, i, W):
        if rng.random() < .5:
            return self.sweep(rng)
        l = gens.related(rng, rng.choice([3, 4, 6]))
        v = l[0]
        pre = []
        x = rng.random()
        if x < .35:
            pre = [gens.cp(v)] if rng.random() < .5 else l[1:3]
        elif x < .5:
            pre = [gens.gen_op(rng)]
        post = [gens.cp(v)] + l[1:] + ([gens.gen_op(rng)] if rng.random() < .5 else [])
        if rng.random() < .5:
            post = post[1:] + post[:1]
        by = rng.choice(['site', 'site', 'hot', 'hot', 'step'])
        if not pre and rng.random() < .3:
            by = 'mod'        # while a module of the library is being imported by its first use
        kind = rng.choice(['kbd', 'kbd', 'mem', 'base', 'exc'])
        rep = {'pre': pre, 'victim': v, 'post': post, 'kind': kind, 'by': by, 'at': None, 'again': rng.choice([0, 0, 0, 1, 2]), 'seed': rng.getrandbits(16)}
        n = self.count(rep, W)
        if not n:
            return None
        rep['at'] = rng.randrange(1, n + 1)
        if rep['again']:
            rep['ats'] = [rng.randrange(1, n + 1) for _ in range(rep['again'])]
        return rep

    def count(self, rep, W):
        ph = []
        if rep['pre']:
            ph.append({'ops': [rep['pre']]})
        else:
            return W.count(rep['victim'], rep['by'])
        ph.append({'ops': [[dict(rep['victim'], intr={'kind': 'count', 'by': rep['by'], 'at': None})]]})
        r = W.run({'phases': ph, 'seed': rep['seed']})
        return r['phases'][-1]['out'][0][0]['n'] if 'phases' in r else 0

    def judge(self, rep, W):
        if 'sweep' in rep:
            return self.final(rep, W) if rep.get('final') else self.judge_sweep(rep, W)
        ph = []
        if rep['pre']:
            ph.append({'ops': [rep['pre']]})
        ats = rep.get('ats', []) + [rep['at']]
        nv = len(ats)
        ph.append({'ops': [[dict(rep['victim'], intr={'kind': rep['kind'], 'by': rep['by'], 'at': a}) for a in ats]]})
        ph.append({'ops': [rep['post']]})
        sp = {'phases': ph, 'seed': rep['seed'], 'timeout': 30, 'state': not rep.get('noprobe')}
        r = W.run(sp)
        info = {}
        msg = dead(r)
        if msg or 'phases' not in r:
            return msg or 'the run was cut off: %s' % r, info
        info['log'] = norm(r)
        vi = 1 if rep['pre'] else 0
        recs = r['phases'][vi]['out'][0]
        info['keys'] = [['victims', h8(gens.kind(rep['victim']))]]
        info['nontrivial'] = 0
        for rec in recs:
            f = rec.get('fired')
            if f:
                W.st['fault:' + CLS[rep['kind']]] += 1
                if f[1] == '<module>':
                    W.st['hit:during_first_import'] += 1
                info['nontrivial'] = 1
                info['keys'] += [['case', h8([f, rep['kind'], gens.kind(rep['victim'])])], ['sites', h8(f)]]
        W.st['plan:' + CLS[rep['kind']]] += nv
        for rec in recs:
            if rec.get('fired') and CLS[rep['kind']] in rec.get('chain', ()):
                W.st['hit:reported'] += 1
                continue
            want = W.ref(rep['victim'])
            if rec['o'] != want:
                w = 'interrupted by %s at %s' % (CLS[rep['kind']], rec['fired']) if rec.get('fired') else 'not interrupted, after an interrupted one'
                return '%s, %s' % (differs(rep['victim'], rec['o'], want), w), info
            W.st['hit:finished_correctly'] += 1
        if not info['nontrivial']:
            return None, info
        w = ('after an interruption (%s at %s of %s), ' % (CLS[rep['kind']], [x.get('fired') for x in recs], gens.show(rep['victim']))).replace('%', '')
        m = compare(W, rep['pre'], r['phases'][0]['out'][0]) if rep['pre'] else None
        if m:
            return 'before the interruption: ' + m, info
        m = compare(W, rep['post'], r['phases'][-1]['out'][0], where=w + 'call %d: ')
        if m:
            return m, info
        if not rep.get('noprobe'):
            d = deep(W, r, sp, [rep['victim']] + rep['post'])
            if d:
                info['explicit'] = dict(rep, post=rep['post'] + d[0], noprobe=1)
                return w + differs(d[0][-1], d[1], d[2]), info
        return None, info

    def simpler(self, rep):
        if 'sweep' in rep:
            l = rep['sweep']
            if rep.get('final'):
                for c in chunks(l[:-1]):
                    yield dict(rep, sweep=c + l[-1:])
                for o in simpler_op(l[-1]):
                    yield dict(rep, sweep=l[:-1] + [o])
            else:
                for c in chunks(l):
                    yield dict(rep, sweep=c)
            return
        rep = dict(rep, noprobe=1)
        if rep.get('ats'):
            yield dict(rep, ats=[])
        for key in ('pre', 'post'):
            l = rep[key]
            if l:
                yield dict(rep, **{key: []})
            if len(l) > 1:
                for c in chunks(l):
                    yield dict(rep, **{key: c})
        for j, op in enumerate(rep['post']):
            for o in simpler_op(op):
                yield dict(rep, post=rep['post'][:j] + [o] + rep['post'][j + 1:])
        for o in simpler_op(rep['victim']):
            yield dict(rep, victim=o)


P = Prop()
