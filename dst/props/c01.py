"""C01: concurrent conversions do not affect each other."""
import json
import gens
from props.common import *


class Prop:
    id = 'C01'
    scout = True
    rule = ('one evaluation is one process life in which 2..4 threads make related calls under one seeded schedule; non-trivial when at least '
            'two switches happened while several threads were inside the library; distinct by sequence of (thread, function, instruction, next thread)')
    real = REAL_LIB
    stub = STUB_STD
    assumptions = ['preemption happens at Python instructions of the library (not inside C extensions), as under the GIL',
                   'a call alone in a freshly started process is the specification of that call',
                   'third-party libraries are imported beforehand; the library\'s own lazy imports are scheduled']

    def cases(self, tier):
        return 2600 if tier == 'quick' else 60000

    def wall(self, tier):
        return 55 if tier == 'quick' else 760

    def gen(self, rng, i, W):
        n = rng.choice([2, 2, 2, 3, 3, 4])
        x = rng.random()
        if x < .3:
            # twins: the same call or nearly so in every thread
            b = gens.gen_op(rng)
            T = [[gens.cp(b) if rng.random() < .5 else gens.sibling(rng, b)] for _ in range(n)]
        elif x < .85:
            l = gens.related(rng, n * rng.choice([1, 1, 2]))
            T = [l[k::n] for k in range(n)]
        else:
            T = [[gens.gen_op(rng) for _ in range(rng.choice([1, 2]))] for _ in range(n)]
        if rng.random() < .75:
            for t in T:
                gens.cheap(rng, t, .8)
        warm = rng.random() < .45
        rep = {'ops': T, 'sched': sched_plan(rng, n), 'warm': [], 'seed': rng.getrandbits(16)}
        if warm:
            rep['warm'] = [gens.cp(o) for t in T for o in t] if rng.random() < .8 else [gens.gen_op(rng)]
        return rep

    def judge(self, rep, W):
        ph = []
        if rep['warm']:
            ph.append({'ops': [rep['warm']]})
        ph.append({'ops': rep['ops'], 'sched': rep['sched']})
        if rep.get('after'):
            ph.append({'ops': [rep['after']]})
        sp = {'phases': ph, 'seed': rep['seed'], 'timeout': 40, 'state': not rep.get('after')}
        r = W.run(sp)
        info = {}
        msg = dead(r)
        if 'phases' not in r:
            return msg or 'the run was cut off: %s' % r, info
        last = r['phases'][min(len(r['phases']) - 1, 1 if rep['warm'] else 0)]
        info['log'] = norm(r)
        info['explicit'] = explicit(rep, last)
        sw = len([s for s in last.get('switches', ()) if s[1] >= 0])
        info['nontrivial'] = sw >= 2
        W.st['hit:preemptions'] += sw
        W.st['hit:blocked_on_import_or_lock'] += len([s for s in last.get('switches', ()) if s[1] < 0])
        info['keys'] = [['interleavings', last.get('sites')]] + [['calls', h8(gens.kind(o))] for t in rep['ops'] for o in t]
        if sw >= 2:
            info['keys'].append(['case', last.get('sites')])
        W.st['plan:' + ('explicit' if 'explicit' in rep['sched'] else rep['sched']['mode'])] += 1
        if msg:
            return msg + '; calls: ' + ' || '.join('; '.join(gens.show(o) for o in t) for t in rep['ops']), info
        m = lost(r)
        if m:
            return m, info
        for k, (ops, outs) in enumerate(zip(rep['ops'], last['out'])):
            m = compare(W, ops, outs, where='thread %d of %d, call %%d: ' % (k, len(rep['ops'])))
            if m:
                return m, info
        if rep.get('after'):
            o, rec = rep['after'][-1], r['phases'][-1]['out'][0][-1]
            want = W.ref(o)
            if rec['o'] != want:
                return 'after concurrent calls: ' + differs(o, rec['o'], want), info
            return None, info
        # two threads can leave the library's data in a state that neither would leave alone
        d = deep(W, r, sp, [o for t in rep['ops'] for o in t])
        if d:
            info['explicit'] = dict(info['explicit'], after=d[0])
            return 'after concurrent calls: ' + differs(d[0][-1], d[1], d[2]), info
        return None, info

    def simpler(self, rep):
        if rep.get('after'):
            for c in chunks(rep['after'][:-1]):
                yield dict(rep, after=c + rep['after'][-1:])
        if rep['warm']:
            yield dict(rep, warm=[])
        yield from simpler_threads(rep)
        yield from simpler_sched(rep)
        for c in chunks(rep['warm']) if len(rep['warm']) > 1 else ():
            yield dict(rep, warm=c)


P = Prop()
