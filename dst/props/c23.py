"""C23: processes forked from one that uses the library."""
import json
import gens, docs
from props.filecommon import *
from props import c05


def plain(o):
    return {x: o[x] for x in o if x not in ('intr', 'flt')}


class Prop:
    id = 'C23'
    scout = True
    rule = ('one evaluation is one process with 1 to 4 threads that is forked one to three times between calls of its first thread, while the other threads are in the middle of theirs; parent and children go on '
            'with calls and documents of their own, one after the other or at the end, every outcome and output against a fresh process; non-trivial when a child made calls; distinct by calls and switch places')
    real = REAL_FILE + ['fork with the interpreter\'s own handlers']
    stub = STUB_FILE + ['resolver, network and remote service (a connection used by parent and child at the same time brings each the other\'s answer)']
    assumptions = ['the process is forked at a moment when no module is being imported: the import system of the interpreter itself does not survive anything else',
                   'parent and children run one after the other, or take turns between instructions of the library\'s own code',
                   'a call alone in a freshly started process is the specification of that call']

    def cases(self, tier):
        return 1500 if tier == 'quick' else 40000

    def wall(self, tier):
        return 50 if tier == 'quick' else 600

    # ---------------------------------------------------------------- generation
    def fork(self, rng, own, n):
        T = [[] for _ in range(rng.choice([1, 1, 1, 2]))]
        for t in T:
            for _ in range(rng.choice([1, 2, 3])):
                o = rng.choice(own)
                t.append(gens.cp(o) if rng.random() < .5 or o['f'] in ('file', 'html_api', 'docx_api') or gens.is_net(o) else gens.sibling(rng, o))
        T = [[o for o in t if not gens.unfit(o) or gens.is_net(o)] for t in T]
        T = [t for t in T if t] or [[gens.cp(own[0])]]
        f = {'f': 'fork', 'T': T, 'seed': rng.getrandbits(8), 'at': 0, 'when': rng.choice(['now', 'end', 'par', 'par'])}
        if f['when'] == 'par':
            f['mean'] = rng.choice([3, 30, 300, 3000])
            if rng.random() < .6:
                f['sched'] = dict(mode='hot', p=.2, seed=rng.getrandbits(16))
        if len(T) > 1 and 'sched' not in f:
            f['sched'] = sched_plan(rng, len(T))
        if n > 1:
            f['at'] = rng.choice([rng.randrange(1, 400), rng.randrange(1, 4000), rng.randrange(1, 40000), rng.randrange(1, 200000)])
        return f

    def gen(self, rng, i, W):
        rep = {'seed': rng.getrandbits(16), 'docs': [], 'net': False, 'warm': []}
        n = rng.choice([1, 1, 2, 2, 3, 4])
        x = rng.random()
        if x < .55:
            own = gens.related(rng, rng.choice([3, 5, 8]))
        elif x < .7:
            own = gens.theme(rng, 12)
        elif x < .88:
            rep['docs'] = [d for d in doc_set(rng, rng.choice([2, 3, 4]), small=rng.random() < .75, share=.4) if len(d["data"]) < 200000]
            own = [dict(d['op']) for d in rep['docs']] + [gens.gen_op(rng)]
        else:
            rep['net'] = True
            own = [o for o in (c05.P.tamop(rng) for _ in range(3)) if len(o['txt']) < 300] + [gens.gen_op(rng)]
        own = [o for o in own if o['f'] != 'sleep']
        if not rep['docs'] and not rep['net']:
            own = [o for o in gens.cheap(rng, own, .9) if not gens.unfit(o) and len(o.get('txt') or '') < 3000]
        if not own:
            return None
        T = [[gens.cp(rng.choice(own)) for _ in range(rng.choice([1, 2, 3]))] for _ in range(n)]
        for _ in range(rng.choice([1, 1, 2, 3])):
            T[0].insert(rng.randrange(len(T[0]) + 1) if n == 1 else rng.choice([0, 0, 1, len(T[0])]), self.fork(rng, own, n))
        rep['T'] = T
        rep['sched'] = sched_plan(rng, n)
        if rng.random() < .6:
            rep['warm'] = [gens.cp(o) for o in rng.sample(own, rng.randrange(1, len(own) + 1))]
        return rep

    # ---------------------------------------------------------------- judgement
    def want(self, o, rep, W):
        for d in rep['docs']:
            if d['op'] == o:
                return alone(W, d)[0], d
        if rep['net']:
            return W._memo('n', o, lambda: W.z.call({'phases': [{'ops': [[o]]}], 'net': {}, 'timeout': 120})['phases'][0]['out'][0][0]['o']), None
        return W.ref(o), None

    def look(self, T, out, rep, W, who):
        for t, recs in zip(T, out):
            for o, rec in zip(t, recs):
                if o['f'] == 'fork':
                    continue
                want, d = self.want(o, rep, W)
                if rec['o'] != want and not (d and same_o(d, rec['o'], want)):
                    return who + ': ' + (differs(o, rec['o'], want) if not d else '%s gave %s, alone %s' % (show_doc(d), gens.short(rec['o']), gens.short(want)))
            if len(recs) < len(t):
                o = t[len(recs)]
                return '%s: the call %s never finished' % (who, gens.show(o) if o['f'] != 'fork' else 'fork')

    def judge(self, rep, W):
        d = W.scratch()
        T = rep['T']
        fs = [o for o in T[0] if o['f'] == 'fork']
        ph = ([{'ops': [rep['warm']]}] if rep['warm'] else []) + [{'ops': T, 'sched': rep['sched']}]
        sp = {'phases': ph, 'seed': rep['seed'], 'timeout': 60}
        if rep['docs']:
            sp.update(dir=d, files=files_of(rep['docs']), cwd='home', tree=True)
        if rep['net']:
            sp['net'] = {}
        r = W.run(sp)
        info = {'nontrivial': 0, 'keys': []}
        msg = dead(r) or lost(r)
        if 'phases' not in r:
            return msg or 'the run was cut off: %s' % gens.short(r), info
        info['log'] = norm(r).replace(d, '')
        p = r['phases'][-1]
        info['explicit'] = explicit(rep, p)
        if msg:
            return msg + '; calls: ' + ' || '.join('; '.join(gens.show(o) if o['f'] != 'fork' else 'fork' for o in t) for t in T), info
        W.st['hit:mode_' + ('docs' if rep['docs'] else 'net' if rep['net'] else 'text')] += 1
        if rep['warm']:
            m = self.look([rep['warm']], r['phases'][0]['out'], rep, W, 'before forking')
            if m:
                return m, info
        kids = list(r.get('kids', ()))
        for o, rec in zip(T[0], p['out'][0]):
            if o['f'] != 'fork':
                continue
            if rec['o'][0] != 'v':
                return 'simulator: fork failed: %s' % gens.short(rec['o']), info
            c = rec['o'][1]['child'] if o['when'] == 'now' else kids.pop(0)
            W.st['fault:fork_' + o['when']] += 1
            busy = rec['o'][1]['busy']
            W.st['hit:forked_while_%d_others_ran' % busy] += 1
            if 'harness' in c:
                return 'simulator: %s' % c['harness'] + c['tb'][-800:], info
            who = 'in a child forked while %s' % ('%d other threads were running' % busy if busy else 'no call was running')
            if 'lost' in c:
                return '%s: it never ended' % who, info
            if 'died' in c:
                return '%s: the process died (%s)' % (who, c['died']), info
            if c.get('overrun'):
                return '%s: a call does not end' % who, info
            if c.get('deadlock'):
                return '%s: a call waits for ever (%s); calls: %s' % (who, c['deadlock'], '; '.join(gens.show(q) for t in o['T'] for q in t)), info
            m = self.look(o['T'], c['out'], rep, W, who)
            if m:
                return m, info
            W.st['hit:calls_in_children'] += sum(len(x) for x in c['out'])
            info['nontrivial'] = 1
        m = self.look(T, p['out'], rep, W, 'in a process that was forked')
        if m:
            return m, info
        made = [q for q in ([q for t in T for q in t] + [q for o in fs for t in o['T'] for q in t] + rep['warm'])]
        for q in rep['docs']:
            if not q['api'] and any(o == q['op'] for o in made):
                want, got = alone(W, q)[1], r['tree'].get(docs.out_path(q), [0, 0, None])[2]
                if not same_out(q, got, want):
                    return 'after conversions by parent and child, the output of %s differs from the one it has alone' % show_doc(q), info
        info['keys'] = [['case', h8([T, rep['warm'], p.get('sites')])], ['places', p.get('sites')]] + [['calls', h8(gens.kind(q))] for o in fs for t in o['T'] for q in t]
        return None, info

    def simpler(self, rep):
        if rep['warm']:
            yield dict(rep, warm=[])
            for c in chunks(rep['warm']) if len(rep['warm']) > 1 else ():
                yield dict(rep, warm=c)
        T = rep['T']
        for i in range(1, len(T)):
            yield dict(rep, T=T[:i] + T[i + 1:])
        for i, t in enumerate(T):
            if len(t) > 1:
                for c in chunks(t):
                    yield dict(rep, T=T[:i] + [c] + T[i + 1:])
            for j, o in enumerate(t):
                def put(q):
                    return dict(rep, T=T[:i] + [t[:j] + [q] + t[j + 1:]] + T[i + 1:])
                if o['f'] == 'fork':
                    if o['when'] != 'now':
                        yield put(dict(o, when='now'))
                    if o['at']:
                        yield put(dict(o, at=0))
                        yield put(dict(o, at=o['at'] // 2))
                    K = o['T']
                    for a in range(len(K)):
                        if len(K) > 1:
                            yield put(dict(o, T=K[:a] + K[a + 1:]))
                        if len(K[a]) > 1:
                            for c in chunks(K[a]):
                                yield put(dict(o, T=K[:a] + [c] + K[a + 1:]))
                        for b, q in enumerate(K[a]) if not rep['docs'] and not rep['net'] else ():
                            for z in simpler_op(q):
                                yield put(dict(o, T=K[:a] + [K[a][:b] + [z] + K[a][b + 1:]] + K[a + 1:]))
                elif not rep['docs'] and not rep['net']:
                    for q in simpler_op(o):
                        yield put(q)
        yield from simpler_sched(rep)


P = Prop()
