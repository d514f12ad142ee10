"""C06: the caller's option lists and the defaults are never altered."""
import json, errno
import gens, docs
from props.common import *
from props.c02 import broken

# options and targets for which the library composes lists itself
SPECIAL_POST = [o for o in ['RemoveDiacritics', 'siddhammukta', 'LaoNative', 'ranjanalantsa', 'BengaliRaBa', 'indicNumerals', 'romanNumerals', 'romanFullStop', 'arabicRemoveAdditionsPhonetic', 'nepaldevafont', 'egrantamil', 'SoyomboFinals'] if o in gens.C['post']] or gens.POST
LOC = ['RomanLoC'] + gens.ISO
BYTGT = [o for o in gens.OPS if o.get('tgt') in LOC or o.get('src') in LOC]
CASEOPT = [o for o in gens.OPS if o.get('post') or o.get('pre')]


class Prop:
    id = 'C06'
    scout = True
    rule = ('one evaluation is one process life whose calls share a few option list objects, with interruptions, data faults, failing calls or threads; '
            'non-trivial when at least two calls used one list; distinct by calls, lists and schedule')
    real = REAL_LIB
    stub = STUB_STD
    assumptions = ['a call alone, with lists of its own, in a freshly started process is the specification of that call']

    def cases(self, tier):
        return 1600 if tier == 'quick' else 40000

    def wall(self, tier):
        return 55 if tier == 'quick' else 600

    def lists(self, rng):
        L = {}
        for k in range(rng.choice([2, 3, 4])):
            l = []
            for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
                l.append((rng.choice(gens.POST) if rng.random() < .7 else rng.choice(SPECIAL_POST)) if k % 2 == 0 else rng.choice(gens.PRE))
            L['@%s%d' % ('QP'[k % 2], k)] = l
        return L

    def dense(self, rng):
        """Many calls that share few lists, or leave the lists out, so that an altered default shows."""
        L = {}
        for k in range(rng.choice([2, 4, 6])):
            L['@%s%d' % ('QP'[k % 2], k)] = [rng.choice(gens.POST if k % 2 == 0 else gens.PRE) for _ in range(rng.choice([0, 0, 1, 1, 2]))]
        n = rng.choice([40, 80, 160])
        h = gens.theme(rng, n)
        h += [gens.detectable(rng) for _ in range(n // 8)] + [gens.cp(rng.choice(BYTGT)) for _ in range(n // 8)] + [gens.cp(rng.choice(CASEOPT)) for _ in range(n // 8)]
        own = rng.random()
        h = [o for o in h if o['f'] in ('process', 'convert', 'convert_default') and not gens.unfit(o)]
        for o in h:
            for q in ('pre', 'post'):
                x = rng.random()
                if x < .45 and not isinstance(o.get(q), str):
                    l = [k for k in sorted(L) if k[1] == ('P' if q == 'pre' else 'Q')]
                    k = rng.choice(l)
                    if o.get(q) and rng.random() < own and len(L) < 24:
                        k = k[:2] + str(len(L))
                        L[k] = list(o[q])
                    o[q] = k
                elif x < .65 and o['f'] != 'convert':
                    o.pop(q, None)
        rng.shuffle(h)
        gens.cheap(rng, h, rng.choice([0, .4]))
        for o in h:
            if o['f'] == 'convert':
                o.setdefault('pre', [])
                o.setdefault('post', [])
        return {'order': h, 'lists': L, 'seed': rng.getrandbits(16)}

    def order(self, rep, W):
        """The same calls in opposite orders with the same lists."""
        h, n, lives = rep['order'], len(rep['order']), []
        for seq in (list(range(n)), list(range(n))[::-1]):
            sp = {'phases': [{'ops': [[h[i] for i in seq]]}], 'lists': rep['lists'], 'seed': rep['seed'], 'timeout': 45, 'state': True}
            r = W.run(sp)
            msg = dead(r)
            if msg or 'phases' not in r:
                return msg or 'the run was cut off: %s' % r, {}
            lives.append((seq, [x['o'] for x in r['phases'][0]['out'][0]], r, sp))
        info = {'log': norm([x[2] for x in lives]), 'nontrivial': n > 2, 'keys': [['case', h8([h, rep['lists']])]] + [['calls', h8([gens.kind(o), rep['lists'].get(o.get('pre')) if isinstance(o.get('pre'), str) else 0])] for o in h]}
        W.st['hit:list_uses'] += 2 * sum(1 for o in h for q in ('pre', 'post') if isinstance(o.get(q), str))
        W.st['hit:failing_calls'] += sum(1 for o in lives[0][1] if o[0] == 'e')
        for seq, o, r, _ in lives:
            for k, l in rep['lists'].items():
                got = r['phases'][0]['lists'].get(k)
                if got != l:
                    info['explicit'] = {'ops': [[h[j] for j in seq]], 'lists': rep['lists'], 'seed': rep['seed'], 'after': []}
                    return 'the list %s passed by the caller became %s' % (json.dumps(l), gens.short(got)), info
        (s1, o1, _, _), (s2, o2, _, _) = lives
        for i in range(n):
            if o1[i] != o2[n - 1 - i]:
                want = W.ref(h[i], rep['lists'])
                for seq, o, k in ((s1, o1, i), (s2, o2, n - 1 - i)):
                    if o[k] != want:
                        info['explicit'] = {'ops': [[h[j] for j in seq[:k + 1]]], 'lists': rep['lists'], 'seed': rep['seed'], 'after': []}
                        return 'with lists %s: %s' % (json.dumps(rep['lists']), differs(h[i], o[k], want)), info
        for seq, _, r, sp in lives:
            d = deep(W, r, sp, h)
            if d:
                info['explicit'] = {'ops': [[h[j] for j in seq] + d[0]], 'lists': rep['lists'], 'seed': rep['seed'], 'after': []}
                return 'after calls with lists %s: %s' % (json.dumps(rep['lists']), differs(d[0][-1], d[1], d[2])), info
        return None, info

    def gen(self, rng, i, W):
        if rng.random() < .4:
            return self.dense(rng)
        L = self.lists(rng)
        names = sorted(L)

        def pick(q):
            own = [n for n in names if n[1] == ('P' if q == 'pre' else 'Q')]
            return rng.choice(own if own and rng.random() < .9 else names)
        n = rng.choice([1, 1, 1, 2, 3])
        base = []
        for _ in range(rng.choice([4, 6, 10])):
            x = rng.random()
            if x < .25:
                o = gens.cp(rng.choice(BYTGT))
            elif x < .5:
                o = gens.cp(rng.choice(CASEOPT))
                # its own options become one of the shared lists
                q = rng.choice([q for q in ('pre', 'post') if o.get(q)])
                k = pick(q)
                if rng.random() < .6:
                    L[k] = list(o[q])
                o[q] = k
            else:
                o = gens.sibling(rng, rng.choice(base)) if base and rng.random() < .5 else gens.gen_op(rng)
            if o['f'] not in ('process', 'convert', 'convert_default'):
                o = gens.gen_op(rng)
                if o['f'] not in ('process', 'convert', 'convert_default'):
                    continue
            if not isinstance(o.get('post'), str):
                if rng.random() < .75:
                    o['post'] = pick('post')
                elif rng.random() < .5:
                    o.pop('post', None)
            if not isinstance(o.get('pre'), str):
                if rng.random() < .6:
                    o['pre'] = pick('pre')
                elif rng.random() < .5:
                    o.pop('pre', None)
            if rng.random() < .1 and 'param' not in o:
                o['f'], t = 'html_api', o.pop('txt')
                o['html'] = '<p>%s</p><b>%s</b>' % (docs.esc(t), docs.esc(t))
            base.append(o)
        gens.cheap(rng, base, .5)
        if not base:
            return None
        extra = {}
        mode = rng.choice(['plain', 'plain', 'fail', 'intr', 'flt', 'threads', 'threads'])
        T = [base]
        if mode == 'fail':
            for k in range(len(base)):
                if rng.random() < .4 and not isinstance(base[k].get('post', 0), str) and not isinstance(base[k].get('pre', 0), str):
                    base[k] = broken(rng, base[k])
                elif rng.random() < .3 and 'txt' in base[k]:
                    base[k]['txt'] = None
        elif mode == 'intr':
            k = rng.randrange(len(base))
            o = {a: (L[b] if isinstance(b, str) and b[:1] == '@' and a in ('pre', 'post') else b) for a, b in base[k].items()}
            c = W.count(o, 'site')
            if c:
                base[k]['intr'] = {'kind': rng.choice(['kbd', 'mem', 'exc']), 'by': 'site', 'at': rng.randrange(1, c + 1)}
        elif mode == 'flt':
            k = rng.randrange(len(base))
            base[k]['flt'] = [{'cls': 0, 'ops': ['open_r', 'read'], 'k': rng.randrange(0, 12), 'act': 'sticky', 'err': errno.EIO}]
        elif mode == 'threads':
            n = rng.choice([2, 2, 3])
            T = [base[k::n] for k in range(n)]
            T = [t for t in T if t]
            extra['sched'] = sched_plan(rng, len(T))
        rep = {'ops': T, 'lists': L, 'seed': rng.getrandbits(16), 'after': [gens.cp({k: v for k, v in o.items() if k not in ('intr', 'flt', 'pre', 'post') or o['f'] == 'convert' and k in ('pre', 'post')}) for o in base[-3:]]}
        rep.update(extra)
        return rep

    def judge(self, rep, W):
        if 'order' in rep:
            return self.order(rep, W)
        ph = [{'ops': rep['ops']}]
        if len(rep['ops']) > 1:
            ph[0]['sched'] = rep.get('sched') or {'mode': 'serial'}
        if rep['after']:
            ph.append({'ops': [rep['after']]})
        r = W.run({'phases': ph, 'lists': rep['lists'], 'seed': rep['seed'], 'timeout': 30})
        info = {}
        msg = dead(r)
        if msg or 'phases' not in r:
            return msg or 'the run was cut off: %s' % r, info
        info['log'] = norm(r)
        p0 = r['phases'][0]
        info['explicit'] = explicit(rep, p0) if 'sched' in rep else rep
        uses = [o[q] for t in rep['ops'] for o in t for q in ('pre', 'post') if isinstance(o.get(q), str)]
        info['nontrivial'] = len(uses) > len(set(uses))
        info['keys'] = [['case', h8([rep['ops'], rep['lists'], p0.get('sites')])]] + [['calls', h8([gens.kind(o), rep['lists'].get(o.get('pre')) if isinstance(o.get('pre'), str) else 0])] for t in rep['ops'] for o in t]
        W.st['hit:list_uses'] += len(uses)
        for p, x in zip(('the calls', 'later calls'), r['phases']):
            for k, l in rep['lists'].items():
                if x['lists'].get(k) != l:
                    return 'the list %s passed by the caller became %s during %s: %s' % (json.dumps(l), gens.short(x['lists'].get(k)), p, gens.short('; '.join(gens.show(o) for t in rep['ops'] for o in t), 900)), info
        m = lost(r)
        if m:
            return m, info
        rep_ops = rep['ops'] + ([rep['after']] if rep['after'] else [])
        outs = p0['out'] + ([r['phases'][1]['out'][0]] if rep['after'] else [])
        for k, (ops, out) in enumerate(zip(rep_ops, outs)):
            for j, (op, rec) in enumerate(zip(ops, out)):
                if op.get('intr') and rec.get('fired'):
                    W.st['fault:' + op['intr']['kind']] += 1
                    continue
                if op.get('flt') and any(rec.get('hit', ())):
                    W.st['fault:data_EIO'] += 1
                    continue
                if rec['o'][0] == 'e':
                    W.st['hit:failing_calls'] += 1
                want = W.ref(op, rep['lists'])
                if rec['o'] != want:
                    return 'with lists %s: %s' % (json.dumps(rep['lists']), differs(op, rec['o'], want)), info
        return None, info

    def simpler(self, rep):
        if 'order' in rep:
            for c in chunks(rep['order']):
                if c:
                    yield dict(rep, order=c)
            return
        if rep['after']:
            yield dict(rep, after=[])
        yield from simpler_threads(rep)
        for k, l in rep['lists'].items():
            for c in chunks(l) if len(l) > 1 else ([[]] if l else []):
                yield dict(rep, lists=dict(rep['lists'], **{k: c}))
        yield from simpler_sched(rep)


P = Prop()
