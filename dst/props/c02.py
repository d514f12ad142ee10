"""C02: a conversion depends only on its arguments, not on earlier calls."""
import json
import gens
from props.common import *


def history(rng, n, groups):
    """n calls from a few groups of related calls, interleaved, with repetitions and pauses."""
    out = []
    per = max(2, n // groups)
    for _ in range(groups):
        out += gens.related(rng, per)
    rng.shuffle(out)
    k = 0
    while k < len(out):
        if rng.random() < .08:
            out.insert(k, gens.cp(out[rng.randrange(len(out))]))
        k += 1
    if rng.random() < .25:
        out.insert(rng.randrange(len(out)), {'f': 'sleep', 's': rng.choice([1, 61, 301, 3601, 90000, 40000000])})
    if rng.random() < .15:
        s = rng.choice(gens.INDIC + gens.LATIN)
        out.insert(rng.randrange(len(out)), gens.fresh_op(rng, s, rng.choice(gens.INDIC + gens.LATIN), gens.long_text(rng, s)))
    return out


def broken(rng, op):
    """A call that fails half way."""
    o = gens.cp(op)
    if o['f'] not in ('process', 'convert', 'convert_default') or 'param' in o:
        return o
    x = rng.randrange(5)
    o['f'] = 'convert'
    if x == 0:
        o['post'] = o.get('post', []) + ['NoSuchOption']
    elif x == 1:
        o['pre'] = o.get('pre', []) + ['NoSuchOption']
    elif x == 2:
        o['txt'] = None
    elif x == 3:
        o['tgt'] = 'Klingon'
    else:
        o['src'] = 'Klingon'
    return o


class Prop:
    id = 'C02'
    scout = True
    rule = ('one evaluation is one process life with a history of calls, each compared with the same call alone in a fresh process; '
            'distinct by the list of calls; non-trivial when at least two different calls precede the last')
    real = REAL_LIB
    stub = STUB_STD
    assumptions = ['a call alone in a freshly started process is the specification of that call',
                   'where the digest of the library\'s data changed during a history, the end of the history is probed with more calls; the digest itself is never a verdict']

    def cases(self, tier):
        return 1100 if tier == 'quick' else 30000

    def wall(self, tier):
        return 55 if tier == 'quick' else 760

    def gen(self, rng, i, W):
        if rng.random() < .5:
            h = gens.theme(rng, rng.choice([40, 100, 200, 300]))
            if rng.random() < .6:
                gens.cheap(rng, h, .8)
            for _ in range(rng.choice([0, 0, 2, 6])):
                k = rng.randrange(len(h))
                h.insert(k, broken(rng, h[k]))
            return {'order': h, 'seed': rng.getrandbits(16)}
        x = rng.random()
        if x < .72:
            h = history(rng, rng.choice([8, 16, 30, 30]), rng.choice([1, 2, 4]))
        elif x < .82:
            # the same few calls very often: counters, sizes and expiry
            b = gens.related(rng, rng.choice([1, 2, 4]))
            h = [gens.cp(rng.choice(b)) for _ in range(rng.choice([70, 140, 280]))]
        elif x < .92:
            # many different texts: anything that remembers and forgets
            s, t = rng.choice(gens.INDIC + gens.LATIN), rng.choice(gens.INDIC + gens.LATIN)
            if gens.unfit({'src': s, 'tgt': t}):
                s = 'Telugu'
            b = gens.fresh_op(rng, s, t)
            h = [dict(gens.cp(b), txt=('%s %d' % (b['txt'][:20], k))) for k in range(rng.choice([70, 140]))] + [b, gens.sibling(rng, b)]
            keep = set(rng.sample(range(len(h)), 12)) | {len(h) - 1, len(h) - 2}
            return {'ops': h, 'check': sorted(keep), 'seed': rng.getrandbits(16)}
        else:
            h = [gens.gen_op(rng) for _ in range(rng.choice([10, 40]))]
        gens.cheap(rng, h, .5)
        for _ in range(rng.choice([0, 0, 1, 3])):
            k = rng.randrange(len(h))
            if h[k]['f'] != 'sleep':
                h.insert(k, broken(rng, h[k]))
        return {'ops': h, 'seed': rng.getrandbits(16)}

    def order(self, rep, W):
        """The same calls in opposite orders: whatever one call leaves for another shows in one of the two."""
        h = rep['order']
        n = len(h)
        lives = []
        for seq in (list(range(n)), list(range(n))[::-1]):
            sp = {'phases': [{'ops': [[h[i] for i in seq]]}], 'seed': rep['seed'], 'timeout': 45, 'state': True}
            r = W.run(sp)
            msg = dead(r)
            if msg or 'phases' not in r:
                return msg or 'the run was cut off: %s' % r, {}
            lives.append((seq, [x['o'] for x in r['phases'][0]['out'][0]], r, sp))
        (s1, o1, r1, p1), (s2, o2, r2, p2) = lives
        info = {'log': norm([r1, r2]), 'nontrivial': n > 2, 'keys': [['case', h8(h)]] + [['calls', h8(gens.kind(o))] for o in h]}
        W.st['hit:ordered_pairs'] += n * (n - 1) // 2
        W.st['hit:failing_calls'] += sum(1 for o in o1 if o[0] == 'e')
        for i in range(n):
            if o1[i] != o2[n - 1 - i]:
                want = W.ref(h[i])
                for seq, o, k in ((s1, o1, i), (s2, o2, n - 1 - i)):
                    if o[k] != want:
                        info['explicit'] = {'ops': [h[j] for j in seq[:k + 1]], 'check': [k], 'seed': rep['seed'], 'noprobe': 1}
                        return 'call %d of the history: %s' % (k, differs(h[i], o[k], want)), info
        for seq, r, sp in ((s1, r1, p1), (s2, r2, p2)):
            d = deep(W, r, sp, h)
            if d:
                info['explicit'] = {'ops': [h[j] for j in seq] + d[0], 'check': [n + len(d[0]) - 1], 'seed': rep['seed'], 'noprobe': 1}
                return 'call %d of the history: %s' % (n + len(d[0]) - 1, differs(d[0][-1], d[1], d[2])), info
        return None, info

    def judge(self, rep, W):
        if 'order' in rep:
            return self.order(rep, W)
        h = rep['ops']
        sp = {'phases': [{'ops': [h]}], 'seed': rep['seed'], 'timeout': 30, 'state': not rep.get('noprobe')}
        r = W.run(sp)
        info = {}
        msg = dead(r)
        if msg or 'phases' not in r:
            return msg or 'the run was cut off: %s' % r, info
        info['log'] = norm(r)
        info['nontrivial'] = len({json.dumps(o, sort_keys=True) for o in h}) > 2
        info['keys'] = [['case', h8(h)]] + [['calls', h8(gens.kind(o))] for o in h] + [['successions', h8([gens.kind(a), gens.kind(b)])] for a, b in zip(h, h[1:])]
        outs = r['phases'][0]['out'][0]
        chk = rep.get('check')
        for j, op in enumerate(h):
            if op['f'] == 'sleep' or (chk is not None and j not in chk):
                continue
            if outs[j]['o'][0] == 'e':
                W.st['hit:failing_calls'] += 1
            want = W.ref(op)
            if outs[j]['o'] != want:
                return 'call %d of the history: %s' % (j, differs(op, outs[j]['o'], want)), info
        W.st['hit:pauses'] += sum(1 for o in h if o['f'] == 'sleep')
        if not rep.get('noprobe'):
            d = deep(W, r, sp, [o for o in h if o['f'] != 'sleep'])
            if d:
                info['explicit'] = {'ops': h + d[0], 'check': [len(h) + len(d[0]) - 1], 'seed': rep['seed'], 'noprobe': 1}
                return 'call %d of the history: %s' % (len(h) + len(d[0]) - 1, differs(d[0][-1], d[1], d[2])), info
        return None, info

    def simpler(self, rep):
        h = rep['ops']
        base = {k: v for k, v in rep.items() if k != 'check'}
        base['noprobe'] = 1
        if 'check' in rep and len(rep['check']) == 1 and rep['check'][0] == len(h) - 1:
            # the last call is the victim: look for the culprit before it
            for c in chunks(h[:-1]):
                yield dict(base, ops=c + h[-1:], check=[len(c)])
            for o in simpler_op(h[-1]):
                yield dict(base, ops=h[:-1] + [o], check=[len(h) - 1])
        if 'check' in rep:
            yield dict(base, ops=h)
        if len(h) > 1:
            for c in chunks(h):
                if c:
                    yield dict(base, ops=c)
        for j, op in enumerate(h):
            if op['f'] != 'sleep':
                for o in simpler_op(op):
                    yield dict(base, ops=h[:j] + [o] + h[j + 1:])


P = Prop()
