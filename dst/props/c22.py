"""C22: conversions begun in the middle of another one in the same thread."""
import json
import gens, docs
from props.filecommon import *
from props import c05


class Prop:
    id = 'C22'
    scout = True
    rule = ('one evaluation is one process in which calls are suspended at seeded instructions while other calls begin and end in the same thread (as signal handlers, finalizers and hooks of the host program do), '
            'every outcome of both against a fresh process, then all again; non-trivial when a call was nested; distinct by place, outer and nested call')
    real = REAL_FILE
    stub = STUB_FILE + ['calls made from the middle of other calls (begun by the simulator between two instructions of the library)', 'resolver, network and remote service']
    assumptions = ['calls are nested between instructions of the library\'s own code while no module is being imported; inside third-party code and the interpreter\'s C code they are not',
                   'a call alone in a freshly started process is the specification of that call']

    def cases(self, tier):
        return 1500 if tier == 'quick' else 40000

    def wall(self, tier):
        return 50 if tier == 'quick' else 600

    # ---------------------------------------------------------------- generation
    def inner(self, rng, o, l):
        """Calls to be made in the middle of o."""
        out = []
        for _ in range(rng.choice([1, 1, 1, 2])):
            x = rng.random()
            if x < .2:
                out.append(gens.cp(o))
            elif x < .42:
                out.append(gens.sibling(rng, o))
            elif x < .7:
                out.append(gens.kin(rng, o))
            else:
                out.append(gens.cp(rng.choice(l)))
        return [i for i in out if not gens.unfit(i) and len(i.get('txt') or '') < 3000]

    def gen(self, rng, i, W):
        rep = {'seed': rng.getrandbits(16), 'docs': [], 'net': False}
        x = rng.random()
        if x < .62:
            rep['mode'] = 'sweep'
            n = rng.choice([8, 20, 40])
            l = gens.theme(rng, n) if rng.random() < .6 else [gens.opt_op(rng, rng.choice(gens.ALL), rng.choice(gens.ALL)) if rng.random() < .5 else gens.gen_op(rng) for _ in range(n)]
        elif x < .8:
            rep['mode'] = 'cold'
            l = gens.related(rng, rng.choice([2, 3, 4]))
        elif x < .93:
            rep['mode'] = 'docs'
            rep['docs'] = [d for d in doc_set(rng, rng.choice([2, 3, 4]), small=True, share=.4) if len(d['data']) < 9000]
            l = [dict(d['op']) for d in rep['docs']] + [gens.gen_op(rng)]
        else:
            rep['mode'], rep['net'] = 'net', True
            l = [o for o in (c05.P.tamop(rng) for _ in range(rng.choice([2, 3]))) if len(o['txt']) < 300] + [gens.gen_op(rng)]
        l = [o for o in gens.cheap(rng, l, .85) if o['f'] != 'sleep' and not gens.unfit(o) or rep['net']] if not rep['docs'] else l
        l = [o for o in l if o['f'] != 'sleep']
        if not l:
            return None
        seq = []
        if rep['mode'] == 'cold':
            o = l[0]
            by = rng.choice(['site', 'hot', 'hot', 'step'])
            n = W.count(o, by)
            if not n:
                return None
            cs = [{'at': rng.randrange(1, n + 1), 'ops': self.inner(rng, o, l)} for _ in range(rng.choice([1, 1, 2]))]
            rep['ops'] = [dict(o, intr={'kind': 'nest', 'by': by, 'calls': cs})] + [gens.cp(q) for q in l]
            return rep
        first, cut = [], []
        for j, o in enumerate(l):
            by = rng.choice(['site', 'site', 'hot', 'hot', 'step'])
            first.append(dict(o, intr={'kind': 'count', 'by': by, 'at': None, 'of': j}))
            for _ in range(rng.choice([1, 2, 4])):
                cs = [{'at': None, 'share': rng.random(), 'ops': [dict(rng.choice(l)) for _ in range(rng.choice([1, 1, 2]))] if rep['docs'] or rep['net'] else self.inner(rng, o, l)} for _ in range(rng.choice([1, 1, 1, 3]))]
                cut.append(dict(o, intr={'kind': 'nest', 'by': by, 'of': j, 'calls': cs}))
        rng.shuffle(cut)
        end = [gens.cp(o) for o in l]
        rng.shuffle(end)
        rep['ops'] = first + cut + end
        return rep

    # ---------------------------------------------------------------- judgement
    def want(self, o, rep, W):
        o = {x: o[x] for x in o if x != 'intr'}
        for d in rep['docs']:
            if d['op'] == o:
                return alone(W, d)[0], d
        if rep['net']:
            return W._memo('n', o, lambda: W.z.call({'phases': [{'ops': [[o]]}], 'net': {}, 'timeout': 120})['phases'][0]['out'][0][0]['o']), None
        return W.ref(o), None

    def bad(self, o, got, rep, W):
        want, d = self.want(o, rep, W)
        if got == want or d and same_o(d, got, want):
            return None
        o = {x: o[x] for x in o if x != 'intr'}
        return differs(o, got, want) if not d else '%s gave %s, alone %s' % (show_doc(d), gens.short(got), gens.short(want))

    def judge(self, rep, W):
        d = W.scratch()
        sp = {'phases': [{'ops': [rep['ops']]}], 'seed': rep['seed'], 'timeout': 60, 'state': not rep.get('noprobe') and not rep['docs'] and not rep['net']}
        if rep['docs']:
            sp.update(dir=d, files=files_of(rep['docs']), cwd='home', tree=True)
        if rep['net']:
            sp['net'] = {}
        r = W.run(sp)
        msg = dead(r)
        if msg or 'phases' not in r:
            return (msg or 'the run was cut off: %s' % gens.short(r)) + '; calls: ' + '; '.join(gens.show({x: o[x] for x in o if x != 'intr'}) for o in rep['ops'][:4]), {}
        recs = r['phases'][0]['out'][0]
        info = {'log': norm(r).replace(d, ''), 'nontrivial': 0, 'keys': []}
        first = {}
        W.st['hit:mode_' + rep['mode']] += 1

        def look(k, o, rec, where):
            c = json.dumps({x: o[x] for x in o if x != 'intr'}, sort_keys=True)
            if rep['mode'] == 'sweep':
                if c not in first:
                    first[c] = rec['o']
                elif rec['o'] == first[c]:
                    return None
            m = self.bad(o, rec['o'], rep, W)
            if m:
                info['explicit'] = self.pin(rep, recs, k)
                return where + m
            if rep['mode'] == 'sweep' and rec['o'] != first[c]:
                info['explicit'] = self.pin(rep, recs, k)
                m = self.bad(o, first[c], rep, W)
                return m and 'an earlier call: ' + m
        for k, (o, rec) in enumerate(zip(rep['ops'], recs)):
            it = o.get('intr')
            mid = []
            if it and it['kind'] == 'nest':
                W.st['plan:nested'] += len(it['calls'])
                for j, at, place, rs in rec['nested']:
                    W.st['fault:nested'] += 1
                    info['nontrivial'] = 1
                    info['keys'] += [['case', h8([place, gens.kind(o), [gens.kind(q) for q in it['calls'][j]['ops']]])], ['places', h8(place)]]
                    mid.append(place)
                    for q, x in zip(it['calls'][j]['ops'], rs):
                        m = look(k, q, x, 'call %d, begun in the middle of %s at %s: ' % (k, gens.show({x: o[x] for x in o if x != 'intr'}), place))
                        if m:
                            return m, info
                    if len(rs) < len(it['calls'][j]['ops']):
                        return 'a call begun in the middle of %s at %s never finished' % (gens.show(o), place), info
            m = look(k, o, rec, 'call %d%s: ' % (k, ', in the middle of which (%s) others were made' % mid if mid else ', after nested ones' if info['nontrivial'] else ''))
            if m:
                return m, info
        if len(recs) < len(rep['ops']):
            return 'the call %s never finished' % gens.show({x: rep['ops'][len(recs)][x] for x in rep['ops'][len(recs)] if x != 'intr'}), info
        if not rep['net']:
            # (the same calls everywhere: every one at least once against a fresh process)
            pass
        for q in rep['docs']:
            if not q['api']:
                want, got = alone(W, q)[1], r['tree'].get(docs.out_path(q), [0, 0, None])[2]
                if not same_out(q, got, want):
                    return 'the output of %s differs from the one it has alone' % show_doc(q), info
        if sp['state']:
            e = deep(W, r, sp, rep['ops'])
            if e:
                x = self.pin(rep, recs, len(recs) - 1)
                info['explicit'] = dict(x, ops=x['ops'] + e[0], mode='cold')
                return 'after nested calls: ' + differs(e[0][-1], e[1], e[2]), info
        return None, info

    def pin(self, rep, recs, k):
        """The same sequence up to call k with every place absolute."""
        l = []
        for o, rec in zip(rep['ops'][:k + 1], recs):
            it = o.get('intr')
            o = {x: o[x] for x in o if x != 'intr'}
            if it and it['kind'] == 'nest' and rec['nested']:
                o['intr'] = {'kind': 'nest', 'by': it['by'], 'calls': [{'at': at, 'ops': it['calls'][j]['ops']} for j, at, _, _ in rec['nested']]}
            l.append(o)
        return dict(rep, ops=l, mode='cold' if rep['mode'] == 'sweep' else rep['mode'], noprobe=1)

    def simpler(self, rep):
        l = rep['ops']
        if len(l) > 1:
            for c in chunks(l):
                yield dict(rep, ops=c)
        for i, o in enumerate(l):
            it = o.get('intr')
            if it and it['kind'] == 'nest':
                if len(it['calls']) > 1:
                    for c in chunks(it['calls']):
                        yield dict(rep, ops=l[:i] + [dict(o, intr=dict(it, calls=c))] + l[i + 1:])
                for j, c in enumerate(it['calls']):
                    for ops in ([x] for x in c['ops']) if len(c['ops']) > 1 else ():
                        yield dict(rep, ops=l[:i] + [dict(o, intr=dict(it, calls=it['calls'][:j] + [dict(c, ops=ops)] + it['calls'][j + 1:]))] + l[i + 1:])
                if len(l) <= 3 and not rep['docs']:
                    for j, c in enumerate(it['calls']):
                        for q in simpler_op(c['ops'][0]):
                            yield dict(rep, ops=l[:i] + [dict(o, intr=dict(it, calls=it['calls'][:j] + [dict(c, ops=[q] + c['ops'][1:])] + it['calls'][j + 1:]))] + l[i + 1:])
                yield dict(rep, ops=l[:i] + [{x: o[x] for x in o if x != 'intr'}] + l[i + 1:])
            elif not rep['docs'] and len(l) <= 3:
                for q in simpler_op(o):
                    yield dict(rep, ops=l[:i] + [q] + l[i + 1:])


P = Prop()
