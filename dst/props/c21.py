"""C21: a long-lived process does not wear out."""
import random
import gens, docs
from props.common import *
from props.filecommon import fault, doc_set, files_of, second
from props.c02 import broken
from props import c05


class Prop:
    id = 'C21'
    rule = ('one evaluation is one process in which about a dozen kinds of calls (conversions with every kind of option, detection, failing and interrupted calls, documents on disk and in memory, '
            'the remote service with outages, calls from threads that come and go) are each made 130 times with different texts, and some ten thousand times where something seems to grow; '
            'distinct by the kinds of calls')
    real = REAL_LIB + ['the memory allocator and garbage collector of the interpreter', 'aksharamukha.transliterate_file with zipfile, lxml and BeautifulSoup']
    stub = STUB_STD + ['resolver, network and remote service']
    assumptions = ['memory is counted in blocks of the interpreter\'s allocator and bytes of the C allocator after a full garbage collection',
                   'a cache that stops growing before 16000 different texts counts as bounded',
                   'only texts, failures and repetitions vary without bound: scripts and options are finitely many']

    def cases(self, tier):
        return 400 if tier == 'quick' else 20000

    def wall(self, tier):
        return 50 if tier == 'quick' else 600

    def gen(self, rng, i, W):
        rep = {'seed': rng.getrandbits(16), 'thread': False, 'docs': [], 'plan': None}
        x = rng.random()
        ops = []
        if x < .16:
            rep['mode'] = 'docs'
            rep['docs'] = [d for d in doc_set(rng, rng.choice([2, 3]), small=True) if len(d['data']) < 6000]
            ops = [dict(d['op']) for d in rep['docs']]
            if rng.random() < .4:
                for o in ops:
                    if rng.random() < .6:
                        o['flt'] = [fault(rng)]
        elif x < .26:
            rep['mode'] = 'net'
            rep['plan'] = [c05.plan(rng, .5) for _ in range(rng.choice([1, 4, 9]))]
            for p in rep['plan']:
                for k in ('delay', 'seg'):
                    p.pop(k, None)
                if p.get('ans') == 'long':
                    p.pop('ans')
            ops = [o for o in (c05.P.tamop(rng) for _ in range(3)) if len(o['txt']) < 300]
        else:
            base = []
            for _ in range(4):
                base += gens.related(rng, 4)
            base += [gens.gen_op(rng) for _ in range(4)] + [gens.detectable(rng)] + [gens.cp(gens.OPS[rng.choice(gens.BY_F[k])]) for k in sorted(gens.BY_F) if rng.random() < .3]
            base = [o for o in gens.cheap(rng, base, .7) if not gens.unfit(o) and len(o.get('txt') or '') < 400]
            ops = rng.sample(base, min(len(base), 12))
            if x < .45:
                rep['mode'] = 'failing'
                ops = [broken(rng, o) if rng.random() < .7 else o for o in ops]
            elif x < .58:
                rep['mode'] = 'intr'
                ops = [dict(o, intr={'kind': rng.choice(['kbd', 'mem', 'exc']), 'by': 'site'}) for o in ops[:5]]
            elif x < .68:
                rep['mode'] = 'threads'
                rep['thread'] = True
            else:
                rep['mode'] = 'plain'
        if not ops:
            return None
        rep['ops'] = ops
        return rep

    def judge(self, rep, W):
        d = W.scratch()
        spec = {'phases': [{'wear': rep['ops'], 'seed': rep['seed'], 'thread': rep['thread']}], 'seed': rep['seed'], 'dir': d, 'files': files_of(rep['docs']), 'timeout': 400}
        if rep['plan'] is not None:
            spec['net'] = {'plan': rep['plan']}
        z, W.z = W.z, second(W, 'wear', {'GLIBC_TUNABLES': 'glibc.malloc.tcache_count=0'})
        try:
            r = W.run(spec)
        finally:
            W.z = z
        info = {'nontrivial': 0}
        msg = dead(r) or lost(r)
        if msg or 'phases' not in r:
            return msg or 'the run was cut off: %s' % r, info
        w = r['phases'][0]['wear']
        for k, v in list(r['phases'][0]['count'].items()) + list((r.get('net') or {}).get('fired', {}).items()):
            W.st[('hit:' if k == 'calls_that_raised' else 'fault:') + k] += v
        info['nontrivial'] = 1
        info['keys'] = [['case', h8(rep['ops'])]] + [['kinds', h8(gens.kind(o))] for o in rep['ops']]
        info['log'] = norm([[x[1]] for x in w])
        W.st['hit:mode_' + rep['mode']] += 1
        W.st['hit:calls'] += sum(x[0] for x in w)
        W.st['hit:looked_at_longer'] += sum(x[0] > 200 for x in w)
        for o, (n, what) in zip(rep['ops'], w):
            if what:
                how = {'intr': ' (interrupted)', 'threads': ' (from threads that come and go)', 'docs': ' (documents)'}.get(rep['mode'], '')
                return '%s: %s%s and other texts' % (what, gens.show(o), how), info
        return None, info

    def simpler(self, rep):
        l = rep['ops']
        if len(l) > 1:
            for o in l:
                yield dict(rep, ops=[o])
            return
        if rep['thread']:
            yield dict(rep, thread=False, mode='plain')
        o = l[0]
        if 'intr' in o:
            yield dict(rep, ops=[{k: v for k, v in o.items() if k != 'intr'}], mode='plain')
        if 'flt' in o:
            yield dict(rep, ops=[{k: v for k, v in o.items() if k != 'flt'}])
        for c in simpler_op(o):
            yield dict(rep, ops=[c])


P = Prop()
