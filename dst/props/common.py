"""Shared by the property modules."""
import hashlib, json, collections
import gens

REAL_LIB = ['aksharamukha (all of it, from /repo)', 'CPython 3.12 with its import system', 'PyYAML, regex, langcodes, fontTools, pykakasi', 'kernel file system below the seam']
STUB_STD = ['thread scheduler and locks (deterministic)', 'clock and sleep (virtual)', 'os.urandom and random seed', 'file operations of the library (pass through a fault seam)']


def h8(o):
    return hashlib.md5(json.dumps(o, sort_keys=True).encode()).hexdigest()[:12]


def dead(r):
    """A run that did not come back with results at all."""
    if r.get('hang'):
        return 'the run never ended (a call blocks or loops for ever)'
    if 'died' in r:
        return 'the process died (%s)' % r['died']
    if r.get('crash'):
        return None
    for i, ph in enumerate(r.get('phases', ())):
        if ph.get('deadlock'):
            return 'deadlock in phase %d: threads wait for ever: %s' % (i, ph['deadlock'])
        if ph.get('overrun'):
            return 'a call in phase %d does not end within the step budget' % i
    return None


def lost(r):
    for i, ph in enumerate(r.get('phases', ())):
        if ph.get('uncaught'):
            return 'simulator: uncaught in thread: %s' % ph['uncaught'][:2]
    return None


def differs(op, got, want):
    return '%s gave %s, alone in a fresh process %s' % (gens.show(op), gens.short(got), gens.short(want))


def compare(W, ops, outs, lists=None, where=''):
    for j, (op, rec) in enumerate(zip(ops, outs)):
        want = W.ref(op, lists)
        if rec['o'] != want:
            return '%s%s' % (where % j if '%' in where else where, differs(op, rec['o'], want))
    if len(outs) < len(ops):
        return '%scall %d never finished: %s' % (where.replace('%d', '?'), len(outs), gens.show(ops[len(outs)]))
    return None


def simpler_op(op):
    """Simpler variants of one call."""
    for k in ('post', 'pre'):
        if isinstance(op.get(k), list) and op[k]:
            for i in range(len(op[k])):
                o = dict(op)
                o[k] = op[k][:i] + op[k][i + 1:]
                if not o[k] and op['f'] != 'convert':
                    del o[k]
                yield o
    t = op.get('txt')
    if isinstance(t, str) and len(t) > 1:
        n = len(t)
        for a in (t[:n // 2], t[n // 2:], t[:n // 4], t[:3 * n // 4], t[n // 4:]):
            if a and a != t:
                yield dict(op, txt=a)
        if n <= 24:
            for i in range(n):
                yield dict(op, txt=t[:i] + t[i + 1:])
        ws = t.split(' ')
        if 1 < len(ws) <= 12:
            for i in range(len(ws)):
                yield dict(op, txt=' '.join(ws[:i] + ws[i + 1:]))


def chunks(l):
    n = len(l)
    k = n // 2 or 1
    while True:
        for i in range(0, n, k):
            c = l[:i] + l[i + k:]
            if len(c) < n:
                yield c
        if k == 1:
            return
        k //= 2


def sched_plan(rng, nthreads):
    """A schedule family with parameters."""
    x = rng.random()
    s = {'seed': rng.getrandbits(32)}
    if x < .45:
        s.update(mode='hot', p=rng.choice([.05, .15, .3, .5, .8]))
    elif x < .65:
        s.update(mode='rw', mean=rng.choice([3, 10, 40, 150, 600, 3000]))
        if rng.random() < .3:
            s['gran'] = 'line'
            s['mean'] = rng.choice([2, 5, 20, 80, 300])
    elif x < .85:
        s.update(mode='pct', depth=rng.choice([1, 2, 3, 5]), horizon=rng.choice([3000, 20000, 80000, 250000]))
        if rng.random() < .3:
            s['dom'] = 'all'
    else:
        s.update(mode='first', p=rng.choice([.05, .2, .5]), mean=rng.choice([400, 3000]))
        if rng.random() < .5:
            s['gran'] = 'line'
    return s


def explicit(rep, ph):
    """The same run with its schedule written out."""
    sw = ph.get('switches')
    if sw is None or 'sched' not in rep or rep['sched'] is None:
        return rep
    r = json.loads(json.dumps(rep))
    r['sched'] = {'explicit': sw, 'first': ph.get('first', 0), 'dom': ph.get('dom', 'all'), 'gran': ph.get('gran', 'instr')}
    return r


def simpler_sched(rep):
    sw = rep.get('sched') and rep['sched'].get('explicit')
    if sw:
        for c in chunks(sw):
            r = dict(rep)
            r['sched'] = dict(rep['sched'], explicit=c)
            yield r
        yield dict(rep, sched=dict(rep['sched'], explicit=[]))


def simpler_threads(rep, key='ops'):
    """Drop whole threads, drop calls, simplify calls."""
    T = rep[key]
    if len(T) > 1:
        for i in range(len(T)):
            yield dict(rep, **{key: T[:i] + T[i + 1:]})
    for i, l in enumerate(T):
        if len(l) > 1:
            for c in chunks(l):
                if c:
                    yield dict(rep, **{key: T[:i] + [c] + T[i + 1:]})
    for i, l in enumerate(T):
        for j, op in enumerate(l):
            for o in simpler_op(op):
                yield dict(rep, **{key: T[:i] + [l[:j] + [o] + l[j + 1:]] + T[i + 1:]})


def norm(r):
    """What the determinism log records of a run."""
    return h8(r)


def probes(rng, ops, mods, n=240):
    """Calls likely to notice that something about these calls, or in these modules, is not as it was."""
    scripts = sorted({o[k] for o in ops for k in ('src', 'tgt') if o.get(k) in gens.ALLSET})
    own = [m.rsplit('.', 1)[-1] for m in mods if m.rsplit('.', 1)[-1] in gens.ALLSET]
    out = []
    while len(out) < n:
        x = rng.random()
        s = rng.choice(own) if own and rng.random() < .6 else rng.choice(scripts or gens.ALL)
        if x < .25:
            l = gens.BY_SRC.get(s) or gens.BY_TGT.get(s)
            out.append(gens.cp(gens.OPS[rng.choice(l)]) if l else gens.gen_op(rng))
        elif x < .5:
            l = gens.BY_TGT.get(s) or gens.BY_SRC.get(s)
            out.append(gens.cp(gens.OPS[rng.choice(l)]) if l else gens.gen_op(rng))
        elif x < .65:
            t = rng.choice(gens.ALL)
            out.append(gens.opt_op(rng, *((s, t) if rng.random() < .5 else (t, s)), n=rng.choice([0, 0, 1])))
        elif x < .75:
            out.append(gens.opt_op(rng, *gens.special_pair(rng)))
        elif x < .8:
            out.append(gens.detectable(rng))
        else:
            out.append(gens.cp(gens.OPS[rng.randrange(len(gens.OPS))]))
    out = [o for o in out if not gens.unfit(o)]
    return gens.cheap(rng, out, .85)


def deep(W, r, spec, ops):
    """The library's data is not what it was: look for a call that notices.  -> None or (probe calls up to the one that does, outcome, right outcome)"""
    import random
    mods = W.changed(r)
    if not mods:
        return None
    W.st['hit:library_data_changed'] += 1
    p = probes(random.Random(h8([ops, mods])), ops, mods)
    sp = {k: v for k, v in spec.items() if k != 'state'}
    a = W.run(dict(sp, phases=sp['phases'] + [{'ops': [p]}], timeout=45))
    b = W.run({'phases': [{'ops': [p]}], 'seed': spec.get('seed', 0), 'timeout': 45})
    if 'phases' not in a or 'phases' not in b or len(a['phases']) <= len(sp['phases']):
        return None
    for k, (o, x, y) in enumerate(zip(p, a['phases'][-1]['out'][0], b['phases'][0]['out'][0])):
        if x['o'] != y['o']:
            want = W.ref(o)
            if x['o'] != want:
                return p[:k + 1], x['o'], want
    return None
