"""C05: Tamil-to-IPA uses the remote service faithfully and fails openly."""
import json, re
import gens, simnet
from props.common import *

EXTRA = ['&', '=', '?', '#', '%', '+', ' ', '/', '\\', '"', "'", '<', '>', ';', ',', '\n', '\r\n', '\t', 'ä', '€', '😀', '௧௨', '%20', '%E0%AE', '&text=x', '&method=1', '#x', '+', '{}', '[1]', '\u200c', '\u0301', 'ascii', ':', '@', '//', '..', 'a=b', '\x01', '|', '।', '\u00a0', '~', '`', '^']
BOUND = 300.0


def tamil(rng):
    t = gens.TEXTS['Tamil']
    x = rng.random()
    if x < .3:
        return rng.choice(t)
    if x < .35:
        return rng.choice(EXTRA)
    if x < .4:
        return ''.join(rng.choice(t) + rng.choice([' ', '\n']) for _ in range(rng.choice([3, 12, 60])))
    if x < .42:
        # a whole page, a whole book
        out, n = [], rng.choice([900, 2100, 4200, 5100, 8300, 17000])
        while sum(map(len, out)) < n:
            out += [rng.choice(t), rng.choice([' ', '\n', '\n\n', '. ', '  '])]
        return apart(''.join(out) + rng.choice(['', ' ', 'x']))
    parts = []
    for _ in range(rng.choice([1, 2, 3, 5])):
        parts.append(rng.choice(rng.choice(t).split(' ')))
        parts.append(rng.choice(EXTRA))
    if rng.random() < .3:
        parts.insert(0, rng.choice(EXTRA))
    return apart("".join(parts))


def apart(t):
    """The library writes misspelt two-part vowel signs, double dandas and some other spellings in their normal form
    before anything else (which is a matter of values): keep such signs apart."""
    t = re.sub('[\u00b9\u2081-\u2084]', '\u00b2', t)
    t = re.sub('(?<=\u0b95\u0bcd)\u200c|(?<=\u0bb0)\u200c(?=[\u0bbf\u0bc0])', ' ', t).replace('\u0bb8\u0bcd\u0bb0\u0bc0', '\u0bb8\u0bcd \u0bb0\u0bc0')
    return re.sub('(?<=[\u0bbe-\u0bd7])(?=[\u0bbe-\u0bd7])|(?<=\u0964)(?=\u0964)', ' ', t)


def plan(rng, healthy=.0):
    if rng.random() < healthy:
        p = {}
    else:
        at = rng.choice(['dns', 'connect', 'send', 'status', 'status', 'head', 'body', 'body', 'ok', 'late'])
        p = {'at': at}
        if at == 'dns':
            p['what'] = rng.choice(['fail', 'again', 'slow', 'kbd'])
        elif at == 'connect':
            p['what'] = rng.choice(['refused', 'unreach', 'silent', 'reset', 'slow', 'emfile', 'kbd'])
        elif at == 'send':
            p['what'] = rng.choice(['pipe', 'reset', 'stall', 'kbd', 'mem'])
        elif at == 'status':
            p['what'] = rng.choice(['silent', 'close', 'reset', 'garbage', 'kbd', 'mem', 302, 302, 400, 401, 403, 404, 408, 410, 418, 429, 500, 502, 503, 503, 504])
        elif at in ('head', 'body'):
            p['what'] = rng.choice(['close', 'reset', 'silent', 'kbd', 'mem'])
            p['cut'] = rng.getrandbits(12)
    if rng.random() < .35:
        p['ans'] = rng.choice(sorted(simnet.ANSWERS) + ['echo', 'empty', 'empty', 'echo'])
    if rng.random() < .5:
        p['enc'] = rng.choice(['chunked', 'gzip', 'length', 'badgzip' if p.get('at') in ('ok', None) and rng.random() < .4 and healthy < 1 else 'length'])
    if p.get('enc') == 'badgzip':
        p.pop('ans', None)      # a damaged short answer may decompress to something
    if rng.random() < .4:
        p['seg'] = rng.choice([1, 2, 3, 7, 50, 200])
    if rng.random() < .25:
        p['delay'] = rng.choice([.01, .5, 3, 20])
        p.setdefault('seg', 60)
        if p['seg'] < 60:
            p['seg'] = 60
    return p


def fails(p):
    """Does this plan keep the service from answering?"""
    if p.get('enc') == 'badgzip':
        return True
    at, w = p.get('at'), p.get('what')
    return at in ('send', 'status', 'head', 'body') or (at == 'dns' and w != 'slow') or (at == 'connect' and w != 'slow')


class Prop:
    id = 'C05'
    rule = ('one evaluation is one process life making Tamil-to-IPA calls (and others) from 1..3 threads against a simulated resolver, network and service with a plan of faults; '
            'non-trivial when a request was made or a fault fired; distinct by texts, plan and schedule')
    real = ['aksharamukha.transliterate', 'requests, urllib3, http.client, charset_normalizer (unchanged, above the socket)', 'CPython 3.12']
    stub = ['name resolution and stream sockets', 'the remote service (answers with a text computed from the text it received, or misbehaves as planned)', 'clock (virtual)', 'thread scheduler']
    assumptions = ['the service is reached by name anunaadam.appspot.com over plain HTTP, takes `text` and `method=2` at /api and declares UTF-8',
                   'an answer cut short is recognisable (content length, chunking or compression), as HTTP/1.1 servers send it',
                   'bounded time means: at most %d s of virtual time beyond the delays the service itself spends sending' % BOUND]

    def cases(self, tier):
        return 3000 if tier == 'quick' else 80000

    def wall(self, tier):
        return 50 if tier == 'quick' else 600

    def tamop(self, rng):
        op = {'f': rng.choice(['process', 'convert', 'convert']), 'src': 'Tamil', 'tgt': 'IPA', 'txt': tamil(rng)}
        if rng.random() < .25:
            op['nativize'] = False
        if op['f'] == 'process' and rng.random() < .3:
            op.update(src=rng.choice(['tamil', 'TAMIL']), tgt=rng.choice(['ipa', 'IPA']))
        if op['f'] == 'process' and rng.random() < .35:
            # other ways to name the same two scripts
            k = rng.choice(['script_code', 'lang_code', 'auto'])
            if k == 'auto':
                op.update(src='autodetect', txt=rng.choice(['தமிழ் ', 'கபிலன் பரணர் ']) * rng.choice([1, 8, 60]))
            elif k == 'script_code':
                op.update(src=rng.choice(['Taml', 'taml', 'ta-Taml']), tgt=rng.choice(['Latn-IPA', 'en-IPA']), param=k)
            else:
                op.update(src=rng.choice(['ta', 'ta-Taml']), tgt=rng.choice(['la-IPA', 'en-IPA']), param=k)
        if rng.random() < .1:
            op['post'] = [rng.choice(['RemoveDiacritics', 'IPARemoveCross'])] if 'IPARemoveCross' in gens.C['post'] else ['RemoveDiacritics']
        return op

    def gen(self, rng, i, W):
        n = rng.choice([1, 1, 1, 2, 2, 3])
        T = []
        for _ in range(n):
            l = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                l.append(self.tamop(rng) if rng.random() < .8 else gens.cheap(rng, [gens.gen_op(rng)], .9)[0])
            T.append(l)
        x = rng.random()
        if x < .1:
            T = [gens.cheap(rng, gens.related(rng, 12), .9)]
            if rng.random() < .5:
                T[0] += [gens.fresh_op(rng, rng.choice(gens.INDIC), 'IPA', f='convert') for _ in range(4)] + [gens.fresh_op(rng, 'Tamil', rng.choice([t for t in gens.LATIN if t != 'IPA']), f='convert') for _ in range(4)]
        elif x < .35:
            # a long series of calls, as a page converted word by word: outages come and go
            n = 1
            w = [tamil(rng) for _ in range(rng.choice([1, 2, 8]))]
            T = [[dict({k: v for k, v in self.tamop(rng).items() if k != 'param'}, src='Tamil', tgt='IPA', txt=rng.choice(w)) if rng.random() < .8 else self.tamop(rng) for _ in range(rng.choice([6, 12, 25]))]]
        elif x < .5:
            # texts that a careless key would confuse
            b = ''.join(tamil(rng) + rng.choice([' ', '\n']) for _ in range(rng.choice([2, 6, 20])))
            T = [[dict({k: v for k, v in self.tamop(rng).items() if k != 'param'}, src='Tamil', tgt='IPA', txt=apart(t)) for t in [b] + [gens.remix(rng, b, tamil(rng)) if rng.random() < .6 else b[:len(b) // 2] + rng.choice('தமிழxyz ') + b[len(b) // 2 + 1:] for _ in range(rng.choice([1, 3, 6]))]] for _ in range(n)]
        nreq = sum(1 for t in T for o in t if gens.is_net(o))
        h = rng.choice([1, 1, 0, .3, .6])
        plans = [plan(rng, h) for _ in range(nreq + rng.choice([0, 2]))]
        if nreq > 4 and rng.random() < .6:
            # an outage: one fault repeated for a while
            k, m = rng.randrange(nreq), rng.choice([2, 3, 5, 10])
            q = plan(rng, 0)
            plans[k:k + m] = [dict(q) for _ in range(m)]
        rep = {'ops': T, 'plan': plans, 'after': [self.tamop(rng)] if rng.random() < .6 else [], 'seed': rng.getrandbits(16), 'sched': None}
        if n > 1:
            rep['sched'] = {'mode': 'rw', 'mean': rng.choice([30, 300, 3000]), 'seed': rng.getrandbits(32)} if rng.random() < .5 else {'mode': 'hot', 'p': .3, 'seed': rng.getrandbits(32)}
        return rep

    def judge(self, rep, W):
        ph = {'ops': rep['ops']}
        if len(rep['ops']) > 1:
            ph['sched'] = rep['sched'] or {'mode': 'serial'}
        phs = [ph]
        r = W.run({'phases': phs, 'net': {'plan': rep['plan']}, 'seed': rep['seed'], 'timeout': 30})
        info = {}
        netop = [[gens.is_net(o) for o in t] for t in rep['ops']]
        if r.get('phases') and r['phases'][-1].get('deadlock') and r.get('net', {}).get('hang'):
            return 'a call waits for ever for the silent service: ' + gens.short(rep['plan']), info
        msg = dead(r)
        if msg or 'phases' not in r:
            return (msg or 'the run was cut off: %s' % r) + ' plan: ' + gens.short(rep['plan']), info
        info['log'] = norm(r)
        p0 = r['phases'][0]
        info['explicit'] = explicit(rep, p0)
        net = r['net']
        for k, v in net['fired'].items():
            W.st['fault:' + k] += v
        W.st['hit:requests_received'] += len(net['requests'])
        W.st['hit:connections'] += net['conns']
        info['nontrivial'] = bool(net['requests'] or net['fired'])
        info['keys'] = [['case', h8([rep['ops'], rep['plan'], p0.get('sites')])]] + [['texts', h8(o['txt'])] for t in rep['ops'] for o in t if gens.is_net(o)] + [['plans', h8(q)] for q in rep['plan']]
        if net['hang']:
            return 'a call waits for ever for the silent service: ' + gens.short(rep['plan']), info
        ncalls = sum(sum(x) for x in netop)
        if r['vtime'] > BOUND * max(1, ncalls) + net['injected']:
            return 'the calls took %.0f s of simulated time (the service spent %.0f s); plan %s' % (r['vtime'], net['injected'], gens.short(rep['plan'])), info
        if ncalls == 0 and (net['dns'] or net['conns'] or p0['net']):
            return 'the network was used by a conversion other than Tamil to IPA: %s; calls %s' % (net['events'][:3], '; '.join(gens.show(o) for t in rep['ops'] for o in t)[:600]), info
        if p0['net']:
            return 'a connection was made past the socket layer', info
        m = lost(r)
        if m:
            return m, info
        wanted = [o['txt'] for t, b in zip(rep['ops'], netop) for o, x in zip(t, b) if x]
        for q in net['requests']:
            t = q['text']
            if not t or len(t) != 1 or t[0] not in wanted or q['method'] != ['2']:
                return 'the service received %s (fragment %r) for the texts %s' % (gens.short([q['line'], t, q['method']]), q['frag'], gens.short(wanted)), info
        got = [q['text'][0] for q in net['requests'] if q['text']]
        answered = {}
        for q in net['requests']:
            answered.setdefault(q['text'][0], []).append(simnet.reply(q['text'][0], q['plan']))
        allok = not any(fails(q) for q in rep['plan'])
        ok = 0
        for k, (ops, outs) in enumerate(zip(rep['ops'], p0['out'])):
            for j, (op, rec) in enumerate(zip(ops, outs)):
                o = rec['o']
                if not gens.is_net(op):
                    want = W.ref(op)
                    if o != want:
                        return 'thread %d call %d: %s' % (k, j, differs(op, o, want)), info
                    continue
                if o[0] == 'v':
                    ok += 1
                    a = answered.get(op['txt'], [])
                    if not a:
                        return '%s returned %s without any request for that text' % (gens.show(op), gens.short(o[1])), info
                    if o[1] not in a:
                        return '%s returned %s, the service\'s answer is %s; plan %s' % (gens.show(op), gens.short(o[1]), gens.short(a), gens.short(rep['plan'])), info
                    a.remove(o[1])      # one request, one answer, one call
                else:
                    if o[1] in ('Hang',):
                        return 'a call waits for ever', info
                    if allok:
                        return '%s failed with %s although the service answers: plan %s' % (gens.show(op), gens.short(o), gens.short(rep['plan'])), info
        # a request that was answered completely and successfully may only fail if its own exchange was disturbed
        bad = sum(1 for q in rep['plan'] if fails(q))
        nfail = ncalls - ok
        if nfail > bad:
            return '%d of %d calls failed, but only %d exchanges were disturbed; plan %s' % (nfail, ncalls, bad, gens.short(rep['plan'])), info
        W.st['hit:answered'] += ok
        W.st['hit:failed_openly'] += nfail
        if rep['after']:
            # the disturbances are over: the next life of the service answers
            rep2 = {'ops': [rep['ops'][0] + rep['after']], 'plan': rep['plan'][:sum(netop[0])], 'after': [], 'seed': rep['seed'], 'sched': None}
            m, i2 = self.judge(rep2, W)
            if m:
                info['explicit'] = rep2
                return m, info
        return None, info

    def simpler(self, rep):
        old = {o.get('txt') for l in rep['ops'] + [rep['after']] for o in l}
        for r in self._simpler(rep):
            # cutting texts must not bring together what was kept apart
            if all(o.get('txt') in old or apart(o['txt']) == o['txt'] for l in r['ops'] + [r['after']] for o in l):
                yield r

    def _simpler(self, rep):
        if rep['after']:
            yield dict(rep, after=[])
        yield from simpler_threads(rep)
        if rep['plan']:
            for j in range(len(rep['plan'])):
                yield dict(rep, plan=rep['plan'][:j] + rep['plan'][j + 1:])
                if rep['plan'][j]:
                    yield dict(rep, plan=rep['plan'][:j] + [{}] + rep['plan'][j + 1:])
                for k in ('enc', 'seg', 'delay'):
                    if k in rep['plan'][j]:
                        yield dict(rep, plan=rep['plan'][:j] + [{a: b for a, b in rep['plan'][j].items() if a != k}] + rep['plan'][j + 1:])
        yield from simpler_sched(rep)


P = Prop()
