"""C11: a failed file conversion does no damage and can be repeated."""
import json, errno, io, os, zipfile
import gens, docs
from props.filecommon import *

# an interruption that strikes here strikes before the output can be ready
CONVERTING = {'Convert.py', 'ConvertFix.py', 'PreProcess.py', 'PostProcess.py', 'PreOptions.py', 'PostOptions.py', 'GeneralMap.py', 'FallBack.py', 'gimeltra.py', 'transliterate.py'}


def spoil(rng, d):
    """The same document, damaged."""
    b = docs.ub(d['data'])
    x = rng.random()
    if d['kind'] != 'docx':
        k = rng.randrange(len(b) + 1)
        if x < .5:
            k = len(b)
        return b[:k] + rng.choice([b'\xff', b'\xe0\xa4', b'\x80', b'\xc3', b'\xed\xa0\x80']) + b[k:]
    if x < .2:
        return b[:rng.randrange(len(b))]
    if x < .3:
        return rng.choice([b'', b'PK', b'not an archive', b[::-1]])
    if x < .6:
        # the last part is no XML, those before it are fine
        z = zipfile.ZipFile(io.BytesIO(b))
        w = [i.filename for i in z.infolist() if i.filename.startswith('word/') and i.filename.endswith('.xml')]
        v = rng.choice([w[-1], rng.choice(w)])
        return docs._zip([(i.filename, z.read(i)[:-rng.randrange(1, 60)] if i.filename == v else z.read(i)) for i in z.infolist()])
    k = rng.randrange(len(b))
    return b[:k] + bytes([b[k] ^ (1 << rng.randrange(8))]) + b[k + 1:]


class Prop:
    id = 'C11'
    rule = ('one evaluation is a document whose conversion fails one to three times (unreadable, missing or damaged source, failing conversion, library data out of reach, interruption, disk fault or crash at any point) and is then '
            'repeated in the same or a new process; non-trivial when an attempt failed; distinct by document, attempts and where they failed')
    real = REAL_FILE
    stub = STUB_FILE + ['asynchronous exceptions (raised at a chosen instruction of the library)']
    assumptions = ['the output counts as not ready while the source is being read or text is being converted; a fault of the output file itself may leave it incomplete',
                   'a crash ends the process at once; what was handed to the kernel before survives']

    def cases(self, tier):
        return 1500 if tier == 'quick' else 40000

    def wall(self, tier):
        return 55 if tier == 'quick' else 700

    def gen(self, rng, i, W):
        d = docs.document(rng, None, small=rng.random() < .7, api=None if rng.random() < .4 else False)
        rep = {'doc': d, 'seed': rng.getrandbits(16), 'cwd': 'home', 'att': [], 'old': [], 'where': rng.choice(['same', 'new', 'both']), 'warm': [], 'other': None}
        if not d['api'] and rng.random() < .6:
            rep['old'].append(docs.old_output(rng, d))
        if rng.random() < .2 and not d['api']:
            d['op'] = dict(d['op'], rel=1)
            rep['cwd'] = '.'
        x = rng.random()
        if x < .25:
            rep['warm'] = [gens.cheap(rng, [gens.gen_op(rng)], 1)[0]]
        elif x < .4:
            rep['warm'] = ['self']
        n = rng.choice([1, 1, 1, 2, 3])
        for k in range(n):
            a = self.attempt(rng, d, W, rep, k == n - 1)
            if a:
                rep['att'].append(a)
        if rng.random() < .2:
            rep['other'] = docs.document(rng, 'other', small=True, api=True)
        return rep if rep['att'] else None

    def attempt(self, rng, d, W, rep, last):
        x = rng.random()
        if x < .14 and not d['api']:
            f = fault(rng, True)
            return None if harmless(f) else {'how': 'source', 'flt': [f], 'strict': 1}
        if x < .26:
            return {'how': 'data', 'flt': [{'cls': 0, 'ops': [rng.choice(['open_r', 'read', 'opendir'])], 'k': rng.choice([0, 0, 0, 1, 1, 2, 3, 5]), 'act': rng.choice(['sticky', 'sticky', 'errno']), 'err': rng.choice([errno.EIO, errno.EMFILE, errno.ENOMEM])}], 'strict': 1}
        if x < .42 and not d['api']:
            return {'how': 'damaged', 'put': docs.b64(spoil(rng, d)), 'strict': 1}
        if x < .5:
            o = {k: v for k, v in d['op'].items()}
            q = rng.choice(['pre', 'post'])
            o[q] = o.get(q, []) + ['NoSuchOption'] if rng.random() < .6 else ['NoSuchOption'] + o.get(q, [])
            return {'how': 'conversion', 'op': o, 'strict': 1}
        if x < .72:
            by = rng.choice(['site', 'site', 'hot', 'step']) if len(d['data']) < 4000 else 'site'
            kind = rng.choice(['kbd', 'mem', 'base', 'exc'])
            if last and rng.random() < .35 and not d['api']:
                kind = 'crash'
            n = self.points(W, d, rep, by)
            if not n:
                return None
            at = rng.randrange(1, n + 1) if rng.random() < .7 else max(1, n - rng.randrange(0, 80))
            return {'how': 'interrupted', 'intr': {'kind': kind, 'by': by, 'at': at}}
        if d['api']:
            return None
        if x < .86 and last:
            f = crash_fault(rng)
            return {'how': 'crash', 'flt': [f], 'strict': 1 if f['ops'][0] in ('open_r', 'read') else 0}
        f = fault(rng)
        return None if harmless(f) else {'how': 'disk', 'flt': [f], 'strict': 1 if f['ops'][0] in ('open_r', 'read') else 0}

    def ops_warm(self, rep):
        return [dict(rep['doc']['op']) if o == 'self' else o for o in rep['warm']]

    def points(self, W, d, rep, by):
        sp = {'phases': [{'ops': [[dict(d['op'], intr={'kind': 'count', 'by': by, 'at': None})]]}], 'dir': W.scratch(), 'files': files_of([d]), 'cwd': rep['cwd'], 'timeout': 30}
        if rep['warm']:
            sp['phases'].insert(0, {'ops': [self.ops_warm(rep)]})
        r = W.run(sp)
        return r['phases'][-1]['out'][0][0]['n'] if 'phases' in r else 0

    def judge(self, rep, W):
        d = rep['doc']
        out = docs.out_path(d) if not d['api'] else None
        good = {'f': 'put', 'path': d['path'], 'd': d['data']}
        TREE = {'f': 'tree'}

        def script(crash_as=None):
            ops = []
            for a in rep['att']:
                o = dict(a.get('op') or d['op'])
                if 'flt' in a:
                    o['flt'] = a['flt']
                if 'intr' in a:
                    o['intr'] = dict(a['intr'], kind=crash_as) if crash_as and a['intr']['kind'] == 'crash' else a['intr']
                if 'put' in a:
                    ops.append({'f': 'put', 'path': d['path'], 'd': a['put']})
                if out:
                    ops.append(TREE)
                ops.append(o)
                if out:
                    ops.append(TREE)
                if 'put' in a:
                    ops.append(good)
            if rep['where'] != 'new':
                ops.append(dict(d['op']))
                if rep['other']:
                    ops.append(dict(rep['other']['op']))
            ph = [{'ops': [ops]}]
            if rep['warm']:
                ph.insert(0, {'ops': [self.ops_warm(rep)]})
            return {'phases': ph, 'dir': W.scratch(), 'files': files_of([d] + ([rep['other']] if rep['other'] else [])) + rep['old'], 'cwd': rep['cwd'], 'seed': rep['seed'], 'tree': bool(out), 'timeout': 30}
        info = {'nontrivial': 0}
        want = alone(W, dict(d, op=docs.op_of(d)))
        other = alone(W, rep['other']) if rep['other'] else None
        last = rep['att'][-1]
        strict_crash = last.get('strict')
        if last.get('intr', {}).get('kind') == 'crash':
            # where does it strike?  The same run with an exception at that instruction tells.
            s1 = script('base')
            r = W.run(s1)
            if 'phases' in r:
                for o, rec in zip(s1['phases'][-1]['ops'][0], r['phases'][-1]['out'][0]):
                    if o.get('intr') and rec.get('fired'):
                        strict_crash = rec['fired'][0] in CONVERTING
        sp = script()
        before = None
        r = W.run(sp)
        msg = dead(r)
        if msg or 'phases' not in r and not r.get('crash'):
            return msg or 'the run was cut off: %s' % r, info
        info['log'] = norm(r)
        who = show_doc(d)
        marks = []
        if r.get('crash'):
            W.st['fault:process_crash'] += 1
            info['nontrivial'] = 1
            now = docs.tree(sp['dir'])
            marks.append('crash')
            if strict_crash and len(rep['att']) == 1 and 'self' not in rep['warm']:
                W.st['hit:crash_before_output_was_ready'] += 1
                m = self.kept({rep['old'][0]['p']: ['f', 0, rep['old'][0]['d']]} if rep['old'] else {}, now, out)
                if m:
                    return 'after a crash before the output was ready (%s), %s: %s' % (gens.short(last), m, who), info
        else:
            info['explicit'] = rep
            recs = list(zip(sp['phases'][-1]['ops'][0], r['phases'][-1]['out'][0]))
            k = 0
            prev = None
            for a in rep['att']:
                while recs[k][0]['f'] == 'put':
                    k += 1
                if out:
                    prev = recs[k][1]['o'][1]['tree']
                    k += 1
                o, rec = recs[k]
                k += 1
                if out:
                    now = recs[k][1]['o'][1]['tree']
                    k += 1
                if 'flt' in a:
                    count_hits(W, a['flt'], rec.get('hit'))
                if rec.get('fired'):
                    W.st['fault:' + a['intr']['kind']] += 1
                marks.append([a['how'], rec.get('fired'), rec['o'][:2] if rec['o'][0] == 'e' else 'v'])
                if rec['o'][0] == 'e':
                    info['nontrivial'] = 1
                    W.st['hit:failed_' + a['how']] += 1
                    if out and (a.get('strict') or rec.get('fired') and rec['fired'][0] in CONVERTING):
                        W.st['hit:failed_before_output_was_ready'] += 1
                        m = self.kept(prev, now, out)
                        if m:
                            return 'after a failure before the output was ready (%s, %s), %s: %s' % (gens.short({x: y for x, y in a.items() if x != 'put'}), gens.short(rec['o']), m, who), info
                elif 'put' not in a and 'op' not in a:
                    W.st['hit:attempt_succeeded'] += 1
                    if not same_o(d, rec['o'], want[0]) or out and not same_out(d, now.get(out, [0, 0, None])[2], want[1]):
                        return 'an attempt that met %s returned normally with something else than the whole conversion: %s' % (gens.short(a), who), info
            if rep['where'] != 'new':
                W.st['hit:repeated_in_same_process'] += 1
                while recs[k][0]['f'] == 'put':
                    k += 1
                m = self.again(d, recs[k][1]['o'], r['tree'].get(out, [0, 0, None])[2] if out else None, want, out)
                if m:
                    return 'repeated in the same process after %s: %s: %s' % (gens.short(marks, 400), m, who), info
                if rep['other']:
                    w = other
                    if not same_o(rep['other'], recs[k + 1][1]['o'], w[0]):
                        return 'another document converted after %s gave %s instead of %s' % (gens.short(marks, 400), gens.short(recs[k + 1][1]['o']), gens.short(w[0])), info
        if r.get('crash') or rep['where'] != 'same':
            W.st['hit:repeated_in_new_process'] += 1
            r2 = W.run({'phases': [{'ops': [[good] * (not d['api']) + [dict(d['op'])]]}], 'dir': sp['dir'], 'cwd': rep['cwd'], 'seed': rep['seed'] + 1, 'tree': bool(out), 'timeout': 30})
            msg = dead(r2)
            if msg or 'phases' not in r2:
                return 'the repetition: %s' % (msg or r2), info
            m = self.again(d, r2['phases'][0]['out'][0][-1]['o'], r2['tree'].get(out, [0, 0, None])[2] if out else None, want, out)
            if m:
                return 'repeated in a new process after %s: %s: %s' % (gens.short(marks, 400), m, who), info
            info['log'] = h8([info['log'], norm(r2)])
        info['keys'] = [['case', h8([d, marks])], ['conversions', h8(conv_kind(d))]] + [['points', h8(m[1])] for m in marks if m != 'crash' and m[1]]
        return None, info

    def kept(self, prev, now, out):
        a, b = prev.get(out), now.get(out)
        if a is None and b is not None:
            return 'a new output of %d bytes exists' % len(docs.ub(b[2]))
        if a is not None and b is None:
            return 'the old output is gone'
        if a is not None and (a[0] != b[0] or a[2] != b[2]):
            return 'the old output of %d bytes was replaced by %d bytes' % (len(docs.ub(a[2])), len(docs.ub(b[2])))
        return None

    def again(self, d, o, data, want, out):
        if not same_o(d, o, want[0]):
            return 'it gave %s instead of %s' % (gens.short(o), gens.short(want[0]))
        if out and want[0][0] == 'v' and not same_out(d, data, want[1]):
            return 'the output has %s instead of %s bytes, or other content' % (len(docs.ub(data)) if data is not None else 'no', len(docs.ub(want[1])) if want[1] is not None else 'no')
        return None

    def simpler(self, rep):
        if rep['other']:
            yield dict(rep, other=None)
        if rep['warm']:
            yield dict(rep, warm=[])
        if rep['old']:
            yield dict(rep, old=[])
        if rep['where'] == 'both':
            yield dict(rep, where='same')
            yield dict(rep, where='new')
        for i in range(len(rep['att'])):
            if len(rep['att']) > 1:
                yield dict(rep, att=rep['att'][:i] + rep['att'][i + 1:])
        d = rep['doc']
        for e in docs.simpler_doc(d):
            if d['op'].get('rel'):
                e['op'] = dict(e['op'], rel=1)
            yield dict(rep, doc=e)


P = Prop()
