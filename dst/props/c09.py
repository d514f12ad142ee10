"""C09: file conversion never touches anything but its own output."""
import json, errno, os
import gens, docs
from props.filecommon import *


class Prop:
    id = 'C09'
    rule = ('one evaluation is one process life converting 1 to 4 documents in a directory with neighbouring files, with disk faults, an interruption, a crash at a disk operation or between two instructions, '
            'or several threads; the whole directory tree is compared before and after; non-trivial when a conversion was started; distinct by documents, faults and schedule')
    real = REAL_FILE
    stub = STUB_FILE
    assumptions = ['a crash ends the process at once; what was handed to the kernel before survives (loss of kernel buffers is not simulated, the library never syncs)',
                   'the tree includes the home and temporary directories of the process']

    def cases(self, tier):
        return 2400 if tier == 'quick' else 60000

    def wall(self, tier):
        return 45 if tier == 'quick' else 600

    def gen(self, rng, i, W):
        mode = rng.choice(['plain', 'flt', 'flt', 'flt', 'crash', 'crash', 'crash', 'icrash', 'intr', 'threads', 'threads', 'tcrash', 'tflt'])
        n = rng.choice([1, 1, 2, 3])
        if mode[0] == 't':
            n = rng.choice([2, 3, 4])
        ds = doc_set(rng, n, small=mode[0] == 't' or mode in ('icrash', 'intr') or rng.random() < .5, api=None if rng.random() < .3 else False)
        rep = {'mode': mode, 'docs': ds, 'seed': rng.getrandbits(16), 'flt': [], 'sched': None, 'intr': None, 'cwd': 'home'}
        rep['extra'] = docs.neighbours(rng, ds)
        for d in ds:
            if not d['api'] and rng.random() < .4:
                rep['extra'].append(docs.old_output(rng, d))
        if rng.random() < .3:
            relative(rng, ds)
            rep['cwd'] = '.'
        m = len(ds)
        rep['T'] = [list(range(m))]
        if mode[0] == 't':
            k = rng.choice([2, 2, 3])
            rep['T'] = [t for t in (list(range(m))[j::k] for j in range(k)) if t]
            rep['sched'] = sched_plan(rng, len(rep['T']))
        elif rng.random() < .3:
            rep['T'] = [list(range(m)) + [rng.randrange(m)]]
        if mode in ('flt', 'tflt'):
            rep['flt'] = [fault(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
        elif mode == 'crash' or mode == 'tcrash' and rng.random() < .7:
            rep['flt'] = [crash_fault(rng)]
            if len(rep['T'][0]) > 1:
                rep['flt'][0]['k'] += rng.choice([0, 1, 2, 3, 5])
            if rng.random() < .2:
                rep['flt'].append(fault(rng))
        elif mode in ('icrash', 'intr', 'tcrash'):
            n = self.sites(W, rep)
            if not n:
                return None
            rep['intr'] = {'kind': 'crash' if mode != 'intr' else rng.choice(['kbd', 'mem', 'exc', 'base']), 'by': 'site', 'at': n + 1 - rng.randrange(1, n + 1) if rng.random() < .5 else max(1, n - rng.randrange(0, 120))}
        return rep

    def sites(self, W, rep):
        d = rep['docs'][rep['T'][0][0]]
        sp = {'phases': [{'ops': [[dict(d['op'], intr={'kind': 'count', 'by': 'site', 'at': None})]]}], 'dir': W.scratch(), 'files': [d['file']], 'cwd': rep['cwd'] if d['op'].get('rel') else 'home', 'timeout': 30}
        r = W.run(sp)
        return r['phases'][0]['out'][0][0]['n'] if 'phases' in r else 0

    def judge(self, rep, W):
        ds = rep['docs']
        ops = [[dict(ds[k]['op']) for k in t] for t in rep['T']]
        if rep['intr']:
            ops[0][0]['intr'] = rep['intr']
        p = {'ops': ops, 'flt': rep['flt']}
        if rep['sched'] and len(ops) > 1:
            p['sched'] = rep['sched']
        elif len(ops) > 1:
            p['sched'] = {'mode': 'serial'}
        d = W.scratch()
        pre = {'p': 'marker/x', 'd': docs.b64(b'1')}
        files = files_of(ds) + rep['extra'] + [pre, {'p': 'home/.profile', 'd': docs.b64(b'p')}, {'p': 'tmp/other', 'd': docs.b64(b't')}]
        r = W.run({'phases': [p], 'dir': d, 'files': files, 'cwd': rep['cwd'], 'seed': rep['seed'], 'timeout': 30})
        info = {}
        msg = dead(r)
        if msg or 'phases' not in r and not r.get('crash'):
            return msg or 'the run was cut off: %s' % r, info
        after = docs.tree(d)
        info['log'] = h8([norm(r), after])
        W.st['hit:mode_' + rep['mode']] += 1
        info['nontrivial'] = 1
        sites = 0
        if r.get('crash'):
            W.st['fault:process_crash'] += 1
        else:
            ph = r['phases'][0]
            sites = ph.get('sites')
            info['explicit'] = explicit(rep, ph) if len(ops) > 1 else rep
            count_hits(W, rep['flt'], ph.get('hit'))
            for t in ph['out']:
                for rec in t:
                    if rec.get('fired'):
                        W.st['fault:' + rep['intr']['kind']] += 1
        if rep['intr'] and rep['intr']['kind'] == 'crash':
            W.st['plan:process_crash'] += 1
        info['keys'] = [['case', h8([ds, rep['T'], rep['flt'], rep['intr'], sites])]] + [['conversions', h8(conv_kind(x))] for x in ds]
        before = {}
        for f in files:
            before[f['p']] = f['d']
            q = os.path.dirname(f['p'])
            while q:
                before[q] = None
                q = os.path.dirname(q)
        before.update({'tmp': None, 'home': None})
        own = {docs.out_path(x) for x in ds if not x['api']}
        srcs = {x['path'] for x in ds if not x['api']}
        what = '; '.join(show_doc(x) for x in ds)
        for q in sorted(set(before) | set(after)):
            if q in own and (q not in after or after[q][0] == 'f') and not (q in before and q not in after):
                continue
            if q not in after:
                return '%s %s is gone after converting %s' % ('the source' if q in srcs else 'the file', q, what), info
            if q not in before:
                return '%s appeared after converting %s' % (q, what), info
            b, a = before[q], after[q]
            if a[0] != ('d' if b is None else 'f') or b is not None and a[2] != b:
                return '%s %s was changed by converting %s: now %s' % ('the source' if q in srcs else 'the file', q, what, gens.short(a)), info
            if q != 'marker' and b is not None and a[1] != 0o644 or b is None and a[1] != 0o755:
                return 'the mode of %s was changed to %o by converting %s' % (q, a[1], what), info
        return None, info

    def simpler(self, rep):
        for i in range(len(rep['docs'])):
            if len(rep['docs']) > 1:
                r = without(rep, i)
                if r:
                    yield r
        if rep['extra']:
            yield dict(rep, extra=[])
            for c in chunks(rep['extra']):
                yield dict(rep, extra=c)
        for i in range(len(rep['flt'])):
            yield dict(rep, flt=rep['flt'][:i] + rep['flt'][i + 1:])
        if rep['intr']:
            yield dict(rep, intr=None)
        yield from simpler_docs(rep)
        yield from simpler_sched(rep)


P = Prop()
