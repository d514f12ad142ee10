"""C04: a failed read of the library's own data never yields wrong text."""
import json, random, errno
import gens
from props.common import *

OPCODE = {1: 'open_r', 2: 'open_w', 4: 'read', 4096: 'opendir'}
ERRS = {'open_r': ['EIO', 'EMFILE', 'ENFILE', 'ENOMEM', 'EACCES', 'EINTR'], 'read': ['EIO', 'EINTR', 'ENOMEM', 'short', 'short'], 'opendir': ['EIO', 'EMFILE', 'ENFILE', 'ENOMEM']}


class Prop:
    id = 'C04'
    scout = True
    rule = ('one evaluation is one process life: earlier calls, one call with faults at chosen file operations on the library\'s own modules and data files, '
            'later calls without faults; non-trivial when a fault fired; distinct by call, operation and fault')
    real = REAL_LIB
    stub = STUB_STD + ['results of open, read and opendir on files below the library\'s directory and its byte-code cache']
    assumptions = ['directory listings fail with I/O or resource errors only: the import system itself takes "permission denied" for an empty directory',
                   'stat() does not fail', 'the third-party libraries\' own files do not fail',
                   'a call alone in a freshly started process is the specification of that call']

    def cases(self, tier):
        return 2200 if tier == 'quick' else 60000

    def wall(self, tier):
        return 55 if tier == 'quick' else 760

    def gen(self, rng, i, W):
        l = gens.related(rng, rng.choice([2, 3, 5]))
        v = l[0]
        if rng.random() < .3:
            v = gens.cp(gens.OPS[rng.choice(gens.BY_F[rng.choice(sorted(gens.BY_F))])])
        pre = [gens.gen_op(rng)] if rng.random() < .35 else ([l[1]] if rng.random() < .3 else [])
        rep = {'pre': pre, 'victim': v, 'flt': [], 'post': [gens.cp(v)] + l[1:] + ([gens.gen_op(rng)] if rng.random() < .4 else []), 'again': rng.choice([1, 1, 1, 2]), 'seed': rng.getrandbits(16)}
        lg = self.oplog(rep, W)
        if not lg:
            return None
        count = {}
        for op in lg:
            count[op] = count.get(op, 0) + 1
        # every file operation is equally likely, but opens of data files are interesting
        for _ in range(rng.choice([1, 1, 1, 2, 4])):
            op = rng.choice(lg) if rng.random() < .6 else rng.choice(sorted(count))
            name = OPCODE[op]
            k = rng.randrange(count[op])
            e = rng.choice(ERRS[name])
            if e == 'short':
                if rng.random() < .5:
                    for kk in range(k, min(k + 12, count[op])):
                        rep['flt'].append({'cls': 0, 'ops': [name], 'k': kk, 'act': 'short', 'arg': rng.choice([0, 1, 7, rng.getrandbits(16)])})
                else:
                    rep['flt'].append({'cls': 0, 'ops': [name], 'k': k, 'act': 'short', 'arg': rng.getrandbits(16)})
            elif e != 'EINTR' and rng.random() < .3:
                rep['flt'].append({'cls': 0, 'ops': ['open_r', 'read', 'opendir'] if e not in ('EACCES',) else ['open_r'], 'k': rng.randrange(len(lg)) if e != 'EACCES' else k if name == 'open_r' else 0, 'act': 'sticky', 'err': getattr(errno, e)})
            else:
                rep['flt'].append({'cls': 0, 'ops': [name], 'k': k, 'act': 'errno', 'err': getattr(errno, e)})
        rep['flt'] = rep['flt'][:40]
        return rep

    def oplog(self, rep, W):
        ph = [{'ops': [rep['pre']]}] if rep['pre'] else []
        ph.append({'ops': [[rep['victim']]], 'log': True})
        r = W.run({'phases': ph, 'seed': rep['seed']})
        return [x[0] for x in r['phases'][-1]['log'] if x[1] == 0 and x[0] in OPCODE] if 'phases' in r else []

    def judge(self, rep, W):
        ph = []
        if rep['pre']:
            ph.append({'ops': [rep['pre']]})
        ph.append({'ops': [[dict(rep['victim'], flt=rep['flt']) for _ in range(rep['again'])]]})
        ph.append({'ops': [rep['post']]})
        sp = {'phases': ph, 'seed': rep['seed'], 'timeout': 30, 'state': not rep.get('noprobe')}
        r = W.run(sp)
        info = {}
        msg = dead(r)
        if msg or 'phases' not in r:
            return msg or 'the run was cut off: %s' % r, info
        info['log'] = norm(r)
        vi = 1 if rep['pre'] else 0
        info['keys'] = [['victims', h8(gens.kind(rep['victim']))]]
        fired = False
        for rec in r['phases'][vi]['out'][0]:
            for f, hit in zip(rep['flt'], rec.get('hit', ())):
                nm = '%s:%s%s' % ('+'.join(f['ops']), errno.errorcode.get(f.get('err'), 'short'), ':sticky' if f['act'] == 'sticky' else '')
                W.st['plan:' + nm] += 1
                if hit:
                    fired = True
                    W.st['fault:' + nm] += 1
        info['nontrivial'] = fired
        if fired:
            info['keys'].append(['case', h8([rep['victim'], rep['pre'], rep['flt']])])
        for rec in r['phases'][vi]['out'][0]:
            if rec['o'][0] == 'e' and any(rec.get('hit', ())):
                W.st['hit:raised'] += 1
                info['keys'].append(['errors', rec['o'][1]])
                continue
            want = W.ref(rep['victim'])
            if rec['o'] != want:
                return '%s; faults on the library\'s files: %s' % (differs(rep['victim'], rec['o'], want), gens.short(rep['flt'])), info
            W.st['hit:correct_result_despite_fault'] += 1
        if not fired:
            return None, info
        w = 'after the faults %s during %s had passed, call %%d: ' % (gens.short(rep['flt']).replace('%', ''), gens.show(rep['victim']).replace('%', ''))
        m = compare(W, rep['post'], r['phases'][-1]['out'][0], where=w)
        if not m and not rep.get('noprobe'):
            d = deep(W, r, sp, [rep['victim']] + rep['post'])
            if d:
                info['explicit'] = dict(rep, post=rep['post'] + d[0], noprobe=1)
                m = w.replace('call %d: ', '') + differs(d[0][-1], d[1], d[2])
        return m, info

    def simpler(self, rep):
        rep = dict(rep, noprobe=1)
        if rep['again'] > 1:
            yield dict(rep, again=1)
        for key in ('flt', 'pre', 'post'):
            l = rep[key]
            if l and key != 'flt':
                yield dict(rep, **{key: []})
            if len(l) > 1:
                for c in chunks(l):
                    yield dict(rep, **{key: c})
        for j, op in enumerate(rep['post']):
            for o in simpler_op(op):
                yield dict(rep, post=rep['post'][:j] + [o] + rep['post'][j + 1:])
        for o in simpler_op(rep['victim']):
            yield dict(rep, victim=o)


P = Prop()
