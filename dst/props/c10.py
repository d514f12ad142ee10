"""C10: file conversion reports success only for a complete, faithful output."""
import json, errno
import gens, docs
from props.filecommon import *


class Prop:
    id = 'C10'
    rule = ('one evaluation is one process life converting 1 to 3 documents, each under its own disk faults (or none), in a UTF-8 or an ASCII locale; every normal return is checked against an account of the output '
            'made from direct conversions of the portions; non-trivial when a conversion returned normally; distinct by documents and faults')
    real = REAL_FILE
    stub = STUB_FILE
    assumptions = ['a direct conversion of a portion, alone in a fresh process, is the specification of that portion',
                   'which text of an HTML document is a portion is what the HTML parser reports as text outside comments, declarations, scripts and styles; in a Word document it is the text of w:t elements of word/*.xml',
                   'documents are compared by structure (elements, attributes, text) for HTML and XML and byte for byte for text and other archive members']

    def cases(self, tier):
        return 2400 if tier == 'quick' else 40000

    def wall(self, tier):
        return 50 if tier == 'quick' else 700

    def gen(self, rng, i, W):
        asc = rng.random() < .3
        ds = doc_set(rng, rng.choice([1, 1, 2, 3]), small=rng.random() < .3, ascii_only=asc)
        for d in ds:
            if rng.random() < .04:
                d['post'] = d.get('post', []) + ['NoSuchOption']
                d['op'] = docs.op_of(d)
        rep = {'docs': ds, 'asc': asc, 'seed': rng.getrandbits(16), 'cwd': 'home', 'flt': {}, 'old': []}
        for d in ds:
            if not d['api'] and rng.random() < .35:
                rep['old'].append(docs.old_output(rng, d))
        for k in range(len(ds)):
            x = rng.random()
            if x < .6:
                rep['flt'][str(k)] = [fault(rng) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
            elif x < .66:
                rep['flt'][str(k)] = [{'cls': 0, 'ops': [rng.choice(['open_r', 'read'])], 'k': rng.randrange(0, 6), 'act': rng.choice(['sticky', 'errno']), 'err': rng.choice([errno.EIO, errno.EMFILE, errno.ENOMEM])}]
        if rng.random() < .25:
            relative(rng, ds)
            rep['cwd'] = '.'
        return rep

    def judge(self, rep, W):
        ds = rep['docs']
        ops = []
        for k, d in enumerate(ds):
            o = dict(d['op'])
            if str(k) in rep['flt']:
                o['flt'] = rep['flt'][str(k)]
            ops.append(o)
        spec = {'phases': [{'ops': [ops]}], 'dir': W.scratch(), 'files': files_of(ds) + rep['old'], 'cwd': rep['cwd'], 'seed': rep['seed'], 'tree': True, 'timeout': 30}
        r = run_in(W, rep['asc'], spec)
        info = {'nontrivial': 0, 'keys': [['case', h8([ds, rep['flt'], rep['asc']])]] + [['conversions', h8(conv_kind(x))] for x in ds]}
        msg = dead(r)
        if msg or 'phases' not in r:
            return msg or 'the run was cut off: %s' % r, info
        info['log'] = norm(r)
        t = r['tree']
        for k, (d, rec) in enumerate(zip(ds, r['phases'][0]['out'][0])):
            flt = rep['flt'].get(str(k), [])
            hit = [f for f, h in zip(flt, rec.get('hit', ())) if h]
            count_hits(W, flt, rec.get('hit'))
            o = rec['o']
            who = '%s (%s locale%s)' % (show_doc(d), 'ASCII' if rep['asc'] else 'UTF-8', ', faults ' + json.dumps(hit) if hit else '')
            if o[0] == 'v':
                info['nontrivial'] = 1
                W.st['hit:returned_normally'] += 1
                if hit:
                    W.st['hit:returned_normally_despite_fault'] += 1
                if rep['asc']:
                    W.st['hit:ascii_locale'] += 1
                try:
                    m, n = docs.check_outcome(d, W, o, content(t, docs.out_path(d)) if not d['api'] else None)
                except docs.CannotSay as e:
                    m, n = 'a portion of the text cannot be converted (%s), yet success is reported' % e, 0
                W.st['hit:portions'] += n
                if m:
                    return '%s returned normally, but %s' % (who, m), info
            else:
                if not d['api'] and os.path.basename(docs.out_path(d)) in rec.get('said', ''):
                    return '%s raised %s after announcing its output: %s' % (who, gens.short(o), rec['said'][-200:]), info
                if hit and not all(harmless(f) for f in hit):
                    W.st['hit:raised_for_fault'] += 1
                    continue
                # nothing that went wrong explains it, so the text itself must be at fault
                try:
                    self.portions(d, W)
                except docs.CannotSay:
                    W.st['hit:raised_for_text'] += 1
                    continue
                return '%s raised %s although every portion of it converts' % (who, gens.short(o)), info
        return None, info

    def portions(self, d, W):
        """Raises CannotSay where the specification has no answer."""
        src = docs.ub(d['data'])
        if d['kind'] == 'txt':
            docs.conv(d, W, src.decode('utf8')).encode('utf8')
        elif d['kind'] in ('html', 'htm'):
            docs.expected_html(d, W, src.decode('utf8'))
        else:
            docs.check_docx(d, W, src, b'')

    def simpler(self, rep):
        for i in range(len(rep['docs'])):
            if len(rep['docs']) > 1:
                yield dict(rep, docs=[rep['docs'][i]], flt={'0': rep['flt'][str(i)]} if str(i) in rep['flt'] else {})
        if rep['asc']:
            yield dict(rep, asc=False)
        if rep['old']:
            yield dict(rep, old=[])
        for k in rep['flt']:
            l = rep['flt'][k]
            yield dict(rep, flt={a: b for a, b in rep['flt'].items() if a != k})
            if len(l) > 1:
                for c in chunks(l):
                    yield dict(rep, flt=dict(rep['flt'], **{k: c}))
        yield from simpler_docs(rep)


P = Prop()
