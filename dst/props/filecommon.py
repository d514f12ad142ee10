"""Shared by the properties on file conversion."""
import os, json, errno, base64
import gens, docs, runner
from props.common import *

REAL_FILE = REAL_LIB + ['aksharamukha.transliterate_file with zipfile, lxml and BeautifulSoup', 'a real directory tree below the fault seam']
STUB_FILE = STUB_STD + ['open, read, write, close, rename, unlink, fsync, truncate, link, mkdir, sendfile of files in the tree (each can fail, be cut short, be interrupted or be the last thing the process does)']
ASCII_ENV = {'LC_ALL': 'C', 'LANG': 'C', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0'}
READ_ERR = [errno.EIO, errno.EIO, errno.ESTALE, errno.EINTR]
WRITE_ERR = [errno.ENOSPC, errno.ENOSPC, errno.EIO, errno.EDQUOT, errno.EINTR, errno.EFBIG]
OPENR_ERR = [errno.EACCES, errno.EMFILE, errno.ENFILE, errno.EIO, errno.EINTR, errno.ENOENT]
OPENW_ERR = [errno.EACCES, errno.EROFS, errno.ENOSPC, errno.EMFILE, errno.EIO, errno.EINTR, errno.EISDIR]
CLOSE_ERR = [errno.EIO, errno.ENOSPC, errno.EDQUOT]


def fault(rng, src_only=False):
    """One disk fault. (An interrupted call is tried again for ever by the interpreter, so EINTR strikes once.)"""
    f = _fault(rng, src_only)
    if f.get('err') == errno.EINTR:
        f['act'] = 'errno'
    return f


def _fault(rng, src_only):
    x = rng.random()
    k = rng.choice([0, 0, 0, 1, 1, 2, 3, 5, 8])
    if src_only:
        x *= .45
    if x < .12:
        e = rng.choice(OPENR_ERR)
        return {'cls': 1, 'ops': ['open_r'], 'k': rng.choice([0, 0, 1]), 'act': 'errno', 'err': e}
    if x < .3:
        return {'cls': 1, 'ops': ['read'], 'k': k, 'act': rng.choice(['errno', 'sticky']), 'err': rng.choice(READ_ERR[:3])}
    if x < .36:
        return {'cls': 1, 'ops': ['read'], 'k': k, 'act': 'errno', 'err': errno.EINTR}
    if x < .45:
        return {'cls': 1, 'ops': ['read'], 'k': k, 'act': 'short', 'arg': rng.getrandbits(16)}
    if x < .55:
        return {'cls': 1, 'ops': ['open_w'], 'k': 0, 'act': rng.choice(['errno', 'sticky']), 'err': rng.choice(OPENW_ERR)}
    if x < .75:
        return {'cls': 1, 'ops': ['write'], 'k': k if rng.random() < .4 else 0, 'act': rng.choice(['errno', 'sticky']), 'err': rng.choice(WRITE_ERR)}
    if x < .86:
        return {'cls': 1, 'ops': ['write'], 'k': rng.choice([0, 0, 1]), 'act': 'short', 'arg': rng.getrandbits(16)}
    if x < .96:
        return {'cls': 1, 'ops': ['close'], 'k': rng.choice([0, 1, 1, 1, 2]), 'act': rng.choice(['close_err', 'close_err', 'errno']), 'err': rng.choice(CLOSE_ERR), 'arg': rng.getrandbits(16)}
    return {'cls': 1, 'ops': ['rename', 'unlink', 'fsync', 'trunc', 'link', 'mkdir', 'chmod'], 'k': 0, 'act': 'sticky', 'err': rng.choice([errno.EIO, errno.EXDEV, errno.EACCES, errno.ENOSPC])}


def harmless(f):
    """A fault the call has to take in its stride."""
    return f['act'] == 'short' or f.get('err') == errno.EINTR and f['act'] == 'errno'


def crash_fault(rng):
    op = rng.choice(['open_r', 'read', 'open_w', 'open_w', 'write', 'write', 'write', 'close', 'close', 'rename'])
    return {'cls': 1, 'ops': [op], 'k': rng.choice([0, 0, 0, 1, 1, 2, 4]), 'act': rng.choice(['crash_before', 'crash_after', 'torn', 'torn']), 'arg': rng.getrandbits(16)}


def fname(f):
    return '%s_%s' % (f['ops'][0] if len(f['ops']) == 1 else 'other', f['act'] if f['act'] not in ('errno', 'sticky') else errno.errorcode[f['err']])


def count_hits(W, flt, hit):
    for f, h in zip(flt, hit or ()):
        W.st['plan:disk_' + fname(f)] += 1
        if h:
            W.st['fault:disk_' + fname(f)] += 1


def lean(d):
    """What a replay file has to hold of a document."""
    return d


def conv_kind(d):
    return [d['kind'], d['api'], d['src'], d['tgt'], d.get('nativize', True), d.get('pre'), d.get('post')]


def alone(W, d, worker_key=''):
    """Outcome of this conversion alone in a fresh process and what it leaves at its output path (both JSON)."""
    def fn():
        sp = {'phases': [{'ops': [[dict(d['op'])]]}], 'dir': W.scratch(), 'files': [d['file']], 'tree': True, 'timeout': 120}
        W.st['refs'] += 1
        r = W.z.call(sp)
        if 'phases' not in r:
            return [['x', json.dumps(r)], None]
        o = r['phases'][0]['out'][0][0]['o']
        t = r['tree'].get(docs.out_path(d)) if not d['api'] else None
        return [o, t[2] if t and t[0] == 'f' else None]
    return W._memo('f', d, fn)


def same_out(d, a, b):
    """Same output content (archives are compared by members)?"""
    if a == b:
        return True
    if a is None or b is None or d['kind'] != 'docx':
        return False
    return docs_members(a) == docs_members(b) is not None


def docs_members(s):
    import zipfile, io, hashlib
    try:
        z = zipfile.ZipFile(io.BytesIO(base64.b64decode(s)))
        if z.testzip():
            return None
        return [[i.filename, hashlib.md5(z.read(i)).hexdigest()] for i in z.infolist()]
    except Exception:
        return None


def same_o(d, a, b):
    if a == b:
        return True
    if a[0] == b[0] == 'v' and d['kind'] == 'docx' and d['api']:
        return isinstance(a[1], dict) and isinstance(b[1], dict) and same_out(d, a[1].get('b64'), b[1].get('b64')) and a[2] == b[2]
    return False


def show_doc(d):
    return '%s %s of %d bytes, %s->%s%s%s' % (d['kind'], 'in memory' if d['api'] else json.dumps(d['path'], ensure_ascii=False), len(docs.ub(d['data'])), d['src'], d['tgt'],
                                             ', pre %s' % d['pre'] if d.get('pre') else '', ', post %s' % d['post'] if d.get('post') else '')


def content(t, p):
    e = t.get(p)
    return docs.ub(e[2]) if e and e[0] == 'f' else None


def doc_set(rng, n, threads=False, ascii_only=False, small=False, share=.25, api=None):
    """n documents whose outputs are different files; sometimes one source for several of them."""
    out, used = [], set()
    k = 0
    while len(out) < n and k < 60:
        k += 1
        if out and rng.random() < share:
            d = dict(rng.choice(out))
            d['tgt'] = rng.choice(docs.POPULAR)
            if d['src'] == 'Tamil' and d['tgt'] == 'IPA':
                continue
            if rng.random() < .3:
                d['nativize'] = not d.get('nativize', True)
            d['op'] = docs.op_of(d)
        else:
            d = docs.document(rng, None, small=small, ascii_only=ascii_only, api=api)
        paths = {docs.out_path(d)} if not d['api'] else set()
        if not d['api'] and (docs.out_path(d) in used or any(e['path'] == d['path'] and e['data'] != d['data'] for e in out if not e['api']) or any(docs.out_path(d) == e['path'] for e in out) or d['path'] in used):
            continue
        used |= paths
        out.append(d)
    return out


def files_of(ds):
    seen, out = set(), []
    for d in ds:
        if not d['api'] and d['path'] not in seen:
            seen.add(d['path'])
            out.append(d['file'])
    return out


def relative(rng, ds):
    """Refer to the files by relative names."""
    for d in ds:
        if d['op']['f'] == 'file':
            d['op'] = dict(d['op'], rel=1)


def second(W, key, env):
    """A worker's second zygote, in another environment."""
    if not hasattr(W, 'more'):
        W.more = {}
    if key not in W.more:
        W.more[key] = runner.Zygote(W.lab, env=env)
    return W.more[key]


def run_in(W, asc, spec):
    if not asc:
        return W.run(spec)
    z = W.z
    W.z = second(W, 'ascii', ASCII_ENV)
    try:
        return W.run(spec)
    finally:
        W.z = z


def simpler_docs(rep, key='docs'):
    """Fewer and smaller documents (the plan of operations names them by number)."""
    for i, d in enumerate(rep[key]):
        for e in docs.simpler_doc(d):
            if d['op'].get('rel'):
                e['op'] = dict(e['op'], rel=1)
            yield dict(rep, **{key: rep[key][:i] + [e] + rep[key][i + 1:]})


def without(rep, i, key='docs'):
    """Drop document i; T holds threads of document numbers."""
    T = [[j - (j > i) for j in t if j != i] for t in rep['T']]
    T = [t for t in T if t]
    if not T:
        return None
    return dict(rep, T=T, **{key: rep[key][:i] + rep[key][i + 1:]})
