"""Documents for the file converter, and an independent account of what their conversion must contain."""
import base64, io, os, zipfile, warnings, re, stat
import gens

W_NS = 'http://schemas.openxmlformats.org/wordprocessingml/2006/main'
T_TAG = '{%s}t' % W_NS


def b64(b):
    return base64.b64encode(b).decode()


def ub(s):
    return base64.b64decode(s)


NAMES = ['notes', 'a b', 'x.tar', '.hidden', '-dash', "it's (1)", 'n_[x]', 'UPPER', 'राम', 'café', 'text.docx', 'text.htmlx', 'a.txt', 'long' + 'g' * 120, 'q#?&%20', '~tilde']
DIRS = ['', '', '', 'sub', 'my.txt.dir', 'dir.docx', 'a.html', 'deep/er/est', 'sp ace', 'फ़ोल्डर']


def portion(rng, src):
    """A piece of text; sometimes one that was there before, or nearly so."""
    hist = rng.__dict__.setdefault('portions', [])
    if hist and rng.random() < .18:
        t = rng.choice(hist)
        return rng.choice([t, t, t + ' ', ' ' + t, t.strip(), t + '\n', t.upper(), t.lower(), t + t, t[:-1] or t, t.replace(' ', '\u00a0'), t + '.', t.replace(' ', '  ')])
    t = _portion(rng, src)
    hist.append(t)
    return t


def big(rng, src, p):
    """Rarely, a text longer than any buffer."""
    if src not in gens.INDIC or rng.random() >= p:
        return None
    l = gens.TEXTS.get(src) or gens.TEXTS['Devanagari']
    n = rng.choice([9000, 70000, 140000, 300000, 1100000])
    out, k = [], 0
    while k < n:
        t = rng.choice(l)
        out.append(t)
        k += len(t.encode('utf8')) + 1
    return rng.choice([' ', ' ', '\n']).join(out)


def _portion(rng, src):
    x = rng.random()
    t = gens.text(rng, src)
    if x < .6:
        return t
    if x < .75:
        return rng.choice(t.split(' '))
    if x < .85:
        return rng.choice([' ', '  ', '\n', '12', '—', 'abc', '…', '&', '<', '"quoted"', '\u00a0', '\u200d', '😀'])
    return t + rng.choice([' ', '', ' & ', ' <', '>', '. ', '\u00a0']) + gens.text(rng, src)


def options(rng, doc):
    x = rng.random()
    if x < .25:
        doc['nativize'] = False
    x = rng.random()
    if x < .15:
        o = rng.choice(gens.POST)
        doc['post'] = [o]
        if rng.random() < .7:
            doc['src'], doc['tgt'] = rng.choice(gens.C['eff_post'][o])
    elif x < .28:
        o = rng.choice(gens.PRE)
        doc['pre'] = [o]
        s = [s for s, _ in gens.C['eff_pre'][o]]
        if rng.random() < .7:
            doc['src'] = rng.choice(s)
    if doc['src'] == 'Tamil' and doc['tgt'] == 'IPA':
        doc['tgt'] = 'IAST'


POPULAR = ['Devanagari', 'IAST', 'Tamil', 'Thai', 'Telugu', 'HK', 'Arab', 'Hebr', 'Latn', 'Urdu', 'Burmese', 'Sinhala', 'ISO', 'Grantha', 'Tibetan']


def document(rng, name=None, small=False, kind=None, ascii_only=False, api=None):
    if rng.random() < .7:
        src, tgt = rng.choice(POPULAR), rng.choice(POPULAR)
    else:
        src, tgt = rng.choice(gens.INDIC + gens.LATIN + gens.SEM), rng.choice(gens.INDIC + gens.LATIN + gens.SEM + ['RomanLoC'])
    if tgt == 'OldPersian':
        tgt = 'Kharoshthi'  # see gens.heavy
    d = {'src': src, 'tgt': tgt}
    options(rng, d)
    if gens.HOT and rng.random() < .4:
        h = gens.hot_group(rng, 1)[0]
        if h.get('src') in gens.ALLSET and h.get('tgt') in gens.ALLSET:
            d = {k: h[k] for k in ('src', 'tgt', 'nativize', 'pre', 'post') if k in h and (k in ('src', 'tgt') or not isinstance(h[k], str))}
            if d['src'] in ('Tamil', 'OldPersian') or d['tgt'] in ('IPA', 'OldPersian'):
                d.update(src='Devanagari', tgt='Tamil')
    kind = kind or rng.choice(['txt', 'txt', 'html', 'html', 'htm', 'docx', 'docx'])
    d['kind'] = kind
    if name is None:
        name = rng.choice(NAMES)
        if ascii_only:
            name = name if name.isascii() else 'plain'
    dirn = rng.choice(DIRS)
    if ascii_only and not dirn.isascii():
        dirn = 'sub'
    d['path'] = os.path.join('docs', dirn, name + '.' + kind)
    if kind == 'txt':
        data = txt_source(rng, d['src'], small)
    elif kind in ('html', 'htm'):
        data = html_source(rng, d['src'], small)
    else:
        data = docx_source(rng, d['src'], small)
    d['data'] = b64(data)
    if api is None:
        api = kind != 'txt' and rng.random() < .2
    d['api'] = bool(api and kind != 'txt')
    d['op'] = op_of(d)
    d['file'] = {'p': d['path'], 'd': d['data']}
    return d


def op_of(d):
    o = {'src': d['src'], 'tgt': d['tgt']}
    for k in ('nativize', 'pre', 'post'):
        if k in d:
            o[k] = d[k]
    if d['api'] and d['kind'] in ('html', 'htm'):
        return dict(o, f='html_api', html=ub(d['data']).decode())
    if d['api']:
        return dict(o, f='docx_api', docx=d['data'])
    return dict(o, f='file', path=d['path'])


def out_path(d):
    base, ext = os.path.splitext(d['path'])
    if d['kind'] == 'docx':
        return base + '_' + d['src'] + '_' + d['tgt'] + ext
    return base + '_' + d['src'] + d['tgt'] + ext


# ---------------------------------------------------------------- sources
def txt_source(rng, src, small=False):
    n = rng.choice([0, 1, 2, 4, 8]) if not small else rng.choice([1, 3])
    nl = rng.choice(['\n', '\n', '\r\n', '\r', 'mixed'])
    out = ''
    for k in range(n):
        out += portion(rng, src)
        if k < n - 1 or rng.random() < .6:
            out += rng.choice(['\n', '\r\n', '\r', '\n\n', '\u2028', '\x0c', '\v', '\x85']) if nl == 'mixed' else nl
    if rng.random() < .12:
        out = '\ufeff' + out
    if not small and rng.random() < .06 and out.strip():
        out = (out + '\n') * (1 + 70000 // (len(out.encode()) + 1))
    b = None if small else big(rng, src, .03)
    if b:
        out = rng.choice([out + b, b + out, b])
    return out.encode('utf8')


INLINE = ['b', 'i', 'em', 'span', 'a', 'u', 'sup', 'code']
BLOCK = ['p', 'div', 'h1', 'li', 'blockquote', 'td']


def esc(s):
    return s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')


def html_source(rng, src, small=False):
    P = lambda: esc(portion(rng, src))

    def inline(depth):
        out = ''
        for _ in range(rng.choice([1, 1, 2, 3])):
            x = rng.random()
            if x < .5 or depth > 2:
                out += P()
            elif x < .85:
                t = rng.choice(INLINE)
                a = rng.choice(['', '', ' class="x y"', ' title="%s"' % esc(portion(rng, src)).replace('"', '&quot;'), " data-k='1'", ' id=q', ' href="http://x/?a=1&amp;b=2"'])
                out += '<%s%s>%s</%s>' % (t, a, inline(depth + 1), t)
            elif x < .9:
                out += rng.choice(['<br>', '<br/>', '<img src="i.png" alt="%s">' % esc(portion(rng, src)).replace('"', '&quot;'), '<wbr>'])
            elif x < .95:
                out += '<!-- %s -->' % portion(rng, src).replace('--', '').replace('>', '')
            else:
                out += rng.choice(['&nbsp;', '&#2309;', '&eacute;', '&amp;', '&lt;'])
        return out
    body = ''
    for _ in range(rng.choice([1, 2, 3]) if small else rng.choice([0, 1, 3, 5])):
        x = rng.random()
        t = rng.choice(BLOCK)
        if x < .6:
            body += '<%s>%s</%s>' % (t, inline(0), t) if t not in ('li', 'td') else ('<ul><li>%s</li></ul>' % inline(0) if t == 'li' else '<table><tr><td>%s</td></tr></table>' % inline(0))
        elif x < .7:
            body += '<pre>\n  %s\n\t%s  </pre>' % (P(), P())
        elif x < .8:
            body += '<script type="text/javascript">var s = "%s"; if (1<2) {}</script>' % portion(rng, src).replace('<', '').replace('\n', ' ').replace('"', '')
        elif x < .86:
            body += '<style>p { content: "%s" }</style>' % portion(rng, src).replace('<', '').replace('\n', ' ').replace('"', '')
        elif x < .92:
            body += '<ruby>%s<rt>%s</rt></ruby>' % (P(), P())
        elif x < .96:
            body += '<form><textarea>%s</textarea><select><option>%s</option></select><input value="%s"></form>' % (P(), P(), esc(portion(rng, src)).replace('"', '&quot;'))
        else:
            body += '<p>%s<p>%s' % (P(), inline(0))
        body += rng.choice(['', '', '\n', '\r\n', '  \n', ' tail '])
    if not small and rng.random() < .04 and body:
        body = body * (1 + 70000 // (len(body.encode()) + 1))
    b = None if small else big(rng, src, .03)
    if b:
        body += '<p>%s</p>' % esc(b)
    x = rng.random()
    if x < .5:
        s = rng.choice(['<!DOCTYPE html>\n', '<!doctype html>', '', '<!DOCTYPE html PUBLIC "-//W3C//DTD XHTML 1.0 Strict//EN" "http://www.w3.org/TR/xhtml1/DTD/xhtml1-strict.dtd">\n'])
        s += '<html lang="x"><head>%s<title>%s</title></head><body>%s</body></html>' % (rng.choice(['', '<meta charset="utf-8">', '<link rel="stylesheet" href="a.css">', '<meta name="d" content="%s">' % esc(portion(rng, src)).replace('"', '&quot;')]), P(), body)
        s += rng.choice(['', '\n'])
    elif x < .9:
        s = body
    else:
        s = P()
    return s.encode('utf8')


def xesc(s):
    s = ''.join(c for c in s if c in '\t\n\r' or ' ' <= c and c not in '\ufffe\uffff' and not 0xd800 <= ord(c) < 0xe000)
    return esc(s)


def word_xml(rng, src, root, n, small):
    out = '<?xml version="1.0" encoding="UTF-8" standalone="yes"?>' + rng.choice(['\n', '\r\n', ''])
    if rng.random() < .15:
        out += '<?mso-application progid="Word.Document"?>'
    if rng.random() < .1:
        out += '<!-- %s -->' % xesc(portion(rng, src)).replace('--', '')
    out += '<w:%s xmlns:w="%s" xmlns:m="http://schemas.openxmlformats.org/officeDocument/2006/math" xmlns:a="http://schemas.openxmlformats.org/drawingml/2006/main"><w:body>' % (root, W_NS)
    for _ in range(n):
        out += '<w:p w:rsidR="00A1" w:name="%s">' % xesc(portion(rng, src)).replace('"', '&quot;').replace('\n', ' ')
        for _ in range(rng.choice([1, 1, 2, 3])):
            x = rng.random()
            t = xesc(portion(rng, src))
            if x < .6:
                out += '<w:r><w:rPr><w:b/></w:rPr><w:t%s>%s</w:t></w:r>' % (rng.choice(['', ' xml:space="preserve"']), t)
            elif x < .66:
                out += '<w:r>' + rng.choice(['<w:t/>', '<w:t></w:t>', '<w:t xml:space="preserve"> </w:t>']) + '</w:r>'
            elif x < .72:
                out += '<w:r><w:delText>%s</w:delText></w:r>' % t
            elif x < .78:
                out += '<w:r><w:instrText>PAGE %s</w:instrText><w:tab/></w:r>' % t
            elif x < .83:
                out += '<m:oMath><m:r><m:t>%s</m:t></m:r></m:oMath>' % t
            elif x < .88:
                out += '<a:t>%s</a:t>tail %s' % (t, t)
            elif x < .93:
                out += '<!-- %s --><?pi %s?>' % (t.replace('--', '').rstrip('-'), t.replace('?>', ''))
            elif x < .96:
                out += '<w:tbl><w:tr><w:tc><w:p><w:r><w:t>%s</w:t></w:r></w:p></w:tc></w:tr></w:tbl>' % t
            else:
                out += '<w:r><w:t>%s<w:x/>%s</w:t>%s</w:r>' % (t, t, t)
        out += '</w:p>'
    b = None if small else big(rng, src, .02)
    if b:
        out += '<w:p><w:r><w:t xml:space="preserve">%s</w:t></w:r></w:p>' % xesc(b)
    out += '<w:sectPr><w:pgSz w:w="12240"/></w:sectPr></w:body></w:%s>' % root
    if rng.random() < .06:
        return ('\ufeff' + out.replace('encoding="UTF-8"', 'encoding="UTF-16"')).encode('utf-16-le')
    return out.encode('utf8')


def docx_source(rng, src, small=False, bad=None):
    m = []
    n = rng.choice([1, 2]) if small else rng.choice([0, 1, 3, 5])
    m.append(('[Content_Types].xml', b'<?xml version="1.0"?><Types xmlns="x"><Default Extension="xml"/></Types>'))
    m.append(('_rels/.rels', b'<?xml version="1.0"?><Relationships/>'))
    big = not small and rng.random() < .05
    m.append(('word/document.xml', word_xml(rng, src, 'document', n * (40 if big else 1), small)))
    opt = [('word/header1.xml', lambda: word_xml(rng, src, 'hdr', 1, small)),
           ('word/footnotes.xml', lambda: word_xml(rng, src, 'footnotes', 1, small)),
           ('word/comments.xml', lambda: word_xml(rng, src, 'comments', 1, small)),
           ('word/glossary/document.xml', lambda: word_xml(rng, src, 'glossaryDocument', 1, small)),
           ('word/styles.xml', lambda: ('<?xml version="1.0"?><w:styles xmlns:w="%s"><w:style w:name="%s"/></w:styles>' % (W_NS, 'x')).encode()),
           ('word/_rels/document.xml.rels', lambda: b'<?xml version="1.0"?><Relationships><Relationship Target="media/image1.png"/></Relationships>'),
           ('word/media/image1.png', lambda: rng.randbytes(rng.choice([0, 10, 3000, 5000, 9000, 70000, 70000, 140000] + [1200000] * (rng.random() < .1)) if not small else 40)),
           ('word/embeddings/o.bin', lambda: rng.randbytes(100)),
           ('word/', lambda: b''),
           ('customXml/item1.xml', lambda: word_xml(rng, src, 'document', 1, small)),
           ('docProps/core.xml', lambda: ('<?xml version="1.0"?><c><title>%s</title></c>' % xesc(portion(rng, src))).encode()),
           ('sword/document.xml', lambda: word_xml(rng, src, 'document', 1, small)),
           ('word/notes.xml.bak', lambda: word_xml(rng, src, 'document', 1, small)),
           ('word/\u0915.bin', lambda: b'abc'),
           ('docProps/thumb.jpeg', lambda: rng.randbytes(50))]
    for name, f in rng.sample(opt, rng.choice([0, 1, 2] if small else [1, 3, 6])):
        m.insert(rng.randrange(1, len(m) + 1), (name, f()))
    out = io.BytesIO()
    with zipfile.ZipFile(out, 'w') as z:
        for name, data in m:
            zi = zipfile.ZipInfo(name, (2020, 1, 2, 3, 4, 6))
            zi.compress_type = zipfile.ZIP_DEFLATED if rng.random() < .7 and not name.endswith('/') else zipfile.ZIP_STORED
            z.writestr(zi, data)
    return out.getvalue()


# ---------------------------------------------------------------- what must come out
class CannotSay(Exception):
    """A portion of the document has no conversion of its own (the direct call raises)."""


def conv(d, W, text):
    o = {'f': 'convert', 'src': d['src'], 'tgt': d['tgt'], 'txt': text}
    for k in ('nativize', 'pre', 'post'):
        if k in d:
            o[k] = d[k]
    r = W.ref(o)
    if r[0] != 'v' or not isinstance(r[1], str) or r[1].startswith('repr:'):
        raise CannotSay(gens.short(r))
    return r[1]


def flat(soup):
    from bs4 import Tag
    from bs4.element import PreformattedString, Script, Stylesheet, NavigableString
    out = []

    def walk(n):
        if isinstance(n, Tag):
            if n.name != '[document]':
                out.append(['<', n.name, sorted((k, ' '.join(v) if isinstance(v, list) else str(v)) for k, v in n.attrs.items())])
            for c in n.children:
                walk(c)
            if n.name != '[document]':
                out.append(['>', n.name])
        elif isinstance(n, (PreformattedString, Script, Stylesheet)):
            out.append([type(n).__name__, str(n)])
        elif out and out[-1][0] == 't':
            out[-1][1] += str(n)
        else:
            out.append(['t', str(n)])
    walk(soup)
    return out


def soup_of(s):
    from bs4 import BeautifulSoup
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return BeautifulSoup(s)


def expected_html(d, W, html):
    from bs4.element import PreformattedString, Script, Stylesheet
    soup = soup_of(html)
    n = 0
    for node in list(soup.find_all(string=True)):
        if isinstance(node, (PreformattedString, Script, Stylesheet)):
            continue
        node.replace_with(conv(d, W, str(node)))
        n += 1
    return flat(soup_of(str(soup))), n


def check_html(d, W, html, out):
    want, n = expected_html(d, W, html)
    got = flat(soup_of(out))
    if got == want:
        return None, n
    k = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
    return 'at piece %d the output has %s instead of %s' % (k, gens.short(got[k:k + 2]), gens.short(want[k:k + 2])), n


def xml_expected(d, W, data):
    from lxml import etree
    tree = etree.parse(io.BytesIO(data))
    n = 0
    for e in tree.getroot().iter(T_TAG):
        if e.text:
            try:
                e.text = conv(d, W, e.text)
            except ValueError as x:
                raise CannotSay(str(x))
            n += 1
    return tree, n


def canon(tree):
    from lxml import etree
    return etree.tostring(tree, method='c14n')


def check_docx(d, W, src, out):
    from lxml import etree
    a = zipfile.ZipFile(io.BytesIO(src))
    want, n = [], 0
    for i in a.infolist():
        if i.filename.startswith('word/') and i.filename.endswith('.xml'):
            t, k = xml_expected(d, W, a.read(i))
            n += k
            want.append((i.filename, 'xml', t))
        else:
            want.append((i.filename, 'raw', a.read(i)))
    try:
        b = zipfile.ZipFile(io.BytesIO(out))
        bad = b.testzip()
    except Exception as e:
        return 'the output is no readable archive: %r' % e, n
    if bad:
        return 'damaged member ' + bad, n
    names = [i.filename for i in b.infolist()]
    if names != [w[0] for w in want]:
        return 'members %s instead of %s' % (names, [w[0] for w in want]), n
    for i, (name, k, w) in zip(b.infolist(), want):
        got = b.read(i)
        if k == 'raw':
            if got != w:
                return 'member %s is not preserved (%d bytes instead of %d)' % (name, len(got), len(w)), n
        else:
            try:
                g = canon(etree.parse(io.BytesIO(got)))
            except Exception as e:
                return 'member %s is no longer XML: %r' % (name, e), n
            c = canon(w)
            if g != c:
                j = next((q for q, (x, y) in enumerate(zip(g, c)) if x != y), min(len(g), len(c)))
                return 'member %s differs: ...%s instead of ...%s' % (name, gens.short(g[max(0, j - 40):j + 60].decode('utf8', 'replace')), gens.short(c[max(0, j - 40):j + 60].decode('utf8', 'replace'))), n
    return None, n


def check(d, W, out):
    """Is `out` (bytes of the output file, or the returned text or archive) the faithful conversion? -> (message, portions)"""
    src = ub(d['data'])
    if d['kind'] == 'txt':
        want = conv(d, W, src.decode('utf8')).encode('utf8', 'surrogatepass')
        if out != want:
            k = next((i for i, (a, b) in enumerate(zip(out, want)) if a != b), min(len(out), len(want)))
            return 'the text differs at byte %d: %r instead of %r (%d bytes instead of %d)' % (k, out[max(0, k - 20):k + 30], want[max(0, k - 20):k + 30], len(out), len(want)), 1
        return None, 1
    if d['kind'] in ('html', 'htm'):
        s = src.decode('utf8')
        try:
            o = out if isinstance(out, str) else out.decode('utf8')
        except UnicodeDecodeError as e:
            return 'the output is not UTF-8: %s' % e, 0
        if not d['api']:
            s = s.replace('\r\n', '\n').replace('\r', '\n')
        return check_html(d, W, s, o)
    return check_docx(d, W, src, out)


def check_outcome(d, W, o, outbytes):
    """Outcome of the call plus content of the output path -> (message, portions); None message = faithful."""
    if d['api']:
        v = o[1]
        if d['kind'] == 'docx':
            if not isinstance(v, dict) or 'b64' not in v:
                return 'returned ' + gens.short(v), 0
            return check(d, W, ub(v['b64']))
        if not isinstance(v, str):
            return 'returned ' + gens.short(v), 0
        return check(d, W, v)
    if outbytes is None:
        return 'no output file', 0
    return check(d, W, outbytes)


def tree(root):
    out = {}
    for p, ds, fs in os.walk(root):
        ds.sort()
        for n in sorted(ds + fs):
            q = os.path.join(p, n)
            r = os.path.relpath(q, root)
            st = os.lstat(q)
            if stat.S_ISLNK(st.st_mode):
                out[r] = ['l', os.readlink(q)]
            elif stat.S_ISDIR(st.st_mode):
                out[r] = ['d', st.st_mode & 0o7777]
            else:
                with open(q, 'rb') as f:
                    out[r] = ['f', st.st_mode & 0o7777, b64(f.read())]
    return out


def neighbours(rng, docs_):
    """Other files lying around: old outputs and near misses of every name the converter might use."""
    out = []
    for d in docs_:
        if d['api']:
            continue
        base, ext = os.path.splitext(d['path'])
        c = [base + ext + '.bak', base + ext + '.tmp', base + '.tmp', base + '~', base + '_' + d['src'] + ext, base + '_' + d['tgt'] + ext, base + '_tmp' + ext, os.path.join(os.path.dirname(d['path']), 'other' + ext),
             base + '_' + d['tgt'] + d['src'] + ext, base + '.out', out_path(d) + '.tmp', out_path(d) + '.part', os.path.join(os.path.dirname(d['path']), '.' + os.path.basename(d['path']) + '.swp'), base + '.xml', base + '.zip']
        for p in rng.sample(c, rng.choice([0, 2, 4])):
            out.append({'p': p, 'd': b64(b'neighbour ' + p.encode())})
    seen, res = {d['path'] for d in docs_} | {out_path(d) for d in docs_}, []
    for f in out:
        if f['p'] not in seen:
            seen.add(f['p'])
            res.append(f)
    return res


def old_output(rng, d):
    """An output left by an earlier run."""
    x = rng.random()
    data = b'old output ' * rng.choice([1, 50, 9000]) if x < .8 else b''
    return {'p': out_path(d), 'd': b64(data)}


def simpler_doc(d):
    """Smaller documents of the same kind."""
    data = ub(d['data'])
    if d['kind'] == 'docx':
        try:
            z = zipfile.ZipFile(io.BytesIO(data))
            names = z.namelist()
        except Exception:
            return
        for n in names:
            if len(names) > 1:
                yield _re(d, _zip([(i.filename, z.read(i)) for i in z.infolist() if i.filename != n]))
        for i in z.infolist():
            s = z.read(i)
            if i.filename.endswith('.xml') and b'<w:p ' in s:
                ps = re.findall(rb'<w:p .*?</w:p>', s, re.S)
                for p in ps[:6]:
                    if len(ps) > 1:
                        yield _re(d, _zip([(j.filename, s.replace(p, b'', 1) if j.filename == i.filename else z.read(j)) for j in z.infolist()]))
    else:
        try:
            s = data.decode('utf8')
        except UnicodeDecodeError:
            return
        n = len(s)
        if n > 1:
            for a in (s[:n // 2], s[n // 2:], s[:3 * n // 4], s[n // 4:]):
                yield _re(d, a.encode())
            if n <= 60:
                for i in range(n):
                    yield _re(d, (s[:i] + s[i + 1:]).encode())
    for k in ('pre', 'post', 'nativize'):
        if k in d:
            e = {a: b for a, b in d.items() if a != k}
            yield _re(e, data)


def _zip(m):
    out = io.BytesIO()
    with zipfile.ZipFile(out, 'w') as z:
        for n, s in m:
            z.writestr(zipfile.ZipInfo(n, (2020, 1, 2, 3, 4, 6)), s)
    return out.getvalue()


def _re(d, data):
    e = dict(d, data=b64(data))
    e['op'] = op_of(e)
    e['file'] = {'p': e['path'], 'd': e['data']}
    return e
