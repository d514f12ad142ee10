"""Workload: calls taken from the frozen corpus, and systematic variations of them."""
import json, os, unicodedata

HERE = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(HERE, 'data', 'corpus.json'), encoding='utf8') as _f:
    C = json.load(_f)
OPS, CLUSTERS, CORE, TEXTS = C['ops'], C['clusters'], C['core'], C['texts']
INDIC, LATIN, SEM = C['scripts']['indic'], C['scripts']['latin'], C['scripts']['semitic']
ISO, JAP = C['scripts']['iso'], C['scripts']['japanese']
ALL = INDIC + LATIN + SEM + ISO + JAP
SLOW_OPT = {'KhmerWordSplit'}
PRE = [o for o in C['pre'] if o in C['eff_pre']]
POST = [o for o in C['post'] if o in C['eff_post'] and o not in SLOW_OPT]
BY_SRC, BY_TGT, BY_PAIR = {}, {}, {}
for _i, _o in enumerate(OPS):
    if _o['f'] in ('process', 'convert', 'convert_default') and 'param' not in _o:
        BY_SRC.setdefault(_o['src'], []).append(_i)
        BY_TGT.setdefault(_o['tgt'], []).append(_i)
        BY_PAIR.setdefault((_o['src'], _o['tgt']), []).append(_i)
BY_F = {}
for _i, _o in enumerate(OPS):
    BY_F.setdefault(_o['f'] + (':' + _o['param'] if 'param' in _o else ''), []).append(_i)


def cp(op):
    return {k: (list(v) if isinstance(v, list) else v) for k, v in op.items()}


def is_net(op):
    """Would ask the remote service."""
    s, t = str(op.get('src', '')).lower(), str(op.get('tgt', '')).lower()
    return t.endswith('ipa') and (s in ('ta', 'autodetect') or 'tam' in s)


def heavy(op):
    """Old Persian writes a number with one sign for each hundred: a long number is a text of megabytes, or more than there is memory."""
    if 'oldpersian' not in str(op.get('tgt', '')).lower():
        return False
    if not isinstance(op.get('txt'), str):
        return False
    return any(sum(unicodedata.category(c)[0] == 'N' for c in w) > 5 for w in op['txt'].split())


def unfit(op):
    return is_net(op) or heavy(op)


_CH = {}


def chars(s):
    """The characters of a script: those of its sample texts, and all of the Unicode blocks they come from."""
    if s not in _CH:
        own = sorted({c for t in TEXTS.get(s) or TEXTS['Devanagari'] for c in t if not c.isspace()})
        block = set()
        for b in {ord(c) >> 7 for c in own if ord(c) > 127}:
            if sum(1 for c in own if ord(c) >> 7 == b) >= 4:
                block |= {chr(k) for k in range(b << 7, (b + 1) << 7) if unicodedata.category(chr(k)) not in ('Cn', 'Cs', 'Co', 'Cc')}
        _CH[s] = own, sorted(block) or own
    return _CH[s]


MISC = '.,;:!?()[]{}<>"\'-_/|*#%&=+~^`@$0123456789।॥॰\u200c\u200d\u00a0\u0301\u0308\u0323\u0331\u0952\u1cda\u25cc\u2013\u201cäéßñĀŚ๐٣中あА😀\ufb1d'


def soup(rng, s, n=None):
    """Any characters of a script in any order: rare signs, impossible clusters."""
    own, block = chars(s)
    p = rng.choice([.1, .5, .9, 1])
    n = n or rng.choice([2, 5, 15, 40, 120])
    out = []
    while len(out) < n:
        for _ in range(rng.choice([1, 2, 3, 5, 8])):
            out.append(rng.choice(block if rng.random() < p else own) if rng.random() < .95 else rng.choice(MISC))
        if rng.random() < .8:
            out.append(' ')
    return ''.join(out)


def text(rng, s):
    l = TEXTS.get(s) or TEXTS['Devanagari']
    if rng.random() < .12:
        return soup(rng, s)
    return rng.choice(l)


DET = [s for s in ('Thai', 'Lao', 'LaoPali', 'Urdu', 'Shahmukhi') if TEXTS.get(s)]


def detectable(rng):
    """A call that leaves the script, and with some texts the options, to the library."""
    s = rng.choice(DET) if rng.random() < .7 else rng.choice(ALL)
    t = text(rng, s)
    if s == 'Thai' and rng.random() < .6:
        t += ' ' + rng.choice(['ธมฺมํ', 'กะ', 'พุท์ธะ', 'พุทธ์', 'ก็', 'กัน', 'ห์', 'งํ'])
    elif s in ('Lao', 'LaoPali') and rng.random() < .6:
        t += ' ' + rng.choice(['ທັມ໌ມະ', 'ກະ ', 'ພຸທ໌', 'ກັນ', 'ຫ໌'])
    op = {'f': 'process', 'src': 'autodetect' if rng.random() < .7 else s, 'tgt': rng.choice(INDIC + LATIN), 'txt': t}
    x = rng.random()
    if x < .4:
        op['pre'], op['post'] = [[o] if o else [] for o in (rng.choice(EFFPRE.get(s, PRE)), rng.choice(EFF.get(op['tgt'], POST)))]
        if rng.random() < .5:
            op.pop(rng.choice(['pre', 'post']))
    if unfit(op):
        op['tgt'] = 'IAST'
    return op


def long_text(rng, s, n=None):
    l = TEXTS.get(s) or TEXTS['Devanagari']
    n = n or rng.choice([300, 700, 1500, 3000])
    out, k = [], 0
    while k < n:
        t = rng.choice(l)
        out.append(t)
        k += len(t) + 1
    return rng.choice([' ', '\n', '\n\n', ' | ']).join(out)


LOC = [s for s in ('Burmese Shan Khmer KhuenTham TaiTham LaoTham LueTham Kannada Tamil Malayalam Sinhala Telugu Oriya Assamese Bengali Gujarati Devanagari Balinese Javanese BatakKaro BatakManda '
                   'BatakPakpak BatakSima BatakToba Gurmukhi Tibetan Limbu').split() if s in ALL]
EFF = {}
for _o, _l in C['eff_post'].items():
    for _s, _t in _l:
        if _o not in SLOW_OPT:
            EFF.setdefault(_t, []).append(_o)
EFFPRE = {}
for _o, _l in C['eff_pre'].items():
    for _s, _i in _l:
        EFFPRE.setdefault(_s, []).append(_o)


# options the converter knows by name, with the pairs where they count: (option, before?, source, target)
NAMED = [('indicDandas', 0, None, None), ('indicDandas', 0, None, None), ('romanNumerals', 0, None, None), ('indicNumerals', 0, None, None), ('romanFullStop', 0, None, None), ('RemoveDiacritics', 0, None, None),
         ('arabicRemoveAdditionsPhonetic', 0, None, 'Arab'), ('siddhammukta', 0, None, 'Siddham'), ('siddhamap', 0, None, 'Siddham'), ('siddhammukta', 1, 'Siddham', None), ('LaoNative', 0, None, 'Lao'),
         ('egrantamil', 1, 'Grantha', None), ('egrantamil', 0, None, 'Grantha'), ('nepaldevafont', 0, None, 'Newa'), ('ranjanalantsa', 0, None, 'Ranjana'), ('ranjanawartu', 0, None, 'Ranjana'), ('BengaliRaBa', 0, None, 'Bengali'),
         ('SoyomboFinals', 0, None, 'Soyombo'), ('BalineseSimplified', 0, 'Balinese', None), ('JavaneseSimplified', 0, 'Javanese', None), ('novowelshebrew', 1, 'Hebr', None), ('eiaudipthongs', 1, 'Japanese', None),
         ('wasvnukta', 1, 'Japanese', None), ('vtobJapanese', 0, None, 'Japanese'), ('siddhammukta', 0, 'Japanese', 'Siddham')]


def options(rng, s, t, n=None):
    """Options that matter for this pair, mostly."""
    n = rng.choice([0, 0, 1, 1, 2]) if n is None else n
    pre, post = [], []
    for _ in range(n):
        x = rng.random()
        if rng.random() < .3:
            # the ones the converter itself knows by name
            c = [x for x in NAMED if x[2] in (None, s) and x[3] in (None, t)]
            o = rng.choice(c)
            (pre if o[1] else post).append(o[0])
        elif x < .5 and t in EFF:
            post.append(rng.choice(EFF[t]))
        elif x < .8 and s in EFFPRE:
            pre.append(rng.choice(EFFPRE[s]))
        elif x < .9:
            post.append(rng.choice(POST))
        else:
            pre.append(rng.choice(PRE))
    return pre, post


def special_pair(rng):
    """A pair that takes one of the special ways through the converter."""
    x = rng.random()
    if x < .3:
        return rng.choice(LOC), 'RomanLoC'
    if x < .45:
        return 'RomanLoC', rng.choice(LOC)
    if x < .6:
        return rng.choice(ALL), rng.choice(ISO)
    if x < .7:
        return rng.choice([i for i in ISO if i != 'PersianDMG']), rng.choice(ALL)
    if x < .75:
        return rng.choice(JAP), rng.choice(INDIC + LATIN)
    if x < .8:
        return rng.choice(INDIC + LATIN), rng.choice(JAP)
    if x < .88:
        s = rng.choice(INDIC)
        return s, s
    return rng.choice(['Hebrew', 'Thaana', 'Urdu', 'Shahmukhi']), rng.choice(SEM + ['Hebrew', 'Thaana', 'Urdu', 'Shahmukhi'])


def opt_op(rng, s, t, n=None, txt=None):
    if txt is None and rng.random() < .12:
        o = rng.choice([x for x in NAMED if x[2] or x[3]])
        s, t = o[2] or s, o[3] or t
    pre, post = options(rng, s, t, n)
    op = {'f': rng.choice(['process', 'convert', 'convert_default', 'convert']), 'src': s, 'tgt': t, 'txt': txt if txt is not None else text(rng, s)}
    if op['f'] == 'convert' or pre:
        op['pre'] = pre
    if op['f'] == 'convert' or post:
        op['post'] = post
    if rng.random() < .25:
        op['nativize'] = False
    if heavy(op):
        op['tgt'] = 'IAST'
    return op if not is_net(op) else opt_op(rng, 'Telugu', t if t != 'IPA' else 'IAST', n)


def remix(rng, t, u):
    """A text that a careless cache key would take for t."""
    x = rng.randrange(10)
    if x == 0:
        k = max(1, len(t) // 2)
        return t[:k] + u[:max(1, len(t) - k)]
    if x == 1:
        k = max(1, len(t) // 2)
        return u[:max(1, len(t) - k)] + t[-k:]
    if x == 2:
        return (u * (len(t) // max(1, len(u)) + 1))[:len(t)]
    if x == 3:
        l = t.split(' ')
        rng.shuffle(l)
        return ' '.join(l)
    if x == 4:
        l = list(t)
        rng.shuffle(l)
        return ''.join(l)
    if x == 5:
        return ' '.join(t.split()) + ' '
    if x == 6:
        return t.swapcase()
    if x == 7:
        return t[:-1] + (u[:1] or 'a')
    if x == 8:
        return t + u
    return t.replace(' ', '\n')


def alike(rng, n):
    """Calls whose texts a coarse key confuses: common beginnings, ends, lengths, letters."""
    f = rng.choice(['process', 'convert', 'convert_default', 'auto_detect', 'process', 'autoprocess'])
    s, t = rng.choice(ALL), rng.choice(INDIC + LATIN)
    if unfit({'src': s, 'tgt': t}):
        s = 'Telugu'
    head = rng.choice(['', '1234567890. ', '(1) ', '   ', '“', '॥ 12 ॥ ' * 3, '-' * 40, '0123456789 ' * 12])
    base = text(rng, s) if rng.random() < .6 else long_text(rng, s, rng.choice([80, 200, 600]))
    out = []
    for _ in range(n):
        if rng.random() < .5 and out:
            s2 = s if rng.random() < .5 else rng.choice(ALL)
            tx = remix(rng, base, long_text(rng, s2, len(base)) if len(base) > 60 else text(rng, s2))
        else:
            tx = base if rng.random() < .3 else long_text(rng, s if f not in ('auto_detect', 'autoprocess') else rng.choice(ALL), len(base))
        tx = head + tx
        if f == 'auto_detect':
            out.append({'f': f, 'txt': tx})
        elif f == 'autoprocess':
            out.append({'f': 'process', 'src': 'autodetect', 'tgt': 'IAST', 'txt': tx})
        else:
            o = {'f': f, 'src': s, 'tgt': t, 'txt': tx}
            if f == 'convert':
                o.update(pre=[], post=[])
            if rng.random() < .15:
                o['nativize'] = False
            out.append(o)
    return out


GROUPS = [g for g in (INDIC, LATIN, SEM, ISO, JAP, [s for s in ('Hebr', 'Grek', 'Nbat', 'Palm', 'Sogo', 'Arab', 'Syrc', 'Latn') if s in SEM]) if g]


def group_of(s):
    return [g for g in GROUPS if s in g]


def kin(rng, op):
    """A call that goes the same way through the converter as op: scripts of the same groups."""
    gs, gt = group_of(op.get('src')), group_of(op.get('tgt'))
    if not gs or not gt or 'param' in op:
        return sibling(rng, op)
    s = op['src'] if rng.random() < .3 else rng.choice(rng.choice(gs))
    t = op['tgt'] if rng.random() < .2 else rng.choice(rng.choice(gt))
    o = opt_op(rng, s, t, rng.choice([0, 0, 0, 1]))
    return o if not unfit(o) else sibling(rng, op)


def same_way(rng, n):
    """Calls that all go one way through the converter, between scripts of two groups."""
    a, b = rng.choice(GROUPS), rng.choice(GROUPS)
    ss, ts = [rng.choice(a) for _ in range(rng.choice([1, 2, 4]))], [rng.choice(b) for _ in range(rng.choice([2, 3, 5]))]
    return [opt_op(rng, rng.choice(ss), rng.choice(ts), rng.choice([0, 0, 0, 1])) for _ in range(n)]


def theme(rng, n):
    """Many calls about one subject: a few pairs with all sorts of options, one special way through the converter, or texts that look alike."""
    out = []
    if rng.random() < .15:
        return [o for o in same_way(rng, n) if not unfit(o)] or [gen_op(rng)]
    x = rng.random()
    if HOT and rng.random() < .4:
        while len(out) < n:
            out += hot_group(rng, rng.choice([2, 5, 12]))
            out += [gen_op(rng) for _ in range(rng.choice([0, 2, 6]))]
    elif x < .35:
        pairs = []
        for _ in range(rng.choice([1, 2, 4, 6])):
            if rng.random() < .3:
                pairs.append(special_pair(rng))
            else:
                o = gen_op(rng)
                pairs.append((o['src'], o['tgt']) if o.get('src') in ALLSET and o.get('tgt') in ALLSET else (rng.choice(INDIC), rng.choice(ALL)))
        while len(out) < n:
            s, t = rng.choice(pairs)
            out.append(opt_op(rng, s, t))
    elif x < .6:
        # half of them plain, so that what an option leaves behind shows
        while len(out) < n:
            s, t = special_pair(rng)
            out.append(opt_op(rng, s, t, rng.choice([0, 1, 2])))
            out.append(opt_op(rng, s, t, 0))
    elif x < .75:
        while len(out) < n:
            out += alike(rng, rng.choice([5, 12, 30]))
    elif x < .8:
        while len(out) < n:
            out.append(detectable(rng))
            if rng.random() < .4:
                out.append(sibling(rng, out[-1]))
    elif x < .92:
        while len(out) < n:
            out += related(rng, rng.choice([4, 8, 16]))
    else:
        while len(out) < n:
            out.append(gen_op(rng))
    out = [o for o in out[:n] if not unfit(o)]
    rng.shuffle(out)
    return out


HOT = []       # [call, what it alters for good or for a moment], found by the scouts in the tree under test


def hot_group(rng, n):
    """Calls that alter the same thing, and neighbours of theirs."""
    o, mods = rng.choice(HOT)
    same = [h for h in HOT if set(h[1]) & set(mods)]
    out = []
    while len(out) < n:
        x = rng.random()
        h = cp(rng.choice(same)[0]) if x < .75 or not out else cp(rng.choice(out))
        if x > .6:
            h = sibling(rng, h)
        if not unfit(h):
            out.append(h)
    return out


def rand_op(rng):
    x = rng.random()
    if HOT and rng.random() < .35:
        return hot_group(rng, 1)[0]
    if rng.random() < .08:
        return opt_op(rng, *special_pair(rng))
    if x < .35:
        return cp(OPS[rng.randrange(len(OPS))])
    if x < .5:
        return cp(OPS[rng.choice(CORE)])
    if x < .6:
        return cp(OPS[rng.choice(BY_F[rng.choice(sorted(BY_F))])])
    if x < .75:
        s = rng.choice(ALL)
        return detectable(rng) if rng.random() < .1 else fresh_op(rng, s, rng.choice(ALL))
    if x < .88:
        o = rng.choice(POST)
        s, t = rng.choice(C['eff_post'][o])
        return fresh_op(rng, s, t, post=[o])
    o = rng.choice(PRE)
    s, i = rng.choice(C['eff_pre'][o])
    op = fresh_op(rng, s, rng.choice(INDIC + LATIN), pre=[o])
    if i < len(TEXTS.get(s, ())):
        op['txt'] = TEXTS[s][i]
    return op


def fresh_op(rng, s, t, txt=None, f=None, **kw):
    op = {'f': f or rng.choice(['process', 'convert', 'convert_default']), 'src': s, 'tgt': t, 'txt': txt if txt is not None else text(rng, s)}
    if op['f'] == 'convert' and s in ('Urdu', 'Shahmukhi', 'Thaana', 'Hebrew') and False:
        pass
    op.update(kw)
    if rng.random() < .3:
        op['nativize'] = False
    if heavy(op):
        op['tgt'] = 'IAST'
    return op if not is_net(op) else fresh_op(rng, 'Telugu', t if t != 'IPA' else 'IAST', None, f, **kw)


def gen_op(rng):
    for _ in range(20):
        op = rand_op(rng)
        if not unfit(op):
            return op
    return cp(OPS[0])


def sibling(rng, op):
    """A call that differs from op in little: what a too coarse cache key or a leftover would confuse."""
    o = {k: v for k, v in cp(op).items() if not (k in ('pre', 'post') and isinstance(v, str))}
    if o['f'] == 'convert':
        o.setdefault('pre', [])
        o.setdefault('post', [])
    f = o['f']
    for _ in range(6):
        k = rng.randrange(16)
        if k == 0 and f in ('process', 'convert', 'convert_default'):
            if o.pop('nativize', True):
                o['nativize'] = False
        elif k == 1 and 'tgt' in o and 'param' not in o:
            o['tgt'] = rng.choice(ALL)
        elif k == 2 and 'src' in o and 'param' not in o and f != 'tr':
            o['src'] = rng.choice(ALL)
        elif k == 3 and 'txt' in o:
            t = o['txt']
            o['txt'] = remix(rng, t, text(rng, rng.choice([o.get('src'), rng.choice(ALL)]))) if rng.random() < .4 else rng.choice([t + 'x', t + ' ' + t, t[:-1], t[1:], t.upper(), t.lower(), t[::-1], t + '\n', ' ' + t, unicodedata.normalize('NFD', t), unicodedata.normalize('NFC', t), t.replace(' ', '\u00a0'), t + '।', '12' + t])
        elif k == 4 and f in ('process', 'convert_default', 'convert'):
            o['post'] = o.get('post', []) + [rng.choice(POST)]
        elif k == 5 and f in ('process', 'convert_default', 'convert'):
            o['pre'] = o.get('pre', []) + [rng.choice(PRE)]
        elif k == 6 and o.get('post'):
            o['post'] = o['post'][:-1]
        elif k == 7 and o.get('pre'):
            o['pre'] = o['pre'][:-1]
        elif k == 8 and len(o.get('post', ())) > 1:
            o['post'] = o['post'][::-1]
        elif k == 9 and (o.get('post') or o.get('pre')):
            a, b = o.get('post', []), o.get('pre', [])
            if f == 'convert':
                continue
            o['post'], o['pre'] = b, a
        elif k == 10 and f in ('process', 'convert_default') and 'param' not in o and (o.get('post') or o.get('pre')):
            for q in ('post', 'pre'):
                if o.get(q):
                    o[q] = [x.lower() for x in o[q]]
        elif k == 11 and f in ('process', 'convert_default', 'convert') and 'param' not in o:
            o['src'], o['tgt'] = o['tgt'], o['src']
            if o['src'] not in TEXTS:
                continue
            o['txt'] = text(rng, o['src'])
        elif k == 12 and f in ('process', 'convert_default') and 'param' not in o:
            o['f'] = 'convert_default' if f == 'process' else 'process'
        elif k == 13 and f == 'process' and 'param' not in o and o['src'] in ALL:
            o['src'] = 'autodetect'
        elif k == 14 and 'src' in o and 'param' not in o and o.get('src') in TEXTS:
            o['txt'] = text(rng, o['src'])
        elif k == 15 and f == 'process' and 'param' not in o:
            o['src'] = rng.choice([o['src'].lower(), o['src'].upper(), 'Klingon'])
        else:
            continue
        if unfit(o):
            return cp(op)
        if f == 'convert' or o['f'] == 'convert':
            # `convert` takes exact names only; anything else is an error of its own, equally fine
            pass
        return o
    return o


def cluster(rng):
    l = rng.choice(CLUSTERS)
    return [OPS[i] for i in l]


def related(rng, n, base=None):
    """n calls likely to touch the same code and data."""
    x = rng.random()
    out = []
    if HOT and base is None and rng.random() < .5:
        out = hot_group(rng, n)
    elif base is None and x < .55:
        l = cluster(rng)
        for _ in range(n):
            out.append(cp(rng.choice(l)))
    else:
        base = base or gen_op(rng)
        out.append(cp(base))
        while len(out) < n:
            y = rng.random()
            if y < .5:
                out.append(sibling(rng, rng.choice(out)))
            elif y < .7 and base.get('src') in BY_SRC:
                out.append(cp(OPS[rng.choice(BY_SRC[base['src']])]))
            elif y < .9 and base.get('tgt') in BY_TGT:
                out.append(cp(OPS[rng.choice(BY_TGT[base['tgt']])]))
            else:
                out.append(gen_op(rng))
    out = [o if not unfit(o) else gen_op(rng) for o in out]
    rng.shuffle(out)
    return out


def kind(op):
    """Coarse description of a call, for coverage counts."""
    return [op['f'], op.get('src'), op.get('tgt'), op.get('nativize', True), op.get('param')]


def show(op):
    o = {k: v for k, v in op.items() if k not in ('f',)}
    if isinstance(o.get('txt'), str) and len(o['txt']) > 60:
        o['txt'] = o['txt'][:57] + '...'
    for k in ('docx', 'html'):
        if isinstance(o.get(k), str) and len(o[k]) > 60:
            o[k] = o[k][:57] + '...'
    return op['f'] + '(' + ', '.join('%s=%s' % (k, json.dumps(v, ensure_ascii=False)) for k, v in o.items()) + ')'


def short(o, n=160):
    s = json.dumps(o, ensure_ascii=False)
    return s if len(s) <= n else s[:n] + '...'


def same(a, b):
    """Outcome equality. Error messages that name positions or types are compared as they are."""
    return a == b


def cheap(rng, ops, p=.6):
    """Use the entry point without registry for most calls (the YAML parser dominates a cold call otherwise)."""
    for o in ops:
        if o['f'] in ('process', 'convert_default') and 'param' not in o and o.get('src') in ALLSET and o.get('tgt') in ALLSET and rng.random() < p:
            o['f'] = 'convert'
    return ops


ALLSET = set(ALL)
