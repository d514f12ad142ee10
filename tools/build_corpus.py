"""Builds dst/data/corpus.json: sample texts per script and a coverage-guided list of calls.

Run by hand on the base tree (/opt/venv/bin/python tools/build_corpus.py); the result is committed and
frozen, so the workload of the checks does not depend on the tree under test.
"""
import sys, os, json, random, inspect, warnings, io, multiprocessing as mp, glob
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')
from aksharamukha import transliterate as T, GeneralMap as G, PreProcess as PRE, PostProcess as POST, gimeltra
import yaml, logging
logging.disable(logging.CRITICAL)
R = random.Random(4)
TT = '/repo/aksharamukha/test/test_texts/'
INDIC = sorted(G.IndicScripts)
LATIN = sorted(set(G.LatinScripts) - {'Inter'})
SEM = sorted(G.SemiticScripts)
ISO = sorted(G.semiticISO)
JAP = ['Hiragana', 'Katakana']
ALL = INDIC + LATIN + SEM + ISO + JAP


def opts(M, ban=('KhmerWordSplit',)):
    return [n for n, o in inspect.getmembers(M, inspect.isfunction) if n not in ban]


PREO, POSTO = opts(PRE), opts(POST)
ONE_PRE = [n for n in PREO if len(inspect.signature(getattr(PRE, n)).parameters) == 1]
ONE_POST = [n for n in POSTO if len(inspect.signature(getattr(POST, n)).parameters) == 1]


def safe(f, *a, **k):
    try:
        r = f(*a, **k)
        return r if isinstance(r, str) else None
    except Exception:
        return None


DEVA = ['अ आ इ ई उ ऊ ऋ ॠ ऌ ॡ ए ऐ ओ औ ऍ ऑ ऎ ऒ', 'क ख ग घ ङ च छ ज झ ञ ट ठ ड ढ ण त थ द ध न प फ ब भ म', 'य र ल व श ष स ह ळ क्ष ज्ञ ऱ ऴ ऩ',
        'का कि की कु कू कृ कॄ कॢ कॣ के कै को कौ कॅ कॉ कं कः कँ क्', 'क़ ख़ ग़ ज़ ड़ ढ़ फ़ य़', '१२३४५६७८९० ॐ । ॥ ऽ',
        'नमस्ते धर्म कर्म शान्तिः', 'संस्कृतम् गङ्गा पञ्च कण्ठ अन्तः सम्पत् अहं', 'तत्त्व बुद्ध उत्थान सज्जन पक्क सत्त्व',
        'रामः सीतां पश्यति। सः वनं गच्छति॥ २३', 'कमल घर लड़का पुस्तक किताब', 'प्रइ अउ गोऽपि ए॒ष अ॑ग्नि ꣳ',
        'बुद्धं सरणं गच्छामि धम्मं', 'ज्ञान प्रज्ञा ह्न ह्म ह्य ह्र ह्ल ह्व र्क र्ख क्र त्र श्र', 'Buddha (बुद्ध) test-text, 25% ##x## | ||',
        'र्य ऱ्य वाऱ्या अय आई ऐया', 'aham अहम् 😀 ✓ "उक्ति" \'क\'', 'नमः\nशिवाय\tच  इति\n', 'मन्त्र तन्त्र यन्त्र मङ्गलम् सिंह वंश अंश', 'खं फंक त्म ड्य']
LAT = ['namaste dharma karma śāntiḥ', 'saṃskṛtam gaṅgā pañca kaṇṭha', 'tattva buddha utthāna OM om', "rāmaḥ sītāṃ paśyati. saḥ vanaṃ gacchati..", 'a_i a_u so\'ham aï aü prauga', 'Hello World 123 |']
SEMT = {'Hebr': ['שלום עולם', 'בְּרֵאשִׁית בָּרָא אֱלֹהִים אֵת הַשָּׁמַיִם', 'תּוֹרָה לָמֶד כָּל־הָאָרֶץ Test 12'],
        'Arab': ['السلام عليكم', 'بِسْمِ اللَّهِ الرَّحْمَٰنِ الرَّحِيمِ', 'كِتَابٌ مُبِينٌ قَالَ ۱۲'],
        'Arab-Fa': ['سلام جهان', 'فارسی زبان پارسی گچ ژاله', 'مَردُم ایران'], 'Arab-Ur': ['اردو زبان ٹھیک ہے', 'پاکستان ڈاکٹر لڑکا'], 'Arab-Pa': ['پنجابی ݨ بھارت'],
        'Syre': ['ܫܠܡܐ ܥܠܡܐ', 'ܒܪܝܫܝܬ'], 'Syrn': ['ܫܠܵܡܵܐ', 'ܒܪܹܫܝܼܬ݂'], 'Syrj': ['ܫܠܳܡܳܐ'], 'Thaa': ['ދިވެހި ބަސް'], 'Latn': ['šlāmā ʿalmā', 'kitāb malik ḥaqq ṣalāh', 'bərēšīt bārā'],
        'Type': ['shlama', "kit'ab"], 'Hebr-Ar': ['כתאב'], 'Grek': ['λόγος ἀρχή'], 'Phnx': ['𐤀𐤁𐤂𐤃𐤌𐤋𐤊'], 'Ugar': ['𐎀𐎁𐎂𐎎𐎍𐎋'], 'Ethi': ['ሰላም'], 'Samr': ['ࠀࠁࠂࠃ'], 'Egyp': ['𓄿𓇋𓏭']}


def build_texts():
    tx = {s: [] for s in ALL}

    def add(s, t, n=150):
        if t and t.strip() and len(t) <= n and t not in tx[s]:
            tx[s].append(t)
    for s in INDIC + LATIN:
        for d in DEVA:
            add(s, d if s == 'Devanagari' else safe(T.convert, 'Devanagari', s, d, False, [], []))
        for d in DEVA[6:14]:
            add(s, safe(T.convert, 'Devanagari', s, d, True, [], []))
        if s in LATIN:
            for d in LAT:
                add(s, d)
        # every character of the script's own tables
        try:
            for part in (['VowelMap'], ['ConsonantMap'], ['AyogavahaMap'], ['NuktaConsonantMap'], ['NumeralMap'], ['SignMap'], ['Aytham'], ['OmMap'], ['SinhalaConsonantMap', 'SinhalaVowelMap'], ['SouthConsonantMap', 'SouthVowelMap']):
                l = [x for x in G.CrunchSymbols(part, s) if x.strip()]
                add(s, ' '.join(l), 200)
            c, v = G.CrunchSymbols(['ConsonantMap'], s), G.CrunchSymbols(['VowelSignMap'], s)
            vir = G.CrunchSymbols(['ViramaMap'], s)[0]
            add(s, ' '.join(c[i % 33] + v[i] for i in range(len(v))), 200)
            add(s, ' '.join(c[i] + vir + c[(i * 7 + 3) % 33] for i in range(0, 33, 2)), 200)
        except Exception as e:
            pass
    for s in SEM:
        for t in SEMT.get(s, ()):
            add(s, t)
        for b in ('Latn', 'Hebr', 'Arab', 'Syre', 'Type'):
            for t in SEMT[b]:
                if b != s:
                    add(s, safe(T.convert, b, s, t, True, [], []))
        for d in DEVA[6:8]:
            add(s, safe(T.convert, 'Devanagari', s, d, True, [], []))
    for s in ISO:
        for b in ('Hebr', 'Arab', 'Arab-Fa'):
            for t in SEMT[b]:
                add(s, safe(T.convert, {'Hebr': 'Hebrew'}.get(b, b), s, t, True, [], []))
        add(s, LAT[0])
    tx['Hiragana'] = ['なますて', 'ほん', 'きゃっと ん', 'ひらがな text']
    tx['Katakana'] = ['ナマステー', 'ブッダ', 'カタカナ']
    for s in ('Devanagari', 'IAST', 'Thai', 'Burmese', 'Tamil', 'Urdu', 'Tibetan', 'Khmer', 'Sinhala', 'Malayalam', 'Bengali'):
        for n in ('heart', 'lalitavistara'):
            p = TT + ('source_%s_%s.txt' % (s, n) if s in ('Devanagari', 'IAST') else 'test_Devanagari_%s_%s.txt' % (s, n))
            if os.path.exists(p):
                t = open(p, encoding='utf8').read()
                add(s, t[:120])
                add(s, t[200:330])
    for s in ALL:
        l = tx[s]
        R.shuffle(l)
        tx[s] = l[:22]
    return tx


TX = None
mon = sys.monitoring
NEW = []


def cov_on():
    mon.use_tool_id(2, 'cov')

    def line(code, n):
        if '/repo/aksharamukha/' in code.co_filename:
            NEW.append((code.co_filename[20:], n))
        return mon.DISABLE
    BR = set()

    def br(code, off, dest):
        if '/repo/aksharamukha/' not in code.co_filename:
            return mon.DISABLE
        k = (code.co_filename[20:], code.co_firstlineno, off, dest)
        if k not in BR:
            BR.add(k)
            NEW.append(k)
    mon.register_callback(2, mon.events.LINE, line)
    mon.register_callback(2, mon.events.BRANCH, br)
    mon.set_events(2, mon.events.LINE | mon.events.BRANCH)


def run(op):
    try:
        f = op['f']
        if f == 'process':
            r = T.process(op['src'], op['tgt'], op['txt'], op.get('nativize', True), list(op.get('post', [])), list(op.get('pre', [])), op.get('param', 'default'))
        elif f == 'convert_default':
            r = T.convert_default(op['src'], op['tgt'], op['txt'], op.get('nativize', True), list(op.get('post', [])), list(op.get('pre', [])))
        elif f == 'convert':
            r = T.convert(op['src'], op['tgt'], op['txt'], op.get('nativize', True), list(op.get('pre', [])), list(op.get('post', [])))
        elif f == 'auto_detect':
            r = T.auto_detect(op['txt'], op.get('plugin', False))
        elif f == 'detect_pre':
            r = T.detect_preoptions(op['txt'], op['src'])
        elif f == 'tr':
            r = gimeltra.tr(op['txt'], op.get('src'), op.get('tgt', 'Latn'))
        return repr(r)
    except Exception as e:
        return 'E:' + type(e).__name__


def net(op):
    return op.get('src', '').lower() in ('tamil', 'ta', 'taml', 'autodetect', 'tam') and op.get('tgt', '').lower() in ('ipa',) or op.get('tgt', '').lower().endswith('ipa') and op.get('src') in ('Tamil',)


def worker(a):
    """Greedy choice from one chunk of candidates."""
    chunk = a
    cov_on()
    out = []
    for op in chunk:
        if net(op):
            continue
        del NEW[:]
        r = run(op)
        if NEW:
            out.append((len(NEW), op, r[:3] == 'E:'))
    return out


def main():
    global TX
    TX = build_texts()
    eff = {'pre': {}, 'post': {}}
    # where does each option have an effect?
    for o in ONE_PRE:
        l = []
        for s in ALL:
            for i, t in enumerate(TX[s]):
                if safe(getattr(PRE, o), t) not in (None, t):
                    l.append((s, i))
                    break
        eff['pre'][o] = l
    outs = {}
    for s in ALL:
        outs[s] = [(src, x) for src in ('Devanagari', 'IAST', 'Tamil', 'Thai', 'Arab', 'Latn') for t in TX[src][:8] for x in [safe(T.convert, src, s, t, R.random() < .5, [], [])] if x and not (src == 'Tamil' and s == 'IPA')]
    for o in ONE_POST:
        l = []
        for s in ALL:
            for src, x in outs[s]:
                if safe(getattr(POST, o), x) not in (None, x):
                    l.append((src, s))
                    break
        eff['post'][o] = l
    cand = []

    def T_(s, k=None):
        return R.choice(TX[s]) if TX[s] else R.choice(TX['Devanagari'])

    def mk(src, tgt, txt, **k):
        f = R.choice(['process', 'process', 'convert_default', 'convert'])
        op = {'f': f, 'src': src, 'tgt': tgt, 'txt': txt}
        op.update({a: b for a, b in k.items() if b is not None})
        return op
    must = []
    for s in ALL:
        for k in range(3):
            must.append(mk(s, R.choice(INDIC), T_(s), nativize=R.choice([None, False])))
            must.append(mk(s, R.choice(LATIN), T_(s), nativize=R.choice([None, False])))
            must.append(mk(R.choice(INDIC), s, None, nativize=R.choice([None, False])))
            must.append(mk(R.choice(LATIN), s, None, nativize=R.choice([None, False])))
        must.append(mk(s, R.choice(SEM), T_(s)))
        must.append(mk(R.choice(SEM), s, None))
        must.append(mk(s, s, T_(s)))
        must.append({'f': 'process', 'src': 'autodetect', 'tgt': R.choice(INDIC + LATIN), 'txt': T_(s)})
        must.append({'f': 'auto_detect', 'txt': T_(s)})
        must.append({'f': 'auto_detect', 'txt': 'abc def ' + T_(s), 'plugin': True})
    for o in POSTO:
        if o in ONE_POST:
            ps = [x for x in eff['post'].get(o, ()) if x[1] != x[0]]
            named = [x for x in ps if x[1].lower()[:5] in o.lower()]
            for src, tgt in (R.sample(ps, min(2, len(ps))) + R.sample(named, min(2, len(named)))) or [(R.choice(INDIC), R.choice(INDIC))]:
                must.append(mk(src, tgt, None, post=[o], nativize=R.choice([None, None, False])))
        else:
            must.append(mk(R.choice(INDIC), R.choice(INDIC), None, post=[o]))
    for o in PREO:
        if o in ONE_PRE:
            ps = eff['pre'].get(o, ())
            named = [x for x in ps if x[0].lower()[:5] in o.lower()]
            for s, i in (R.sample(ps, min(2, len(ps))) + R.sample(named, min(2, len(named)))) or [('Devanagari', 0)]:
                must.append(mk(s, R.choice(INDIC + LATIN), TX[s][i], pre=[o], nativize=R.choice([None, None, False])))
        else:
            must.append(mk(R.choice(INDIC), R.choice(INDIC), None, pre=[o]))
    # other ways to name scripts
    D = yaml.safe_load(open('/repo/aksharamukha/yaml/aksharamukha-scripts.yaml', encoding='utf8'))
    codes = sorted({v['script'] for v in D.values()})
    langs = sorted({l.strip() for v in D.values() for l in v.get('lang', '').split(',') if l.strip()})
    by = {}
    for n, v in D.items():
        by.setdefault(v['script'], n)
    for c in codes:
        must.append({'f': 'process', 'src': c, 'tgt': R.choice(codes + ['Latn', 'la-IAST']), 'txt': T_(by[c]) if by[c] in TX else 'x', 'param': 'script_code'})
        must.append({'f': 'process', 'src': R.choice(['Deva', 'Latn-HK', 'sa-Deva', 'hi-Deva', 'autodetect']), 'tgt': c, 'txt': T_('Devanagari'), 'param': 'script_code'})
    for l in langs:
        must.append({'f': 'process', 'src': l, 'tgt': R.choice(langs), 'txt': T_(R.choice(INDIC)), 'param': 'lang_code'})
    for a, b in [('sa', 'ta'), ('sa-Deva', 'te'), ('hi', 'pa-Arab'), ('xx', 'ta'), ('hi', 'xx'), ('la', 'hi'), ('en', 'ml'), ('autodetect', 'kn'), ('la-IAST', 'bn'), ('pi', 'si')]:
        for t in DEVA[6:9]:
            must.append({'f': 'process', 'src': a, 'tgt': b, 'txt': t if a[:2] != 'la' else LAT[0], 'param': 'lang_code'})
    for a, b in [('Hindi', 'Tamil'), ('Sanskrit', 'English'), ('Bengali', 'Telugu'), ('Urdu', 'Hindi'), ('Punjabi', 'Gujarati'), ('autodetect', 'Malayalam'), ('Pali', 'Sinhala'), ('Klingonese', 'Hindi'), ('Thai', 'Hindi'), ('Burmese', 'Sanskrit'), ('Tamil', 'Kannada')]:
        for i in range(2):
            s = by.get(a) or (a if a in TX else 'Devanagari')
            must.append({'f': 'process', 'src': a, 'tgt': b, 'txt': T_(s), 'param': 'lang_name'})
    for s in SEM:
        for t in TX[s][:2]:
            must.append({'f': 'tr', 'txt': t, 'src': s, 'tgt': R.choice(['Latn'] + SEM)})
        if TX[s]:
            must.append({'f': 'tr', 'txt': TX[s][0]})
    for s in ('Thai', 'Lao', 'LaoPali', 'Urdu'):
        for t in TX[s][:4]:
            must.append({'f': 'detect_pre', 'txt': t, 'src': s})
            must.append({'f': 'process', 'src': 'autodetect', 'tgt': 'Devanagari', 'txt': t})
    # unknown names and other misuse
    for a, b in [('Klingon', 'Tamil'), ('Devanagari', 'Klingon'), ('deVanAgari', 'TAMIL'), ('iast', 'telugu'), ('', 'Tamil'), ('Devanagari', '')]:
        must.append({'f': 'process', 'src': a, 'tgt': b, 'txt': DEVA[6]})
    must.append({'f': 'process', 'src': 'Devanagari', 'tgt': 'Tamil', 'txt': DEVA[6], 'post': ['NoSuchOption'], 'pre': ['nosuch']})
    must.append({'f': 'convert', 'src': 'Devanagari', 'tgt': 'Tamil', 'txt': DEVA[6], 'post': ['NoSuchOption']})
    must.append({'f': 'process', 'src': 'Devanagari', 'tgt': 'Tamil', 'txt': ''})
    must.append({'f': 'auto_detect', 'txt': ''})
    must.append({'f': 'process', 'src': 'autodetect', 'tgt': 'Tamil', 'txt': '123 !?'})
    must.append({'f': 'process', 'src': 'Devanagari', 'tgt': 'Tamil', 'txt': DEVA[6], 'param': 'nosuchmode'})
    for op in must:
        if op.get('txt') is None:
            op['txt'] = T_(op['src'])
    must = [o for o in must if not net(o)]
    # candidates for the coverage-guided part
    pairs = [(a, b) for a in ALL for b in ALL]
    for a, b in pairs:
        cand.append(mk(a, b, T_(a), nativize=R.choice([None, None, False])))
    for o in ONE_POST:
        for src, tgt in eff['post'][o]:
            cand.append(mk(src, tgt, T_(src), post=[o], nativize=R.choice([None, False])))
    for o in ONE_PRE:
        for s, i in eff['pre'][o]:
            cand.append(mk(s, R.choice(INDIC + LATIN), TX[s][i], pre=[o]))
    for s in ALL:
        for t in TX[s]:
            cand.append({'f': 'auto_detect', 'txt': t})
            cand.append(mk(s, R.choice(ALL), t))
            cand.append(mk(s, R.choice(ALL), t))
        for t in ['RomanLoC'] + ISO:
            for k in range(3):
                cand.append(mk(s, t, T_(s)))
                cand.append(mk(t, s, T_(t)))
    for k in range(12000):
        a, b = R.choice(ALL), R.choice(ALL)
        cand.append(mk(a, b, T_(a), pre=R.sample(ONE_PRE, R.randrange(0, 3)), post=R.sample(ONE_POST, R.randrange(1, 4)), nativize=R.choice([None, False])))
    R.shuffle(cand)
    print('texts', sum(map(len, TX.values())), 'must', len(must), 'candidates', len(cand))
    n = 8
    with mp.get_context('fork').Pool(n, maxtasksperchild=1) as p:
        parts = p.map(worker, [must + cand[i::n] for i in range(n)], chunksize=1)
    # merge: keep what is still new when replayed in one process
    merged, seen = [], set()
    for part in parts:
        for w, op, err in part:
            k = json.dumps(op, sort_keys=True)
            if k not in seen:
                seen.add(k)
                merged.append(op)
    mk_ = {json.dumps(o, sort_keys=True) for o in must}
    extra = [o for o in merged if json.dumps(o, sort_keys=True) not in mk_]
    with mp.get_context('fork').Pool(1, maxtasksperchild=1) as p:
        res = p.map(worker2, [(must, extra)])[0]
    ops = must + res[0]
    uniq, seen = [], set()
    for o in ops:
        k = json.dumps(o, sort_keys=True)
        if k not in seen:
            seen.add(k)
            uniq.append(o)
    print('calls', len(uniq), 'covered points', res[1], 'of which must', res[2])
    json.dump({'texts': TX, 'ops': uniq, 'scripts': {'indic': INDIC, 'latin': LATIN, 'semitic': SEM, 'iso': ISO, 'japanese': JAP},
               'pre': PREO, 'post': POSTO, 'eff_pre': {o: v[:12] for o, v in eff['pre'].items() if v}, 'eff_post': {o: R.sample(v, min(12, len(v))) for o, v in eff['post'].items() if v}},
              open('/verif/dst/data/corpus.json', 'w'), ensure_ascii=False, indent=0)


def worker2(a):
    must, extra = a
    cov_on()
    for op in must:
        run(op)
    n0 = len(NEW)
    keep = []
    for op in extra:
        k = len(NEW)
        run(op)
        if len(NEW) > k:
            keep.append(op)
    return keep, len(NEW), n0


main()
