"""Development tool: try planted bugs.   seedtest.py [--no-tests] [--no-check] [--seed N] ID...
For each /verif/seeded/ID: applies the patch to a scratch copy of /repo, runs build check, stable tests, the demonstration
on both trees and the property's check on the patched copy."""
import sys, os, json, subprocess, shutil, tempfile, xml.etree.ElementTree as ET
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def tests(d):
    w = tempfile.mkdtemp(dir='/tmp/sd')
    e = dict(os.environ, LANG='C.UTF-8', PYTHONUTF8='1', PYTHONHASHSEED='0', PYTHONPATH=d, PYTHONPYCACHEPREFIX=w + '/pyc')
    p = subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-n', '8', '--rootdir=' + d, '--timeout=300', '--disable-warnings', '--tb=line', '--continue-on-collection-errors',
                        '-o', 'junit_family=xunit2', '--junitxml=%s/j.xml' % w, 'testsuite.py'] + sorted(x for x in os.listdir(d + '/aksharamukha/test') if x.startswith('loc_') and x.endswith('_test_cases.py')),
                       cwd=d + '/aksharamukha/test', env=e, capture_output=True, text=True)
    ok = set()
    try:
        for c in ET.parse(w + '/j.xml').getroot().iter('testcase'):
            if c.find('failure') is None and c.find('error') is None and c.find('skipped') is None:
                ok.add('::'.join(x for x in (c.get('classname'), c.get('name')) if x))
    except Exception as x:
        print(p.stdout[-1000:], p.stderr[-500:])
    shutil.rmtree(w)
    return sorted(set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - ok)


def copy(d):
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', d], check=True)


a = sys.argv[1:]
notests = '--no-tests' in a
nocheck = '--no-check' in a
seed = '1'
if '--seed' in a:
    i = a.index('--seed')
    seed = a[i + 1]
    del a[i:i + 2]
a = [x for x in a if not x.startswith('--')]
os.makedirs('/tmp/sd', exist_ok=True)
base = '/tmp/sd/base'
if not os.path.isdir(base) or '--no-check' in sys.argv:
    copy(base)
for i in a:
    s = os.path.join(V, 'seeded', i)
    m = json.load(open(s + '/meta.json'))
    d = '/tmp/sd/' + i
    copy(d)
    r = [i, m['property']]
    p = subprocess.run(['git', 'apply', s + '/patch.diff'], cwd=d, capture_output=True, text=True)
    if p.returncode:
        print(i, 'PATCH FAILS', p.stderr)
        continue
    if not notests:
        bad = tests(d)
        r.append('tests ok' if not bad else 'TESTS FAIL %d %s' % (len(bad), bad[:3]))
    e = dict(os.environ, PYTHONPYCACHEPREFIX='/tmp/sd/pyc-' + i)
    b = dict(os.environ, PYTHONPYCACHEPREFIX='/tmp/sd/pyc-base')
    p0 = subprocess.run(['bash', s + '/demo.sh'], cwd=base, env=b, capture_output=True, text=True, timeout=300)
    p1 = subprocess.run(['bash', s + '/demo.sh'], cwd=d, env=e, capture_output=True, text=True, timeout=300)
    r.append('demo ok' if p0.returncode == 0 and p1.returncode != 0 else 'DEMO BAD %d %d\n%s\n%s\n%s' % (p0.returncode, p1.returncode, p0.stdout[-800:], p0.stderr[-800:], p1.stdout[-300:] + p1.stderr[-300:]))
    if not nocheck:
        p = subprocess.run([PY, V + '/check.py', m['property'], '--out', '/tmp/sd/replays'], env=dict(os.environ, DST_REPO=d, VERIF_SEED=seed, DST_NOEVIDENCE='1'), cwd=V, capture_output=True, text=True)
        l = p.stdout.splitlines()
        runs = [x for x in l if ' runs in ' in x]
        case = [x for x in l if x.startswith('case ')]
        r.append({0: 'MISSED', 1: 'caught'}.get(p.returncode, 'ERROR ' + p.stderr[-1500:]))
        r.append((runs[-1].split(',')[0] if runs else '') + ' :: ' + (case[0][:260] if case else ''))
        rp = [x for x in l if x.startswith('replay in')]
        if rp and 'exactly' not in rp[0]:
            r.append('REPLAY: ' + rp[0])
    print(' | '.join(r), flush=True)
    shutil.rmtree(d)
    shutil.rmtree('/tmp/sd/pyc-' + i, ignore_errors=True)
