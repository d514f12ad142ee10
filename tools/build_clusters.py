"""Adds to dst/data/corpus.json: "clusters", groups of calls that execute a common, not too common, line of the
library, and "core", a greedy cover of all lines and branches. Run by hand after build_corpus.py."""
import sys, os, json, random, warnings, multiprocessing as mp, logging
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')
sys.argv = ['x']
src = open('/verif/tools/build_corpus.py', encoding='utf8').read().replace('\nmain()\n', '\n')
exec(compile(src, 'build_corpus', 'exec'))
P = '/verif/dst/data/corpus.json'
C = json.load(open(P, encoding='utf8'))
OPS = C['ops']
HIT = set()


def one(idx):
    global HIT
    mon.use_tool_id(2, 'cov')

    def line(code, n):
        if '/repo/aksharamukha/' in code.co_filename and code.co_name != '<module>':
            HIT.add((code.co_filename[20:], n))
        return mon.DISABLE
    brs = set()

    def br(code, off, dest):
        if '/repo/aksharamukha/' not in code.co_filename:
            return mon.DISABLE
        HIT.add((code.co_filename[20:], code.co_firstlineno, off, dest))
    mon.register_callback(2, mon.events.LINE, line)
    mon.register_callback(2, mon.events.BRANCH, br)
    res = []
    for i in idx:
        HIT = set()
        mon.set_events(2, mon.events.LINE | mon.events.BRANCH)
        mon.restart_events()
        run(OPS[i])
        mon.set_events(2, 0)
        res.append((i, HIT))
    return res


n = len(OPS)
with mp.get_context('fork').Pool(8, maxtasksperchild=1) as p:
    parts = p.map(one, [list(range(k, n, 8)) for k in range(8)], chunksize=1)
hit = dict(x for part in parts for x in part)
by = {}
for i in range(n):
    for h in hit[i]:
        by.setdefault(h, []).append(i)
print('points', len(by))
groups = set()
r = random.Random(9)
for h, l in sorted(by.items(), key=str):
    if len(l) < 2 or len(l) > n // 6:
        continue
    if len(l) > 10:
        l = sorted(random.Random(str(sorted(l))).sample(l, 10))
    groups.add(tuple(l))
clusters = sorted(groups)
# greedy cover
left, core = set(by), []
cand = {i: set(hit[i]) for i in range(n)}
while left:
    i = max(cand, key=lambda k: (len(cand[k] & left), -k)) if len(core) < 40 else None
    if i is None:
        break
    left -= cand.pop(i)
    core.append(i)
# the rest: point by point
for h in sorted(left, key=lambda h: (len(by[h]), str(h))):
    if h in left:
        i = max(by[h], key=lambda k: (len(hit[k] & left), -k))
        core.append(i)
        left -= hit[i]
print('clusters', len(clusters), 'core', len(core))
C['clusters'] = [list(x) for x in clusters]
C['core'] = core
json.dump(C, open(P, 'w', encoding='utf8'), ensure_ascii=False, indent=0)
