"""
python3 dev/try_bugs.py [-v] [NAME...]: apply each of bugs.py to the sources
in memory and run the obligations and rules it can matter to.
"""
import os, sys, time, ast, fnmatch
from multiprocessing import Pool
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'dev'))
sys.setrecursionlimit(20000)
import check
from vsa import oblig, findings
from vsa.engine import load_sources
from bugs import BUGS
import bugs2, bugs3, bugs4, bugs5, bugs6, bugs7
check.load_props()
from common import affected
SRC = load_sources()
KN = findings.known()
REPO = '/repo/'


def edit(edits):
    text = {}
    for e in edits:
        f, o, n = e[:3]
        mod = 'flowtracks.' + f[:-3]
        t = text.get(mod) or open(REPO + 'flowtracks/' + f).read()
        k = e[3] if len(e) > 3 else None
        if k is None:
            if t.count(o) != 1:
                return None, 'EDIT %d' % t.count(o)
            t = t.replace(o, n)
        else:
            p = t.split(o)
            t = o.join(p[:k]) + n + o.join(p[k:])
        text[mod] = t
    return text, ''


def one(item):
    name, edits = item
    src = dict(SRC)
    text, err = edit(edits)
    if err:
        return name, err, [], 0
    for mod, t in text.items():
        src[mod] = (SRC[mod][0], ast.parse(t))
    out = []
    t1 = time.time()
    for o in affected(SRC, src):
        v = oblig.run(o, src)
        if v.status != 'eq':
            out.append((v.status, o.prop, o.name, str(v.why)[:80]))
    for p, n, f in findings.RULES:
        r = f(src)
        for x in r.findings:
            if (p, x.key) not in KN:
                out.append(('diff', p, n, x.text[:70]))
    return name, '', out, time.time() - t1


if __name__ == '__main__':
    args = sys.argv[1:]
    v = '-v' in args
    only = set(a for a in args if a != '-v')
    killed = set(open(os.path.join(HERE, 'dev', 'killed.txt')).read().split())
    items = [i for i in BUGS if (any(fnmatch.fnmatch(i[0], x) for x in only) if only else
                                 i[0] not in killed)]
    c = {}
    affected(SRC, SRC)
    with Pool(8) as pool:
        for name, err, out, dt in pool.imap(one, items):
            d = [x for x in out if x[0] == 'diff']
            s = err or ('caught' if d else 'missed' if out else 'SILENT')
            c[s] = c.get(s, 0) + 1
            if s != 'caught' or v:
                print('%-7s %-14s %.0fs' % (s, name, dt), flush=True)
                for x in (d if s == 'caught' else out)[:3]:
                    print('        ', x)
    print(c)
