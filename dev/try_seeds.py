"""python3 dev/try_seeds.py [ID...]: which planted bugs the checks see."""
import os, sys, ast, json, glob, subprocess, tempfile, shutil
from multiprocessing import Pool
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'dev'))
sys.setrecursionlimit(20000)
import check
from vsa import oblig, findings
from vsa.engine import load_sources
check.load_props()
from common import affected
SRC = load_sources()
KN = findings.known()
def one(d):
    t = tempfile.mkdtemp()
    shutil.copytree('/repo/flowtracks', t + '/flowtracks')
    if os.path.isdir('/repo/scripts'): shutil.copytree('/repo/scripts', t + '/scripts')
    subprocess.check_call(['patch', '-sp1', '-d', t, '-i', d + '/patch.diff'])
    src = load_sources(t)
    shutil.rmtree(t)
    m = json.load(open(d + '/meta.json'))
    out = []
    for o in affected(SRC, src):
        v = oblig.run(o, src)
        if v.status != 'eq':
            out.append((v.status, o.prop, o.name, str(v.why)[:60]))
    for p, n, f in findings.RULES:
        for x in f(src).findings:
            if (p, x.key) not in KN:
                out.append(('diff', p, n, x.text[:60]))
    return os.path.basename(d), m['property'], out
if __name__ == '__main__':
    ds = sorted(glob.glob(HERE + '/seeded/*'))
    if sys.argv[1:]:
        ds = [d for d in ds if os.path.basename(d) in sys.argv[1:]]
    n = 0
    affected(SRC, SRC)
    with Pool(8) as p:
        for name, prop, out in p.imap(one, ds):
            hit = [x for x in out if x[0] == 'diff' and x[1] == prop]
            oth = [x for x in out if x[0] == 'diff' and x[1] != prop]
            n += bool(hit)
            print('%-8s %s %s' % ('CAUGHT' if hit else 'missed', prop, name))
            if not hit:
                for x in oth[:3] or out[:4]: print('      ', x)
    print(n, 'of', len(ds))
