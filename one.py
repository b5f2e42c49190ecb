"""one.py PROP LINE KIND : outcome in detail of one edit."""
import sys
sys.dont_write_bytecode = True
import check
check.load_props()
from vsa import sensitivity as se, oblig
from vsa.engine import load_sources
from vsa.terms import show
S = load_sources()
obs = [o for o in oblig.REG if o.prop in sys.argv[1].split(',')]
fns = se.functions(S)
for q, (mod, trail) in fns.items():
    n = S[mod][1]
    for k in trail: n = n.body[k]
    if not (n.lineno <= int(sys.argv[2]) <= n.end_lineno): continue
    if len(sys.argv) > 4 and sys.argv[4] not in q: continue
    for s in se.sites(n):
        if s[1] == int(sys.argv[2]) and s[2].startswith(sys.argv[3]):
            src = se.mutant(S, mod, trail, s)
            for o in obs:
                v0 = oblig.run(o, S)
                if q not in v0.called: continue
                v = oblig.run(o, src)
                print(q, s, o.name, v.status, v.why, '%.1fs' % v.wall)
                if v.a is not None: print('   A', show(v.a, 7)[:700])
                if v.b is not None: print('   B', show(v.b, 7)[:700])
                r = getattr(o, 'cmp', None)
                if r: 
                    for l in sorted(r.leaves.values(), key=lambda l: -(l.a.sz + l.b.sz))[:8]: print('     leaf', l.why, show(l.a,3)[:150], '<>', show(l.b,3)[:150])
            if len(sys.argv) > 5:
                ri, rs = o.last
                print('IMPL', show(ri.value, 60)); print('SPEC', show(rs.value, 60))
