"""
python3 dev/idioms.py [SUBSTR]: pairs of Python fragments that do the same;
the interpreter must never find them to differ.  Not read by any check.
The fragments set ``r``.  First line: parameters.
"""
import os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from vsa import oblig
from vsa.oblig import *

T = '''
a:[int] d:int
out = {}
for x in a:
    if x > d:
        out.setdefault('hi', []).append(x)
    else:
        out.setdefault('lo', []).append(x)
r = out.get('hi', []), out.get('lo', [])
==
r = [x for x in a if x > d], [x for x in a if not x > d]
=====
a:[int] d:int
c = {True: [], False: []}
for x in a:
    c[x > d].append(x)
r = c[True], c[False]
==
r = [x for x in a if x > d], [x for x in a if not x > d]
=====
d:int e:int f:int
c = dict((k, v) for k, v in (('a', d), ('b', e)) if v > f)
r = c.get('a'), c.get('b')
==
r = (d if d > f else None), (e if e > f else None)
=====
d:int e:int f:int
c = {k: v for k, v in (('a', d), ('b', e)) if v > f}
r = c.get('a'), 'b' in c
==
r = (d if d > f else None), e > f
=====
d:int e:int f:int
l = [v for v in (d, e) if v > f]
r = len(l)
==
r = (1 if d > f else 0) + (1 if e > f else 0)
=====
p:arr2 v:arr2
m = {'p': p, 'v': v}
out = {}
for k in m:
    out[k] = np.zeros(m[k].shape)
for k, w in out.items():
    w[0] = m[k][0]
r = out['p'], out['v']
==
a = np.zeros(p.shape)
a[0] = p[0]
b = np.zeros(v.shape)
b[0] = v[0]
r = a, b
=====
p:arr2 v:arr2
out = {'p': np.zeros(p.shape), 'v': np.zeros(v.shape)}
for w in out.values():
    w[0] = 1.
r = out['p'], out['v']
==
a = np.zeros(p.shape)
a[0] = 1.
b = np.zeros(v.shape)
b[0] = 1.
r = a, b
=====
p:arr2 v:arr2
a, b = np.zeros(p.shape), np.zeros(v.shape)
for w in (a, b):
    w[0] = 1.
r = a, b
==
a = np.zeros(p.shape)
a[0] = 1.
b = np.zeros(v.shape)
b[0] = 1.
r = a, b
=====
p:arr2 v:arr2
l = [np.zeros(p.shape), np.zeros(v.shape)]
for w in l:
    w[0] = 1.
r = l[0], l[1]
==
a = np.zeros(p.shape)
a[0] = 1.
b = np.zeros(v.shape)
b[0] = 1.
r = a, b
=====
p:arr2 v:arr2
a, b = np.zeros(p.shape), np.zeros(v.shape)
for w, x in ((a, p), (b, v)):
    w[0] = x[0]
r = a, b
==
a = np.zeros(p.shape)
a[0] = p[0]
b = np.zeros(v.shape)
b[0] = v[0]
r = a, b
=====
p:arr2 v:arr2
a, b = np.zeros(p.shape), np.zeros(v.shape)
for w, x in zip((a, b), (p, v)):
    w[0] = x[0]
r = a, b
==
a = np.zeros(p.shape)
a[0] = p[0]
b = np.zeros(v.shape)
b[0] = v[0]
r = a, b
=====
p:arr2 v:arr2
def fill(w, x):
    w[0] = x[0]
a, b = np.zeros(p.shape), np.zeros(v.shape)
fill(a, p)
fill(b, v)
r = a, b
==
a = np.zeros(p.shape)
a[0] = p[0]
b = np.zeros(v.shape)
b[0] = v[0]
r = a, b
=====
p:arr2 v:arr2
def fill(d, x):
    d['a'][0] = x[0]
m = {'a': np.zeros(p.shape)}
fill(m, p)
r = m['a']
==
a = np.zeros(p.shape)
a[0] = p[0]
r = a
=====
p:arr2
def fill(ws, x):
    for w in ws:
        w[0] = x[0]
a, b = np.zeros(p.shape), np.ones(p.shape)
fill([a, b], p)
r = a, b
==
a, b = np.zeros(p.shape), np.ones(p.shape)
a[0] = p[0]
b[0] = p[0]
r = a, b
=====
p:arr2
def fill(x, *ws):
    for w in ws:
        w[0] = x[0]
a, b = np.zeros(p.shape), np.ones(p.shape)
fill(p, a, b)
r = a, b
==
a, b = np.zeros(p.shape), np.ones(p.shape)
a[0] = p[0]
b[0] = p[0]
r = a, b
=====
p:arr2 n:int
class Box(object):
    def __init__(self, x):
        self.x = x
    def put(self, k, y):
        self.x[k] = y
b = Box(np.zeros(p.shape))
for k in range(n):
    b.put(k, p[k])
r = b.x
==
a = np.zeros(p.shape)
for k in range(n):
    a[k] = p[k]
r = a
=====
p:arr2 n:int
a = np.zeros(p.shape)
row = a[n]
row[1] = 5.
r = a
==
a = np.zeros(p.shape)
a[n, 1] = 5.
r = a
=====
p:arr2 n:int
a = np.zeros(p.shape)
view = a[:n]
view[:] = p[:n]
r = a
==
a = np.zeros(p.shape)
a[:n] = p[:n]
r = a
=====
p:arr2 n:int
a = np.zeros(p.shape)
view = a[:n]
view += 1
r = a
==
a = np.zeros(p.shape)
a[:n] += 1
r = a
=====
p:arr2 n:int
a = np.zeros(p.shape)
b = a.T
b[0] = 3.
r = a
==
a = np.zeros(p.shape)
a[:,0] = 3.
r = a
=====
p:arr2 n:int
a = p.copy()
b = a
b[0] = 3.
r = a
==
a = p.copy()
a[0] = 3.
r = a
=====
p:arr2 n:int
a = p.copy()
b = a.copy()
b[0] = 3.
r = a
==
r = p.copy()
=====
p:arr2 n:int
a = p.copy()
b = a[[0, 1]]
b[0] = 3.
r = a
==
r = p.copy()
=====
l:[int]
k = list(l)
k.append(3)
r = l, k
==
r = l, l + [3]
=====
l:[int]
k = []
m = k
for x in l:
    m.append(x)
r = k
==
r = list(l)
=====
l:[int] n:int
k = []
d = {'x': k}
for x in l:
    if x > n:
        d['x'].append(x)
r = k
==
r = [x for x in l if x > n]
=====
l:[int] n:int
k = []
(k if n > 0 else []).extend(l)
r = k
==
r = list(l) if n > 0 else []
=====
l:[int] n:int
a, b = [], []
for x in l:
    (a if x > n else b).append(x)
r = a, b
==
r = [x for x in l if x > n], [x for x in l if not x > n]
=====
l:[int] n:int
a, b = [], []
for x in l:
    where = a if x > n else b
    where.append(x)
r = a, b
==
r = [x for x in l if x > n], [x for x in l if not x > n]
=====
l:[int] n:int
a, b = [], []
for x in l:
    add = a.append if x > n else b.append
    add(x)
r = a, b
==
r = [x for x in l if x > n], [x for x in l if not x > n]
=====
l:[int] n:int
acc = [[], []]
for x in l:
    acc[0 if x > n else 1].append(x)
r = acc[0], acc[1]
==
r = [x for x in l if x > n], [x for x in l if not x > n]
=====
l:[int] n:int
acc = [[] for i in range(2)]
for x in l:
    acc[int(x <= n)].append(x)
r = acc[0], acc[1]
==
r = [x for x in l if not x <= n], [x for x in l if x <= n]
=====
l:[int] n:int
total = 0
for x in l:
    if x < n:
        continue
    total += x
r = total
==
r = sum(x for x in l if not x < n)
=====
l:[int] n:int
found = None
for x in l:
    if x > n:
        found = x
        break
r = found
==
r = next((x for x in l if x > n), None)
=====
l:[int] n:int
found = False
for x in l:
    if x > n:
        found = True
        break
r = found
==
r = any(x > n for x in l)
=====
l:[int] n:int
for x in l:
    if x > n:
        r = True
        break
else:
    r = False
==
r = any(x > n for x in l)
=====
l:[int] n:int
i = 0
out = []
while i < len(l):
    out.append(l[i] + n)
    i += 1
r = out
==
r = [x + n for x in l]
=====
l:[int] n:int
out = []
for i in range(len(l)):
    out.append(l[i] + n)
r = out
==
r = [x + n for x in l]
=====
l:[int] n:int
out = []
for i, x in enumerate(l):
    out.append(x + i)
r = out
==
r = [l[i] + i for i in range(len(l))]
=====
l:[int] n:int
r = list(map(lambda x: x + n, l))
==
r = [x + n for x in l]
=====
l:[int] n:int
r = list(filter(lambda x: x > n, l))
==
r = [x for x in l if x > n]
=====
l:[int] m:[int]
r = [x + y for x, y in zip(l, m)]
==
out = []
for i in range(min(len(l), len(m))):
    out.append(l[i] + m[i])
r = out
=====
l:[int]
it = iter(l)
first = next(it)
r = first, [x for x in it]
==
r = l[0], [x for x in l[1:]]
=====
l:[int]
def gen(s):
    for x in s:
        yield x + 1
r = list(gen(l))
==
r = [x + 1 for x in l]
=====
l:[int]
def gen(s):
    yield 0
    yield from s
r = list(gen(l))
==
r = [0] + list(l)
=====
l:[int]
def gen(s):
    for i, x in enumerate(s):
        if i == 0:
            prev = x
            continue
        yield prev, x
        prev = x
r = list(gen(l))
==
r = [(l[i], l[i + 1]) for i in range(len(l) - 1)]
=====
l:[int]
r = list(zip(l[:-1], l[1:]))
==
r = [(l[i], l[i + 1]) for i in range(len(l) - 1)]
=====
n:int m:int
if n > m:
    r = n
elif n == m:
    r = 0
else:
    r = m
==
if not n > m:
    if n != m:
        r = m
    else:
        r = 0
else:
    r = n
=====
n:int m:int
def f(a, b):
    if a > b:
        return a
    return b
r = f(n, m)
==
r = n if n > m else m
=====
n:int m:int
r = {'a': n, 'b': m}[('a' if n > m else 'b')]
==
r = n if n > m else m
=====
n:int m:int
r = (m, n)[n > m]
==
r = n if n > m else m
=====
n:int m:int
r = (n > m and n) or m
==
if n > m and n:
    r = n
else:
    r = m
=====
n:opt m:int
k = n if n is not None else m
r = k
==
r = m if n is None else n
=====
n:opt m:int
if n is None:
    n = m
r = n
==
r = m if n is None else n
=====
n:opt m:int
try:
    r = int(m) + 1
except ValueError:
    r = 0
==
try:
    k = int(m)
except ValueError:
    r = 0
else:
    r = k + 1
=====
k:int d:int
kw = dict(a=k)
kw.update(b=d)
def f(a, b, c=3):
    return a, b, c
r = f(**kw)
==
r = (k, d, 3)
=====
k:int d:int
kw = {'a': k}
if d > 0:
    kw['b'] = d
def f(a, b=7):
    return a, b
r = f(**kw)
==
r = (k, d if d > 0 else 7)
=====
k:int d:int
def f(a, b=7):
    return a, b
r = f(k, **({'b': d} if d > 0 else {}))
==
r = (k, d if d > 0 else 7)
=====
k:int d:int e:int
def f(a=1, b=7):
    return a, b
names = ('a', 'b')
vals = (d, e)
r = f(**dict((n, v) for n, v in zip(names, vals) if v > k))
==
r = (d if d > k else 1, e if e > k else 7)
=====
k:int d:int e:int
def f(a=1, b=7):
    return a, b
kw = {}
for n, v in zip(('a', 'b'), (d, e)):
    if v > k:
        kw[n] = v
r = f(**kw)
==
r = (d if d > k else 1, e if e > k else 7)
=====
k:int d:int e:int
def f(a=1, b=7):
    return a, b
kw = {n: v for n, v in [('a', d), ('b', e)] if v > k}
r = f(**kw)
==
r = (d if d > k else 1, e if e > k else 7)
=====
k:int
import functools
def f(a, b):
    return a - b
g = functools.partial(f, b=2)
r = g(k)
==
r = k - 2
=====
k:int
fs = {'x': lambda v: v + 1, 'y': lambda v: v - 1}
r = fs['x'](k), fs['y'](k)
==
r = k + 1, k - 1
=====
k:int s:str
fs = {'x': lambda v: v + 1, 'y': lambda v: v - 1}
r = fs[s](k) if s in fs else k
==
if s == 'x':
    r = k + 1
elif s == 'y':
    r = k - 1
else:
    r = k
=====
k:int s:str
fs = {'x': 4, 'y': 5}
r = fs.get(s, k)
==
if s == 'x':
    r = 4
elif s == 'y':
    r = 5
else:
    r = k
=====
k:int s:str
r = s in ('x', 'y')
==
r = s == 'x' or s == 'y'
=====
s:str
r = s.endswith(('a', 'b'))
==
r = s.endswith('a') or s.endswith('b')
=====
s:str k:int
r = '%s_%d' % (s, k)
==
r = s + '_' + str(k)
=====
s:str k:int
r = '{}_{}'.format(s, k)
==
r = f'{s}_{k}'
=====
s:str t:str
r = ' & '.join(['x', s, t])
==
r = 'x & ' + s + ' & ' + t
=====
s:str t:str
terms = ['x']
if s != '':
    terms.append(s)
r = ' & '.join(terms)
==
q = 'x'
if s != '':
    q += ' & ' + s
r = q
=====
s:str t:str
r = bool(s)
==
r = s != ''
=====
l:[int]
r = not l
==
r = len(l) == 0
=====
p:arr2
r = p[:,0:3]
==
r = p[:,:3]
=====
p:arr2
r = np.sum(p**2, axis=1)
==
r = (p*p).sum(axis=1)
=====
p:arr2
r = p.min(axis=0), p.max(axis=0)
==
r = np.min(p, axis=0), np.amax(p, axis=0)
=====
p:arr1
r = p[p > 0]
==
m = np.greater(p, 0)
r = p[m]
=====
p:arr1
r = np.nonzero(p > 0)[0]
==
r = np.where(p > 0)[0]
=====
p:arr1
r = np.flatnonzero(p > 0)
==
r = np.nonzero(p > 0)[0]
=====
p:arr1
r = np.logical_and(p > 0, p < 3)
==
r = (p > 0) & (p < 3)
=====
p:arr1
r = ~((p > 0) & (p < 3))
==
r = (p <= 0) | (p >= 3)
=====
p:arr1
m = np.zeros(len(p), dtype=bool)
m[p > 3] = True
r = p[m]
==
r = p[p > 3]
=====
p:arr1
m = np.ones(p.shape, dtype=bool)
m[p > 3] = False
r = p[m]
==
r = p[~(p > 3)]
=====
p:arr1
m = p > 3
r = np.where(m, 0., p)
==
q = p.copy()
q[p > 3] = 0.
r = q
==skip
=====
p:arr1 v:arr1
r = np.r_[p, v]
==
r = np.concatenate((p, v))
=====
p:arr1 v:arr1
r = np.append(p, v)
==
r = np.hstack((p, v))
=====
p:arr1
r = p[:,None]
==
r = p[:,np.newaxis]
=====
p:arr1
r = p.reshape(-1, 1)
==
r = p[:,None]
=====
p:arr1 n:int
r = np.full(n, 3.)
==
r = np.ones(n)*3.
=====
p:arr1 n:int
out = np.empty(n)
for i in range(n):
    out[i] = p[i]*2
r = out
==
r = np.array([p[i]*2 for i in range(n)])
=====
p:arr2
r = [row[0] for row in p]
==
r = [p[i][0] for i in range(len(p))]
=====
p:arr2
a, b = p[0], p[1]
a, b = b, a
r = a, b
==
r = p[1], p[0]
=====
n:int
x = n
x += 1
x *= 2
r = x
==
r = 2*(n + 1)
=====
n:int m:int
r = n/m*2
==
r = 2*n/m
=====
n:float m:float
r = (n - m)**2
==
r = (m - n)**2
=====
n:float m:float
r = n*n*m**-1
==
r = n**2/m
=====
l:[int] n:int
s = set()
for x in l:
    s.add(x)
r = n in s
==
r = n in set(l)
=====
l:[int] m:[int]
r = set(l) & set(m)
==
r = set(l).intersection(m)
=====
l:[int] m:[int]
r = [x for x in l if x in set(m)]
==
s = set(m)
out = []
for x in l:
    if x in s:
        out.append(x)
r = out
=====
l:[int]
d = {}
for i, x in enumerate(l):
    d[x] = i
r = d
==
r = {x: i for i, x in enumerate(l)}
=====
l:[int]
d = dict.fromkeys(l, 0)
r = d
==
r = {x: 0 for x in l}
=====
l:[int]
from collections import OrderedDict
d = OrderedDict()
for x in l:
    d[x] = x + 1
r = list(d.items())
==
d = {}
for x in l:
    d[x] = x + 1
r = list(d.items())
=====
l:[int]
from collections import defaultdict
d = defaultdict(list)
for x in l:
    d['a'].append(x)
r = d['a']
==
r = [x for x in l]
=====
n:int m:int
from collections import namedtuple
P = namedtuple('P', 'x y')
p = P(n, m)
r = p.x, p[1]
==
r = n, m
=====
n:int m:int
class P(object):
    def __init__(self, x, y):
        self.x, self.y = x, y
    @property
    def both(self):
        return self.x, self.y
    @staticmethod
    def swap(a, b):
        return b, a
    @classmethod
    def make(cls, a, b):
        return cls(*cls.swap(a, b))
r = P.make(n, m).both
==
r = m, n
=====
n:int m:int
class A(object):
    k = 3
    def f(self):
        return self.k + 1
class B(A):
    k = 4
    def f(self):
        return super().f() + self.k
r = B().f()
==
r = 9
=====
n:int m:int
class A(object):
    def __len__(self):
        return n
    def __getitem__(self, i):
        return i + m
    def __contains__(self, x):
        return x == m
    def __call__(self, x):
        return x
a = A()
r = len(a), a[2], 4 in a, a(5)
==
r = n, 2 + m, 4 == m, 5
=====
n:int m:int
def outer():
    total = [0]
    def add(x):
        total[0] += x
    add(n)
    add(m)
    return total[0]
r = outer()
==
r = n + m
=====
n:int m:int
def outer():
    total = 0
    def add(x):
        nonlocal total
        total += x
    add(n)
    add(m)
    return total
r = outer()
==
r = n + m
=====
l:[int] n:int
fs = [lambda x, k=k: x + k for k in l]
r = [f(n) for f in fs]
==
r = [n + k for k in l]
=====
l:[int] n:int
r = sorted(l, key=lambda x: -x)[0]
==
r = sorted(l, key=lambda y: -y)[0]
=====
l:[int] n:int
k = sorted(l)
r = k
==
k = list(l)
k.sort()
r = k
=====
l:[int] n:int
r = max(l), min(l)
==
r = np.max(l), np.min(l)
==skip
=====
l:[int] n:int
hi = None
for x in l:
    if hi is None or x > hi:
        hi = x
r = hi
==
hi = None
for x in l:
    hi = x if hi is None else max(hi, x)
r = hi
==skip
=====
l:[int] n:int
if len(l) > 0:
    r = l[0]
else:
    r = n
==
r = l[0] if l else n
=====
l:[int] n:int
*head, tail = [n, 2, 3]
r = head, tail
==
r = [n, 2], 3
=====
l:[int] n:int
(a, b), c = (n, 1), 2
r = a + b + c
==
r = n + 3
=====
l:[int] n:int
if (k := len(l)) > n:
    r = k
else:
    r = n
==
r = len(l) if len(l) > n else n
=====
l:[int] n:int
out = []
for x in l:
    try:
        y = int(x)
    except ValueError:
        continue
    out.append(y)
r = len(out)
==
r = len(l)
==skip
=====
p:arr2 i:int
a = np.zeros((5, 3))
for k in range(5):
    a[k] = p[k]
    a[k, 0] = 0.
r = a
==
a = np.zeros((5, 3))
for k in range(5):
    row = a[k]
    row[:] = p[k]
    row[0] = 0.
r = a
=====
p:arr2 n:int
out = {}
for k in range(n):
    out.setdefault('a', []).append(p[k])
r = out.get('a', [])
==
r = [p[k] for k in range(n)]
=====
n:int m:int
lst = [n, m]
lst[0], lst[1] = lst[1], lst[0]
r = lst
==
r = [m, n]
=====
n:int m:int
lst = [n, m]
lst.insert(0, 3)
lst.pop()
r = lst
==
r = [3, n]
=====
n:int m:int
d = {'a': n, 'b': m}
x = d.pop('a')
r = x, 'a' in d, d['b']
==
r = n, False, m
=====
n:int m:int
d = {'a': n, 'b': m}
del d['a']
r = list(d)
==
r = ['b']
=====
n:int m:int
d = dict(a=n)
e = dict(d, b=m)
f = {**d, 'b': m}
r = e['b'], f['a'], len(e)
==
r = m, n, 2
=====
l:[int] n:int
pos = 0
out = []
for x in l:
    out.append(pos)
    pos += 1
r = out
==
r = list(range(len(l)))
=====
l:[int] n:int
pos = -1
for x in l:
    pos += 1
r = pos
==
r = len(l) - 1
=====
l:[int] n:int
prev = None
out = []
for x in l:
    if prev is not None:
        out.append(x - prev)
    prev = x
r = out
==
r = [l[i + 1] - l[i] for i in range(len(l) - 1)]
=====
l:[int] n:int
r = sum([x*2 for x in l])
==
s = 0
for x in l:
    s = s + x*2
r = s
=====
l:[[int]] n:int
out = []
for row in l:
    for x in row:
        out.append(x)
r = out
==
r = [x for row in l for x in row]
=====
l:[[int]] n:int
out = []
for row in l:
    out.extend(row)
r = out
==
r = [x for row in l for x in row]
=====
l:[[int]] n:int
out = []
for row in l:
    out += [x + 1 for x in row]
r = out
==
out = []
for row in l:
    for x in row:
        out.append(x + 1)
r = out
=====
l:[int] n:int
import itertools
r = list(itertools.chain([n], l))
==
r = [n] + list(l)
=====
l:[int] n:int
import itertools
out = []
for i, x in zip(itertools.count(), l):
    out.append(i + x)
r = out
==
r = [i + x for i, x in enumerate(l)]
=====
l:[int] n:int
out = [None]*len(l)
for i, x in enumerate(l):
    out[i] = x + n
r = out
==
r = [x + n for x in l]
=====
l:[int] n:int
out = [0]*n
out[2] = 5
r = out[2]
==
r = 5
=====
l:[int] n:int
flag = False
for x in l:
    if flag:
        pass
    flag = True
r = flag
==
r = len(l) > 0
==skip
=====
s:str
import re
m = re.match('a(\\\\d+)', s)
r = int(m.group(1)) if m is not None else -1
==
m = re.match('a(\\\\d+)', s)
if m:
    r = int(m.group(1))
else:
    r = -1
=====
f:str
with open(f) as fl:
    r = fl.read()
==
fl = open(f)
r = fl.read()
fl.close()
=====
f:str
import os
r = os.path.join(os.path.dirname(f), 'x')
==
d, b = os.path.split(f)
r = os.path.join(d, 'x')
=====
p:arr2 t:arr1
tr = Trajectory(p, p, t, 3)
kw = tr.as_dict()
kw['trajid'] = 4
r = Trajectory(**kw)
==
r = Trajectory(p, p, t, 4)
=====
p:arr2 t:arr1
tr = Trajectory(p, p, t, 3)
r = [getattr(tr, n)() for n in ('pos', 'time')]
==
tr = Trajectory(p, p, t, 3)
r = [tr.pos(), tr.time()]
=====
p:arr2 t:arr1
tr = Trajectory(p, p, t, 3)
for k, v in tr.as_dict().items():
    if k == 'pos':
        q = v
r = q
==
r = p
=====
p:arr2 t:arr1
arrs = {'a': p, 'b': t}
r = dict((k, v[1:]) for k, v in arrs.items())
==
r = {'a': p[1:], 'b': t[1:]}
=====
p:arr2 m:arr1
def both(sel):
    return p[sel], m[sel]
a, b = both(m > 0)
r = a, b
==
keep = m > 0
r = p[keep], m[keep]
=====
p:arr2 n:int
a = np.zeros_like(p)
for d in range(3):
    a[:,d] = p[:,d] + n
r = a
==
a = np.zeros_like(p)
a[:,0] = p[:,0] + n
a[:,1] = p[:,1] + n
a[:,2] = p[:,2] + n
r = a
=====
p:arr2 n:int
cols = [p[:,d]*n for d in range(3)]
r = np.array(cols).T
==
r = np.vstack([p[:,0]*n, p[:,1]*n, p[:,2]*n]).T
=====
p:arr2 n:int
a = np.zeros((3, n))
for row, d in zip(a, range(3)):
    row[:] = p[:n,d]
r = a
==
a = np.zeros((3, n))
for d in range(3):
    a[d] = p[:n,d]
r = a
=====
n:int m:int
from dataclasses import dataclass
@dataclass
class P(object):
    x: int
    y: int = 3
a = P(n)
b = P(n, y=m)
r = a.x, a.y, b.x, b.y
==
r = n, 3, n, m
=====
n:int
class D(dict):
    def __missing__(self, k):
        return n
d = D()
r = d['a']
==
r = n
==skip
=====
n:int m:int
from types import SimpleNamespace
a = SimpleNamespace(x=n)
a.y = m
r = a.x, a.y
==
r = n, m
=====
p:arr2
from operator import itemgetter
r = [itemgetter(0)(x) for x in p]
==
r = [x[0] for x in p]
=====
l:list
from operator import attrgetter, methodcaller
r = [(attrgetter('shape')(x), methodcaller('sum')(x)) for x in l]
==
r = [(x.shape, x.sum()) for x in l]
=====
l:[int] n:int
import itertools
r = list(itertools.takewhile(lambda x: x < n, l))
==
out = []
for x in l:
    if not x < n:
        break
    out.append(x)
r = out
=====
l:[int] n:int
import itertools
r = list(itertools.chain(l, [n]))
==
r = l + [n]
=====
l:[[int]]
import itertools
r = list(itertools.chain.from_iterable(l))
==
r = [x for y in l for x in y]
=====
l:[[int]]
r = sum(l, [])
==
r = [x for y in l for x in y]
=====
l:[int] m:[int]
import itertools
r = [x + y for x, y in itertools.product(l, m)]
==
r = [x + y for x in l for y in m]
=====
l:[int] n:int
import itertools
r = list(itertools.islice(l, 2, n))
==
r = l[2:n]
==skip
=====
l:[int]
it = iter(l)
first = next(it)
r = first, list(it)
==
r = l[0], l[1:]
=====
l:[int]
from functools import reduce
r = reduce(lambda a, b: a + b, l, 0)
==
s = 0
for x in l:
    s = s + x
r = s
=====
l:[int]
r = sum(x for x in l)
==
s = 0
for x in l:
    s += x
r = s
=====
l:[int] n:int
r = next((x for x in l if x > n), None)
==
r = None
for x in l:
    if x > n:
        r = x
        break
=====
l:[int] n:int
r = next((x for x in l if x > n), None)
==
def find():
    for x in l:
        if x > n:
            return x
r = find()
=====
l:[int] n:int
r = [i for i, x in enumerate(l) if x > n]
==
out = []
i = 0
while i < len(l):
    if l[i] > n:
        out.append(i)
    i += 1
r = out
=====
l:[int] n:int
r = list(filter(lambda x: x > n, l))
==
r = [x for x in l if x > n]
=====
l:[int]
r = list(map(lambda x: x + 1, l))
==
r = [x + 1 for x in l]
=====
l:[int]
r = list(reversed(l))
==
r = l[::-1]
=====
l:[int]
r = l[-1]
==
r = l[len(l) - 1]
=====
n:int m:int
def outer():
    c = n
    def inc():
        nonlocal c
        c += m
    inc()
    inc()
    return c
r = outer()
==
r = n + 2*m
=====
l:[int] n:int
if (k := len(l)) > n:
    r = k
else:
    r = n
==
r = max(len(l), n)
=====
n:int m:int
try:
    r = n + m
finally:
    pass
==
r = n + m
=====
n:int m:int
r = n if 0 < n < m else m
==
r = m
if 0 < n and n < m:
    r = n
=====
n:int m:int
if not (n > 0 or m > 0):
    r = 1
else:
    r = 2
==
r = 1 if n <= 0 and m <= 0 else 2
=====
p:arr2 n:int
class K(object):
    def __init__(self, p):
        self._p = p
        self._c = None
    def val(self):
        if self._c is None:
            self._c = self._p.sum()
        return self._c
k = K(p)
k.val()
r = k.val()
==
r = p.sum()
=====
p:arr2 n:int
class Base(object):
    def f(self):
        return self.g() + 1
    def g(self):
        return 0
class K(Base):
    def g(self):
        return n
r = K().f()
==
r = n + 1
=====
p:arr2 n:int
class Base(object):
    def __init__(self, n):
        self.n = n
class K(Base):
    def __init__(self, n, m=2):
        super().__init__(n)
        self.m = m
k = K(n)
r = k.n, k.m
==
r = n, 2
=====
n:int
class K(object):
    def __enter__(self):
        return n
    def __exit__(self, *a):
        return False
with K() as k:
    r = k
==
r = n
=====
n:int
from contextlib import contextmanager
@contextmanager
def f():
    yield n
with f() as k:
    r = k
==
r = n
==skip
=====
n:int
from functools import partial
def f(a, b, c=1):
    return a, b, c
r = partial(f, n, c=4)(3)
==
r = n, 3, 4
=====
n:int
from functools import wraps
def deco(f):
    @wraps(f)
    def g(*a, **k):
        return f(*a, **k) + 1
    return g
@deco
def f(x, y=2):
    return x + y
r = f(n, y=3)
==
r = n + 4
=====
n:int m:int
def f(*a, **k):
    return a, sorted(k.items())
r = f(n, m, x=1, y=2)
==
r = (n, m), [('x', 1), ('y', 2)]
=====
n:int m:int
def f(a, b, *, c=0):
    return a, b, c
args = (n, m)
kw = {'c': 5}
r = f(*args, **kw)
==
r = n, m, 5
=====
l:[int]
def gen(x):
    yield from x
    yield 3
r = list(gen(l))
==
r = l + [3]
=====
l:[int] n:int
def gen(x):
    for y in x:
        if y > n:
            return
        yield y
r = list(gen(l))
==
out = []
for y in l:
    if y > n:
        break
    out.append(y)
r = out
=====
l:[int] n:int
out = []
for y in l:
    if y > n:
        continue
    out.append(y)
r = out
==
r = [y for y in l if not y > n]
=====
l:[int] n:int
a, *b = l
r = a, b
==
r = l[0], l[1:]
=====
l:[int] n:int
d = {**{'a': n}, 'b': 2}
r = d['a'], d['b'], len(d)
==
r = n, 2, 2
=====
n:int
d = {'a': n} | {'b': 2}
r = d['a'], d['b']
==
r = n, 2
=====
n:int s:str
r = '%s_%d' % (s, n)
==
r = f'{s}_{n:d}'
=====
n:int s:str
r = '{}_{:d}'.format(s, n)
==
r = '%s_%d' % (s, n)
=====
n:int s:str
r = '_'.join([s, 'a'])
==
r = s + '_a'
=====
s:str
r = s[len('abc'):] if s.startswith('abc') else s
==
r = s.removeprefix('abc')
==skip
=====
l:[int]
r = sorted(l, key=lambda x: -x)
==
r = sorted(l, reverse=True)
==skip
=====
l:[int]
m = list(l)
m.sort()
r = m
==
r = sorted(l)
=====
l:[int] n:int
m = l[:]
m.append(n)
r = m, l
==
r = l + [n], l
=====
l:[int] n:int
m = list(l)
m += [n]
r = m, len(l)
==
r = l + [n], len(l)
=====
l:[int] n:int
m = list(l)
m[0] = n
del m[1]
r = m[0], len(m)
==
r = n, len(l) - 1
==skip
=====
l:[int] n:int
match n:
    case 0:
        r = 1
    case 1:
        r = 2
    case _:
        r = 3
==
r = 1 if n == 0 else 2 if n == 1 else 3
==skip
=====
p:arr2 n:int
q = p
q = q + 1
r = p, q
==
r = p, p + 1
=====
p:arr2 n:int
q = p.copy()
q += 1
r = p, q
==
r = p, p + 1
=====
p:arr2 n:int
q = np.array(p)
v = q[n:]
v += 1
r = q
==
q = p.copy()
q[n:] += 1
r = q
=====
p:arr2 n:int
q = p.copy()
v = q[:,0]
v[n] = 2.
r = q
==
q = p.copy()
q[n,0] = 2.
r = q
=====
p:arr2 n:int
q = p.copy()
def f(a):
    a[n] = 2.
f(q)
r = q
==
q = p.copy()
q[n] = 2.
r = q
=====
p:arr2 n:int
q = p.copy()
def f(a):
    a[0] = 2.
f(q[n])
r = q
==
q = p.copy()
q[n,0] = 2.
r = q
=====
p:arr2 n:int
q = np.empty((n, 3))
for i, row in enumerate(q):
    row[...] = p[i]
r = q
==
q = np.empty((n, 3))
for i in range(n):
    q[i] = p[i]
r = q
=====
p:arr2 n:int
cols = []
for d in range(3):
    cols.append(p[:,d]*n)
r = np.stack(cols, axis=1)
==
r = np.column_stack([p[:,d]*n for d in range(3)])
==skip
=====
p:arr2 v:arr2
r = [a + b for a, b in zip(*(p, v))]
==
r = [a + b for a, b in zip(p, v)]
=====
p:arr2
xs, ys = zip(*[(row[0], row[1]) for row in p])
r = list(xs)
==
r = [row[0] for row in p]
==skip
=====
l:[int] n:int
k = 0
while True:
    if k >= len(l) or l[k] > n:
        break
    k += 1
r = k
==
k = 0
while k < len(l) and not l[k] > n:
    k += 1
r = k
=====
l:[int] n:int
found = False
for x in l:
    if x == n:
        found = True
        break
r = found
==
r = any(x == n for x in l)
=====
l:[int] n:int
best = l[0]
for x in l[1:]:
    if x > best:
        best = x
r = best
==
r = max(l)
==skip
=====
l:[int] n:int
c = 0
for x in l:
    if x > n:
        c += 1
r = c
==
r = sum(1 for x in l if x > n)
=====
l:[int] n:int
c = 0
for x in l:
    c += x > n
r = c
==
r = len([x for x in l if x > n])
=====
l:[int]
acc = 0
out = []
for x in l:
    out.append(acc)
    acc += x
r = out
==
out = [0]
for x in l[:-1]:
    out.append(out[-1] + x)
r = out
==skip
=====
n:int m:int
for a, b in ((n, m), (m, n)):
    if a > b:
        r = a
        break
else:
    r = 0
==
r = n if n > m else m if m > n else 0
=====
n:int m:int
r = 0
for x in (n, m, 3):
    if x < 0:
        continue
    if x > 5:
        break
    r = r + x
==
r = 0
if not n > 5:
    if not n < 0:
        r = r + n
    if not m > 5:
        if not m < 0:
            r = r + m
        r = r + 3
=====
n:int m:int
r = None
for x in (n, m):
    for y in (n, m):
        if x < y:
            r = (x, y)
            break
    if r is not None:
        break
==
r = (n, m) if n < m else (m, n) if m < n else None
=====
l:[int] n:int
def gen():
    for x in l:
        yield x
r = 0
for x in gen():
    if x > n:
        r = x
        break
==
r = 0
for x in l:
    if x > n:
        r = x
        break
=====
l:[int] n:int
y = 0
for x in l:
    y = x + 1
    if y > n:
        break
r = y
==
y = 0
for x in l:
    y = x + 1
    if not y <= n:
        break
r = y
=====
l:[int] n:int
for x in l:
    y = x + 1
    if y > n:
        break
else:
    y = 0
r = y
==
r = next((x + 1 for x in l if x + 1 > n), 0)
=====
s:str n:int
d = {'a': 1, 'b': 2}
r = d[s] if s in d else n
==
r = {'a': 1, 'b': 2}.get(s, n)
=====
s:str n:int
r = 1 if s == 'a' else 2 if s == 'b' else n
==
d = {'b': 2, 'a': 1}
try:
    r = d[s]
except KeyError:
    r = n
=====
l:list
r = [x for x in l if isinstance(x, int)]
==
out = []
for x in l:
    if not isinstance(x, int):
        continue
    out.append(x)
r = out
=====
p:arr1
r = p.mean()
==
r = p.sum()/len(p)
==skip
=====
p:arr2
r = np.sqrt((p**2).sum(axis=1))
==
r = np.linalg.norm(p, axis=1)
=====
p:arr2
r = np.sqrt(np.sum(np.square(p), 1))
==
r = (p*p).sum(axis=-1)**0.5
=====
p:arr2 v:arr2
r = np.einsum('ij,ij->i', p, v)
==
r = (p*v).sum(axis=1)
==skip
=====
p:arr2 m:bool1
r = p[np.nonzero(m)[0]]
==
r = p[m]
=====
p:arr2 m:bool1
r = np.compress(m, p, axis=0)
==
r = p[m]
==skip
=====
p:arr2 m:bool1
r = p[~m]
==
r = p[np.logical_not(m)]
=====
p:arr2 n:int
r = p.take([0, n], axis=0)
==
r = p[[0, n]]
==skip
=====
p:arr1 n:int
r = np.count_nonzero(p > n)
==
r = (p > n).sum()
=====
p:arr1 n:int
r = bool((p > n).any())
==
r = np.any(p > n)
==skip
=====
p:arr1 n:int
r = not (p > n).any()
==
r = (p <= n).all()
==skip
=====
p:arr1
r = np.abs(p)
==
r = np.where(p < 0, -p, p)
==skip
=====
p:arr1 v:arr1
r = np.maximum(p, v)
==
r = np.where(p > v, p, v)
==skip
=====
p:arr1 n:int
r = np.clip(p, 0, n)
==
r = np.minimum(np.maximum(p, 0), n)
==skip
=====
p:arr1
r = np.diff(p)
==
r = p[1:] - p[:-1]
=====
p:arr1 v:arr1
r = np.concatenate([p, v])
==
r = np.array(list(p) + list(v))
==skip
=====
n:int
r = np.full(n, 2.)
==
r = np.ones(n)*2.
=====
n:int
r = np.full((n, 3), np.nan)
==
a = np.empty((n, 3))
a[:] = np.nan
r = a
=====
p:arr2
r = np.zeros_like(p)
==
r = np.zeros(p.shape, dtype=p.dtype)
==skip
=====
p:arr2
r = len(p)
==
r = p.shape[0]
=====
p:arr2 n:int
r = p[n] - p[n - 1]
==
a, b = p[n - 1], p[n]
r = b - a
=====
p:arr2 n:int
lo, hi = n, n + 1
r = p[lo:hi]
==
r = p[n:1 + n]
'''


def pairs():
    for i, b in enumerate(T.strip('\n').split('\n=====\n')):
        params, _, rest = b.partition('\n')
        parts = rest.split('\n==\n')
        skip = parts[-1].endswith('==skip')
        parts[-1] = parts[-1].replace('\n==skip', '')
        yield i, params, parts[0], parts[1], skip


def ind(s):
    return '\n'.join('    ' + x for x in s.split('\n'))


if __name__ == '__main__':
    SRC = load_sources()
    c = {}
    for i, params, a, b, skip in pairs():
        if len(sys.argv) > 1 and sys.argv[1] not in a + b:
            continue
        names = ', '.join(x.split(':')[0] for x in params.split())
        params = params.replace(':opt', '')
        for x, y in ((a, b), (b, a)):
            text = 'def impl(%s):\n%s\n    return r\ndef spec(%s):\n%s\n    return r\n' % (
                names, ind(x), names, ind(y))
            o = Ob('P', str(i), params, text, concrete=True)
            v = oblig.run(o, SRC)
            c[v.status] = c.get(v.status, 0) + 1
            if v.status == 'diff' or v.status != 'eq' and (
                    len(sys.argv) > 1 or not skip and x is a):
                print(v.status.upper(), v.why, '\n' + ind(x))
                if v.status == 'diff' or len(sys.argv) > 1:
                    print('  impl', show(v.a, 6) if v.a is not None else None)
                    print('  spec', show(v.b, 6) if v.b is not None else None)
                    print(v.note)
    print(c)
