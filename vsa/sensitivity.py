"""
How much of a change the obligations notice: edits of one operator, constant,
name or statement at a time, made on the syntax tree in memory of the functions
an obligation has looked into.  Nothing is executed; the outcome only goes to
the evidence of thorough runs.
"""
import ast
import copy
import random
import time

from . import oblig
from .interp import Interp

SWAP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
        ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot,
        ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div,
       ast.Div: ast.Mult, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd}
PAIR = [('first', 'last'), ('tracers', 'particles'), ('min', 'max'),
        ('rows', 'cols'), ('argmin', 'argmax'), ('hstack', 'vstack'),
        ('pos', 'velocity'), ('zeros', 'ones'), ('any', 'all'),
        ('start', 'end'), ('frame', 'next_frame')]
NAMES = dict(PAIR + [(b, a) for a, b in PAIR])


def sites(fn):
    """(description, edit) for a function's syntax tree; an edit changes the
    node it gets by its index in ast.walk order."""
    out = []
    for ix, n in enumerate(ast.walk(fn)):
        ln = getattr(n, 'lineno', 0)
        if isinstance(n, ast.Compare) and type(n.ops[0]) in SWAP:
            out.append((ix, ln, 'compare', None))
        elif isinstance(n, (ast.BinOp, ast.AugAssign)) and \
                type(n.op) in BIN:
            out.append((ix, ln, 'arith', None))
        elif isinstance(n, ast.BoolOp):
            out.append((ix, ln, 'and/or', None))
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float):
            out.append((ix, ln, 'constant', None))
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            out.append((ix, ln, 'bool', None))
        elif isinstance(n, ast.UnaryOp) and isinstance(
                n.op, (ast.Not, ast.USub, ast.Invert)):
            out.append((ix, ln, 'unary', None))
        elif isinstance(n, ast.Call):
            if len(n.args) >= 2:
                out.append((ix, ln, 'swap args', None))
            for k in range(len(n.keywords)):
                out.append((ix, ln, 'drop keyword', k))
        elif isinstance(n, ast.Attribute) and n.attr in NAMES:
            out.append((ix, ln, 'attribute', None))
        elif isinstance(n, ast.If):
            out.append((ix, ln, 'negate if', None))
        for f in ('body', 'orelse'):
            b = getattr(n, f, None)
            if isinstance(b, list):
                for k, st in enumerate(b):
                    if isinstance(st, (ast.Assign, ast.AugAssign, ast.Expr,
                                       ast.Continue, ast.Break)) and not (
                            isinstance(st, ast.Expr) and
                            isinstance(st.value, ast.Constant)):
                        out.append((ix, st.lineno, 'drop statement', (f, k)))
    return out


def edit(fn, site):
    ix, ln, kind, arg = site
    n = next(x for k, x in enumerate(ast.walk(fn)) if k == ix)
    if kind == 'compare':
        n.ops[0] = SWAP[type(n.ops[0])]()
    elif kind == 'arith':
        n.op = BIN[type(n.op)]()
    elif kind == 'and/or':
        n.op = ast.And() if isinstance(n.op, ast.Or) else ast.Or()
    elif kind == 'constant':
        n.value = n.value + 1
    elif kind == 'bool':
        n.value = not n.value
    elif kind == 'unary':
        n.op = ast.UAdd() if not isinstance(n.op, ast.Not) else n.op
        if isinstance(n.op, ast.Not):
            n.operand = ast.UnaryOp(ast.Not(), n.operand)
    elif kind == 'swap args':
        n.args[0], n.args[1] = n.args[1], n.args[0]
    elif kind == 'drop keyword':
        del n.keywords[arg]
    elif kind == 'attribute':
        n.attr = NAMES[n.attr]
    elif kind == 'negate if':
        n.test = ast.UnaryOp(ast.Not(), n.test)
    elif kind == 'drop statement':
        b = getattr(n, arg[0])
        b[arg[1]] = ast.copy_location(ast.Pass(), b[arg[1]])
    ast.fix_missing_locations(fn)


def functions(sources):
    """{qualified name: (module, path of indices to the def)}"""
    out = {}
    for mod, (path, tree) in sources.items():
        def rec(body, prefix, trail):
            for k, st in enumerate(body):
                if isinstance(st, ast.FunctionDef):
                    out[prefix + st.name] = (mod, trail + [k])
                elif isinstance(st, ast.ClassDef):
                    rec(st.body, prefix + st.name + '.', trail + [k])
        rec(tree.body, mod + '.', [])
    return out


def mutant(sources, mod, trail, site):
    path, tree = sources[mod]
    tree = copy.deepcopy(tree)
    n = tree
    for k in trail:
        n = n.body[k]
    edit(n, site)
    out = dict(sources)
    out[mod] = (path, tree)
    return out


def measure(obs, sources, seed=1, budget=240.0, limit=150, verbose=False):
    t0 = time.time()
    called = set()
    seen = {}
    for o in obs:
        v = oblig.run(o, sources)
        if v.status == 'eq':
            seen[o] = set(v.called)
            called |= seen[o]
    fns = functions(sources)
    todo = []
    for q in sorted(called & set(fns)):
        mod, trail = fns[q]
        n = sources[mod][1]
        for k in trail:
            n = n.body[k]
        todo.extend((q, mod, trail, s) for s in sites(n))
    random.Random(seed).shuffle(todo)
    res = {'violation': 0, 'undecided': 0, 'same': 0}
    missed = []
    for q, mod, trail, s in todo[:limit]:
        if time.time() - t0 > budget:
            break
        src = mutant(sources, mod, trail, s)
        got = 'same'
        for o in seen:
            if q not in seen[o]:
                continue
            v = oblig.run(o, src)
            if v.status == 'diff':
                got = 'violation'
                break
            if v.status == 'und':
                got = 'undecided'
        res[got] += 1
        if got != 'violation':
            missed.append('%s:%d %s %s: %s' % (q, s[1], s[2], s[3] or '',
                                               got))
            if verbose:
                print(missed[-1])
    return {'edits_tried': sum(res.values()), 'edits_possible': len(todo),
            'noticed': res, 'not_noticed': missed[:40]}
