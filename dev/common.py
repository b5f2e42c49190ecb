"""Which obligations an edit can matter to (only to save time here)."""
import ast
from vsa import oblig


def defs(tree, pre):
    out = {}

    def go(body, pre, depth):
        rest = []
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                if isinstance(st, ast.ClassDef):
                    rest.append((st.name, [ast.dump(b) for b in st.bases]))
                    rest.append(go(st.body, pre + '.' + st.name, 1))
                else:
                    out.setdefault(pre + '.' + st.name, []).append(
                        ast.dump(st))
                    rest.append(st.name)
            elif isinstance(st, ast.Expr) and isinstance(
                    st.value, ast.Constant):
                pass
            else:
                rest.append(ast.dump(st))
        return rest
    return out, go(tree.body, pre, 0)


def changed(A, B):
    ch = set()
    for m in set(A) | set(B):
        if m not in A or m not in B:
            return None
        if A[m][1] is B[m][1]:
            continue
        f, r = defs(A[m][1], m)
        g, s = defs(B[m][1], m)
        x = set(k for k in set(f) | set(g) if f.get(k) != g.get(k))
        if m.startswith('scripts') and x or r != s and not any(
                k not in f for k in x):
            return None
        ch |= x
    return ch


_base = {}


def affected(A, B):
    """Obligations to run for sources B (A is what is analysed already)."""
    ch = changed(A, B)
    out = []
    for o in oblig.REG:
        if o not in _base:
            _base[o] = set(oblig.run(o, A).called)
        if ch is None or any(c == q or c.startswith(q + '.') or
                             q.startswith(c + '.')
                             for c in _base[o] for q in ch):
            out.append(o)
    return out
