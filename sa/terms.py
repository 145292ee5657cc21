"""Abstract values.

Every abstract value is an immutable nested tuple whose first item is a tag:

  ('k', type, v)        a constant (None, bool, str, Ellipsis, float, bytes)
  ('i', c, ((s, k)..))  an affine integer  c + sum k*s   (also constant ints)
  ('s', name...)        a named unknown (an input of the analysed entry point)
  ('t', op, args...)    an uninterpreted pure term
  ('phi', loop, n)      a value generalised over the iterations of a loop
  ('u', n)              an unknown produced by something the analysis does not model
  ('r', id)             a reference to a heap object of the abstract state
  ('tup', (v...))       a tuple
  ('cls', qualname)     a class      ('fn', ...) a function    ('bm', ...) bound
  ('ph', content)       a PHAMT with the given content term
  ('S', ...)            an iteration source
  ('exc', clsname, ..)  a builtin exception value
"""

NONE = ('k', 'NoneType', None)
TRUE = ('k', 'bool', True)
FALSE = ('k', 'bool', False)
ELL = ('k', 'ellipsis', '...')


def const(v):
    if v is None: return NONE
    if v is True: return TRUE
    if v is False: return FALSE
    if v is Ellipsis: return ELL
    if isinstance(v, int): return ('i', v, ())
    return ('k', type(v).__name__, v)


def boolv(b): return TRUE if b else FALSE


def I(n): return ('i', n, ())


def is_int(v):
    """Is v an affine integer (or a term used as one)?"""
    return v[0] in ('i', 's', 't', 'phi', 'u')


def aff(v):
    """Decompose a value into (c, {sym: coef})."""
    if v[0] == 'i': return v[1], dict(v[2])
    if v == TRUE: return 1, {}
    if v == FALSE: return 0, {}
    return 0, {v: 1}


def mk(c, d):
    items = tuple(sorted(((s, k) for s, k in d.items() if k != 0), key=lambda x: repr(x[0])))
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return ('i', c, items)


def add(a, b):
    ca, da = aff(a); cb, db = aff(b)
    d = dict(da)
    for s, k in db.items(): d[s] = d.get(s, 0) + k
    return mk(ca + cb, d)


def scale(a, n):
    c, d = aff(a)
    return mk(c * n, {s: k * n for s, k in d.items()})


def sub(a, b): return add(a, scale(b, -1))


def cint(v):
    """Constant value of an int value or None."""
    if v[0] == 'i' and not v[2]: return v[1]
    return None


def is_const(v): return v[0] == 'k' or (v[0] == 'i' and not v[2])


def walk(v):
    """All sub-terms of v (v included)."""
    stack = [v]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str): yield x
            stack.extend(x)


def contains(v, f):
    return any(f(x) for x in walk(v))


def subst(v, m):
    """Substitute sub-terms by the mapping m and renormalise affine parts."""
    if not m: return v
    cache = {}
    def go(x):
        if not isinstance(x, tuple): return x
        if x in m: return m[x]
        r = cache.get(x)
        if r is not None: return r
        if x and x[0] == 'i' and len(x) == 3 and isinstance(x[1], int):
            acc = I(x[1])
            for s, k in x[2]:
                acc = add(acc, scale(go(s), k))
            r = acc
        else:
            r = tuple(go(y) for y in x)
            if r == x: r = x
        cache[x] = r
        return r
    return go(v)


# --------------------------------------------------------------------------
# Linear constraints:  a constraint is an affine value e, meaning e >= 0.
# Emptiness is decided by Fourier-Motzkin elimination (the polyhedra domain);
# over the integers this is sound for "infeasible".

def _norm(c, d):
    from math import gcd
    g = 0
    for k in d.values(): g = gcd(g, abs(k))
    if g > 1:
        d = {s: k // g for s, k in d.items()}
        c = c // g          # floor: integer tightening
    return c, d


_fm_cache = {}


def infeasible(cons):
    key = frozenset(cons)
    r = _fm_cache.get(key)
    if r is None:
        r = _infeasible(key)
        _fm_cache[key] = r
    return r


def _infeasible(cons):
    rows = set()
    for e in cons:
        c, d = aff(e)
        if not d:
            if c < 0: return True
            continue
        c, d = _norm(c, d)
        rows.add((c, tuple(sorted(d.items(), key=lambda x: repr(x[0])))))
    n = 0
    while rows:
        n += 1
        # choose the variable with the smallest product of pos/neg occurrences
        pos = {}; neg = {}
        for c, d in rows:
            for s, k in d:
                if k > 0: pos[s] = pos.get(s, 0) + 1
                else: neg[s] = neg.get(s, 0) + 1
        best = None
        for s in set(pos) | set(neg):
            p = pos.get(s, 0) * neg.get(s, 0)
            if best is None or (p, repr(s)) < best[:2]: best = (p, repr(s), s)
        s = best[2]
        P = []; Nn = []; R = set()
        for c, d in rows:
            k = dict(d).get(s, 0)
            if k > 0: P.append((c, d, k))
            elif k < 0: Nn.append((c, d, -k))
            else: R.add((c, d))
        for c1, d1, k1 in P:
            for c2, d2, k2 in Nn:
                d = {}
                for t, k in d1: d[t] = d.get(t, 0) + k * k2
                for t, k in d2: d[t] = d.get(t, 0) + k * k1
                d = {t: k for t, k in d.items() if k}
                c = c1 * k2 + c2 * k1
                if not d:
                    if c < 0: return True
                    continue
                c, d = _norm(c, d)
                R.add((c, tuple(sorted(d.items(), key=lambda x: repr(x[0])))))
        rows = R
        if len(rows) > 400 or n > 60: return False
    return False


def relevant(cons, e):
    """The constraints connected to e through shared symbols."""
    syms = set(aff(e)[1])
    rest = [(c, set(aff(c)[1])) for c in cons]
    out = []
    changed = True
    while changed:
        changed = False
        nr = []
        for c, s in rest:
            if not s or (s & syms):
                out.append(c); syms |= s; changed = True
            else: nr.append((c, s))
        rest = nr
    return out


def entails(cons, e):
    """Do the constraints entail e >= 0 ?"""
    c, d = aff(e)
    if not d: return c >= 0
    neg = sub(I(-1), e)          # not(e>=0)  <=>  -e-1 >= 0
    return infeasible(relevant(cons, e) + [neg])


def show(v, depth=4):
    """Readable rendering for reports."""
    if not isinstance(v, tuple) or not v: return str(v)
    t = v[0]
    if depth <= 0: return '...'
    if t == 'k': return repr(v[2]) if v[1] != 'ellipsis' else '...'
    if t == 'i':
        parts = []
        for s, k in v[2]:
            r = show(s, depth - 1)
            parts.append(r if k == 1 else ('-' + r if k == -1 else f'{k}*{r}'))
        if v[1] or not parts: parts.append(str(v[1]))
        return '+'.join(parts).replace('+-', '-')
    if t == 's': return '.'.join(str(x) for x in v[1:])
    if t == 't': return f"{v[1]}({', '.join(show(x, depth-1) if isinstance(x, tuple) else str(x) for x in v[2:])})"
    if t == 'tup': return '(' + ', '.join(show(x, depth - 1) for x in v[1]) + ')'
    if t == 'cls': return v[1].split('.')[-1]
    if t == 'r': return f'obj{v[1]}'
    if t == 'phi': return f'any{v[2]}'
    return f"{t}{tuple(show(x, depth-1) if isinstance(x, tuple) else x for x in v[1:])}"


# ---------------------------------------------------------------------- texts
def strcat(parts):
    """The concatenation of string values."""
    out = []
    for x in parts:
        for y in (x[2] if x[:2] == ('t', 'str') else (x,)):
            if y[:2] == ('k', 'str'):
                if not y[2]: continue
                if out and out[-1][:2] == ('k', 'str'): out[-1] = ('k', 'str', out[-1][2] + y[2]); continue
            out.append(y)
    if not out: return ('k', 'str', '')
    if len(out) == 1: return out[0]
    return ('t', 'str', tuple(out))


def istext(v): return v[:2] == ('k', 'str') or v[0] == 't' and len(v) > 1 and v[1] in ('str', 'text', 'join', 'sop')


# Contents used inside terms: kept out of reach of substitution.
CONS = {}
CONL = []


def intern(con):
    if con[0] == 'con': return con
    if con not in CONS: CONS[con] = len(CONL); CONL.append(con)
    return ('con', CONS[con])


def extern(c): return CONL[c[1]] if c[0] == 'con' else c
