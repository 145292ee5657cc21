"""The text forms (C27).  repr() is interpreted over collections of any size:
the string it builds must show the repr of every element (of every key followed
by that of its value) exactly once, in the order of iteration.  str() is
interpreted over collections of 0..4 elements whose texts have symbolic lengths:
it must show the first elements in order, all of them whenever they fit, say
'...' exactly when it leaves some out, and never exceed its width."""
from .scen import *
from .rules_list import must, judge_ls, user_exc
from .rules_set import rcheck
from .rules_misc import recvr, full_source, unlzcon, counts
from .rules_map import mapcon
from .rules_seq import wraplz

NODE = ast.parse('x').body[0].value
WIDTH = 60          # of str(), between the delimiters
KINDS = 'PQRSVW'


def leaves(v):
    """The texts of values inside a string term: [('it', how, value)] and
    [('lp', n, js, [(how, value)...])]; None for what is not understood."""
    out = []
    if v[:2] == ('k', 'str'): return out
    if v[:2] == ('t', 'str'):
        for x in v[2]:
            r = leaves(x)
            if r is None: return None
            out += r
        return out
    if v[:2] == ('t', 'text'): return [('it', v[2], v[3])]
    if v[:2] == ('t', 'join'):
        for p in v[3]:
            if p[0] == 'it':
                r = leaves(p[1])
                if r is None: return None
                out += r
            elif p[0] == 'lp':
                inner = []
                for x in p[3]:
                    r = leaves(x)
                    if r is None or any(y[0] != 'it' for y in r): return None
                    inner += [y[1:] for y in r]
                if inner: out.append(('lp', p[1], p[2], inner))
            else: return None
        return out
    return None


def entries(ls, mapping):
    """Leaves -> list pieces of elements (pairs for mappings), and the ways
    ('repr' / 'str') they are shown; a text instead if they do not pair up."""
    out = []; hows = set(); i = 0
    while i < len(ls):
        p = ls[i]
        if p[0] == 'it':
            hows.add(p[1])
            if not mapping: out.append(('it', unlzcon(p[2]))); i += 1; continue
            if i + 1 >= len(ls) or ls[i + 1][0] != 'it': return 'a key is shown without its value', hows
            hows.add(ls[i + 1][1])
            out.append(('it', ('tup', (unlzcon(p[2]), unlzcon(ls[i + 1][2]))))); i += 2
        else:
            vs = p[3]
            for h, _ in vs: hows.add(h)
            if not mapping: out.append(('lp', p[1], p[2], tuple(unlzcon(x) for _, x in vs))); i += 1; continue
            if len(vs) % 2: return 'a key is shown without its value', hows
            out.append(('lp', p[1], p[2], tuple(('tup', (unlzcon(vs[k][1]), unlzcon(vs[k + 1][1]))) for k in range(0, len(vs), 2)))); i += 1
    return tuple(out), hows


def c27(cx, c):
    yield lambda: full_text(cx, c)
    for k in range(7 if DEEP else 5): yield lambda k=k: short_text(cx, c, k)
    if c in LAZY: yield lambda: kinds_of_text(cx, c)
    if kind_of(c) == 'map':
        for view in ('keys', 'values', 'items'): yield lambda view=view: view_text(cx, c, view)


def elem(c, K, side='B'):
    if kind_of(c) == 'map': return lambda j: ('tup', (ke(K, side, j), kv(K, side, j)))
    return lambda j: ke(K, side, j)


def full_text(cx, c):
    it = cx.ci
    st, A, n = recvr(cx, c)
    where = cx.where(c, '__repr__'); what = f'repr({c})'
    for s, v in cx.run(it, lambda: it.m.to_str(st, A, 'repr', NODE)) or ():
        if isinstance(v, Raise):
            if not user_exc(v): rcheck(cx, 'C27', where, what, s, v)
            continue
        ls = leaves(v)
        if ls is None or v == ('t', 'text', 'repr', A): cx.f.undecided('the text is not understood'); continue
        ls, hows = entries(ls, kind_of(c) == 'map')
        if isinstance(ls, str): must(cx, 'C27', where, what, s, False, ls); continue
        must(cx, 'C27', where, what, s, hows <= {'repr'}, 'an element is not shown by its repr')
        if c in LAZY: must(cx, 'C27', where, what, s, not any(e[0] == 'FORCE' for e in s.ev), 'computes a pending element')
        judge_ls(cx, 'C27', where, what + ' shows the elements', s, ls, [(n[K], elem(c, K)) for K in 'PQ'])


def short_text(cx, c, k):
    it = cx.ci
    st = cx.cstate(); full_source(cx)
    ks = KINDS[:k]; kd = kind_of(c)
    if kd == 'seq': con = ('aseq', tuple(('it', ke(K, 'B', I(0))) for K in ks))
    elif kd == 'set': con = ('aset', tuple(seg(K, 'B', I(1)) for K in ks))
    else: con = mapcon([(K, 'B', I(1), kv(K, 'B', JA)) for K in ks], False)
    A = cx.C.mk(st, c, con)
    where = cx.where(c, '__str__'); what = f'str({c} of {k})'
    it.unroll = 8
    try: outs = cx.run(it, lambda: it.m.to_str(st, A, 'str', NODE))
    finally: it.unroll = 1
    want = [elem(c, K)(I(0)) for K in ks]
    text = lambda x: ('t', 'text', 'repr', x)
    def width(s, x):
        if x[0] == 'tup': return add(add(it.m.len_of(s, text(x[1][0])), it.m.len_of(s, text(x[1][1]))), I(2))
        return it.m.len_of(s, text(x))
    for s, v in outs or ():
        if isinstance(v, Raise):
            if not user_exc(v): rcheck(cx, 'C27', where, what, s, v)
            continue
        ls = leaves(v)
        if ls is None or v == ('t', 'text', 'str', A) or any(p[0] != 'it' for p in ls): cx.f.undecided('the text is not understood'); continue
        ls, hows = entries(ls, kd == 'map')
        if isinstance(ls, str): must(cx, 'C27', where, what, s, False, ls); continue
        must(cx, 'C27', where, what, s, hows <= {'repr'}, 'an element is not shown by its repr')
        got = [p[1] for p in ls]
        must(cx, 'C27', where, what, s, got == want[:len(got)], f'shows {", ".join(show(x) for x in got)}, which are not the first elements in order')
        total = it.m.len_of(s, v)
        full = I(2 * (k - 1)) if k else I(0)
        for x in want: full = add(full, width(s, x))
        consts = [x[2] for x in (v[2] if v[:2] == ('t', 'str') else (v,)) if x[:2] == ('k', 'str')]
        dots = any('...' in x for x in consts)
        if len(got) < k:
            must(cx, 'C27', where, what, s, dots, 'leaves elements out without saying so')
            must(cx, 'C27', where, what, s, GE(sub(full, I(WIDTH + 1))), f'leaves elements out although all of them fit into {WIDTH} characters')
        else: must(cx, 'C27', where, what, s, not dots, 'says that elements are left out although all are shown')
        must(cx, 'C27', where, what, s, GE(sub(I(WIDTH + 4), total)), f'is wider than {WIDTH} characters between its delimiters')


def kinds_of_text(cx, c):
    """str() of a lazy collection with pending elements gives a string."""
    it = cx.ci
    st, A, n = recvr(cx, c)
    where = cx.where(c, '__str__'); what = f'str({c} with pending elements)'
    for s, v in cx.run(it, lambda: it.m.to_str(st, A, 'str', NODE)) or ():
        if isinstance(v, Raise):
            if not user_exc(v): rcheck(cx, 'C27', where, what, s, v)
        else:
            must(cx, 'C27', where, what, s, it.ptype(s, v) == 'str', f'gives {show(v)}')
            must(cx, 'C27', where, what, s, not any(e[0] == 'FORCE' for e in s.ev), 'computes a pending element')


def view_text(cx, c, view):
    """repr() and str() of a view give a string."""
    it = cx.ci
    for how in ('repr', 'str'):
        st, A, n = recvr(cx, c)
        cx.C.bypass = {(k, view) for k in MAPS}
        where = cx.where(c, view); what = f'{how}({c}.{view}())'
        for s, v in cx.run(it, lambda: it.bind(it.special(st, A, view, (), NODE), lambda s, v: it.m.to_str(s, v, how, NODE))) or ():
            if isinstance(v, Raise):
                if not user_exc(v): rcheck(cx, 'C27', where, what, s, v)
            else:
                must(cx, 'C27', where, what, s, it.ptype(s, v) == 'str', f'gives {show(v)}')
                ls = leaves(v)
                if how == 'str' or ls is None or any(p[0] == 'it' and p[2][0] == 'r' for p in ls): continue
                ls = tuple(('it', unlzcon(p[2])) if p[0] == 'it' else ('lp', p[1], p[2], tuple(unlzcon(x) for _, x in p[3])) for p in ls)
                at = {'keys': lambda K: (lambda j: ke(K, 'B', j)), 'values': lambda K: (lambda j: kv(K, 'B', j)), 'items': lambda K: elem(c, K)}[view]
                judge_ls(cx, 'C27', where, what + ' shows the elements', s, ls, [(n[K], at(K)) for K in 'PQ'])
