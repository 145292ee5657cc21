"""Guards of persistent objects (C01), hashing (C08), iterators of edited
mappings (C17), copying and pickling (C18), construction (C19), views (C20).
Mostly in contract mode, with the constructors, iterators and views interpreted
from their source over the (abstract) representation of their operands."""
from .scen import *
from .rules_list import must, user_exc
from .rules_set import rcheck, same, lens
from .rules_seq import judge_seq, mkseq, norm, content, wraplz, split_empty, equal_pieces
from .rules_map import judge_map, mapcon, unlz, mcontent, with_u
from .central import reach

NODE = ast.parse('x').body[0].value
BUILTINS = ('list', 'iterable', 'set', 'frozenset', 'dict', 'tuple', 'range', 'str')


# ------------------------------------------------------------------ operands
def pieces(n, lazy=False, dup=False):
    ps = [lp('P', 'B', n['P']), lp('Q', 'B', n['Q'])]
    if dup: ps.append(lp('P', 'B', n['P']))
    return [wraplz(p) for p in ps] if lazy else ps


def values(K, side='B'): return kv(K, side, JA)


def arg_of(cx, st, d, n, dup=False):
    """An argument of type d holding the elements P, Q (as keys: with values)."""
    if d in ('list', 'iterable'):
        ls = tuple(pieces(n, dup=dup))
        if d == 'list': return st.new('list', {'ls': ls}, None, fresh=False)
        return st.new('iter', {'src': ('S', 'ls', ls), 'pos': I(0)}, None, fresh=False)
    if d in ('pairs', 'pairiter', 'plist of pairs'):
        ls = [('lp', n[K], JA, (('tup', (ke(K, 'B', JA), kv(K, 'B', JA))),)) for K in 'PQ']
        if dup: ls.append(('lp', n['P'], JA, (('tup', (ke('P', 'B', JA), kv('P2', 'B', JA))),)))
        ls = tuple(ls)
        if d == 'pairs': return st.new('list', {'ls': ls}, None, fresh=False)
        if d == 'pairiter': return st.new('iter', {'src': ('S', 'ls', ls), 'pos': I(0)}, None, fresh=False)
        return cx.C.mk(st, 'plist', ('aseq', ls))
    if d in SEQ: return cx.C.mk(st, d, ('aseq', tuple(pieces(n, d in LAZY, dup))))
    if d in SETLIKE + ('set', 'frozenset'): return cx.C.mk(st, d, ('aset', tuple(seg(K, 'B', n[K]) for K in 'PQ')))
    return cx.C.mk(st, d, mapcon([(K, 'B', n[K], kv(K, 'B', JA)) for K in 'PQ'], d in LAZY))


def args_for(c):
    if kind_of(c) == 'map': return ('pairs', 'pairiter', 'plist of pairs', 'dict') + MAPS
    return ('list', 'iterable', 'set', 'frozenset', 'dict') + SEQ + SETLIKE + MAPS


def full_source(cx):
    """Constructors are interpreted from their source."""
    cx.C.newbypass = set(ALL)


def counts(cx, st): return {K: cnt(st, K) for K in 'PQ'}


def force_events(s, n0): return [e for e in s.ev[n0:] if e[0] == 'FORCE']


def holds(cx, rule, where, what, s, ref, c, d, n, dup=False, rules=True):
    """The collection ref of class c holds the elements of arg_of(d)."""
    if ref[0] != 'r' or ref[1] not in s.heap or s.cls(ref) not in ALL:
        must(cx, rule, where, what, s, False, f'the result is {show(ref)}, not a {c}'); return
    must(cx, rule, where, what, s, s.cls(ref) == c, f'the result is a {s.cls(ref)}, not a {c}')
    c = s.cls(ref)
    con = cx.C.con(s, ref)
    if con is None:
        if broken(s, ref): must(cx, rule, where, what, s, False, broken(s, ref))
        elif mixed(cx, s, ref): must(cx, rule, where, what, s, False, 'the result mixes the representations of different collections')
        else: cx.f.undecided('the representation of the result is not understood')
        return
    lazy = d in LAZY and c in LAZY
    k = kind_of(c)
    if k == 'seq':
        ps = pieces(n, d in LAZY, dup and (d in ('list', 'iterable') or d in SEQ))
        if d in LAZY and not lazy: ps = pieces(n, False, dup)
        if d in MAPS: ps = pieces(n)
        judge_seq(cx, rule, where, what, s, ref, ps)
    elif k == 'set':
        got = lens(con)
        for K in 'PQ':
            g = got.get(K, I(0))
            must(cx, rule, where, what, s, EQ0(sub(g, n[K])), f'{show(g)} of the {show(n[K])} elements of a kind are held')
        must(cx, rule, where, what, s, all(K in 'PQ' or same(s, got[K], I(0)) for K in got), 'elements appear from nowhere')
    else:
        want = {K: [(n[K], kv('P2' if dup and K == 'P' and d in ('pairs', 'pairiter', 'plist of pairs') else K, 'B', JA))] for K in 'PQ'}
        if c in LAZY and d in LAZY:
            for g in con[1]:
                must(cx, rule, where, what, s, g[5][:2] == ('t', 'klz') or same(s, g[3], g[4]), 'a pending value is not kept pending')
        judge_map(cx, rule, where, what, s, con, want, c)
        if c not in LAZY:
            bad = [g for g in con[1] if contains(g, lambda x: x[0] == 't' and len(x) > 1 and x[1] == 'klz')]
            must(cx, rule, where, what, s, not bad, 'a lazy object is held where its value belongs')


def mixed(cx, s, ref):
    """All parts of the representation are known, and do not belong together."""
    o = s.heap[ref[1]]; R = REP[o.cls]
    seen = set()
    for role in ('els', 'idx', 'top', 'start'):
        if role not in R: continue
        t = o.f.get(R[role])
        if t is None: return False
        if role in ('els', 'idx'):
            t = t[1] if t[0] == 'ph' else s.get(t, 'c') if t[0] == 'r' and s.cls(t) == 'THAMT' else None
            if t is None or t[0] not in ('abs', 'ec'): return False
            seen.add((role if t[0] == 'ec' else t[2], t[1] if t[0] == 'abs' else None))
            if t[0] == 'abs' and t[2] != role: return True
        else:
            if cint(t) is not None: seen.add((role, None))
            elif t[0] == 't' and t[1] == 'absrep' and t[2] == role: seen.add((role, t[3]))
            else: return False
    return len({x for _, x in seen}) > 1


def tied(cx, rule, where, what, s, ref, before):
    """No mutable trie of the result belongs to an object that existed before."""
    if ref[0] != 'r' or ref[1] not in s.heap: return
    own = {v for v in s.heap[ref[1]].f.values() if isinstance(v, tuple) and len(v) == 2 and v[0] == 'r' and v[1] in s.heap and s.cls(v) == 'THAMT'}
    for i, o in s.heap.items():
        if ('r', i) == ref or o.cls not in ALL: continue
        if i not in before: continue
        sh = [v for v in o.f.values() if v in own]
        must(cx, rule, where, what, s, not sh, f'the result shares the storage of the {o.cls} it was made from')
        must(cx, rule, where, what, s, o.cls not in TRANSIENT or ('r', i) not in s.heap[ref[1]].f.values(), f'the result keeps a reference to the transient it was made from')
    if s.cls(ref) in PERSISTENT: must(cx, rule, where, what, s, not own, 'a persistent collection holds a mutable trie')


# ------------------------------------------------------------------- C19
def construct(cx, c, d, dup=False):
    st = cx.cstate(); full_source(cx)
    n = counts(cx, st)
    B = arg_of(cx, st, d, n, dup)
    con0 = cx.C.con(st, B) if d in ALL or d in ('set', 'frozenset', 'dict') else None
    n0 = len(st.ev); before = set(st.heap)
    where = cx.where(c, '__new__'); what = f'{c}({"a " + d}{" with repetitions" if dup else ""})'
    outs = cx.run(cx.ci, lambda: cx.ci.instantiate(('cls', c), (B,), {}, st.fork(), NODE))
    for s, v in outs or ():
        if isinstance(v, Raise): rcheck(cx, 'C19', where, what, s, v); continue
        holds(cx, 'C19', where, what, s, v, c, d, n, dup)
        tied(cx, 'C19', where, what, s, v, before)
        must(cx, 'C19', where, what, s, not (c in TRANSIENT and v == B), 'a transient argument is returned itself')
        if con0 is not None:
            must(cx, 'C19', where, what, s, cx.C.con(s, B) == con0 or None in (cx.C.con(s, B),), 'the argument is changed')
        if c in LAZY and d in LAZY: must(cx, 'C06', where, what, s, not force_events(s, n0), 'a lazy element is computed')
        if d in LAZY and c not in LAZY:
            con = cx.C.con(s, v) if v[0] == 'r' and s.cls(v) in ALL else None
            if con is not None: must(cx, 'C05', where, what, s, not contains(con, lambda x: x[0] == 't' and len(x) > 1 and x[1] == 'klz'), 'holds lazy objects')


def refuse(cx, c):
    """Too many arguments, keywords to lists and sets, arguments that are not iterable."""
    where = cx.where(c, '__new__')
    cases = [(('P', 'P'), {}, 'two arguments'), (('P', 'P', 'P'), {}, 'three arguments'), (('int',), {}, 'an int')]
    if kind_of(c) != 'map': cases += [((), {'k': 1}, 'a keyword'), (('P',), {'k': 1}, 'an argument and a keyword')]
    else: cases += [(('P', 'P'), {'k': 1}, 'two arguments and a keyword')]
    for a, kw, txt in cases:
        st = cx.cstate(); full_source(cx)
        n = counts(cx, st)
        args = tuple(arg_of(cx, st, 'pairs' if kind_of(c) == 'map' else 'list', n) if x == 'P' else ('s', 'number') for x in a)
        st.types[('s', 'number')] = 'int'
        k = {x: ('s', 'kwval') for x in kw}
        for s, v in cx.run(cx.ci, lambda: cx.ci.instantiate(('cls', c), args, k, st, NODE)) or ():
            must(cx, 'C19', where, f'{c}() with {txt}', s, isinstance(v, Raise) and v.exc[1] == 'TypeError', 'no TypeError' if not isinstance(v, Raise) else f'raises {v.exc[1]}')


def noargs(cx, c):
    st = cx.cstate(); full_source(cx)
    where = cx.where(c, '__new__')
    before = {i for i, o in st.heap.items()}
    for s, v in cx.run(cx.ci, lambda: cx.ci.instantiate(('cls', c), (), {}, st, NODE)) or ():
        if isinstance(v, Raise): rcheck(cx, 'C19', where, f'{c}()', s, v); continue
        ok = v[0] == 'r' and v[1] in s.heap and s.cls(v) == c
        must(cx, 'C19', where, f'{c}()', s, ok, f'gives {show(v)} {s.cls(v) if v[0] == "r" and v[1] in s.heap else ""}')
        if not ok: continue
        must(cx, 'C19', where, f'{c}()', s, not (c in TRANSIENT and v[1] in before), 'gives a transient that exists already')
        con = cx.C.con(s, v)
        if con is None and broken(s, v): must(cx, 'C19', where, f'{c}()', s, False, broken(s, v)); continue
        if con is None: cx.f.undecided('the representation of the result is not understood'); continue
        must(cx, 'C19', where, f'{c}()', s, con[1] == (), 'is not empty')
        tied(cx, 'C19', where, f'{c}()', s, v, before)


def keywords(cx, c, d, over=False, u='u'):
    """Mappings: keyword arguments, alone or after another argument, which may
    bind the keyword (over)."""
    st = cx.cstate(); full_source(cx)
    n = counts(cx, st)
    U = ('s', 'kwval')
    args = () if d is None else (with_u(cx, st, d, [(K, 'B', n[K]) for K in 'PQ']) if over else arg_of(cx, st, d, n),)
    n0 = len(st.ev); before = set(st.heap)
    con0 = cx.C.con(st, args[0]) if d in ALL or d == 'dict' else None
    where = cx.where(c, '__new__'); what = f'{c}({"a " + d + ", " if d else ""}{u}=...){" that binds u" if over else ""}'
    for s, v in cx.run(cx.ci, lambda: cx.ci.instantiate(('cls', c), args, {u: U}, st.fork(), NODE)) or ():
        if isinstance(v, Raise): rcheck(cx, 'C19', where, what, s, v); continue
        if v[0] != 'r' or v[1] not in s.heap or s.cls(v) != c: must(cx, 'C19', where, what, s, False, f'gives {show(v)}'); continue
        con = cx.C.con(s, v)
        want = {'kw:' + u: [(I(1), U)]}
        if d:
            for K in 'PQ': want[K] = [(n[K], kv(K, 'B', JA))]
        judge_map(cx, 'C19', where, what, s, con, want, c)
        tied(cx, 'C19', where, what, s, v, before)
        if con0 is not None: must(cx, 'C19', where, what, s, cx.C.con(s, args[0]) in (con0, None), 'the argument is changed')
        if d and c in LAZY and d in LAZY: must(cx, 'C06', where, what, s, not force_events(s, n0), 'a lazy element is computed')


def c19(cx, c):
    yield lambda: noargs(cx, c)
    yield lambda: refuse(cx, c)
    for d in args_for(c):
        yield lambda d=d: construct(cx, c, d)
        if d in ('list', 'iterable', 'pairs', 'pairiter', 'plist of pairs') or d in SEQ: yield lambda d=d: construct(cx, c, d, True)
    if c in MAPS:
        for d in (None, 'pairs', 'pairiter', 'dict') + MAPS:
            yield lambda d=d: keywords(cx, c, d)
            if d in (None, 'dict', c):
                for u in kwnames(cx): yield lambda d=d, u=u: keywords(cx, c, d, False, u)
            if d: yield lambda d=d: keywords(cx, c, d, True)


# ------------------------------------------------------------------- C01 guards
def c01guards(cx, c):
    if c not in PERSISTENT: return
    yield lambda: guards(cx, c)


def guards(cx, c):
    it = cx.fi
    names = sorted(set(REP[c].values())) + ['anything', '__class__', '__dict__']
    acts = []
    for nm in names:
        acts.append((f'assigning to .{nm}', '__setattr__', lambda st, A, nm=nm: it.setattr(st, A, nm, ('s', 'newval'), NODE)))
        acts.append((f'deleting .{nm}', '__delattr__', lambda st, A, nm=nm: it.delattr(st, A, nm, NODE)))
        if cx.has(c, '__setattr__'):
            acts.append((f'__setattr__({nm!r}, ...)', '__setattr__', lambda st, A, nm=nm: cx.fw.call(st, A, '__setattr__', (('k', 'str', nm), ('s', 'newval')))))
            acts.append((f'__delattr__({nm!r})', '__delattr__', lambda st, A, nm=nm: cx.fw.call(st, A, '__delattr__', (('k', 'str', nm),))))
    for k, ty in ((('s', 'key'), 'any'), (('s', 'ikey'), 'int')):
        def sett(st, A, k=k, ty=ty):
            st.types[k] = ty; return it.setitem(st, A, k, ('s', 'newval'), NODE)
        def dele(st, A, k=k, ty=ty):
            st.types[k] = ty; return it.delitem(st, A, k, NODE)
        acts += [('item assignment', '__setitem__', sett), ('item deletion', '__delitem__', dele)]
    for txt, m, f in acts:
        for hashed in (False, True):
            st = cx.fw.state(); A = cx.fw.recv(st, c, 'A', hashed=hashed)
            where = cx.where(c, m)
            for s, v in cx.run(it, lambda: f(st.fork(), A)) or ():
                must(cx, 'C01', where, f'{txt} of a {c}', s, isinstance(v, Raise) and v.exc[1] == 'TypeError', 'no TypeError' if not isinstance(v, Raise) else f'raises {v.exc[1]}')
                must(cx, 'C01', where, f'{txt} of a {c}', s, s.heap[A[1]].f == st.heap[A[1]].f, 'changes the object')


# ------------------------------------------------------------------- C18
def con_of(c, n, side='B'):
    k = kind_of(c)
    if k == 'seq': return ('aseq', tuple(pieces(n, c in LAZY)))
    if k == 'set': return ('aset', tuple(seg(K, side, n[K]) for K in 'PQ'))
    return mapcon([(K, side, n[K], kv(K, side, JA)) for K in 'PQ'], c in LAZY)


def recvr(cx, c):
    st = cx.cstate(); full_source(cx)
    n = counts(cx, st)
    return st, cx.C.mk(st, c, con_of(c, n)), n


def unlzcon(con):
    if isinstance(con, tuple):
        if con[:2] == ('t', 'klz'): return con[2]
        return tuple(unlzcon(x) for x in con)
    return con


def samecon(cx, rule, where, what, s, v, c, A, n, other=False):
    """v is a collection of class c with the elements of A (lazy ones computed or not)."""
    ok = v[0] == 'r' and v[1] in s.heap and s.cls(v) == c
    must(cx, rule, where, what, s, ok, f'gives {s.cls(v) if v[0] == "r" and v[1] in s.heap else show(v)}, not a {c}')
    if not ok: return
    if other: must(cx, rule, where, what, s, v != A, 'gives the transient itself')
    con = cx.C.con(s, v)
    if con is None:
        if broken(s, v): must(cx, rule, where, what, s, False, broken(s, v))
        elif mixed(cx, s, v): must(cx, rule, where, what, s, False, 'the result mixes the representations of different collections')
        else: cx.f.undecided('the representation of the result is not understood')
        return
    k = kind_of(c)
    if k == 'seq':
        t = s.new('list', {'ls': unlzcon(con[1])}, None)
        judge_seq(cx, rule, where, what, s, t, pieces(n))
    elif k == 'set':
        got = lens(con)
        for K in set('PQ') | set(got): must(cx, rule, where, what, s, EQ0(sub(got.get(K, I(0)), n.get(K, I(0)))), 'the elements differ')
    else:
        judge_map(cx, rule, where, what, s, unlzcon(con), {K: [(n[K], kv(K, 'B', JA))] for K in 'PQ'}, c)


def unpicklable(cx, s, v, A):
    """A reason why pickle or deepcopy cannot take v."""
    if not isinstance(v, tuple) or not v: return None
    if v == A: return 'it refers to the object itself, without end'
    if v[0] == 'fn':
        f = cx.cp.fns.get(v[1])
        if f is None: return None
        if '<lambda>' in str(f.qual) or '<locals>' in str(f.qual) or isinstance(f.node, ast.Lambda): return 'it contains a local function'
        return None
    if v[0] == 'bm': return unpicklable(cx, s, v[2], A) or None
    if v[0] == 'ph': return 'it contains a trie, which cannot be pickled'
    if v[0] == 'S': return 'it contains an iterator'
    if v[0] == 'tup':
        for x in v[1]:
            r = unpicklable(cx, s, x, A)
            if r: return r
    if v[0] == 'r' and v[1] in s.heap:
        if s.cls(v) == 'THAMT': return 'it contains a trie, which cannot be pickled'
        if s.cls(v) in ('iter', 'gen'): return 'it contains an iterator'
        if s.cls(v) == 'aview': return 'it contains a view of a mapping'
    return None


def c18(cx, c):
    yield lambda: pickling(cx, c)
    for m in ('copy', '__copy__', '__deepcopy__'):
        if cx.has(c, m): yield lambda m=m: copying(cx, c, m)
    if cx.has(c, '__json__'): yield lambda: json(cx, c)


def pickling(cx, c):
    it = cx.ci
    m = '__reduce_ex__' if cx.has(c, '__reduce_ex__') else '__reduce__'
    where = cx.where(c, m); what = f'pickling a {c}'
    if not cx.has(c, m):
        if not (cx.has(c, '__getstate__') or cx.has(c, '__setstate__') or cx.has(c, '__getnewargs__') or cx.has(c, '__getnewargs_ex__')):
            cx.f.bad('C18', f'{c}', f'{what}: there is no __reduce__, and the default cannot restore slots of tries')
        else: cx.f.undecided('pickling through __getstate__')
        return
    st, A, n = recvr(cx, c)
    before = set(st.heap)
    for s, v in cx.run(it, lambda: cx.cw.call(st, A, m, (I(4),) if m.endswith('ex__') else ())) or ():
        if isinstance(v, Raise): rcheck(cx, 'C18', where, what, s, v); continue
        if v[0] != 'tup' or len(v[1]) < 2: cx.f.undecided('the result of __reduce__ is not understood'); continue
        f, a = v[1][0], v[1][1]
        why = None
        for x in v[1]: why = why or unpicklable(cx, s, x, A)
        must(cx, 'C18', where, what, s, why is None, why)
        if len(v[1]) > 2 and any(x != NONE for x in v[1][2:]): cx.f.undecided('__reduce__ with a state'); continue
        if a[0] != 'tup': cx.f.undecided('the arguments of __reduce__ are not understood'); continue
        for s2, w in cx.run(it, lambda: it.call(f, a[1], {}, s.fork(), NODE)) or ():
            if isinstance(w, Raise): rcheck(cx, 'C18', where, f'restoring a {c}', s2, w); continue
            samecon(cx, 'C18', where, f'a pickle round trip of a {c}', s2, w, c, A, n, c in TRANSIENT)
            tied(cx, 'C18', where, f'a pickle round trip of a {c}', s2, w, before)


def copying(cx, c, m):
    it = cx.ci
    st, A, n = recvr(cx, c)
    before = set(st.heap); where = cx.where(c, m); what = f'{c}.{m}()'
    con0 = cx.C.con(st, A)
    memo = (st.new('dict', {'$a': ('amap', ()), 'ver': I(0)}, None),) if m == '__deepcopy__' else ()
    for s, v in cx.run(it, lambda: cx.cw.call(st, A, m, memo)) or ():
        if isinstance(v, Raise): rcheck(cx, 'C18', where, what, s, v); continue
        if m == '__deepcopy__':
            must(cx, 'C18', where, what, s, v[0] == 'r' and v[1] in s.heap and s.cls(v) == c and not (c in TRANSIENT and v == A), f'gives {show(v)}, not a new {c}'); continue
        samecon(cx, 'C18', where, what, s, v, c, A, n, c in TRANSIENT)
        if c in TRANSIENT: tied(cx, 'C18', where, what, s, v, before)
        must(cx, 'C18', where, what, s, cx.C.con(s, A) in (con0, None), 'changes the original')


def json(cx, c):
    it = cx.ci
    st, A, n = recvr(cx, c)
    where = cx.where(c, '__json__'); what = f'{c}.__json__()'
    for s, v in cx.run(it, lambda: cx.cw.call(st, A, '__json__')) or ():
        if isinstance(v, Raise): rcheck(cx, 'C18', where, what, s, v); continue
        if v[0] == 't' and v[1] == 'json': x = v[2]
        else: x = v
        if x[0] == 't' and x[1] == 'list': t = s.new('list', {'ls': x[2]}, None)
        elif x[0] == 'r' and x[1] in s.heap: t = x
        else: cx.f.undecided('the JSON form is not understood'); continue
        k = kind_of(c)
        if k == 'map':
            if s.cls(t) != 'dict': must(cx, 'C18', where, what, s, False, f'encodes a {s.cls(t)}, not a dict'); continue
            judge_map(cx, 'C18', where, what, s, cx.C.con(s, t), {K: [(n[K], kv(K, 'B', JA))] for K in 'PQ'}, 'tdict')
        else:
            if s.cls(t) != 'list': must(cx, 'C18', where, what, s, False, f'encodes a {s.cls(t)}, not a list'); continue
            judge_seq(cx, 'C18', where, what, s, t, pieces(n))


# ------------------------------------------------------------------- C08
PARTNERS = {'plist': ('plist', 'llist'), 'llist': ('llist',), 'pset': ('pset', 'frozenset', 'tset'), 'tset': ('tset', 'frozenset'), 'pdict': ('pdict', 'ldict'), 'ldict': ('ldict',)}


def hcon(c, n, order, side, pending=True):
    """Content equal for both sides: elements equal (kinds), values equal."""
    k = kind_of(c) if c in ALL else 'set'
    if k == 'seq':
        ps = tuple(lp(K, side, n[K]) for K in 'PQ')
        return ('aseq', tuple(wraplz(p) for p in ps) if c in LAZY and pending else ps)
    if k == 'set': return ('aset', tuple(seg(K, side, n[K]) for K in order))
    return mapcon([(K, side, n[K], kv(K, side, JA)) for K in order], c in LAZY and pending)


def hnorm(v):
    """A term up to what equal operands share: sides, laziness."""
    if not isinstance(v, tuple): return v
    if v[:2] == ('t', 'absrep'): return v
    if v[:2] == ('t', 'forced') and len(v) > 2: return hnorm(v[2][2] if v[2][:2] == ('t', 'klz') else v[2])
    if len(v) == 5 and v[0] == 't' and v[1] in ('ke', 'kv'): return ('t', v[1], hnorm(v[2]), '*', hnorm(v[4]))
    return tuple(hnorm(x) for x in v)


def heq(cx, s, a, b):
    """Formula: two hash terms are the same number; None if it cannot be told."""
    a, b = hnorm(a), hnorm(b)
    if a == b: return True
    ta, tb = parts(a), parts(b)
    if ta is None or tb is None: return None
    if ta[0] != tb[0]: return False if not odd(a) and not odd(b) else None
    if len(ta[1]) != len(tb[1]): return False if not odd(a) and not odd(b) else None
    fs = []
    for (ka, xa), (kb, xb) in zip(ta[1], tb[1]):
        if ka != kb: return False if not odd(a) and not odd(b) else None
        if ka == 'fz':
            for x in (xa, xb):
                if x[0] not in ('aset',): return None
            la, lb = lens(xa), lens(xb)
            fs += [EQ0(sub(la.get(K, I(0)), lb.get(K, I(0)))) for K in set(la) | set(lb)]
        elif ka == 'tuple':
            e = equal_pieces(s, norm(s, xa), norm(s, xb))
            if e is not True: return e if not odd(a) and not odd(b) else None
        else:
            if xa != xb: return None if odd(a) or odd(b) else False
    return AND(*fs) if fs else True


def odd(v): return contains(v, lambda x: x[0] in ('u', 'phi', 'hv'))


def parts(v):
    """An integer term -> (shape, [(kind, hashed content)])."""
    out = []
    def go(x):
        if not isinstance(x, tuple): return x
        if x[:2] == ('t', 'hash') and len(x) == 3:
            y = x[2]
            if y[:2] == ('t', 'fz'): out.append(('fz', y[2])); return '#'
            if y[:2] == ('t', 'tuple'): out.append(('tuple', y[2])); return '#'
            if y[0] == 'tup': out.append(('tuple', tuple(('it', z) for z in y[1]))); return '#'
            out.append(('other', y)); return '#'
        return tuple(go(y) for y in x)
    sh = go(v)
    return sh, out


def hjudge(cx, where, what, s, a, b):
    ps = [p for v in (a, b) for k, x in (parts(hnorm(v)) or ((), ()))[1] if k == 'tuple' for p in x]
    cases = split_empty(s, ps)
    if len(cases) != 1:
        for s2 in cases: hjudge(cx, where, what, s2, a, b)
        return
    f = heq(cx, s, a, b)
    if f is None: cx.f.undecided('the hash is not understood'); return
    must(cx, 'C08', where, what, s, f, f'gives {show(a)[:120]} and {show(b)[:120]}')


def hashing(cx, c, d, order, pending=True):
    it = cx.ci
    st = cx.cstate(); n = counts(cx, st)
    A = cx.C.mk(st, c, hcon(c, n, 'PQ', 'A')); B = cx.C.mk(st, d, hcon(d, n, order, 'B', pending))
    where = cx.where(c, '__hash__'); what = f'hash of a {c} and an equal {d}{"" if order == "PQ" else " built in another order"}{"" if pending else " already computed"}'
    for s, h in cx.run(it, lambda: it.m.hash_(st, A, NODE)) or ():
        if isinstance(h, Raise): unhash(cx, c, where, what, s, h); continue
        # taken again: the same
        for s1, h1 in cx.run(it, lambda: it.m.hash_(s.fork(), A, NODE)) or ():
            if isinstance(h1, Raise): unhash(cx, c, where, what, s1, h1); continue
            hjudge(cx, where, f'hash of a {c} taken twice', s1, h1, h)
        for s2, g in cx.run(it, lambda: it.m.hash_(s.fork(), B, NODE)) or ():
            if isinstance(g, Raise): unhash(cx, d, where, what, s2, g); continue
            hjudge(cx, where, what, s2, g, h)


def unhash(cx, c, where, what, s, h):
    if c in TRANSIENT and h.exc[1] == 'TypeError': return       # not hashable at all
    if c in PERSISTENT and h.exc[1] == 'TypeError' and h.exc[3] is not None and 'unhashable type' in str(h.exc[4]):
        must(cx, 'C08', where, what, s, False, f'a {c} is not hashable'); return
    rcheck(cx, 'C08', where, what, s, h)


def history(cx, c, m):
    """The hash of an edited transient is that of its contents now."""
    it = cx.fi
    st = cx.fw.state()
    if c in LAZY: st.x['$lazy'] = False
    A = cx.fw.recv(st, c, 'A')
    N = ('s', 'A', 'n'); st.add(sub(N, I(1)))
    where = cx.where(c, '__hash__') if cx.has(c, '__hash__') else c
    X = ('s', 'arg')
    for s, h in cx.run(it, lambda: it.m.hash_(st, A, NODE)) or ():
        if isinstance(h, Raise): continue
        for s1, r in cx.run(it, lambda: cx.fw.call(s.fork(), A, m, {'clear': (), 'pop': ()}.get(m, (X,)))) or ():
            if isinstance(r, Raise): continue
            ln = cx.run(it, lambda: cx.fw.call(s1.fork(), A, '__len__')) or ()
            if not ln or not all(not isinstance(l, Raise) and (s3.entails(sub(sub(l, N), I(1))) or s3.entails(sub(sub(N, l), I(1)))) for s3, l in ln): continue
            for s2, g in cx.run(it, lambda: it.m.hash_(s1.fork(), A, NODE)) or ():
                if isinstance(g, Raise): continue
                must(cx, 'C08', where, f'hash of a {c}, {m}, hash again', s2, g != h, 'gives the hash of the contents before the edit')


def c08(cx, c):
    if c in TRANSIENT:
        for m in ('add', 'discard', 'clear', 'pop') if c in TSETS else ('append', 'clear', 'pop') if c in TLISTS else ('clear', 'popitem'):
            yield lambda m=m: history(cx, c, m)
    for d in PARTNERS.get(c, (c,)):
        for order in ('PQ',) if c in SEQ else ('PQ', 'QP'):
            yield lambda d=d, order=order: hashing(cx, c, d, order)
            if d in LAZY: yield lambda d=d, order=order: hashing(cx, c, d, order, False)


# ------------------------------------------------------------------- C20
VIEWS = ('keys', 'values', 'items')


def real_views(cx, c):
    cx.C.bypass = {(k, m) for k in MAPS for m in VIEWS + ('__iter__', '__reversed__')}


def vrecv(cx, c):
    st = cx.cstate(); full_source(cx); real_views(cx, c)
    n = counts(cx, st)
    A = cx.C.mk(st, c, mapcon([(K, 'A', n[K], kv(K, 'A', JA)) for K in 'PQ'], c in LAZY))
    return st, A, n


def vpieces(cx, what, n, rev=False):
    r = []
    for K in 'PQ':
        j = sub(sub(n[K], I(1)), JA) if rev else JA
        k, v = cx.C.uncanon(ke(K, 'A', j)), kv(K, 'A', j)
        r.append(('lp', n[K], JA, ({'keys': k, 'values': v, 'items': ('tup', (k, v))}[what],)))
    return r[::-1] if rev else r


def collect(cx, s, v):
    """[(state, pieces | Raise)] of iterating v."""
    it = cx.ci
    def f(s2, src): return it.l.collect(s2, v, NODE)
    return cx.run(it, lambda: it.l.collect(s, v, NODE))


def vlist(cx, rule, where, what, s, ls, w, n, rev=False):
    t = s.new('list', {'ls': ls}, None)
    want = vpieces(cx, w, n, rev)
    if w == 'items':
        # compare keys and values separately
        for i, nm in ((0, 'keys'), (1, 'values')):
            out = []
            ok = True
            for p in ls:
                if p[0] == 'lp' and len(p[3]) == 1 and p[3][0][0] == 'tup' and len(p[3][0][1]) == 2: out.append(p[:3] + ((p[3][0][1][i],),))
                elif p[0] == 'it' and p[1][0] == 'tup' and len(p[1][1]) == 2: out.append(('it', p[1][1][i]))
                else: ok = False
            if not ok:
                if cx.imp(s): cx.f.undecided('items not understood')
                else: must(cx, rule, where, what, s, False, 'does not yield pairs')
                return
            judge_seq(cx, rule, where, what + f' ({nm})', s, s.new('list', {'ls': tuple(out)}, None), vpieces(cx, nm, n, rev))
        return
    judge_seq(cx, rule, where, what, s, t, want)


def view_iter(cx, c, w, rev):
    it = cx.ci
    st, A, n = vrecv(cx, c)
    if w == 'iter':
        if not cx.has(c, '__reversed__' if rev else '__iter__'): return
        where = cx.where(c, '__reversed__' if rev else '__iter__'); what = f'{"reversed" if rev else "iter"}({c})'
        outs = cx.run(it, lambda: cx.cw.call(st, A, '__reversed__' if rev else '__iter__'))
        for s, v in outs or ():
            if isinstance(v, Raise): rcheck(cx, 'C20', where, what, s, v); continue
            for s2, ls in collect(cx, s, v) or ():
                if isinstance(ls, Raise): rcheck(cx, 'C20', where, what, s2, ls); continue
                vlist(cx, 'C20', where, what, s2, ls, 'keys', n, rev)
        return
    where = cx.where(c, w); what = f'{c}.{w}()'
    for s, v in cx.run(it, lambda: cx.cw.call(st, A, w)) or ():
        if isinstance(v, Raise): rcheck(cx, 'C20', where, what, s, v); continue
        if not rev:
            for s2, ln in cx.run(it, lambda: it.m.call_builtin(s.fork(), 'len', (v,), {}, NODE)) or ():
                if isinstance(ln, Raise): rcheck(cx, 'C20', where, what + ': len', s2, ln); continue
                must(cx, 'C20', where, what, s2, EQ0(sub(ln, add(n['P'], n['Q']))), f'its length is {show(ln)}')
        m = 'reversed' if rev else 'iter'
        for s2, i in cx.run(it, lambda: it.m.call_builtin(s.fork(), 'iter', (v,), {}, NODE) if not rev else it.bind(it.getattr(s.fork(), v, '__reversed__', NODE), lambda s3, f: it.call(f, (), {}, s3, NODE))) or ():
            if isinstance(i, Raise): rcheck(cx, 'C20', where, f'{m} of {what}', s2, i); continue
            for s3, ls in collect(cx, s2, i) or ():
                if isinstance(ls, Raise): rcheck(cx, 'C20', where, f'{m} of {what}', s3, ls); continue
                vlist(cx, 'C20', where, f'{m} of {what}', s3, ls, w, n, rev)
                if c in LAZY and w != 'keys': must(cx, 'C05', where, f'{m} of {what}', s3, not contains(ls, lambda x: x[0] == 't' and len(x) > 1 and x[1] == 'klz'), 'delivers lazy objects')
                if c in LAZY and w == 'keys': must(cx, 'C06', where, f'{m} of {what}', s3, not force_events(s3, 0), 'computes lazy values')


def view_in(cx, c, w):
    it = cx.ci
    i0 = ('s', 'i0')
    def cases(n):
        k, v = ke('P', 'B', i0), kv('P', 'A', i0)
        foreign, fv = ke('R', 'B', I(0)), kv('R', 'B', I(0))
        if w == 'keys': return [(k, True, 'a bound key'), (foreign, False, 'a key that is not bound')]
        if w == 'values': return [(v, True, 'a bound value'), (fv, False, 'a value that is not bound')]
        num = ('s', 'number'); obj = ('s', 'obj')
        return [(('tup', (foreign, obj)), False, 'a key that is not bound, with a value that may equal anything'),(('tup', (k, v)), True, 'a bound pair'), (('tup', (k, fv)), False, 'a bound key with another value'), (('tup', (k, NONE)), False, 'a bound key with None'),
                (('tup', (k, ELL)), False, 'a bound key with Ellipsis'),
                (('tup', (foreign, fv)), False, 'a key that is not bound'), (('tup', (foreign, NONE)), False, 'a key that is not bound, with None'),
                (('tup', (foreign, ELL)), False, 'a key that is not bound, with Ellipsis'), (('tup', (foreign, v)), False, 'a key that is not bound with a bound value'),
                (num, False, 'a number'), (NONE, False, 'None'), (('tup', ()), False, 'an empty tuple'), (('tup', (k,)), False, 'a tuple of one'),
                (('tup', (k, v, v)), False, 'a tuple of three'), (('k', 'str', 'abc'), False, 'a string'), (k, False, 'a bound key, not a pair')]
    probe = cases({'P': I(1), 'Q': I(1)})
    for x, want, txt in probe:
        st, A, n = vrecv(cx, c)
        st.types[i0] = 'int'; st.add(i0); st.add(sub(sub(n['P'], I(1)), i0))
        st.types[('s', 'number')] = 'int'
        where = cx.where(c, w); what = f'{txt} in {c}.{w}()'
        for s, v in cx.run(it, lambda: cx.cw.call(st, A, w)) or ():
            if isinstance(v, Raise): continue
            for s2, b in cx.truths(it, cx.run(it, lambda: it.cmp_in(s.fork(), x, v, NODE)) or ()):
                if isinstance(b, Raise): rcheck(cx, 'C20', where, what, s2, b); continue
                must(cx, 'C20', where, what, s2, b == want, f'is {b}')


def c20(cx, c):
    if c not in MAPS: return
    for rev in (False, True):
        for w in ('iter',) + VIEWS: yield lambda w=w, rev=rev: view_iter(cx, c, w, rev)
    for w in VIEWS: yield lambda w=w: view_in(cx, c, w)


# ------------------------------------------------------------------- C17: iterators
def stale(cx, c, src, edit):
    """next() of an iterator after the mapping was edited."""
    it = cx.fi
    st = cx.fw.state()
    if c in LAZY: st.x['$lazy'] = False
    A = cx.fw.recv(st, c, 'A')
    N = ('s', 'A', 'n'); st.add(sub(N, I(2)))
    X, V = ('s', 'arg'), ('s', 'newval')
    m, args = {'add': ('__setitem__', (X, V)), 'remove': ('__delitem__', (X,)), 'pop': ('pop', (X,)), 'popitem': ('popitem', ()), 'clear': ('clear', ()),
               'setdefault': ('setdefault', (X, V))}[edit]
    where = cx.where(c, '__iter__' if src == 'iter' else src); what = f'an iterator over {"a " + c if src == "iter" else c + "." + src + "()"}, resumed after {m}'
    if src == 'iter': outs = cx.run(it, lambda: cx.fw.call(st, A, '__iter__'))
    else:
        outs = cx.run(it, lambda: it.bind(it.bind(it.getattr(st, A, src, NODE), lambda s, f: it.call(f, (), {}, s, NODE)),
                                          lambda s, v: it.m.call_builtin(s, 'iter', (v,), {}, NODE)))
    if True:
        for s, i in outs or ():
            if isinstance(i, Raise): rcheck(cx, 'C17', where, what, s, i); continue
            for s1, phs in cx.run(it, lambda: it.bind(it.l.get_iter(s, i, NODE), lambda s0, src: it.l.phases(s0, src, NODE))) or ():
                if isinstance(phs, Raise): rcheck(cx, 'C17', where, what + ' (start)', s1, phs); continue
                for s2, r in cx.run(it, lambda: cx.fw.call(s1.fork(), A, m, args)) or ():
                    if isinstance(r, Raise): continue
                    # was anything added or removed?
                    if edit in ('add', 'setdefault'):
                        ln = cx.run(it, lambda: cx.fw.call(s2.fork(), A, '__len__')) or ()
                        if not all(not isinstance(l, Raise) and s3.entails(sub(sub(l, N), I(1))) for s3, l in ln): continue
                    resume(cx, where, what, s2, phs)


def resume(cx, where, what, s, phs):
    """The second element of an iteration is asked for: RuntimeError."""
    it = cx.fi
    j = I(1)
    for p in phs:
        if p.n is None or not s.entails(sub(sub(p.n, j), I(1))):
            if p.n is not None and s.entails(sub(j, p.n)): j = sub(j, p.n); continue
            cx.f.undecided('the iterator is not understood'); return
        break
    else: cx.f.undecided('the iterator is not understood'); return
    if 'eager' in p.kind: cx.f.undecided('the iterator is not followed step by step'); return
    if p.live and it.l.live_changed(s, p): cx.f.good(); return
    for s2, w in cx.run(it, lambda: p.at(s.fork(), j)) or ():
        ok = isinstance(w, Raise) and w.exc[1] == 'RuntimeError'
        must(cx, 'C17', where, what, s2, ok, f'gives {show(w)[:80]}' if not isinstance(w, Raise) else f'raises {w.exc[1]}')


def c17iter(cx, c):
    if c not in TDICTS: return
    for src in ('iter',) + VIEWS:
        for e in ('add', 'remove', 'pop', 'popitem', 'clear', 'setdefault'): yield lambda src=src, e=e: stale(cx, c, src, e)
