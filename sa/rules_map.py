"""Mappings in contract mode: the derived operations (C12), equality (C09),
self-operands (C17)."""
from .scen import *
from .rules_set import judge_bool, rcheck, unrelated, same, DUNDER, NOTIMPL, unchanged

NODE = ast.parse('x').body[0].value
MAPOPER = ('dict', 'pairs', 'iterable', 'self') + MAPS
MAPEQ = ('dict',) + MAPS


def unlz(v):
    """The computed value of a term."""
    if v[0] == 't' and v[1] == 'klz': return v[2]
    if v[0] == 't' and v[1] == 'forced': return unlz(v[2])
    return v


def mapcon(kinds, lazy):
    """[(K, side, n, value over JA)] -> content"""
    return ('amap', tuple(seg(K, s, n, klz(v) if lazy else v) for K, s, n, v in kinds))


def operand(cx, st, bc, kinds):
    """An operand of class bc binding the given kinds [(K, side, n)]."""
    kinds = [(K, s, n, kv(K, s, JA)) for K, s, n in kinds]
    if bc in ('pairs', 'iterable'):
        ls = tuple(('lp', n, JA, (('tup', (ke(K, s, JA), v)),)) for K, s, n, v in kinds)
        if bc == 'pairs': return st.new('list', {'ls': ls}, None, fresh=False)
        return st.new('iter', {'src': ('S', 'ls', ls), 'pos': I(0)}, None, fresh=False)
    return cx.C.mk(st, bc, mapcon(kinds, bc in LAZY))


def receiver(cx, st, c, kinds):
    return cx.C.mk(st, c, mapcon([(K, s, n, kv(K, s, JA)) for K, s, n in kinds], c in LAZY))


def judge_map(cx, rule, where, what, s, con, want, c):
    """want: {K: [(n, value)]}: each kind holds exactly n elements with the value."""
    if con is None or con[0] != 'amap': cx.f.undecided('mapping content not known'); return
    got = {}
    for g in con[1]:
        v = unlz(g[5]) if c in LAZY else g[5]
        n = sub(g[4], g[3])
        got.setdefault(g[1], []).append((n, v))
    for K in dict.fromkeys(list(want) + list(got)):
        ws = want.get(K, [])
        gs = got.get(K, [])
        tot = I(0)
        for n, v in gs: tot = add(tot, n)
        wt = I(0)
        for n, v in ws: wt = add(wt, n)
        ok = same(s, tot, wt)
        if ok:
            tot = {}
            for n, v in ws: tot[v] = add(tot.get(v, I(0)), n)
            for v, n in tot.items():
                gn = I(0)
                for n2, v2 in gs:
                    if v2 == v or (c in LAZY and unlz(v2) == unlz(v)): gn = add(gn, n2)
                if not same(s, gn, n): ok = False
        if ok: cx.f.good(); continue
        if cx.imp(s) or any(contains(v, lambda x: x[0] in ('u', 'phi')) for n, v in gs): cx.f.undecided(s.imp[0] if s.imp else 'mapping content'); continue
        # values of one kind at single positions differ syntactically
        def d(l): return ', '.join(f'{show(n)} with value {show(v)}' for n, v in l) or 'none'
        label = {'P': 'keys of both', 'Q': 'keys of the receiver only', 'R': 'keys of the argument only'}.get(K, f'keys {K}')
        cx.f.bad(rule, where, f'{what}: {label}: the result binds {d(gs)} where the definition gives {d(ws)}', path=cx.trace(s))


def mcontent(cx, s, v):
    if v[0] != 'r' or v[1] not in s.heap or s.cls(v) not in MAPS: return None
    return cx.C.con(s, v)


def bulk(cx, c, m, bc, order='PR'):
    """update with one operand / dropall / deleteall."""
    if not cx.has(c, m): return
    st = cx.cstate()
    n = {K: cnt(st, K) for K in 'PQR'}
    A = receiver(cx, st, c, [('P', 'A', n['P']), ('Q', 'A', n['Q'])])
    kinds = [(K, 'B', n[K]) for K in order]
    if m == 'update':
        B = A if bc == 'self' else operand(cx, st, bc, kinds)
        args = (B,)
    else:
        ls = tuple(lp(K, s, x) for K, s, x in kinds)
        if bc == 'list': B = st.new('list', {'ls': ls}, None, fresh=False)
        elif bc == 'iterable': B = st.new('iter', {'src': ('S', 'ls', ls), 'pos': I(0)}, None, fresh=False)
        elif bc in SETLIKE or bc == 'set': B = cx.C.mk(st, bc, ('aset', tuple(seg(K, s, x) for K, s, x in kinds)))
        elif bc in MAPS or bc == 'dict': B = operand(cx, st, bc, kinds)
        elif bc == 'self': B = A
        else: B = cx.C.mk(st, bc, ('aseq', ls))
        args = (B,)
    where = cx.where(c, m); what = f'{c}.{m}({bc}{"" if order == "PR" else ", other order"})'
    conA = cx.C.con(st, A); conB = cx.C.con(st, B) if B[0] == 'r' and B != A and st.cls(B) not in ('list', 'iter') else None
    outs = cx.run(cx.ci, lambda: cx.cw.call(st, A, m, args))
    if outs is None: return
    rule = 'C17' if bc == 'self' and c in TRANSIENT else 'C12'
    T_ = c in TRANSIENT
    vA = lambda K: kv(K, 'A', JA); vB = lambda K: kv(K, 'B', JA)
    for s, v in outs:
        if isinstance(v, Raise):
            if m == 'deleteall' and v.exc[1] == 'KeyError' and bc != 'self':
                if possible(s, EQ0(n['R'])) and not cx.imp(s): cx.f.bad('C12', where, f'{what}: KeyError although every key is present', path=cx.trace(s))
                else: cx.f.good()
                continue
            rcheck(cx, rule, where, what, s, v); continue
        if m == 'deleteall' and bc != 'self' and possible(s, GE(add(n['R'], I(-1)))):
            if cx.imp(s): cx.f.undecided(s.imp[0] if s.imp else 'generalised')
            else: cx.f.bad('C12', where, f'{what}: no KeyError although a key is missing', path=cx.trace(s))
            continue
        tgt = A if T_ else v
        con = mcontent(cx, s, tgt)
        if con is None:
            if cx.imp(s): cx.f.undecided(s.imp[0] if s.imp else 'generalised')
            else: cx.f.bad(rule, where, f'{what}: the result is not a mapping ({show(tgt)})', path=cx.trace(s))
            continue
        if m == 'update':
            if bc == 'self': want = {K: [(n[K], vA(K))] for K in 'PQ'}
            else: want = {'P': [(n['P'], vB('P'))], 'Q': [(n['Q'], vA('Q'))], 'R': [(n['R'], vB('R'))]}
        elif bc == 'self': want = {}
        else: want = {'Q': [(n['Q'], vA('Q'))]}
        judge_map(cx, rule, where, what, s, con, want, c)
        if not T_: unchanged(cx, 'C12', where, what, s, A, conA)
        if conB is not None: unchanged(cx, 'C12', where, what, s, B, conB)


KWK = ke('kw:u', 'K', I(0))
OV = ('s', 'overridden')


def with_u(cx, st, d, kinds, u=OV):
    """A mapping or list of pairs that also binds the key 'u'."""
    st.types[u] = 'other'
    if d in ('pairs', 'pairiter', 'iterable'):
        ls = tuple(('lp', n, JA, (('tup', (ke(K, s, JA), kv(K, s, JA))),)) for K, s, n in kinds)
        ls += (('it', ('tup', (('k', 'str', 'u'), u))),)
        if d == 'pairs': return st.new('list', {'ls': ls}, None, fresh=False)
        return st.new('iter', {'src': ('S', 'ls', ls), 'pos': I(0)}, None, fresh=False)
    con = mapcon([(K, s, n, kv(K, s, JA)) for K, s, n in kinds], d in LAZY)
    return cx.C.mk(st, d, ('amap', con[1] + (('g', 'kw:u', 'K', I(0), I(1), klz(u) if d in LAZY else u),)))


def update_kw(cx, c, d, over, u='u'):
    """update(..., u=value): the keyword wins over the argument and the receiver."""
    st = cx.cstate()
    n = {K: cnt(st, K) for K in 'PQR'}
    U = ('s', 'kwval'); st.types[U] = 'other'
    kinds = [('P', 'A', n['P']), ('Q', 'A', n['Q'])]
    A = with_u(cx, st, c, kinds, ('s', 'former')) if 'A' in over else receiver(cx, st, c, kinds)
    args = ()
    kb = [('P', 'B', n['P']), ('R', 'B', n['R'])]
    if d: args = (with_u(cx, st, d, kb) if 'B' in over else operand(cx, st, d, kb),)
    where = cx.where(c, 'update'); what = f'{c}.update({d + ", " if d else ""}{u}=...){" with u bound before" if over else ""}'
    conA = cx.C.con(st, A)
    for s, v in cx.run(cx.ci, lambda: cx.cw.call(st, A, 'update', args, {u: U})) or ():
        if isinstance(v, Raise): rcheck(cx, 'C12', where, what, s, v); continue
        con = mcontent(cx, s, A if c in TRANSIENT else v)
        if con is None:
            if cx.imp(s): cx.f.undecided(s.imp[0] if s.imp else 'generalised')
            else: cx.f.bad('C12', where, f'{what}: the result is not a mapping', path=cx.trace(s))
            continue
        want = {'P': [(n['P'], kv('P', 'B' if d else 'A', JA))], 'Q': [(n['Q'], kv('Q', 'A', JA))], 'kw:' + u: [(I(1), U)]}
        if d: want['R'] = [(n['R'], kv('R', 'B', JA))]
        judge_map(cx, 'C12', where, what, s, con, want, c)
        if c in PERSISTENT: unchanged(cx, 'C12', where, what, s, A, conA)


def update_many(cx, c):
    """update() and update(B, C): the last binding wins."""
    for k in (0, 2):
        st = cx.cstate()
        n = {K: cnt(st, K) for K in ('a', 'ab', 'bc', 'abc', 'c')}
        A = receiver(cx, st, c, [(K, 'a', n[K]) for K in n if 'a' in K])
        B = operand(cx, st, 'dict', [(K, 'b', n[K]) for K in n if 'b' in K])
        D = operand(cx, st, 'pairs', [(K, 'c', n[K]) for K in n if 'c' in K])
        where = cx.where(c, 'update'); what = f'{c}.update with {k} operands'
        outs = cx.run(cx.ci, lambda: cx.cw.call(st, A, 'update', (B, D)[:k]))
        for s, v in outs or ():
            if isinstance(v, Raise): rcheck(cx, 'C12', where, what, s, v); continue
            tgt = A if c in TRANSIENT else v
            con = mcontent(cx, s, tgt)
            if con is None:
                if cx.imp(s): cx.f.undecided(s.imp[0] if s.imp else 'generalised')
                else: cx.f.bad('C12', where, f'{what}: the result is not a mapping', path=cx.trace(s))
                continue
            want = {K: [(n[K], kv(K, K[-1] if k else 'a', JA))] for K in n if k or 'a' in K}
            judge_map(cx, 'C12', where, what, s, con, want, c)


def update_dup(cx, c, m):
    """The same key given twice: the last value wins."""
    st = cx.cstate()
    q = cnt(st, 'Q'); r = cnt(st, 'R')
    v1, v2 = ('s', 'v1'), ('s', 'v2')
    st.types[v1] = st.types[v2] = 'other'
    k = ke('D', 'B', I(0))
    A = receiver(cx, st, c, [('Q', 'A', q)])
    if m == 'update':
        ls = (('it', ('tup', (k, v1))), ('lp', r, JA, (('tup', (ke('R', 'B', JA), kv('R', 'B', JA))),)), ('it', ('tup', (k, v2))))
        args = (st.new('list', {'ls': ls}, None, fresh=False),)
    else:
        ks = (('it', k), lp('R', 'B', r), ('it', k)); vs = (('it', v1), lp('R', 'B', r, kv), ('it', v2))
        args = (st.new('list', {'ls': ks}, None, fresh=False), st.new('list', {'ls': vs}, None, fresh=False))
    where = cx.where(c, m); what = f'{c}.{m} with a repeated key'
    outs = cx.run(cx.ci, lambda: cx.cw.call(st, A, m, args))
    for s, v in outs or ():
        if isinstance(v, Raise): rcheck(cx, 'C12', where, what, s, v); continue
        con = mcontent(cx, s, A if c in TRANSIENT else v)
        if con is None: cx.f.undecided('mapping content not known'); continue
        judge_map(cx, 'C12', where, what, s, con, {'Q': [(q, kv('Q', 'A', JA))], 'R': [(r, kv('R', 'B', JA))], 'D': [(I(1), v2)]}, c)


def setall(cx, c, kt, vt, rel):
    """setall(keys, vals): pairs them up to the shorter of the two."""
    st = cx.cstate()
    n = {K: cnt(st, K) for K in 'PQR'}
    A = receiver(cx, st, c, [('P', 'A', n['P']), ('Q', 'A', n['Q'])])
    ks = (lp('P', 'B', n['P']), lp('R', 'B', n['R']))
    extra = ()
    nR = n['R']
    if rel == 'morevals': extra = (lp('X', 'B', cnt(st, 'X'), kv),)
    vs = (lp('P', 'B', n['P'], kv), lp('R', 'B', n['R'], kv)) + extra
    if rel == 'morekeys': ks = ks + (lp('X', 'B', cnt(st, 'X')),)
    def mk(t, ls):
        if t == 'list': return st.new('list', {'ls': ls}, None, fresh=False)
        if t == 'iterable': return st.new('iter', {'src': ('S', 'ls', ls), 'pos': I(0)}, None, fresh=False)
        return cx.C.mk(st, t, ('aseq', ls))
    K, V = mk(kt, ks), mk(vt, vs)
    conA = cx.C.con(st, A)
    where = cx.where(c, 'setall'); what = f'{c}.setall({kt}, {vt}; {rel})'
    outs = cx.run(cx.ci, lambda: cx.cw.call(st, A, 'setall', (K, V)))
    for s, v in outs or ():
        if isinstance(v, Raise): rcheck(cx, 'C12', where, what, s, v); continue
        con = mcontent(cx, s, v)
        if con is None:
            if cx.imp(s): cx.f.undecided(s.imp[0] if s.imp else 'generalised')
            else: cx.f.bad('C12', where, f'{what}: the result is not a mapping', path=cx.trace(s))
            continue
        judge_map(cx, 'C12', where, what, s, con, {'P': [(n['P'], kv('P', 'B', JA))], 'Q': [(n['Q'], kv('Q', 'A', JA))], 'R': [(nR, kv('R', 'B', JA))]}, c)
        unchanged(cx, 'C12', where, what, s, A, conA)


def single(cx, c, m, nargs, kwd=False):
    """One key, present or absent: setdefault, pop, popitem, get, ..."""
    if not cx.has(c, m): return
    st = cx.cstate()
    q = cnt(st, 'Q')
    A = receiver(cx, st, c, [('Q', 'A', q)])
    conA = cx.C.con(st, A)
    j = ('s', 'j'); st.types[j] = 'int'; st.add(j)
    k = ke('Q', 'B', j)
    d = ('s', 'd'); st.types[d] = 'other'
    args = {0: (), 1: (k,), 2: (k, d)}[nargs]
    kw = {}
    if kwd: args = (k,); kw = {'default': d}
    dflt = d if nargs == 2 else NONE
    where = cx.where(c, m); what = f'{c}.{m}({", ".join(["key", "default"][:nargs])})'
    present = GE(sub(sub(q, I(1)), j))
    outs = cx.run(cx.ci, lambda: cx.cw.call(st, A, m, args, kw))
    T_ = c in TRANSIENT
    val = kv('Q', 'A', j)
    rest = lambda: {'Q': [(sub(q, I(1)), kv('Q', 'A', JA))]}
    full = {'Q': [(q, kv('Q', 'A', JA))]}
    def isval(s, v, w):
        v = unlz(v) if False else v
        return v == w
    def fail(s, t):
        if cx.imp(s): cx.f.undecided(s.imp[0] if s.imp else 'generalised')
        else: cx.f.bad('C12', where, f'{what}: {t}', path=cx.trace(s))
    for s, v in outs or ():
        if isinstance(v, Raise):
            if v.exc[1] == 'KeyError' and (m in ('delete', '__delitem__', '__getitem__') or m == 'pop' and nargs == 1):
                if possible(s, present): fail(s, 'KeyError although the key is present')
                else: cx.f.good()
                continue
            if m == 'popitem' and v.exc[1] == 'KeyError':
                if possible(s, GE(add(q, I(-1)))): fail(s, 'KeyError although the mapping is not empty')
                else: cx.f.good()
                continue
            rcheck(cx, 'C12', where, what, s, v); continue
        if m == 'popitem':
            if possible(s, GE(scale(q, -1))): fail(s, 'no KeyError although the mapping is empty'); continue
            item, tgt = v, A
            if not T_:
                if v[0] != 'tup' or len(v[1]) != 2: fail(s, 'does not return (item, rest)'); continue
                item, tgt = v[1]
            if item[0] != 'tup' or len(item[1]) != 2: fail(s, f'the item is {show(item)}'); continue
            k0, v0 = cx.C.canon(item[1][0]), item[1][1]
            if not (k0[0] == 't' and k0[1] == 'ke' and k0[2] == 'Q'): fail(s, f'the key returned is {show(k0)}'); continue
            if v0 != kv('Q', 'A', k0[4]): fail(s, f'the value returned, {show(v0)}, is not that of the key'); continue
            con = mcontent(cx, s, tgt)
            if con is None: fail(s, 'the rest is not a mapping'); continue
            idx_ = k0[4]
            gone = all(s.entails(sub(g[3], add(idx_, I(1)))) or s.entails(sub(idx_, g[4])) or s.entails(sub(g[3], g[4])) for g in con[1])
            if not gone: fail(s, 'the key returned is still bound'); continue
            judge_map(cx, 'C12', where, what, s, con, rest(), c); continue
        yes, no = not possible(s, NOT(present)), not possible(s, present)
        if not (yes or no):
            fail(s, 'present and missing keys are not told apart' if m not in ('__contains__',) else 'not decided'); continue
        if m in ('get', '__getitem__', '__contains__'):
            if m == '__getitem__' and no: fail(s, 'no KeyError although the key is missing'); continue
            want = (val if yes else dflt) if m != '__contains__' else boolv(yes)
            if v == want: cx.f.good()
            else: fail(s, f'returns {show(v)} instead of {show(want)}')
            continue
        if m in ('delete', '__delitem__') or m == 'pop' and nargs == 1:
            if no: fail(s, 'no KeyError although the key is missing'); continue
        ret, tgt = v, (A if T_ else v)
        if m == 'pop' and not T_:
            if v[0] != 'tup' or len(v[1]) != 2: fail(s, f'returns {show(v)} instead of a pair'); continue
            ret, tgt = v[1]
        con = mcontent(cx, s, tgt)
        if con is None: fail(s, f'the result is not a mapping ({show(tgt)})'); continue
        if m == 'pop':
            if ret != (val if yes else dflt): fail(s, f'returns {show(ret)} instead of {show(val if yes else dflt)}'); continue
            want = rest() if yes else full
        elif m == 'setdefault':
            if T_ and ret != (val if yes else dflt): fail(s, f'returns {show(ret)} instead of {show(val if yes else dflt)}'); continue
            want = full if yes else {'Q': full['Q'] + [(I(1), dflt)]}
        elif m in ('drop', 'delete', '__delitem__'): want = rest() if yes else full
        elif m in ('set', '__setitem__'):
            want = {'Q': [(sub(q, I(1)), kv('Q', 'A', JA)), (I(1), d)]} if yes else {'Q': full['Q'] + [(I(1), d)]}
        else: continue
        judge_map(cx, 'C12', where, what, s, con, want, c)
        if not T_: unchanged(cx, 'C12', where, what, s, A, conA)


def mapeq(cx, c, d, op, lazy=False):
    """== of mappings: same bindings, a differing value, a missing key."""
    for case in ('same', 'missing', 'extra', 'both', 'value', 'valuetail', 'values'):
        st = cx.cstate()
        p = cnt(st, 'P'); q = cnt(st, 'Q'); r = cnt(st, 'R')
        a = [('P', 'A', p)]; b = [('P', 'B', p)]
        if case in ('missing', 'both'): a.append(('Q', 'A', q)); st.add(add(q, I(-1)))
        if case in ('extra', 'both'): b.append(('R', 'B', r)); st.add(add(r, I(-1)))
        if case == 'value': a.append(('V', 'A', I(1))); b.append(('V', 'B', I(1)))
        if case == 'valuetail': a = [('V', 'A', I(1))] + a; b = [('V', 'B', I(1))] + b
        if case == 'values':
            v = cnt(st, 'V'); st.add(add(v, I(-1))); a.append(('V', 'A', v)); b.append(('V', 'B', v))
        cx.C.lt = {('diff', 'V'): True}
        A = receiver(cx, st, c, a) if c in ALL else operand(cx, st, c, a)
        B = operand(cx, st, d, b)
        where = cx.where(c if c in ALL else d, DUNDER[op]); what = f'{c} {op} {d} ({case})'
        outs = cx.run(cx.ci, lambda: cx.ci.compare(st, COPS[op](), A, B, NODE))
        if outs is None: continue
        judge_bool(cx, 'C09', where, what, cx.ci, outs, T if (case == 'same') == (op == '==') else F)
    if c not in ALL: return
    st = cx.cstate(); A = receiver(cx, st, c, [('P', 'A', cnt(st, 'P'))])
    outs = cx.run(cx.ci, lambda: cx.ci.compare(st, COPS[op](), A, A, NODE))
    if outs is not None: judge_bool(cx, 'C09', cx.where(c, DUNDER[op]), f'{c} {op} itself', cx.ci, outs, T if op == '==' else F)


def c09map(cx, c):
    for op in ('==', '!='):
        for d in MAPEQ: yield lambda op=op, d=d: mapeq(cx, c, d, op)
        yield lambda op=op: mapeq(cx, 'dict', c, op)
    yield lambda: unrelated(cx, c)


def c17map(cx, c):
    yield lambda: bulk(cx, c, 'update', 'self')


def c12alg(cx, c):
    for bc in MAPOPER:
        yield lambda bc=bc: bulk(cx, c, 'update', bc)
        if bc != 'self': yield lambda bc=bc: bulk(cx, c, 'update', bc, 'RP')
    yield lambda: update_many(cx, c)
    yield lambda: update_dup(cx, c, 'update')
    for d, over in ((None, ''), (None, 'A'), ('pairs', ''), ('pairs', 'B'), ('iterable', 'AB'), ('dict', 'B'), ('pdict', 'AB'), ('tdict', 'B'), ('ldict', 'B'), ('tldict', 'A')):
        yield lambda d=d, over=over: update_kw(cx, c, d, over)
    for u in kwnames(cx): yield lambda u=u: update_kw(cx, c, None, '', u)
    if cx.has(c, 'setall'):
        yield lambda: update_dup(cx, c, 'setall')
        for kt in ('list', 'iterable', 'plist'):
            for vt in ('list', 'iterable', 'tlist'):
                for rel in ('equal', 'morevals', 'morekeys'):
                    yield lambda a=(kt, vt, rel): setall(cx, c, *a)
    for m in ('dropall', 'deleteall'):
        for bc in ('list', 'iterable', 'plist', 'pset', 'tset', 'set', 'self', 'pdict', 'dict'):
            yield lambda m=m, bc=bc: bulk(cx, c, m, bc)
            if bc != 'self': yield lambda m=m, bc=bc: bulk(cx, c, m, bc, 'RP')
    for m, ns in (('popitem', (0,)), ('setdefault', (1, 2)), ('pop', (1, 2)), ('get', (1, 2)), ('__getitem__', (1,)), ('__contains__', (1,)),
                  ('drop', (1,)), ('delete', (1,)), ('__delitem__', (1,)), ('set', (2,)), ('__setitem__', (2,))):
        if c in TRANSIENT and m in ('set', 'drop', 'delete') or c in PERSISTENT and m in ('__setitem__', '__delitem__'): continue
        for k in ns: yield lambda m=m, k=k: single(cx, c, m, k)
