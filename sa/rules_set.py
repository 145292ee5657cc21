"""Set algebra (C11), set equality and ordering (C09, C21), in contract mode.

Operands are described by kinds: the elements in A only (Q), in B only (R) and in
both (P), each an unbounded number nP, nQ, nR >= 0.  The specification of every
operation is a set of kinds or a condition on the counts; an outcome violates it
if its constraints are compatible with a different number of elements of some
kind or with the opposite truth value."""
from .scen import *

KINDS = ('P', 'Q', 'R')
OPER = ('pset', 'tset', 'set', 'frozenset', 'oset', 'list', 'iterable', 'self', 'plist')
SETOPER = ('pset', 'tset', 'set', 'frozenset', 'oset', 'self')
MASK = {'union': 'PQR', 'intersection': 'P', 'difference': 'Q', 'symmetric_difference': 'QR', 'addall': 'PQR', 'discardall': 'Q',
        'removeall': 'Q', 'update': 'PQR', 'intersection_update': 'P', 'difference_update': 'Q', 'symmetric_difference_update': 'QR'}
OPMASK = {'|': 'PQR', '&': 'P', '-': 'Q', '^': 'QR'}


ORD = {'PR': '', 'RP': ', other order', 'PRPR': ', with repetitions'}


def setargs(cx, c, bc, order='PR'):
    st = cx.cstate()
    n = {K: cnt(st, K) for K in KINDS}
    A = cx.C.mk(st, c, ('aset', (seg('P', 'A', n['P']), seg('Q', 'A', n['Q']))))
    if bc == 'self':
        st.add(scale(n['R'], -1)); 
        B = A
    else: B = operand(cx, st, bc, [(K, 'B', n[K]) for K in order])
    return st, A, B, n


def operand(cx, st, bc, kinds):
    if bc in ('list', 'iterable'):
        ls = tuple(lp(K, s, n) for K, s, n in kinds)
        if bc == 'list': return st.new('list', {'ls': ls}, None, fresh=False)
        return st.new('iter', {'src': ('S', 'ls', ls), 'pos': I(0)}, None, fresh=False)
    if bc in ('plist', 'tlist'):
        return cx.C.mk(st, bc, ('aseq', tuple(lp(K, s, n) for K, s, n in kinds)))
    return cx.C.mk(st, bc, ('aset', tuple(seg(K, s, n) for K, s, n in kinds)))


def lens(con):
    r = {}
    for g in con[1]:
        r[g[1]] = add(r.get(g[1], I(0)), sub(g[4], g[3]))
    return r


def judge_kinds(cx, rule, where, what, s, con, n, want, selfop=False):
    """The content holds all elements of the wanted kinds and no others."""
    got = lens(con)
    if con[0] != 'aset': cx.f.undecided('result content of unexpected form'); return
    for K in KINDS:
        g = got.get(K, I(0)); e = n[K] if K in want else I(0)
        d = sub(g, e)
        if s.entails(d) and s.entails(scale(d, -1)): cx.f.good(); continue
        if cx.imp(s): cx.f.undecided(s.imp[0] if s.imp else 'generalised'); continue
        label = {'P': 'elements of both operands', 'Q': 'elements of the left operand only', 'R': 'elements of the right operand only'}[K]
        cx.f.bad(rule, where, f'{what}: of the {label} (count {show(n[K])}) the result holds {show(g)} instead of {show(e)}', path=cx.trace(s))


def unchanged(cx, rule, where, what, s, ref, con0):
    if ref[0] != 'r' or ref[1] not in s.heap: return
    con = cx.C.con(s, ref)
    if con == con0: cx.f.good(); return
    if con is None or cx.imp(s): cx.f.undecided('operand content'); return
    if all(s.entails(sub(a[4], a[3])) and s.entails(sub(a[3], a[4])) or a in con0[1] for a in con[1] if a[0] == 'g') and len(con[1]) >= len(con0[1]): cx.f.good(); return
    # content may be re-described equally: compare kind counts
    if con[0] in ('aset', 'amap') and con0[0] == con[0]:
        l1, l2 = lens(con), lens(con0)
        if all(s.entails(sub(l1.get(K, I(0)), l2.get(K, I(0)))) and s.entails(sub(l2.get(K, I(0)), l1.get(K, I(0)))) for K in set(l1) | set(l2)):
            cx.f.good(); return
    cx.f.bad(rule, where, f'{what}: an operand that is not edited is changed', path=cx.trace(s))


def rcheck(cx, rule, where, what, s, v, allowed=()):
    """An exceptional outcome."""
    if v.exc[1] in allowed: cx.f.good(); return True
    if cx.imp(s): cx.f.undecided('exception ' + v.exc[1] + ' (imprecise)'); return True
    cx.f.bad(rule, where, f'{what}: raises {v.exc[1]} {v.exc[4] if len(v.exc) > 4 else ""}', path=cx.trace(s))
    return True


def setop(cx, c, m, bc, order='PR', rule='C11'):
    st, A, B, n = setargs(cx, c, bc, order)
    if not cx.has(c, m): return
    where = cx.where(c, m); what = f'{c}.{m}({bc}{ORD[order]})'
    conA = cx.C.con(st, A); conB = cx.C.con(st, B) if B[0] == 'r' and bc not in ('list', 'iterable') else None
    outs = cx.run(cx.ci, lambda: cx.cw.call(st, A, m, (B,)))
    if outs is None: return
    want = MASK[m]
    if bc == 'self': n = {'P': add(n['P'], n['Q']), 'Q': I(0), 'R': I(0)}
    inplace = m.endswith('update') or (c == 'tset' and m in ('addall', 'discardall', 'removeall'))
    for s, v in outs:
        if isinstance(v, Raise):
            if m == 'removeall' and v.exc[1] == 'KeyError':
                if possible(s, GE(scale(n['R'], -1))) and not cx.imp(s) and bc != 'self':
                    cx.f.bad(rule, where, f'{what}: KeyError although every element is present', path=cx.trace(s))
                else: cx.f.good()
                continue
            if m.startswith('intersection') and bc in ('list', 'iterable', 'plist') and v.exc[1] == 'TypeError' and v.exc[2] == 'raise':
                cx.f.good(); continue
            if m.startswith('symmetric') and bc in ('list', 'iterable', 'plist') and v.exc[1] == 'TypeError' and v.exc[2] == 'raise':
                cx.f.good(); continue
            rcheck(cx, rule, where, what, s, v); continue
        if m == 'removeall' and bc != 'self' and not cx.imp(s) and possible(s, GE(add(n['R'], I(-1)))):
            cx.f.bad(rule, where, f'{what}: no KeyError although an element is missing', path=cx.trace(s)); continue
        if inplace:
            tgt = A
        else: tgt = v
        if tgt[0] != 'r' or s.cls(tgt) not in SETLIKE:
            if cx.imp(s): cx.f.undecided(s.imp[0] if s.imp else 'generalised')
            else: cx.f.bad(rule, where, f'{what}: the result is not a set ({show(tgt)})', path=cx.trace(s))
            continue
        con = cx.C.con(s, tgt)
        if con is None: cx.f.undecided('content not known'); continue
        nn = n
        if bc == 'self': con = ('aset', tuple(('g', 'P') + g[2:] for g in con[1]))
        judge_kinds(cx, rule, where, what, s, con, nn, want)
        if not inplace: unchanged(cx, rule, where, what, s, A, conA)
        if conB is not None and B != A: unchanged(cx, rule, where, what, s, B, conB)


def setbin(cx, c, op, bc, left=True, inplace=False, rule='C11'):
    st, A, B, n = setargs(cx, c, bc)
    nm = {'|': 'or', '&': 'and', '-': 'sub', '^': 'xor'}[op]
    m = f'__{"i" if inplace else "" if left else "r"}{nm}__'
    where = cx.where(c, m if cx.has(c, m) else f'__{nm}__')
    what = f'{c} {op}{"=" if inplace else ""} {bc}' if left else f'{bc} {op} {c}'
    conA = cx.C.con(st, A); conB = cx.C.con(st, B)
    x, y = (A, B) if left else (B, A)
    node = ast.parse('x').body[0].value
    outs = cx.run(cx.ci, lambda: cx.cw.binop(st, BOPS[op], x, y, node, inplace=inplace))
    if outs is None: return
    want = OPMASK[op]
    if not left and op == '-': want = 'R'
    if bc == 'self': n = {'P': add(n['P'], n['Q']), 'Q': I(0), 'R': I(0)}
    for s, v in outs:
        if isinstance(v, Raise): rcheck(cx, rule, where, what, s, v); continue
        if v[0] != 'r':
            if cx.imp(s): cx.f.undecided(s.imp[0] if s.imp else 'generalised')
            else: cx.f.bad(rule, where, f'{what}: the result is not a set ({show(v)})', path=cx.trace(s))
            continue
        con = cx.C.con(s, v)
        if con is None or con[0] != 'aset': cx.f.undecided('content not known'); continue
        if bc == 'self': con = ('aset', tuple(('g', 'P') + g[2:] for g in con[1]))
        judge_kinds(cx, rule, where, what, s, con, n, want)
        if inplace and c == 'tset':
            if v == A: cx.f.good()
            else: cx.f.bad(rule, where, f'{what}: the in-place operator does not return the set itself', path=cx.trace(s))
        if B != A: unchanged(cx, rule, where, what, s, B, conB)
        if not (inplace and c == 'tset'): unchanged(cx, rule, where, what, s, A, conA)


def judge_bool(cx, rule, where, what, it, outs, cond, raises=()):
    """Every outcome is the truth value of cond (a formula over the counts)."""
    for s, b in cx.truths(it, outs):
        if isinstance(b, Raise): rcheck(cx, rule, where, what, s, b, raises); continue
        wrong = NOT(cond) if b else cond
        if not possible(s, wrong): cx.f.good(); continue
        if cx.imp(s): cx.f.undecided(s.imp[0] if s.imp else 'generalised'); continue
        cx.f.bad(rule, where, f'{what}: {b} although the definition may say {not b}', path=cx.trace(s))


def setbool(cx, c, m, bc, order='PR', rule='C11'):
    st, A, B, n = setargs(cx, c, bc, order)
    if bc == 'self': n = {'P': add(n['P'], n['Q']), 'Q': I(0), 'R': I(0)}
    where = cx.where(c, m); what = f'{c}.{m}({bc}{ORD[order]})'
    outs = cx.run(cx.ci, lambda: cx.cw.call(st, A, m, (B,)))
    if outs is None: return
    cond = {'isdisjoint': EQ0(n['P']), 'issubset': EQ0(n['Q']), 'issuperset': EQ0(n['R'])}[m]
    judge_bool(cx, rule, where, what, cx.ci, outs, cond)


CMPCOND = {'==': lambda n: AND(EQ0(n['Q']), EQ0(n['R'])), '!=': lambda n: NOT(AND(EQ0(n['Q']), EQ0(n['R']))),
           '<=': lambda n: EQ0(n['Q']), '>=': lambda n: EQ0(n['R']),
           '<': lambda n: AND(EQ0(n['Q']), NOT(EQ0(n['R']))), '>': lambda n: AND(EQ0(n['R']), NOT(EQ0(n['Q'])))}
DUNDER = {'==': '__eq__', '!=': '__ne__', '<': '__lt__', '<=': '__le__', '>': '__gt__', '>=': '__ge__'}


def setcompare(cx, c, op, bc, rule, order='PR'):
    st, A, B, n = setargs(cx, c, bc, order)
    if bc == 'self': n = {'P': add(n['P'], n['Q']), 'Q': I(0), 'R': I(0)}
    where = cx.where(c, DUNDER[op]); what = f'{c} {op} {bc}{ORD[order]}'
    node = ast.parse('x').body[0].value
    outs = cx.run(cx.ci, lambda: cx.ci.compare(st, COPS[op](), A, B, node))
    if outs is None: return
    judge_bool(cx, rule, where, what, cx.ci, outs, CMPCOND[op](n))


def setpop(cx, c, m):
    """pop / remove / discard / add of one element."""
    st = cx.cstate()
    n = cnt(st, 'Q'); A = cx.C.mk(st, c, ('aset', (seg('Q', 'A', n),)))
    where = cx.where(c, m)
    j = ('s', 'j'); st.types[j] = 'int'; st.add(j); 
    x = ke('Q', 'B', j)
    args = () if m == 'pop' else (x,)
    outs = cx.run(cx.ci, lambda: cx.cw.call(st, A, m, args))
    if outs is None: return
    present = GE(sub(sub(n, I(1)), j)) if m != 'pop' else GE(add(n, I(-1)))
    for s, v in outs:
        what = f'{c}.{m}'
        if isinstance(v, Raise):
            if m in ('pop', 'remove') and v.exc[1] == 'KeyError':
                if possible(s, present) and not cx.imp(s): cx.f.bad('C11', where, f'{what}: KeyError although there is an element to remove', path=cx.trace(s))
                else: cx.f.good()
                continue
            rcheck(cx, 'C11', where, what, s, v); continue
        if m in ('pop', 'remove') and possible(s, NOT(present)):
            if cx.imp(s): cx.f.undecided(s.imp[0] if s.imp else 'generalised')
            else: cx.f.bad('C11', where, f'{what}: no KeyError although there is nothing to remove', path=cx.trace(s))
            continue
        tgt = A if c == 'tset' else v
        el = None
        if m == 'pop':
            if c == 'tset': el = v
            elif v[0] == 'tup' and len(v[1]) == 2: el, tgt = v[1]
            else:
                if cx.imp(s): cx.f.undecided(s.imp[0] if s.imp else 'generalised')
                else: cx.f.bad('C11', where, f'{what}: does not return (element, rest)', path=cx.trace(s))
                continue
        con = cx.C.con(s, tgt) if tgt[0] == 'r' and tgt[1] in s.heap else None
        if con is None:
            if cx.imp(s) or tgt[0] == 'r': cx.f.undecided('content not known')
            else: cx.f.bad('C11', where, f'{what}: the result is not a set', path=cx.trace(s))
            continue
        tot = content_len(con)
        if m == 'pop':
            want = add(n, I(-1))
            el = cx.C.canon(el)
            okel = el[0] == 't' and el[1] == 'ke' and el[2] == 'Q'
            if okel:
                # the element returned is the one that is gone
                idx = el[4]
                gone = all(s.entails(sub(g[3], add(idx, I(1)))) or s.entails(sub(idx, g[4])) or s.entails(sub(g[3], g[4])) for g in con[1])
                if not gone and not cx.imp(s): cx.f.bad('C11', where, f'{what}: the element returned is still in the set', path=cx.trace(s)); continue
            elif not cx.imp(s): cx.f.bad('C11', where, f'{what}: the value returned is not an element of the set ({show(el)})', path=cx.trace(s)); continue
            exp = [want]
        d0 = sub(tot, n)
        if m == 'pop': okc = same(s, tot, add(n, I(-1)))
        elif m in ('remove', 'discard'):
            okc = (not possible(s, NOT(present)) and same(s, d0, I(-1))) or (not possible(s, present) and same(s, d0, I(0)))
        else:
            okc = (not possible(s, NOT(present)) and same(s, d0, I(0))) or (not possible(s, present) and same(s, d0, I(1)))
        if okc: cx.f.good()
        elif cx.imp(s): cx.f.undecided(s.imp[0] if s.imp else 'generalised')
        else: cx.f.bad('C11', where, f'{what}: the result has {show(tot)} elements (receiver {show(n)})', path=cx.trace(s))


def same(s, a, b): return s.entails(sub(a, b)) and s.entails(sub(b, a))


def variadic(cx, c, m):
    """union/intersection/difference with no, and with two, arguments."""
    for k, names in ((0, ('a',)), (2, ('a', 'ab', 'abc')), (2, ('abc', 'bc', 'ac')), (2, ('a', 'b', 'c')), (2, ('ab', 'ac', 'bc'))):
        st = cx.cstate()
        n = {K: cnt(st, K) for K in names}
        def S(x, cls): return cx.C.mk(st, cls, ('aset', tuple(seg(K, x, n[K]) for K in names if x in K)))
        A = S('a', c); ops_ = [S('b', 'pset'), S('c', 'set')][:k]
        where = cx.where(c, m); what = f'{c}.{m} with {k} arguments'
        outs = cx.run(cx.ci, lambda: cx.cw.call(st, A, m, tuple(ops_)), budget=400000)
        if outs is None: continue
        def want(K):
            if 'union' in m or m == 'update': return True if k else 'a' in K
            if k == 0: return 'a' in K
            if 'intersection' in m: return K == 'abc'
            return K == 'a'
        for s, v in outs:
            if isinstance(v, Raise): rcheck(cx, 'C11', where, what, s, v); continue
            tgt = A if m.endswith('update') else v
            con = cx.C.con(s, tgt) if tgt[0] == 'r' and tgt[1] in s.heap else None
            if con is None: cx.f.undecided('content not known'); continue
            got = lens(con)
            for K in names:
                e = n[K] if want(K) else I(0)
                if same(s, got.get(K, I(0)), e): cx.f.good()
                elif cx.imp(s): cx.f.undecided(s.imp[0] if s.imp else 'generalised')
                else: cx.f.bad('C11', where, f'{what}: of the elements in exactly the operands {K} (count {show(e)} expected) the result holds {show(got.get(K, I(0)))}', path=cx.trace(s))


def unrelated(cx, c, rule='C09'):
    """Comparison with values of unrelated types."""
    node = ast.parse('x').body[0].value
    for op in ('==', '!='):
        for ty in ('int', 'str', 'other', 'NoneType', 'list', 'dict', 'float', 'callable'):
            if c in SEQ and ty == 'list': continue
            if c in MAPS and ty == 'dict': continue
            for empty in (False, True):
                st = cx.cstate()
                n = cnt(st, 'Q')
                if empty: st.add(scale(n, -1))
                A = sample(cx, st, c, n)
                B = NONE if ty == 'NoneType' else ('s', 'B')
                if ty != 'NoneType': st.types[B] = ty
                where = cx.where(c, DUNDER[op]); what = f'{c} {op} {ty}'
                outs = cx.run(cx.ci, lambda: cx.ci.compare(st, COPS[op](), A, B, node))
                if outs is None: continue
                for s, v in outs:
                    if v == NOTIMPL: v = boolv(op == '!=')
                    if isinstance(v, Raise): rcheck(cx, rule, where, what, s, v); continue
                    judge_bool(cx, rule, where, what, cx.ci, [(s, v)], F if op == '==' else T)


NOTIMPL = ('k', 'NotImplementedType', 'NotImplemented')


def sample(cx, st, c, n, K='Q', side='A'):
    """A collection of class c with n elements of kind K."""
    k = kind_of(c)
    if k == 'set': con = ('aset', (seg(K, side, n),))
    elif k == 'map': con = ('amap', (seg(K, side, n, kv(K, side, JA)),))
    else: con = ('aseq', (lp(K, side, n),))
    return cx.C.mk(st, c, con)


def c11(cx, c):
    for m in ('union', 'intersection', 'difference', 'symmetric_difference', 'addall', 'discardall', 'removeall'):
        for bc in OPER: yield lambda m=m, bc=bc: setop(cx, c, m, bc)
        yield lambda m=m: setop(cx, c, m, 'pset', 'RP')
        yield lambda m=m: setop(cx, c, m, 'list', 'RP')
        if m == 'removeall': continue    # a repeated element is missing the second time
        for bc in ('list', 'iterable', 'plist'): yield lambda m=m, bc=bc: setop(cx, c, m, bc, 'PRPR')
    if c == 'tset':
        for m in ('update', 'intersection_update', 'difference_update', 'symmetric_difference_update'):
            for bc in OPER: yield lambda m=m, bc=bc: setop(cx, c, m, bc)
            yield lambda m=m: setop(cx, c, m, 'pset', 'RP')
            for bc in ('list', 'iterable', 'plist'): yield lambda m=m, bc=bc: setop(cx, c, m, bc, 'PRPR')
    for op in OPMASK:
        for bc in SETOPER:
            yield lambda op=op, bc=bc: setbin(cx, c, op, bc)
            yield lambda op=op, bc=bc: setbin(cx, c, op, bc, left=False)
            yield lambda op=op, bc=bc: setbin(cx, c, op, bc, inplace=True)
    for m in ('isdisjoint', 'issubset', 'issuperset'):
        for bc in OPER:
            yield lambda m=m, bc=bc: setbool(cx, c, m, bc)
            if bc != 'self': yield lambda m=m, bc=bc: setbool(cx, c, m, bc, 'RP')
        for bc in ('list', 'iterable', 'plist'): yield lambda m=m, bc=bc: setbool(cx, c, m, bc, 'PRPR')
    for m in ('pop', 'remove', 'discard', 'add'): yield lambda m=m: setpop(cx, c, m)
    for m in ('union', 'intersection', 'difference') + (('update', 'intersection_update', 'difference_update') if c == 'tset' else ()):
        yield lambda m=m: variadic(cx, c, m)


def c17set(cx, c):
    for m in ('addall', 'discardall', 'removeall', 'update', 'intersection_update', 'difference_update', 'symmetric_difference_update'):
        yield lambda m=m: setop(cx, c, m, 'self', rule='C17')
    for op in OPMASK: yield lambda op=op: setbin(cx, c, op, 'self', inplace=True, rule='C17')


def c09set(cx, c):
    for op in ('==', '!='):
        for bc in SETOPER:
            yield lambda op=op, bc=bc: setcompare(cx, c, op, bc, 'C09')
            if bc != 'self': yield lambda op=op, bc=bc: setcompare(cx, c, op, bc, 'C09', 'RP')
    yield lambda: unrelated(cx, c)


def c21set(cx, c):
    for op in ('<', '<=', '>', '>='):
        for bc in SETOPER:
            yield lambda op=op, bc=bc: setcompare(cx, c, op, bc, 'C21')
            if bc != 'self': yield lambda op=op, bc=bc: setcompare(cx, c, op, bc, 'C21', 'RP')
