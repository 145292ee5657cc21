"""Sequences in contract mode: equality (C09), ordering (C21), searching (C22),
concatenation, repetition, sorting, reversing (C15)."""
from .scen import *
from .rules_set import judge_bool, rcheck, unrelated, same, DUNDER, NOTIMPL

NODE = ast.parse('x').body[0].value


def mkseq(cx, st, c, pieces):
    if c == 'list': return st.new('list', {'ls': tuple(pieces)}, None, fresh=False)
    return cx.C.mk(st, c, ('aseq', tuple(pieces)))


def content(cx, s, v):
    """List pieces of a sequence value, or None."""
    if v[0] == 'r' and v[1] in s.heap:
        if s.cls(v) == 'list': return s.get(v, 'ls')
        con = cx.C.con(s, v)
        if con is not None and con[0] == 'aseq': return con[1]
    if v[0] == 't' and v[1] == 'tuple': return v[2]
    return None


def norm(s, ls):
    """Coalesce list pieces: [(n, value over JA)], dropping the empty ones.
    None if a piece is not understood."""
    out = []
    for p in ls:
        if p[0] == 'it': out.append((I(1), p[1], None))
        elif p[0] == 'lp' and len(p[3]) == 1:
            out.append((p[1], subst(p[3][0], {p[2]: JA}), True))
        elif p[0] == 'lp' and cint(p[1]) is not None and cint(p[1]) <= 4:
            for i in range(cint(p[1])):
                for v in p[3]: out.append((I(1), subst(v, {p[2]: I(i)}), None))
        else: out.append((p[1] if p[0] == 'sorted' else None, p, None))
    r = []
    for n, v, lp_ in out:
        if n is not None and s.entails(scale(n, -1)): continue
        if n is not None and lp_ and s.entails(sub(I(1), n)) and s.entails(add(n, I(-1))): v = subst(v, {JA: I(0)}); n = I(1)
        r.append((n, v))
    # merge neighbours: value with step in index
    ch = True
    while ch:
        ch = False
        for i in range(len(r) - 1):
            (n1, v1), (n2, v2) = r[i], r[i + 1]
            if n1 is None or n2 is None: continue
            m = joinable(s, n1, v1, n2, v2)
            if m is not None:
                r[i:i + 2] = [m]; ch = True; break
    return r


def idx(v):
    """(skeleton, index) of an element term."""
    if v[0] == 't' and v[1] in ('ke', 'kv'): return v[:4], v[4]
    if v[0] == 't' and v[1] == 'srt': return v[:3], v[3]
    if v[0] == 't' and v[1] == 'klz':
        r = idx(v[2])
        return None if r is None else (('klz', r[0]), r[1])
    return None


def joinable(s, n1, v1, n2, v2):
    if v1 == v2 and (v1[0] in ('k', 'i') and not contains(v1, lambda x: x == JA) or v1[0] == 't' and v1[1] == 'klz' and v1[2][0] == 'k'):
        return (add(n1, n2), v1)
    a, b = idx(v1), idx(v2)
    if a is None or b is None or a[0] != b[0]: return None
    def at(i, n, k): return subst(i, {JA: k})
    for step in (1, -1, 0):
        def lin(i, n):
            if cint(n) == 1 and not contains(i, lambda x: x == JA): return i
            d = sub(subst(i, {JA: I(1)}), subst(i, {JA: I(0)}))
            return subst(i, {JA: I(0)}) if cint(d) == step else None
        s1, s2 = lin(a[1], n1), lin(b[1], n2)
        if s1 is None or s2 is None: continue
        e = sub(s2, add(s1, scale(n1, step)))
        if same(s, e, I(0)):
            def rebuild(v, i):
                if v[1] == 'klz': return ('t', 'klz', rebuild(v[2], i))
                return v[:3] + (i,) if v[1] == 'srt' else v[:4] + (i,)
            return (add(n1, n2), rebuild(v1, add(s1, scale(JA, step))))
    return None


def equal_pieces(s, a, b):
    """Are two normalised descriptions the same?  True / False / None."""
    if len(a) != len(b):
        if any(n is None for n, _ in a + b): return None
        return False
    for (n1, v1), (n2, v2) in zip(a, b):
        if n1 is None or n2 is None:
            if v1 != v2: return None
            continue
        if not same(s, n1, n2): return False
        if v1 == v2: continue
        x, y = idx(v1), idx(v2)
        if x is None or y is None: return None if (v1[0] == 'u' or v2[0] == 'u' or contains(v1, lambda t: t[0] == 'phi')) else False
        if x[0] != y[0]: return False
        if not (same(s, subst(x[1], {JA: I(0)}), subst(y[1], {JA: I(0)})) and
                same(s, subst(x[1], {JA: sub(n1, I(1))}), subst(y[1], {JA: sub(n1, I(1))}))): return False
    return True


def split_empty(s, pieces):
    """States in which every piece is known to be empty, single or longer."""
    outs = [s]
    for p in pieces:
        if p[0] not in ('lp', 'sorted') or p[1] is None or cint(p[1]) is not None: continue
        nxt = []
        for st in outs:
            done = False
            for e in (scale(p[1], -1), sub(I(1), p[1])):
                if st.entails(e): done = True; break
                if st.entails(sub(I(-1), e)): continue
                b = st.fork()
                if b.add(e):
                    nxt.append(b)
                    st = st.fork()
                    if not st.add(sub(I(-1), e)): done = True; st = None; break
            if st is not None: nxt.append(st)
        outs = nxt
        if len(outs) > 24: break
    return outs


def showp(r):
    return '[' + ', '.join(f'{show(v)} x {show(n) if n is not None else "?"}' for n, v in r) + ']'


def judge_seq(cx, rule, where, what, s, v, want):
    got = content(cx, s, v)
    if got is None:
        if cx.imp(s): cx.f.undecided(s.imp[0] if s.imp else 'generalised')
        else: cx.f.bad(rule, where, f'{what}: the result is not a sequence ({show(v)})', path=cx.trace(s))
        return
    cases = split_empty(s, list(got) + list(want))
    if len(cases) != 1:
        for s2 in cases: judge_seq(cx, rule, where, what, s2, v, want)
        return
    a, b = norm(s, got), norm(s, want)
    e = equal_pieces(s, a, b)
    if e is True: cx.f.good()
    elif e is None or cx.imp(s): cx.f.undecided(s.imp[0] if s.imp else 'sequence content not comparable')
    else: cx.f.bad(rule, where, f'{what}: the elements are {showp(a)} where the definition gives {showp(b)}', path=cx.trace(s))


# ----------------------------------------------------------- equality, ordering
def pairs_of(cx, c, d, case, lazy=False):
    """Two sequences with a common prefix of unbounded length, then `case`."""
    st = cx.cstate()
    p = cnt(st, 'P'); q = cnt(st, 'Q'); r = cnt(st, 'R')
    a = [lp('P', 'A', p)]; b = [lp('P', 'B', p)]
    if case == 'same': pass
    elif case == 'longer':
        st.add(add(q, I(-1))); a.append(lp('Q', 'A', q))
    elif case == 'shorter':
        st.add(add(r, I(-1))); b.append(lp('R', 'B', r))
    else:
        # first differing position, then anything: the same, or more, elements
        a += [('it', ke('U', 'A', I(0)))]; b += [('it', ke('V', 'B', I(0)))]
        if case.endswith('tail'): a.append(lp('Q', 'A', q)); b.append(lp('R', 'B', r))
        elif case.endswith('equaltail'): pass
    if case.startswith('lt'): cx.C.lt = {('U', 'V'): True, ('Q', 'R'): True, ('R', 'Q'): True} if False else {('U', 'V'): True}
    elif case.startswith('gt'): cx.C.lt = {('V', 'U'): True}
    else: cx.C.unordered = True
    if lazy:
        a = [wraplz(x) for x in a]
    A = mkseq(cx, st, c, a); B = mkseq(cx, st, d, b)
    return st, A, B


def wraplz(p):
    if p[0] == 'it': return ('it', klz(p[1]))
    return p[:3] + (tuple(klz(x) for x in p[3]),)


def seqeq(cx, c, d, op, lazy=False):
    for case in ('same', 'longer', 'shorter', 'un', 'untail', 'lt', 'lttail', 'gttail'):
        st, A, B = pairs_of(cx, c, d, case, lazy)
        where = cx.where(c, '__eq__'); what = f'{c} {op} {d} ({case})'
        def go(): return cx.ci.compare(st, COPS[op](), A, B, NODE)
        outs = cx.run(cx.ci, go)
        cx.C.unordered = False
        if outs is None: continue
        judge_bool(cx, 'C09', where, what, cx.ci, outs, T if (case == 'same') == (op == '==') else F)
    if c not in ALL: return
    st = cx.cstate(); p = cnt(st, 'P'); A = mkseq(cx, st, c, [lp('P', 'A', p)])
    outs = cx.run(cx.ci, lambda: cx.ci.compare(st, COPS[op](), A, A, NODE))
    if outs is not None: judge_bool(cx, 'C09', cx.where(c, '__eq__'), f'{c} {op} itself', cx.ci, outs, T if op == '==' else F)


def seqord(cx, c, d, op):
    res = {'same': 0, 'longer': 1, 'shorter': -1, 'lt': -1, 'lttail': -1, 'gt': 1, 'gttail': 1}
    for case, r in res.items():
        st, A, B = pairs_of(cx, c, d, case)
        cx.C.unordered = False
        m = DUNDER[op]
        where = cx.where(c, m) if c in ALL else cx.where(d, {'<': '__gt__', '>': '__lt__', '<=': '__ge__', '>=': '__le__'}[op])
        what = f'{c} {op} {d} ({case})'
        outs = cx.run(cx.ci, lambda: cx.ci.compare(st, COPS[op](), A, B, NODE))
        if outs is None: continue
        want = {'<': r < 0, '<=': r <= 0, '>': r > 0, '>=': r >= 0}[op]
        judge_bool(cx, 'C21', where, what, cx.ci, outs, T if want else F)


# -------------------------------------------------------------------- searching
def elemE(side): return SPECIAL['elem'] if 'elem' in SPECIAL else ke('E', side, I(0))


def search_seq(cx, c, lazy, shape):
    st = cx.cstate()
    p = cnt(st, 'N'); q = cnt(st, 'M'); r = cnt(st, 'O')
    E = ('it', elemE('A'))
    pcs = {'none': [lp('N', 'A', p)],
           'one': [lp('N', 'A', p), E, lp('M', 'A', q)],
           'two': [lp('N', 'A', p), E, lp('M', 'A', q), E, lp('O', 'A', r)],
           'many': [lp('N', 'A', p), ('lp', q, JA, (elemE('A'),)), lp('O', 'A', r)]}[shape]
    if lazy: pcs = [wraplz(x) for x in pcs]
    A = mkseq(cx, st, c, pcs)
    cx.C.unordered = True
    return st, A, p, q, r, pcs


def search(cx, c, lazy=False):
    x = elemE('B')
    for shape in ('none', 'one', 'two', 'many'):
        nE = {'none': lambda q: I(0), 'one': lambda q: I(1), 'two': lambda q: I(2), 'many': lambda q: q}[shape]
        tag = f'{shape}{", lazy elements" if lazy else ""}'
        # x in s
        st, A, p, q, r, pcs = search_seq(cx, c, lazy, shape)
        outs = cx.run(cx.ci, lambda: cx.ci.compare(st, ast.In(), x, A, NODE))
        if outs is not None: judge_bool(cx, 'C22', cx.where(c, '__contains__'), f'x in {c} ({tag})', cx.ci, outs, GE(add(nE(q), I(-1))))
        # count
        st, A, p, q, r, pcs = search_seq(cx, c, lazy, shape)
        outs = cx.run(cx.ci, lambda: cx.cw.call(st, A, 'count', (x,)))
        for s, v in outs or ():
            if isinstance(v, Raise): rcheck(cx, 'C22', cx.where(c, 'count'), f'{c}.count ({tag})', s, v); continue
            judge_int(cx, 'C22', cx.where(c, 'count'), f'{c}.count ({tag})', s, v, nE(q))
        # index, with bounds
        for bounds in (0, 1, 2):
            st, A, p, q, r, pcs = search_seq(cx, c, lazy, shape)
            a, b = ('s', 'a'), ('s', 'b')
            st.types[a] = st.types[b] = 'int'
            st.add(a); st.add(b)
            args = (x,) + ((a,) if bounds else ()) + ((b,) if bounds == 2 else ())
            where = cx.where(c, 'index'); what = f'{c}.index{bounds and " with start" or ""}{" and stop" if bounds == 2 else ""} ({tag})'
            outs = cx.run(cx.ci, lambda: cx.cw.call(st, A, 'index', args))
            if outs is None: continue
            pos = {'none': [], 'one': [p], 'two': [p, add(add(p, q), I(1))]}.get(shape)
            if shape == 'many': pos = None
            lo = a if bounds else I(0)
            for s, v in outs:
                if pos is None:
                    # the matching positions are p <= i < p+q: first of them not below the start
                    inside = lambda i: AND(GE(sub(i, p)), GE(sub(add(p, q), add(i, I(1)))), GE(sub(i, lo)), *([GE(sub(sub(b, I(1)), i))] if bounds == 2 else []))
                    first = lambda i: OR(EQ0(sub(i, lo)), EQ0(sub(i, p)))
                    exists = OR(inside(p), inside(lo))
                    ok = lambda i: AND(inside(i), first(i))
                else:
                    hit = [AND(GE(sub(i, lo)), *([GE(sub(sub(b, I(1)), i))] if bounds == 2 else [])) for i in pos]
                    exists = OR(*hit)
                    ok = lambda i: OR(*[AND(EQ0(sub(i, pos[k])), hit[k], *[NOT(h) for h in hit[:k]]) for k in range(len(pos))])
                if isinstance(v, Raise):
                    if v.exc[1] == 'ValueError':
                        if possible(s, exists) and not cx.imp(s): cx.f.bad('C22', where, f'{what}: ValueError although an equal element is in range', path=cx.trace(s))
                        elif cx.imp(s) and possible(s, exists): cx.f.undecided(s.imp[0] if s.imp else 'generalised')
                        else: cx.f.good()
                    else: rcheck(cx, 'C22', where, what, s, v)
                    continue
                if cx.ci.ptype(s, v) != 'int' and v[0] not in ('i', 's', 'phi'):
                    if cx.imp(s): cx.f.undecided(s.imp[0] if s.imp else 'generalised')
                    else: cx.f.bad('C22', where, f'{what}: the result is {show(v)}, not a position', path=cx.trace(s))
                    continue
                if not possible(s, NOT(ok(v))): cx.f.good()
                elif cx.imp(s): cx.f.undecided(s.imp[0] if s.imp else 'generalised')
                else: cx.f.bad('C22', where, f'{what}: returns {show(v)}, which need not be the first position in range of an equal element', path=cx.trace(s))
        # remove
        st, A, p, q, r, pcs = search_seq(cx, c, lazy, shape)
        where = cx.where(c, 'remove'); what = f'{c}.remove ({tag})'
        outs = cx.run(cx.ci, lambda: cx.cw.call(st, A, 'remove', (x,)))
        for s, v in outs or ():
            exists = GE(add(nE(q), I(-1)))
            if isinstance(v, Raise):
                if v.exc[1] == 'ValueError':
                    if possible(s, exists) and not cx.imp(s): cx.f.bad('C22', where, f'{what}: ValueError although an equal element is present', path=cx.trace(s))
                    else: cx.f.good()
                else: rcheck(cx, 'C22', where, what, s, v)
                continue
            if possible(s, NOT(exists)):
                if cx.imp(s): cx.f.undecided(s.imp[0] if s.imp else 'generalised')
                else: cx.f.bad('C22', where, f'{what}: no ValueError although no equal element is present', path=cx.trace(s))
                continue
            w = pcs
            if shape in ('one', 'two'): w = pcs[:1] + pcs[2:]
            elif shape == 'many': w = [pcs[0], ('lp', sub(q, I(1)), JA, pcs[1][3])] + pcs[2:]
            judge_seq(cx, 'C22', where, what, s, A if c in TRANSIENT else v, w)


def judge_int(cx, rule, where, what, s, v, want):
    if same(s, v, want) if v[0] in ('i', 's', 'phi', 't', 'k') else False: cx.f.good(); return
    if cx.imp(s): cx.f.undecided(s.imp[0] if s.imp else 'generalised'); return
    cx.f.bad(rule, where, f'{what}: the result is {show(v)} where the definition gives {show(want)}', path=cx.trace(s))


# ------------------------------------------- concatenation, sorting, reversing
def seq_operand(cx, st, d, n):
    ls = (lp('R', 'B', n),)
    if d == 'iterable': return st.new('iter', {'src': ('S', 'ls', ls), 'pos': I(0)}, None, fresh=False)
    if d in ('set', 'frozenset') or d in SETLIKE: return cx.C.mk(st, d, ('aset', (seg('R', 'B', n),)))
    return mkseq(cx, st, d, ls)


CONCAT = ('list', 'iterable', 'self', 'pset') + SEQ


def concat(cx, c, m, d):
    """extend / + / += / radd, with every kind of operand."""
    st = cx.cstate()
    n = cnt(st, 'Q'); r = cnt(st, 'R')
    pa = [lp('Q', 'A', n)]
    A = mkseq(cx, st, c, pa)
    if d == 'self': B = A; pb = pa
    else: B = seq_operand(cx, st, d, r); pb = [lp('R', 'B', r)]
    if m == 'extend':
        where = cx.where(c, 'extend'); outs = cx.run(cx.ci, lambda: cx.cw.call(st, A, 'extend', (B,)))
    elif m == '+': where = cx.where(c, '__add__'); outs = cx.run(cx.ci, lambda: cx.cw.binop(st, ast.Add, A, B, NODE))
    elif m == '+=': where = cx.where(c, '__iadd__' if cx.has(c, '__iadd__') else '__add__'); outs = cx.run(cx.ci, lambda: cx.cw.binop(st, ast.Add, A, B, NODE, inplace=True))
    else: where = cx.where(c, '__radd__'); outs = cx.run(cx.ci, lambda: cx.cw.binop(st, ast.Add, B, A, NODE))
    if outs is None: return
    what = {'extend': f'{c}.extend({d})', '+': f'{c} + {d}', '+=': f'{c} += {d}', 'r+': f'{d} + {c}'}[m]
    rule = 'C17' if d == 'self' and c in TRANSIENT and m in ('extend', '+=') else 'C15'
    inplace = c in TRANSIENT and m in ('extend', '+=')
    for s, v in outs:
        if isinstance(v, Raise):
            # operands the operator does not support
            if m in ('+', 'r+') and v.exc[1] == 'TypeError' and d not in ('list', 'self', c): cx.f.good(); continue
            if m == '+=' and v.exc[1] == 'TypeError' and d not in ('list', 'self', c): cx.f.good(); continue
            rcheck(cx, rule, where, what, s, v); continue
        if m == '+=' and inplace:
            if v == A: cx.f.good()
            elif cx.imp(s): cx.f.undecided(s.imp[0] if s.imp else 'generalised')
            else: cx.f.bad(rule, where, f'{what}: the in-place operator does not return the sequence itself', path=cx.trace(s))
        judge_seq(cx, rule, where, what, s, A if inplace else v, pa + pb if m != 'r+' else pb + pa)
        if not inplace: judge_seq(cx, 'C02', where, what + ' (left operand)', s, A, pa)
        if d in ('list',) + SEQ: judge_seq(cx, 'C02', where, what + ' (operand)', s, B, pb)


def repeat(cx, c, m):
    """* with a fixed small factor over a sequence of unbounded length, and with
    an arbitrary factor over short sequences."""
    where = cx.where(c, {'*': '__mul__', 'r*': '__rmul__', '*=': '__imul__'}[m] if cx.has(c, {'*': '__mul__', 'r*': '__rmul__', '*=': '__imul__'}[m]) else '__mul__')
    def op(st, A, k):
        if m == '*': return cx.cw.binop(st, ast.Mult, A, k, NODE)
        if m == 'r*': return cx.cw.binop(st, ast.Mult, k, A, NODE)
        return cx.cw.binop(st, ast.Mult, A, k, NODE, inplace=True)
    inplace = m == '*=' and c in TRANSIENT
    rule = 'C17' if inplace else 'C15'
    def done(outs, A, want, what):
        for s, v in outs or ():
            if isinstance(v, Raise): rcheck(cx, rule, where, what, s, v); continue
            if inplace and v != A:
                if cx.imp(s): cx.f.undecided(s.imp[0] if s.imp else 'generalised')
                else: cx.f.bad(rule, where, f'{what}: the in-place operator does not return the sequence itself', path=cx.trace(s))
                continue
            judge_seq(cx, rule, where, what, s, v, want(s))
    for k in (-1, 0, 1, 2, 3):
        st = cx.cstate(); n = cnt(st, 'Q')
        pa = [lp('Q', 'A', n)]
        A = mkseq(cx, st, c, pa)
        outs = cx.run(cx.ci, lambda: op(st, A, I(k)))
        done(outs, A, lambda s: pa * max(k, 0), f'{c} {m} {k}')
    st = cx.cstate()
    pa = [('it', ke('Q', 'A', I(0)))]
    A = mkseq(cx, st, c, pa); k = ('s', 'k'); st.types[k] = 'int'
    outs = cx.run(cx.ci, lambda: op(st, A, k))
    done(outs, A, lambda s: [('lp', k, JA, (ke('Q', 'A', I(0)),))] if not s.entails(scale(k, -1)) else [], f'{c} {m} k (one element)')
    st = cx.cstate()
    A = mkseq(cx, st, c, []); k = ('s', 'k'); st.types[k] = 'int'
    outs = cx.run(cx.ci, lambda: op(st, A, k))
    done(outs, A, lambda s: [], f'{c} {m} k (empty)')


def rev(cx, c, how):
    st = cx.cstate(); n = cnt(st, 'Q')
    pa = [lp('Q', 'A', n)]
    A = mkseq(cx, st, c, pa)
    want = [('lp', n, JA, (SPECIAL.get('seq Q') or ke('Q', 'A', sub(sub(n, I(1)), JA)),))]
    if how == 'reversed':
        where = cx.where(c, '__reversed__'); what = f'reversed({c})'
        outs = cx.run(cx.ci, lambda: cx.ci.bind(cx.ci.call(('bi', 'reversed'), (A,), {}, st, NODE) if False else cx.cw.call(st, A, '__reversed__'),
                                                 lambda s, v: [(s2, x if isinstance(x, Raise) else ('t', 'tuple', x)) for s2, x in cx.ci.l.collect(s, v, NODE)]))
    elif how == 'iter':
        where = cx.where(c, '__iter__'); what = f'iter({c})'; want = pa
        outs = cx.run(cx.ci, lambda: [(s2, x if isinstance(x, Raise) else ('t', 'tuple', x)) for s2, x in cx.ci.l.collect(st, A, NODE)])
    else:
        where = cx.where(c, 'reverse'); what = f'{c}.reverse'
        outs = cx.run(cx.ci, lambda: cx.cw.call(st, A, 'reverse'))
    for s, v in outs or ():
        if isinstance(v, Raise): rcheck(cx, 'C15', where, what, s, v); continue
        tgt = A if how == 'reverse' and c in TRANSIENT else v
        judge_seq(cx, 'C15', where, what, s, tgt, want)


def sort(cx, c, kw):
    st = cx.cstate(); n = cnt(st, 'Q')
    pa = (lp('Q', 'A', n),)
    A = mkseq(cx, st, c, pa)
    kws = {}
    if 'key' in kw: k = ('s', 'f'); st.types[k] = 'callable'; kws['key'] = k
    if 'reverse' in kw: kws['reverse'] = TRUE
    where = cx.where(c, 'sort'); what = f'{c}.sort({", ".join(kw)})'
    outs = cx.run(cx.ci, lambda: cx.cw.call(st, A, 'sort', (), kws))
    for s, v in outs or ():
        if isinstance(v, Raise): rcheck(cx, 'C15', where, what, s, v); continue
        tgt = A if c in TRANSIENT else v
        got = content(cx, s, tgt)
        if got is None: cx.f.undecided('sort result'); continue
        got = [p for p in norm(s, got)]
        if not got and s.entails(scale(n, -1)): cx.f.good(); continue
        if s.entails(sub(I(1), n)):
            # one element at most: any order of the same element is sorted
            flat = got
            if len(got) == 1 and got[0][1][0] == 'sorted': flat = norm(s, got[0][1][4])
            elif len(got) == 1 and got[0][1][0] == 't' and got[0][1][1] == 'srt' and got[0][1][2][0] == 'sorted': flat = norm(s, got[0][1][2][4])
            if equal_pieces(s, flat, norm(s, pa)): cx.f.good(); continue
        srt = None
        def find(v):
            for x in walk(v):
                if x[0] == 'sorted': return x
            return None
        ok = False
        if len(got) == 1:
            nn, val = got[0]
            p = val if val[0] == 'sorted' else val[2] if val[0] == 't' and val[1] == 'srt' else None
            back = False
            if p is not None and val[0] == 't':
                back = not same(s, subst(val[3], {JA: I(0)}), I(0))
                if back and not (same(s, subst(val[3], {JA: I(0)}), sub(n, I(1))) and same(s, subst(val[3], {JA: sub(n, I(1))}), I(0))): p = None
            if p is not None:
                # read from the end: a sort of the reversed source the other way round
                order = [('lp', n, JA, (SPECIAL.get('seq Q') or ke('Q', 'A', sub(sub(n, I(1)), JA)),))] if back else pa
                src = equal_pieces(s, norm(s, p[4]), norm(s, order))
                rev_ = kws.get('reverse', FALSE)
                keyok = SPECIAL.get('seq Q') is not None or p[5] == kws.get('key', NONE); revok = SPECIAL.get('seq Q') is not None or p[6] == (boolv(rev_ != TRUE) if back else rev_)
                if nn is not None and same(s, nn, n) and src is True and keyok and revok: cx.f.good(); continue
                if src is None or cx.imp(s): cx.f.undecided(s.imp[0] if s.imp else 'sort source'); continue
                cx.f.bad('C15', where, f'{what}: the result is not the sorted sequence (source {showp(norm(s, p[4]))}, key {show(p[5])}, reverse {show(p[6])}, length {show(nn)})', path=cx.trace(s)); continue
        if cx.imp(s) or any(x[1][0] == 'sorted' or contains(x[1], lambda y: y[0] in ('sorted', 'u', 'phi')) for x in got): cx.f.undecided(s.imp[0] if s.imp else 'sort result form'); continue
        cx.f.bad('C15', where, f'{what}: the result {showp(got)} is not sorted', path=cx.trace(s))


def c09seq(cx, c):
    for op in ('==', '!='):
        for d in SEQ + ('list',):
            yield lambda op=op, d=d: seqeq(cx, c, d, op)
        yield lambda op=op: seqeq(cx, 'list', c, op)
        if c in LAZY: yield lambda op=op: seqeq(cx, c, 'list', op, True)
    yield lambda: unrelated(cx, c)


def c21seq(cx, c):
    for op in ('<', '<=', '>', '>='):
        for d in SEQ + ('list',): yield lambda op=op, d=d: seqord(cx, c, d, op)
        yield lambda op=op: seqord(cx, 'list', c, op)


def c22(cx, c):
    yield lambda: search(cx, c)
    if c in LAZY: yield lambda: search(cx, c, True)


def c17seq(cx, c):
    for m in ('extend', '+='): yield lambda m=m: concat(cx, c, m, 'self')
    yield lambda: repeat(cx, c, '*=')


def c02seq(cx, c):
    for d in CONCAT:
        for m in ('extend', '+', '+=', 'r+'): yield lambda m=m, d=d: concat(cx, c, m, d)


def c15alg(cx, c):
    for d in CONCAT:
        for m in ('extend', '+', '+=', 'r+'):
            yield lambda m=m, d=d: concat(cx, c, m, d)
    for m in ('*', 'r*', '*='): yield lambda m=m: repeat(cx, c, m)
    for h in ('reversed', 'reverse', 'iter'): yield lambda h=h: rev(cx, c, h)
    for kw in ((), ('key',), ('reverse',), ('key', 'reverse')): yield lambda kw=kw: sort(cx, c, kw)
