"""Sequences at the level of their representation (full mode): indexing (C13),
edits (C14), iteration and slicing against indexing (C15), the partner
conversions after each edit (C03), kinds (C04) and failed edits (C24).

The receiver is a symbolic sequence of symbolic length stored from a symbolic
(possibly negative) start; results are observed only through __len__,
__getitem__, __iter__ and persistent(), at a symbolic position of every region
the specification distinguishes."""
from .scen import *
from .rules_set import rcheck, same

NODE = ast.parse('x').body[0].value
JE = ('s', 'pos')


def unforce(v):
    while v[0] == 't' and v[1] == 'forced': v = v[2]
    return v


def at(i, name='x'): return ('t', 'at', name, i)


def veq(s, a, b):
    """Are two element terms the same value?  True | False | formula under which they are"""
    a, b = unforce(a), unforce(b)
    if a == b: return True
    if a[0] == 't' and b[0] == 't' and a[1] == b[1] and len(a) == len(b) and a[1] in ('at', 'ke', 'kv') and a[2:-1] == b[2:-1]:
        return EQ0(sub(a[-1], b[-1]))
    for x, y in ((a, b), (b, a)):
        if s.facts.get(('is', x, y)): return True
    if a[0] == 'tup' and b[0] == 'tup' and len(a[1]) == len(b[1]):
        rs = [veq(s, x, y) for x, y in zip(a[1], b[1])]
        if any(r is False for r in rs): return False
        fs = [r for r in rs if r is not True]
        return True if not fs else AND(*fs)
    if a[0] in ('i', 's') and b[0] in ('i', 's') and (a[0] == 'i' or b[0] == 'i'): return EQ0(sub(a, b))
    for f, v in s.facts.items():
        if v and f[0] == 'is' and a in f[1:] and b not in f[1:]:
            o = f[2] if unforce(f[1]) == a else f[1]
            if unforce(o) == b: return True
            o = unforce(o)
            if o[0] == 't' and b[0] == 't' and o[1] == 'at' == b[1] and o[2] == b[2]: return EQ0(sub(o[3], b[3]))
    return False


def must(cx, rule, where, what, s, f, text):
    """Obligation: formula f (or a boolean) holds in outcome s."""
    if f is True: cx.f.good(); return True
    if f is not False and not possible(s, NOT(f)): cx.f.good(); return True
    if cx.imp(s): cx.f.undecided(s.imp[0] if s.imp else 'generalised'); return None
    cx.f.bad(rule, where, f'{what}: {text}', path=cx.trace(s)); return False


def user_exc(v):
    """An exception of the user's own objects (incl. a failed lazy element)."""
    return v.exc[2] in ('user', 'iter', 'nolen') or v.exc[1] in ('LazyError', 'UserError')


def observe(cx, rule, where, what, s0, ref, pieces, cls=None, iterate=False):
    """ref must be a sequence of the given pieces [(count, f(j))]."""
    it = cx.fi
    if ref[0] != 'r' or ref[1] not in s0.heap:
        must(cx, rule, where, what, s0, False, f'the result is {show(ref)}, not a sequence'); return
    if cls is not None:
        must(cx, 'C04', where, what, s0, s0.cls(ref) == cls, f'the result is a {s0.cls(ref)} where a {cls} is expected')
    if s0.cls(ref) in ALL and broken(s0, ref): must(cx, rule, where, what, s0, False, broken(s0, ref)); return
    total = I(0)
    for n, _ in pieces: total = add(total, n)
    outs = cx.run(it, lambda: cx.fw.call(s0.fork(), ref, '__len__'))
    for s, v in outs or ():
        if isinstance(v, Raise): rcheck(cx, rule, where, what + ': len() of the result', s, v); continue
        must(cx, rule, where, what, s, EQ0(sub(v, total)), f'the length of the result is {show(v)}, not {show(total)}')
    off = I(0)
    for n, f in pieces:
        s1 = s0.fork(); j = ('s', 'pos', len(s1.cons)); s1.types[j] = 'int'
        if cint(n) == 1: j = I(0)
        elif not (s1.add(j) and s1.add(sub(sub(n, I(1)), j))): off = add(off, n); continue
        k = add(off, j)
        if cint(n) is None or cint(n) > 0:
            outs = cx.run(it, lambda: cx.fw.call(s1, ref, '__getitem__', (k,)))
            for s, v in outs or ():
                if isinstance(v, Raise):
                    if user_exc(v): continue
                    if cx.imp(s): cx.f.undecided(s.imp[0] if s.imp else 'generalised'); continue
                    cx.f.bad(rule, where, f'{what}: position {show(k)} of the result is missing ({v.exc[1]})', path=cx.trace(s)); continue
                must(cx, rule, where, what, s, veq(s, v, f(j)), f'position {show(k)} of the result holds {show(v)}, not {show(f(j))}')
        off = add(off, n)
    if iterate: iteration(cx, rule, where, what, s0, ref, pieces)


def iteration(cx, rule, where, what, s0, ref, pieces):
    """list(ref) must be the pieces."""
    it = cx.fi
    total = I(0)
    for n, _ in pieces: total = add(total, n)
    outs = cx.run(it, lambda: it.l.collect(s0.fork(), ref, NODE))
    for s, ls in outs or ():
        if isinstance(ls, Raise):
            if user_exc(ls): continue
            rcheck(cx, rule, where, what, s, ls); continue
        judge_ls(cx, rule, where, what, s, ls, pieces)


def judge_ls(cx, rule, where, what, s, ls, pieces):
    it = cx.fi
    total = I(0)
    for n, _ in pieces: total = add(total, n)
    ln = it.m.ls_len(s, ls)
    if ln is None: cx.f.undecided('length of the traversal'); return
    if isinstance(ln, list): ln = ln[0][1]
    must(cx, rule, where, what, s, EQ0(sub(ln, total)), f'{show(ln)} elements are visited, not {show(total)}')
    off = I(0)
    for n, f in pieces:
        s1 = s.fork(); j = ('s', 'pos', len(s1.cons)); s1.types[j] = 'int'
        if cint(n) == 1: j = I(0)
        elif not (s1.add(j) and s1.add(sub(sub(n, I(1)), j))): off = add(off, n); continue
        k = add(off, j)
        for s2, v in it.m.ls_index(s1, ls, k, NODE):
            if v is None or isinstance(v, Raise):
                must(cx, rule, where, what, s2, False, f'nothing is visited at position {show(k)}'); continue
            must(cx, rule, where, what, s2, veq(s2, v, f(j)), f'the element visited at position {show(k)} is {show(v)}, not {show(f(j))}')
        off = add(off, n)


# --------------------------------------------------------------- edit table
def spec_edits():
    """(name, method per kind, args, spec); spec(n, i) -> [(condition, pieces | 'IndexError' | 'same')]"""
    x = ('s', 'v')
    whole = lambda n: [(n, lambda j: at(j))]
    def repl(i, n): return [(i, lambda j: at(j)), (I(1), lambda j: x), (sub(sub(n, i), I(1)), lambda j: at(add(add(i, I(1)), j)))]
    def dele(i, n): return [(i, lambda j: at(j)), (sub(sub(n, i), I(1)), lambda j: at(add(add(i, I(1)), j)))]
    def ins(i, n): return [(i, lambda j: at(j)), (I(1), lambda j: x), (sub(n, i), lambda j: at(add(i, j)))]
    def regions(n, i, f, out):
        return [(AND(GE(i), GE(sub(sub(n, I(1)), i))), f(i, n)),
                (AND(GE(sub(I(-1), i)), GE(add(i, n))), f(add(i, n), n)),
                (GE(sub(i, n)), out), (GE(sub(sub(I(-1), n), i)), out)]
    E = 'IndexError'
    def insr(n, i):
        return [(GE(sub(i, n)), ins(n, n)), (AND(GE(i), GE(sub(sub(n, I(1)), i))), ins(i, n)),
                (AND(GE(sub(I(-1), i)), GE(add(i, n))), ins(add(i, n), n)), (GE(sub(sub(I(-1), n), i)), ins(I(0), n))]
    last = lambda f: (lambda n, i: [(GE(sub(n, I(1))), f(sub(n, I(1)), n)), (EQ0(n), E)])
    return [
        ('set', ('set', '__setitem__'), 'iv', lambda n, i: regions(n, i, repl, E)),
        ('delete', ('delete', '__delitem__'), 'i', lambda n, i: regions(n, i, dele, E)),
        ('delete-last', ('delete', None), '', last(dele)),
        ('drop', ('drop', None), 'i', lambda n, i: regions(n, i, dele, whole(n))),
        ('drop-last', ('drop', None), '', lambda n, i: [(GE(sub(n, I(1))), dele(sub(n, I(1)), n)), (EQ0(n), whole(n))]),
        ('pop', ('pop', 'pop'), 'i', lambda n, i: regions(n, i, dele, E)),
        ('pop-last', ('pop', 'pop'), '', last(dele)),
        ('append', ('append', 'append'), 'v', lambda n, i: [(T, ins(n, n))]),
        ('prepend', ('prepend', 'prepend'), 'v', lambda n, i: [(T, ins(I(0), n))]),
        ('insert', ('insert', 'insert'), 'iv', lambda n, i: insr(n, i)),
        ('clear', ('clear', 'clear'), '', lambda n, i: [(T, [])]),
    ]


def popped(n, i, name):
    if name == 'pop': return [(AND(GE(i)), at(i)), (GE(sub(I(-1), i)), at(add(i, n)))]
    return [(T, at(sub(n, I(1))))]


def edit_runs(cx, c, name, meth, args, orig=False):
    """Run one edit on a symbolic receiver: [(state, receiver, result)] and n, i"""
    st = cx.fw.state()
    r = cx.fw.recv(st, c, 'x', orig=orig)
    n = ('s', 'x', 'n')
    i = ('s', 'i'); st.types[i] = 'int'
    x = ('s', 'v')
    a = tuple({'i': i, 'v': x}[k] for k in args)
    outs = cx.run(cx.fi, lambda: cx.fw.call(st, r, meth, a))
    return outs, r, n, i


def narrowed(s, f):
    """States for each way the formula may hold in s."""
    for conj in dnf(f):
        t = s.fork()
        if all(t.add(e) for e in conj) and not infeasible(list(t.cons)): yield t


def seq_edit(cx, c, e, orig, mode):
    name, meths, args, spec = e
    meth = meths[0] if c in PERSISTENT else meths[1]
    if meth is None or not cx.has(c, meth): return
    outs, r, n, i = edit_runs(cx, c, name, meth, args, orig)
    if outs is None: return
    where = cx.where(c, meth)
    what = f'{c}.{meth}({", ".join({"i": "i", "v": "x"}[k] for k in args)})'
    rule = 'C14'
    for s0, v in outs:
        for cond, want in spec(n, i):
            for s in narrowed(s0, cond):
                bounds = name in ('set', 'delete', 'pop', 'drop', 'delete-last', 'pop-last', 'drop-last')
                if isinstance(v, Raise):
                    if user_exc(v): continue
                    if want == 'IndexError':
                        must(cx, 'C13', where, what, s, v.exc[1] == 'IndexError', f'raises {v.exc[1]} for a position outside the sequence, not IndexError')
                        if mode == 'C24': unchanged(cx, 'C24', where, what, s, r, c, n)
                    else:
                        ru = 'C13' if bounds and v.exc[1] == 'IndexError' else rule
                        must(cx, ru, where, what, s, False, f'raises {v.exc[1]} ({v.exc[4]}) for a position inside the sequence')
                    continue
                if want == 'IndexError':
                    must(cx, 'C13', where, what, s, False, 'no IndexError for a position outside the sequence'); continue
                res = v
                if name.startswith('pop'):
                    val = v
                    if c in PERSISTENT:
                        if v[0] != 'tup' or len(v[1]) != 2:
                            must(cx, rule, where, what, s, False, f'the result is {show(v)}, not a pair'); continue
                        val, res = v[1]
                    for pc, pv in popped(n, i, name):
                        for s2 in narrowed(s, pc):
                            must(cx, rule, where, what, s2, veq(s2, val, pv), f'the value returned is {show(val)}, not {show(pv)}')
                if c in TRANSIENT: res = r
                ru = rule
                if mode == 'C14':
                    observe(cx, ru, where, what, s, res, want, cls=c)
                elif mode == 'C03':
                    after_edit(cx, c, where, what, s, res, want)
                elif mode == 'C13' and bounds and 'i' in args:
                    # does the edit address the right element?  (judged with the bounds)
                    observe(cx, 'C13', where, what, s, res, want)


def after_edit(cx, c, where, what, s, res, want):
    """The conversion of the edited collection holds what it holds."""
    P = PARTNER[c]
    conv = 'persistent' if c in TRANSIENT else 'transient'
    outs = cx.run(cx.fi, lambda: cx.fw.call(s.fork(), res, conv))
    for s2, w in outs or ():
        if isinstance(w, Raise): rcheck(cx, 'C03', where, f'{what}, then {conv}()', s2, w); continue
        observe(cx, 'C03', where, f'{what}, then {conv}()', s2, w, want, cls=P)
    outs = cx.run(cx.fi, lambda: cx.fi.instantiate(('cls', P), (res,), {}, s.fork(), NODE))
    for s2, w in outs or ():
        if isinstance(w, Raise):
            if user_exc(w): continue
            rcheck(cx, 'C03', where, f'{what}, then {P}(...)', s2, w); continue
        observe(cx, 'C03', where, f'{what}, then {P}(...)', s2, w, want, cls=P)
    if c in TRANSIENT:
        outs = cx.run(cx.fi, lambda: cx.fw.call(s.fork(), res, 'copy'))
        for s2, w in outs or ():
            if isinstance(w, Raise): rcheck(cx, 'C03', where, f'{what}, then copy()', s2, w); continue
            observe(cx, 'C03', where, f'{what}, then copy()', s2, w, want, cls=c)


def unchanged(cx, rule, where, what, s, r, c, n):
    observe(cx, rule, where, what + ' (failed)', s, r, [(n, lambda j: at(j))], cls=c)


# ------------------------------------------------------------------- reading
def reading(cx, c, meth):
    st = cx.fw.state(); r = cx.fw.recv(st, c, 'x')
    n = ('s', 'x', 'n'); i = ('s', 'i'); st.types[i] = 'int'
    where = cx.where(c, meth); what = f'{c}.{meth}(i)' if meth != '__getitem__' else f'{c}[i]'
    outs = cx.run(cx.fi, lambda: cx.fw.call(st, r, meth, (i,)))
    inside = [(AND(GE(i), GE(sub(sub(n, I(1)), i))), i), (AND(GE(sub(I(-1), i)), GE(add(i, n))), add(i, n))]
    for s0, v in outs or ():
        for cond, k in inside:
            for s in narrowed(s0, cond):
                if isinstance(v, Raise):
                    if user_exc(v): continue
                    must(cx, 'C13', where, what, s, False, f'raises {v.exc[1]} for a position inside the sequence'); continue
                if meth in ('__getitem__', 'getlazy'):
                    must(cx, 'C13', where, what, s, veq(s, v, at(k)), f'gives {show(v)}, not element {show(k)}')
        for cond in (GE(sub(i, n)), GE(sub(sub(I(-1), n), i))):
            for s in narrowed(s0, cond):
                if isinstance(v, Raise):
                    if user_exc(v): continue
                    must(cx, 'C13', where, what, s, v.exc[1] == 'IndexError', f'raises {v.exc[1]} outside the sequence, not IndexError')
                else: must(cx, 'C13', where, what, s, False, 'no IndexError for a position outside the sequence')


def length(cx, c):
    st = cx.fw.state(); r = cx.fw.recv(st, c, 'x', orig=False)
    outs = cx.run(cx.fi, lambda: cx.fw.call(st, r, '__len__'))
    for s, v in outs or ():
        if isinstance(v, Raise): rcheck(cx, 'C14', cx.where(c, '__len__'), f'len({c})', s, v); continue
        must(cx, 'C14', cx.where(c, '__len__'), f'len({c})', s, EQ0(sub(v, ('s', 'x', 'n'))), f'len() is {show(v)}, not the number of elements')


def traverse(cx, c, how, lz=None):
    st = cx.fw.state()
    if lz is not None: st.x['$lazy'] = lz
    r = cx.fw.recv(st, c, 'x')
    n = ('s', 'x', 'n')
    it = cx.fi
    if how == 'iter':
        where = cx.where(c, '__iter__'); what = f'iter({c})'; f = lambda j: at(j)
        outs = cx.run(it, lambda: it.l.collect(st, r, NODE))
    else:
        where = cx.where(c, '__reversed__'); what = f'reversed({c})'; f = lambda j: at(sub(sub(n, I(1)), j))
        outs = cx.run(it, lambda: it.bind(cx.fw.call(st, r, '__reversed__'), lambda s, v: it.l.collect(s, v, NODE)))
    for s, ls in outs or ():
        if isinstance(ls, Raise):
            if user_exc(ls): continue
            rcheck(cx, 'C15', where, what, s, ls); continue
        judge_ls(cx, 'C15', where, what, s, ls, [(n, f)])


def slicing(cx, c, a, b, sp, lz=None):
    st = cx.fw.state()
    if lz is not None: st.x['$lazy'] = lz
    r = cx.fw.recv(st, c, 'x'); n = ('s', 'x', 'n')
    it = cx.fi
    for q in (a, b, sp):
        if q != NONE: st.types[q] = 'int'
    k = ('t', 'slice', a, b, sp)
    sh = lambda v: '' if v == NONE else show(v)
    where = cx.where(c, '__getitem__'); what = f'{c}[{sh(a)}:{sh(b)}:{sh(sp)}]'
    outs = cx.run(it, lambda: cx.fw.call(st, r, '__getitem__', (k,)))
    step = 1 if sp == NONE else cint(sp)
    for s0, v in outs or ():
        if isinstance(v, Raise):
            if user_exc(v): continue
            if step is None and v.exc[1] == 'ValueError' and not possible(s0, NOT(EQ0(sp))): cx.f.good(); continue
            must(cx, 'C15', where, what, s0, False, f'raises {v.exc[1]} ({v.exc[4]})'); continue
        if v[0] != 'r' or v[1] not in s0.heap:
            must(cx, 'C15', where, what, s0, False, f'the result is {show(v)}, not a sequence'); continue
        must(cx, 'C04', where, what, s0, s0.cls(v) == c, f'the result is a {s0.cls(v)}')
        if c in TRANSIENT: must(cx, 'C02', where, what, s0, v != r, 'the result is the sequence itself')
        if step is None: continue
        lower, upper = (I(0), n) if step > 0 else (I(-1), sub(n, I(1)))
        def cases(x, dflt):
            if x == NONE: return [(T, dflt)]
            y = add(x, n)
            return [(GE(sub(x, add(upper, I(1)))), upper), (AND(GE(x), GE(sub(upper, x))), x),
                    (AND(GE(sub(I(-1), x)), GE(sub(y, lower))), y), (AND(GE(sub(I(-1), x)), GE(sub(sub(lower, y), I(1)))), lower)]
        lo, hi = (lower, upper) if step > 0 else (upper, lower)
        for c1, x in cases(a, lo):
            for s1 in narrowed(s0, c1):
                for c2, y in cases(b, hi):
                    for s2 in narrowed(s1, c2): slice_result(cx, where, what, s2, v, x, y, step)


def slice_result(cx, where, what, s0, ref, x, y, step):
    d = sub(y, x) if step > 0 else sub(x, y)
    m = abs(step)
    for s, L in cx.run(cx.fi, lambda: cx.fw.call(s0.fork(), ref, '__len__')) or ():
        if isinstance(L, Raise): rcheck(cx, 'C15', where, what, s, L); continue
        ok = OR(AND(GE(scale(d, -1)), EQ0(L)), AND(GE(sub(d, I(1))), GE(sub(scale(L, m), d)), GE(sub(add(d, I(m - 1)), scale(L, m)))))
        if must(cx, 'C15', where, what, s, ok, f'the length of the result is {show(L)}') is not True: continue
        s1 = s.fork(); j = ('s', 'pos', len(s1.cons)); s1.types[j] = 'int'
        if not (s1.add(j) and s1.add(sub(sub(L, I(1)), j))): continue
        want = at(add(x, scale(j, step)))
        for s2, v in cx.run(cx.fi, lambda: cx.fw.call(s1, ref, '__getitem__', (j,))) or ():
            if isinstance(v, Raise):
                if user_exc(v): continue
                must(cx, 'C15', where, what, s2, False, f'position {show(j)} of the result is missing'); continue
            must(cx, 'C15', where, what, s2, veq(s2, v, want), f'position {show(j)} of the result holds {show(v)}, not {show(want)}')


def c15slice(cx, c):
    a, b, sp = ('s', 'a'), ('s', 'b'), ('s', 'step')
    for lz in ((True, False) if c in LAZY else (None,)):
        for q in (NONE, I(1), I(-1), I(2), I(-2), I(3), sp) + ((I(-3), I(4), I(-5)) if DEEP else ()):
            for x, y in ((NONE, NONE), (a, NONE), (NONE, b), (a, b)):
                yield lambda x=x, y=y, q=q, lz=lz: slicing(cx, c, x, y, q, lz)


def c13(cx, c):
    yield lambda: reading(cx, c, '__getitem__')
    if cx.has(c, 'getlazy'): yield lambda: reading(cx, c, 'getlazy')
    for m in ('is_lazy', 'is_ready'):
        if cx.has(c, m): yield lambda m=m: reading(cx, c, m)
    for e in spec_edits():
        if 'i' in e[2] or e[0].endswith('last'):
            for o in ((False, True) if c in TRANSIENT else (False,)):
                yield lambda e=e, o=o: seq_edit(cx, c, e, o, 'C13')


def c14(cx, c):
    yield lambda: length(cx, c)
    for e in spec_edits():
        for o in ((False, True) if c in TRANSIENT else (False,)):
            yield lambda e=e, o=o: seq_edit(cx, c, e, o, 'C14')


def plain(cx, c, orig, lz, rule):
    """Conversions of a sequence that was not edited; the result is converted
    back and extended at both ends."""
    it = cx.fi; V = ('s', 'newval'); W = ('s', 'newval2')
    def judge(how, op, cls):
        st = cx.fw.state()
        if lz is not None: st.x['$lazy'] = lz
        r = cx.fw.recv(st, c, 'x', orig=orig); n = ('s', 'x', 'n')
        where = cx.where(c, how[1:-2]) if how[0] == '.' else cx.where(cls, '__new__')
        what = f'{c}{how}' if how[0] == '.' else f'{how} of a {c}'
        whole = [(n, lambda j: at(j))]
        for s, w in cx.run(it, lambda: op(st, r)) or ():
            if isinstance(w, Raise):
                if not user_exc(w): rcheck(cx, rule, where, what, s, w)
                continue
            observe(cx, rule, where, what, s, w, whole, iterate=True)
            if w[0] != 'r' or w[1] not in s.heap or s.cls(w) not in SEQ or broken(s, w): continue
            d = s.cls(w); T_ = d in TRANSIENT
            if T_:
                for s2, p in cx.run(it, lambda: cx.fw.call(s.fork(), w, 'persistent')) or ():
                    if isinstance(p, Raise): rcheck(cx, rule, where, what + ', then persistent()', s2, p); continue
                    observe(cx, rule, where, what + ', then persistent()', s2, p, whole)
                    if p[0] == 'r' and p[1] in s2.heap and s2.cls(p) in ALL:
                        must(cx, rule, where, what + ', then persistent()', s2, s2.cls(p) == PARTNER[d], f'gives a {s2.cls(p)}, not a {PARTNER[d]}')
            for s2, x in cx.run(it, lambda: cx.fw.call(s.fork(), w, 'append', (V,))) or ():
                if isinstance(x, Raise): rcheck(cx, rule, where, what + ', then append', s2, x); continue
                w2 = w if T_ else x
                for s3, y in cx.run(it, lambda: cx.fw.call(s2, w2, 'prepend', (W,))) or ():
                    if isinstance(y, Raise): rcheck(cx, rule, where, what + ', then prepend', s3, y); continue
                    observe(cx, rule, where, what + ', then append and prepend', s3, w2 if T_ else y, [(I(1), lambda j: W), (n, lambda j: at(j)), (I(1), lambda j: V)])
    conv = 'persistent' if c in TRANSIENT else 'transient'
    for m in (conv, 'copy', 'as_plist'):
        if cx.has(c, m) and rule != 'C19' and (rule != 'C28' or m[:3] == 'as_'): judge(f'.{m}()', lambda st, r: cx.fw.call(st, r, m), None)
    if rule == 'C28': return
    for d in SEQ:
        if c in LAZY and d not in LAZY and lz is not False: continue
        judge(f'{d}(...)', lambda st, r: it.instantiate(('cls', d), (r,), {}, st, NODE), d)


def converted(cx, c, rule):
    from .rules_chain import skipped
    if skipped(cx, rule): return
    for o in ((False, True) if c in TRANSIENT else (False,)):
        for lz in ((True, False) if c in LAZY else (None,)): yield lambda o=o, lz=lz: plain(cx, c, o, lz, rule)


def c19seq(cx, c): yield from converted(cx, c, 'C19')
def c28seq(cx, c): yield from converted(cx, c, 'C28')


def c03seq(cx, c):
    yield from converted(cx, c, 'C03')
    for e in spec_edits():
        for o in ((False, True) if c in TRANSIENT else (False,)):
            yield lambda e=e, o=o: seq_edit(cx, c, e, o, 'C03')


def c24seq(cx, c):
    for e in spec_edits():
        for o in ((False, True) if c in TRANSIENT else (False,)):
            yield lambda e=e, o=o: seq_edit(cx, c, e, o, 'C24')


def c15rep(cx, c):
    for lz in ((True, False) if c in LAZY else (None,)):
        yield lambda lz=lz: traverse(cx, c, 'iter', lz)
        yield lambda lz=lz: traverse(cx, c, 'reversed', lz)
