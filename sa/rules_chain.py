"""Sets and mappings at the level of their representation (full mode): one
element or key is looked up, added, replaced or removed in a collection of
unbounded size in which k = 0..3 stored elements have the hash of the argument
(so that it can be the only one, the first, a middle or the last of them) and
others have other hashes.  The result is observed through the public reading
operations for every element involved (C10, C11, C12), after conversion (C03),
and when the elements' own __hash__ / __eq__ raise (C24)."""
from .scen import *
from .rules_set import rcheck, same
from .rules_list import must, veq, user_exc, unforce

NODE = ast.parse('x').body[0].value
X, V, Y, Z = ('s', 'arg'), ('s', 'newval'), ('s', 'absent'), ('s', 'other_absent')
H, HO, HZ = ('s', 'h'), ('s', 'h2'), ('s', 'h3')
# elements added afterwards, and their hashes
L1, L2, HL1, HL2 = ('s', 'later1'), ('s', 'later2'), ('s', 'h4'), ('s', 'h5')
V1, V2 = ('s', 'laterval1'), ('s', 'laterval2')


def eqf(a, b): return ('eq',) + tuple(sorted((a, b), key=repr))
def isf(a, b): return ('is',) + tuple(sorted((a, b), key=repr))


class Scn:
    """A receiver whose chain of hash H is k elements long; the argument equals
    the m-th of them (None: none)."""
    def __init__(self, cx, c, k, m, orig=False, lz=None, name='c'):
        self.cx = cx; self.c = c; self.k = k; self.m = m; self.name = name
        it = cx.fi
        st = cx.fw.state()
        if lz is not None: st.x['$lazy'] = lz
        self.r = cx.fw.recv(st, c, name, orig=orig)
        kd = contkind(c)
        el = (lambda n: ('t', 'el', name, n)) if kd == 'set' else (lambda n: ('t', 'key', name, n))
        self.nodes = []
        n = ('t', 'head', name, H)
        for i in range(k): self.nodes.append(n); n = ('t', 'next', name, n)
        self.els = [el(x) for x in self.nodes]
        self.vals = [('t', 'val', name, x) for x in self.nodes]
        self.on = ('t', 'head', name, HO); self.o = el(self.on); self.ov = ('t', 'val', name, self.on)
        for h in (H, HO, HZ, HL1, HL2): st.types[h] = 'int'
        F = st.facts
        F[('has', name, H)] = k > 0; F[('has', name, HO)] = True; F[('has', name, HZ)] = False
        F[('has', name, HL1)] = F[('has', name, HL2)] = False
        for p, q in ((H, HO), (HO, HZ), (HZ, HL1), (HL1, HL2)): st.add(sub(sub(q, p), I(1)))
        N = ('s', name, 'n'); st.add(sub(N, I(k + 1)))
        ni = ('s', name, 'ni'); st.types[ni] = 'int'; st.add(sub(ni, I(1 + (k > 0)))); st.add(sub(sub(N, ni), I(max(k - 1, 0))))
        for i, x in enumerate(self.nodes):
            F[('null', x)] = False
            if i == k - 1: F[('null', ('t', 'next', name, x))] = True
        F[('null', self.on)] = False; F[('null', ('t', 'next', name, self.on))] = True
        hm = [(X, H), (Y, H), (Z, HZ), (L1, HL1), (L2, HL2), (self.o, HO)] + [(e, H) for e in self.els]
        st.x['$hash'] = tuple(hm)
        allv = [X, Y, Z, L1, L2, self.o] + self.els
        for i, a in enumerate(allv):
            for b in allv[i + 1:]:
                same_ = self.m is not None and {a, b} == {X, self.els[self.m]}
                F[eqf(a, b)] = same_
                if not same_: F[isf(a, b)] = False
        self.st = st; self.n = N

    def expect(self, edit):
        """{element: value or None} after the edit: 'none' | 'add' | 'remove'."""
        e = {}
        for i, x in enumerate(self.els): e[x] = self.vals[i]
        e[self.o] = self.ov; e[Y] = None; e[Z] = None
        e[X] = self.vals[self.m] if self.m is not None else None
        d = 0
        if edit == 'add':
            if self.m is None: d = 1
            e[X] = V
            if self.m is not None: e[self.els[self.m]] = V
        elif edit == 'remove':
            if self.m is not None: d = -1; e[self.els[self.m]] = None
            e[X] = None
        elif edit == 'default':
            if self.m is None: d = 1; e[X] = V
        return e, add(self.n, I(d))

    def tag(self):
        rel = 'absent' if self.m is None else f'equal to number {self.m + 1} of them'
        return f'{self.k} stored with its hash, the argument {rel}'


def observe(sc, rule, where, what, s0, ref, exp, n, cls=None, vals=True, deliver=True):
    cx = sc.cx; it = cx.fi
    if ref[0] != 'r' or ref[1] not in s0.heap:
        must(cx, rule, where, what, s0, False, f'the result is {show(ref)}, not a collection'); return
    if cls is not None: must(cx, 'C04', where, what, s0, s0.cls(ref) == cls, f'the result is a {s0.cls(ref)} where a {cls} is expected')
    if s0.cls(ref) not in ALL: return
    if broken(s0, ref): must(cx, rule, where, what, s0, False, broken(s0, ref)); return
    def q(meth, args): return cx.run(it, lambda: cx.fw.call(s0.fork(), ref, meth, args)) or ()
    for s, v in q('__len__', ()):
        if isinstance(v, Raise): rcheck(cx, rule, where, what + ': len()', s, v)
        else: must(cx, rule, where, what, s, EQ0(sub(v, n)), f'the length becomes {show(v)}, not {show(n)}')
    for e, val in exp.items():
        nm = {X: 'the argument', Y: 'an absent element with the same hash', Z: 'an absent element', L1: 'the first added later', L2: 'the second added later', sc.o: 'an element with another hash'}.get(e) or f'stored element {sc.els.index(e) + 1} with that hash'
        for s, v in q('__contains__', (e,)):
            if isinstance(v, Raise): rcheck(cx, rule, where, f'{what}: looking up {nm}', s, v); continue
            for s2, b in it.split(s, v):
                if isinstance(b, Raise): rcheck(cx, rule, where, what, s2, b); continue
                must(cx, rule, where, what, s2, b == (val is not None), f'{nm} is {"found" if b else "not found"} afterwards')
        if sc.c in SETLIKE or not vals: continue
        for s, v in q('__getitem__', (e,)):
            if isinstance(v, Raise):
                if v.exc[1] == 'KeyError':
                    must(cx, rule, where, what, s, val is None, f'{nm} is missing afterwards')
                elif not user_exc(v): rcheck(cx, rule, where, f'{what}: reading {nm}', s, v)
                continue
            if val is None: must(cx, rule, where, what, s, False, f'{nm} is still bound afterwards'); continue
            must(cx, rule, where, what, s, veq(s, v, val), f'{nm} is bound to {show(v)}, not {show(val)}')


def skipped(cx, rule):
    """These scenarios only count for their own property."""
    return getattr(cx, 'prop', None) not in (None, rule)


def later(sc, rule, where, what, s0, ref, exp, n):
    """The elements stay where they are when others are added afterwards."""
    cx = sc.cx; it = cx.fi
    if skipped(cx, rule): return
    if ref[0] != 'r' or ref[1] not in s0.heap or s0.cls(ref) not in SETLIKE + MAPS or broken(s0, ref): return
    c = s0.cls(ref); mp = c in MAPS; P = c in PERSISTENT
    meth = 'add' if not mp else 'set' if P else '__setitem__'
    for new in (((L1, V1), (L2, V2)), ((Y, V1),)):
        outs = [(s0.fork(), ref)]
        for e, v in new:
            nxt = []
            for s, r in outs:
                for s2, w in cx.run(it, lambda: cx.fw.call(s, r, meth, (e, v) if mp else (e,))) or ():
                    if isinstance(w, Raise): rcheck(cx, rule, where, f'{what}, then adding another', s2, w)
                    else: nxt.append((s2, w if P else r))
            outs = nxt
        e2 = {e: v for e, v in exp.items()}
        for e, v in new: e2[e] = v
        for s, r in outs:
            observe(sc, rule, where, f'{what}, then adding {"others" if len(new) > 1 else "another with the same hash"}', s, r, e2, add(n, I(len(new))))


def cases(c):
    for k in range(6 if DEEP else 4):
        for m in [None] + list(range(k)): yield k, m


def edits(c):
    """(method, args, kind of edit, on missing, result form)"""
    P = c in PERSISTENT
    if c in SETLIKE:
        return [('add', (X,), 'add', None, 'self'), ('discard', (X,), 'remove', None, 'self'), ('remove', (X,), 'remove', 'KeyError', 'self')]
    r = []
    D = ('s', 'dflt')
    if P: r += [('set', (X, V), 'add', None, 'self'), ('drop', (X,), 'remove', None, 'self'), ('delete', (X,), 'remove', 'KeyError', 'self')]
    else: r += [('__setitem__', (X, V), 'add', None, 'self'), ('__delitem__', (X,), 'remove', 'KeyError', 'self')]
    r += [('pop', (X,), 'remove', 'KeyError', 'pop'), ('pop', (X, D), 'remove', None, 'popd'),
          ('setdefault', (X, V), 'default', None, 'sd')]
    return r


def edit(cx, c, e, k, m, mode, orig=False, lz=None):
    meth, args, kind, missing, form = e
    if not cx.has(c, meth): return
    it = cx.fi
    it.unroll = 6
    try:
        sc = Scn(cx, c, k, m, orig, lz)
        where = cx.where(c, meth)
        what = f'{c}.{meth} ({sc.tag()})'
        coll = k - (m is not None)
        rule = 'C10'
        if mode == 'C24': it.user_raises = True
        outs = cx.run(it, lambda: cx.fw.call(sc.st.fork(), sc.r, meth, args))
        it.user_raises = False
        for s, v in outs or ():
            if isinstance(v, Raise):
                if user_exc(v):
                    if mode == 'C24' and v.exc[2] == 'user' and lz is not True: same_as_before(sc, 'C24', where, what + ', an element raises', s)
                    continue
                if missing and v.exc[1] == missing and m is None:
                    cx.f.good()
                    if mode == 'C24': same_as_before(sc, 'C24', where, what + ', the key is missing', s)
                    continue
                if mode in ('C10', 'C12'): rcheck(cx, mode if mode != 'C12' or c not in SETLIKE else 'C11', where, what, s, v)
                continue
            if missing and m is None:
                if mode in ('C10', 'C12'): must(cx, 'C12' if c in MAPS else 'C11', where, what, s, False, f'no {missing} although the key is missing')
                continue
            res = v; val = None
            if c in PERSISTENT and form in ('pop', 'popd'):
                if v[0] != 'tup' or len(v[1]) != 2:
                    must(cx, 'C12', where, what, s, False, f'the result is {show(v)}, not a pair'); continue
                val, res = v[1]
            elif c in TRANSIENT: val, res = v, sc.r
            exp, n = sc.expect(kind)
            if mode in ('C10', 'C12'):
                ru = 'C10' if mode == 'C10' else ('C12' if c in MAPS else 'C11')
                if form in ('pop', 'popd', 'sd') and val is not None:
                    want = sc.vals[m] if m is not None else (args[1] if len(args) > 1 else NONE)
                    if form != 'sd' or c in TRANSIENT:
                        must(cx, ru, where, what, s, veq(s, val, want), f'the value returned is {show(val)}, not {show(want)}')
                if mode == 'C12' and coll: continue
                observe(sc, ru, where, what, s, res, exp, n, cls=c)
                later(sc, ru, where, what, s, res, exp, n)
                if c in PERSISTENT: same_as_before(sc, 'C01', where, what + ' (original)', s)
            elif mode == 'C03':
                convert(sc, where, what, s, res, exp, n)
    finally:
        it.unroll = 1; it.user_raises = False


def same_as_before(sc, rule, where, what, s):
    exp, n = sc.expect('none')
    observe(sc, rule, where, what, s, sc.r, exp, n, cls=sc.c)


def convert(sc, where, what, s, res, exp, n):
    cx = sc.cx; it = cx.fi; c = sc.c; P = PARTNER[c]
    conv = 'persistent' if c in TRANSIENT else 'transient'
    def judge(how, call, cls):
        for s2, w in cx.run(it, call) or ():
            if isinstance(w, Raise): rcheck(cx, 'C03', where, f'{what}, then {how}', s2, w); continue
            observe(sc, 'C03', where, f'{what}, then {how}', s2, w, exp, n, cls=cls)
            later(sc, 'C03', where, f'{what}, then {how}', s2, w, exp, n)
    judge(f'{conv}()', lambda: cx.fw.call(s.fork(), res, conv), P)
    judge(f'{P}(...)', lambda: it.instantiate(('cls', P), (res,), {}, s.fork(), NODE), P)
    if c in TRANSIENT: judge('copy()', lambda: cx.fw.call(s.fork(), res, 'copy'), c)


def plain(cx, c, k, m, orig, lz, rule):
    """Conversions of a collection that was not edited."""
    it = cx.fi; it.unroll = 6
    try:
        def judge(how, op, cls):
            sc = Scn(cx, c, k, m, orig, lz)
            exp, n = sc.expect('none')
            where = cx.where(c, how[1:-2]) if how[0] == '.' else cx.where(cls, '__new__')
            what = f'{c}{how} ({sc.tag()})' if how[0] == '.' else f'{how} of a {c} ({sc.tag()})'
            for s, w in cx.run(it, lambda: op(sc)) or ():
                if isinstance(w, Raise):
                    if not user_exc(w): rcheck(cx, rule, where, what, s, w)
                    continue
                later(sc, rule, where, what, s, w, exp, n)
                if w[0] != 'r' or w[1] not in s.heap or s.cls(w) not in TRANSIENT: continue
                for s2, p in cx.run(it, lambda: cx.fw.call(s.fork(), w, 'persistent')) or ():
                    if isinstance(p, Raise): rcheck(cx, rule, where, what + ', then persistent()', s2, p); continue
                    observe(sc, rule, where, what + ', then persistent()', s2, p, exp, n)
                    if p[0] == 'r' and p[1] in s2.heap and s2.cls(p) in ALL:
                        must(cx, rule, where, what + ', then persistent()', s2, s2.cls(p) == PARTNER[s.cls(w)], f'gives a {s2.cls(p)}, not a {PARTNER[s.cls(w)]}')
        conv = 'persistent' if c in TRANSIENT else 'transient'
        for m_ in (conv, 'copy', 'as_pdict', 'as_tdict'):
            if cx.has(c, m_) and rule != 'C19' and (rule != 'C28' or m_[:3] == 'as_'): judge(f'.{m_}()', lambda sc: cx.fw.call(sc.st.fork(), sc.r, m_), None)
        if rule == 'C28': return
        for d in (SETLIKE if c in SETLIKE else MAPS):
            if c in LAZY and d not in LAZY and lz is not False: continue
            judge(f'{d}(...)', lambda sc: it.instantiate(('cls', d), (sc.r,), {}, sc.st.fork(), NODE), d)
    finally: it.unroll = 1


def reads(cx, c, k, m, lz=None):
    """Finding: membership, item access, get, getlazy."""
    it = cx.fi; it.unroll = 6
    D = ('s', 'dflt')
    try:
        sc = Scn(cx, c, k, m, False, lz)
        exp, n = sc.expect('none')
        what = f'{c} lookup ({sc.tag()})'
        where = cx.where(c, '__contains__' if c in SETLIKE else '__getitem__')
        observe(sc, 'C10', where, what, sc.st, sc.r, exp, n)
        if c not in MAPS: return
        val = exp[X]
        for meth in ('get', 'getlazy', 'is_lazy', 'is_ready'):
            if not cx.has(c, meth): continue
            where = cx.where(c, meth); what = f'{c}.{meth} ({sc.tag()})'
            for args, dflt in (((X,), NONE), ((X, D), D)):
                if len(args) > 1 and meth.startswith('is_'): continue
                for s, v in cx.run(it, lambda: cx.fw.call(sc.st.fork(), sc.r, meth, args)) or ():
                    if isinstance(v, Raise):
                        if user_exc(v) or meth.startswith('is_') and m is None and v.exc[1] == 'KeyError': continue
                        rcheck(cx, 'C12', where, what, s, v); continue
                    if meth.startswith('is_'):
                        must(cx, 'C12', where, what, s, m is not None, 'no KeyError although the key is missing'); continue
                    want = val if m is not None else dflt
                    must(cx, 'C12', where, what, s, veq(s, v, want), f'gives {show(v)}, not {show(want)}')
    finally: it.unroll = 1


def lzs(c): return (True, False) if c in LAZY else (None,)


def clears(cx, c, rule):
    """clear() leaves an empty collection that can be filled again."""
    if skipped(cx, rule) or not cx.has(c, 'clear'): return
    def one(k, orig, lz):
        it = cx.fi; it.unroll = 6
        try:
            sc = Scn(cx, c, k, 0, orig, lz)
            where = cx.where(c, 'clear'); what = f'{c}.clear() ({sc.tag()})'
            for s, v in cx.run(it, lambda: cx.fw.call(sc.st.fork(), sc.r, 'clear', ())) or ():
                if isinstance(v, Raise): rcheck(cx, rule, where, what, s, v); continue
                exp = {e: None for e in sc.els + [sc.o, X, Y, Z]}
                res = v if c in PERSISTENT else sc.r
                observe(sc, rule, where, what, s, res, exp, I(0), cls=c)
                later(sc, rule, where, what, s, res, exp, I(0))
                if c in TRANSIENT:
                    for s2, w in cx.run(it, lambda: cx.fw.call(s.fork(), res, 'persistent', ())) or ():
                        if isinstance(w, Raise): rcheck(cx, rule, where, what + ', then persistent()', s2, w)
                        else: later(sc, rule, where, what + ', then persistent()', s2, w, exp, I(0))
        finally: it.unroll = 1
    for k in (1, 2):
        for o in ((False, True) if c in TRANSIENT else (False,)):
            for lz in lzs(c): yield lambda k=k, o=o, lz=lz: one(k, o, lz)


def converted(cx, c, rule):
    yield from clears(cx, c, rule)
    if skipped(cx, rule): return
    for k, m in ((0, None), (1, 0), (2, 1)):
        for o in ((False, True) if c in TRANSIENT else (False,)):
            for lz in lzs(c): yield lambda k=k, m=m, o=o, lz=lz: plain(cx, c, k, m, o, lz, rule)


def c19chain(cx, c): yield from converted(cx, c, 'C19')
def c28chain(cx, c): yield from converted(cx, c, 'C28')


def c10(cx, c):
    yield from converted(cx, c, 'C10')
    for k, m in cases(c):
        for lz in lzs(c): yield lambda k=k, m=m, lz=lz: reads(cx, c, k, m, lz)
    for e in edits(c):
        for k, m in cases(c):
            for lz in lzs(c): yield lambda e=e, k=k, m=m, lz=lz: edit(cx, c, e, k, m, 'C10', False, lz)


def c12one(cx, c):
    """Single edits without collisions, judged under C11 / C12."""
    yield from converted(cx, c, 'C12' if c in MAPS else 'C11')
    for k, m in cases(c):
        for lz in lzs(c):
            yield lambda k=k, m=m, lz=lz: reads(cx, c, k, m, lz)
    for e in edits(c):
        for k, m in ((0, None), (1, 0), (1, None), (2, 1)):
            for lz in lzs(c): yield lambda e=e, k=k, m=m, lz=lz: edit(cx, c, e, k, m, 'C12', False, lz)


def c03chain(cx, c):
    yield from converted(cx, c, 'C03')
    for e in edits(c):
        for k, m in ((0, None), (1, 0), (1, None), (2, 0), (2, 1)):
            for o in ((False, True) if c in TRANSIENT else (False,)):
                yield lambda e=e, k=k, m=m, o=o: edit(cx, c, e, k, m, 'C03', o, False if c in LAZY else None)


def c24chain(cx, c):
    for e in edits(c):
        for k, m in cases(c):
            for o in ((False, True) if c in TRANSIENT else (False,)):
                yield lambda e=e, k=k, m=m, o=o: edit(cx, c, e, k, m, 'C24', o, False if c in LAZY else None)
