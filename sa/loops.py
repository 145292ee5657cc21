"""Iteration sources, loop fixpoints and generalisation (widening by least
general generalisation of abstract states)."""
import ast
from .terms import *
from .core import *


def sure(st):
    """Is this point certainly reached?  (no approximation so far)"""
    return not (st.imp or st.lost or any(contains(e, lambda x: x[0] == 'phi' or x[0] == 'u') for e in st.cons))


class Phase:
    """n elements (an affine count, or None if unknown); at(st, k) gives the
    outcomes for element k (an affine index)."""
    __slots__ = ('n', 'at', 'kind', 'live')
    def __init__(self, n, at, kind='', live=None):
        self.n = n; self.at = at; self.kind = kind; self.live = live


MAXROUNDS = 9


def lazy_body(body):
    last = body[-1]
    if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for b in body[:-1] for x in ast.walk(b)): return False
    if isinstance(last, ast.Expr) and isinstance(last.value, ast.YieldFrom): return True
    if not isinstance(last, ast.For) or last.orelse: return False
    ys = [x for b in last.body for x in ast.walk(b) if isinstance(x, (ast.Yield, ast.YieldFrom))]
    tops = [b.value for b in last.body if isinstance(b, ast.Expr) and isinstance(b.value, ast.Yield)]
    return len(ys) == 1 and ys == tops and not any(isinstance(x, (ast.Break, ast.Continue, ast.Return)) for b in last.body for x in ast.walk(b))


class Loops:
    def __init__(self, interp):
        self.i = interp
        self.p = interp.p
        self.isnode = {}       # phi -> stands for a collision-chain node
        self.prov = {}         # phi -> set of values it was generalised from

    # --------------------------------------------------------------- iterators
    def get_iter(self, st, v, node):
        """iter(v): outcomes with a source value."""
        I_ = self.i
        if v[0] == 'S': return [(st, v)]
        if v[0] == 'tup': return [(st, ('S', 'ls', tuple(('it', x) for x in v[1])))]
        if v[0] == 'ph': return [(st, ('S', 'trie', v[1]))]
        if v[0] == 'k' and v[1] == 'str': return [(st, ('S', 'ls', tuple(('it', ('k', 'str', c)) for c in v[2])))]
        if v[0] in ('k', 'i', 'cls', 'fn', 'bm', 'bi'):
            return [(st, I_.crash(st, 'TypeError', node, f'{show(v)} is not iterable'))]
        if v[0] == 'r':
            c = st.cls(v)
            if c == 'iter': return [(st, ('S', 'it', v))]
            if c == 'gen': return [(st, ('S', 'gen', v))]
            if c == 'list': return [(st, ('S', 'lsref', v))]
            if c == 'THAMT': return [(st, ('S', 'ttrie', v, st.get(v, 'c'), st.get(v, 'ver')))]
            if c in ('set', 'frozenset', 'oset', 'dict', 'aview') and I_.prims:
                r = I_.prims(st, v, '__iter__', (), {}, node)
                if r is not None: return I_.bind(r, lambda s, w: self.get_iter(s, w, node))
            if c in self.p.classes:
                if I_.prims:
                    r = I_.prims(st, v, '__iter__', (), {}, node)
                    if r is not None: return I_.bind(r, lambda s, w: self.get_iter(s, w, node))
                o, f = self.p.lookup(c, '__iter__')
                if o is None or f == NONE:
                    g, gf = self.p.lookup(c, '__getitem__')
                    if g is not None: return [(st, st.unknown('iteration through __getitem__'))]
                    return [(st, I_.crash(st, 'TypeError', node, f"'{c}' object is not iterable"))]
                return I_.bind(I_.call(('bm', f, v), (), {}, st, node), lambda s, w: self.get_iter(s, w, node))
            return [(st, I_.crash(st, 'TypeError', node, f"'{c}' object is not iterable"))]
        if I_.prims:
            r = I_.prims(st, v, '__iter__', (), {}, node)
            if r is not None: return I_.bind(r, lambda s, w: self.get_iter(s, w, node))
        t = I_.ptype(st, v)
        if v[0] == 't' and v[1] == 'bset': return [(st, ('S', 'ls', v[3]))]
        if v[0] == 't' and v[1] == 'bdict': return [(st, ('S', 'dkeys', v[2]))]
        if v[0] == 't' and v[1] == 'tuple': return [(st, ('S', 'ls', v[2]))]
        if t in ('int', 'slice', 'bool', 'callable', 'NoneType', 'float'):
            return [(st, I_.crash(st, 'TypeError', node, f'{t} is not iterable'))]
        if t in ('other', 'elem'):
            return [(st, I_.exc(st, 'TypeError', 'raise', node, 'argument is not iterable'))]
        return [(st, ('S', 'opq', v))]

    def phases(self, st, src, node):
        """-> [(st, [Phase] | Raise)]"""
        I_ = self.i; m = I_.m
        k = src[1]
        if k == 'it':
            ref = src[2]
            inner = st.get(ref, 'src'); pos = st.get(ref, 'pos', I(0))
            outs = self.phases(st, inner, node)
            if cint(pos) == 0: return outs
            r = []
            for s, ph in outs:
                if isinstance(ph, Raise): r.append((s, ph)); continue
                r.append((s, self.drop(ph, pos, s)))
            return r
        if k == 'range':
            lo, hi, step = src[2:]
            c = cint(step)
            at = lambda s, j: [(s, add(lo, j if c == 1 else scale(j, c) if c is not None else ('t', 'mulop', j, step)))]
            if c == 1: return [(st, [Phase(sub(hi, lo), at, 'range')])]
            if c == -1: return [(st, [Phase(sub(lo, hi), at, 'range')])]
            if c is not None and c != 0:
                n = ('t', 'rangelen', lo, hi, I(c))
                # n = ceil((hi-lo)/c)
                d = sub(hi, lo) if c > 0 else sub(lo, hi)
                r = []
                b = st.fork()
                if st.add(add(d, I(-1))):
                    a = abs(c)
                    st.add(sub(scale(n, a), d)); st.add(sub(add(d, I(a - 1)), scale(n, a)))
                    r.append((st, [Phase(n, at, 'range')]))
                if b.add(scale(d, -1)): r.append((b, []))
                return r
            n = ('t', 'rangelen', lo, hi, step)
            st.add(n)
            return [(st, [Phase(n, at, 'range')])]
        if k == 'slicerange':       # range(*slice.indices(n))
            sl, n0 = src[2], src[3]
            n = ('t', 'slen', sl, n0)
            st.add(n)
            def at(s, j):
                v = ('t', 'sidx', sl, n0, j)
                # slice.indices() only yields positions inside the sequence
                s.add(v); s.add(add(sub(n0, v), I(-1)))
                return [(s, v)]
            return [(st, [Phase(n, at, 'slice')])]
        if k == 'opq':
            v = src[2]
            n = m.len_of(st, v)
            if v[0] == 't' and v[1] == 'ditems':
                def at(s, j):
                    it = ('t', 'item', v, j)
                    s.event('UNEXT', v)
                    return I_.may_raise([(s, ('tup', (m.unpk(it, 0, 2), m.unpk(it, 1, 2))))], node)
                return [(st, [Phase(n, at, 'opq')])]
            def at(s, j):
                r = [(s, ('t', 'item', v, j))]
                s.event('UNEXT', v)
                return I_.may_raise(r, node)
            return [(st, [Phase(n, at, 'opq')])]
        if k == 'dkeys':
            return [(st, self.ls_phases(src[2], lambda s, x: [(s, x[1][0])] if x[0] == 'tup' else [(s, m.unpk(x, 0, 2))]))]
        if k == 'ls':
            return [(st, self.ls_phases(src[2]))]
        if k == 'lsref':
            return [(st, self.ls_phases(st.get(src[2], 'ls')))]
        if k == 'gen':
            ref = src[2]
            done = st.get(ref, 'ls')
            if done is not None: return [(st, self.ls_phases(done))]
            F = self.p.fns[st.get(ref, 'fid')]
            env = st.get(ref, 'env')
            if lazy_body(F.node.body):
                pos = st.get(ref, 'pos', I(0))
                return [(s, x if isinstance(x, Raise) else self.drop(x, pos, s)) for s, x in self.lazy_gen(st, ref, F, env, node)]
            if st.get(ref, 'used') or cint(st.get(ref, 'pos', I(0))) != 0: st.imprecise('generator used in part')
            out = st.new('list', {'ls': ()}, None)
            st.put(env, '$yield', out)
            saved = st.stack
            st.stack = saved + ((st.get(ref, 'fid'), ('gen', ref), 0),)
            r = []
            for s, fl in I_.block(F.node.body, st, env):
                s.stack = saved
                if isinstance(fl, Raise):
                    if fl.exc[1] == 'StopIteration': fl = None
                    else:
                        r.append((s, fl)); continue
                ls = s.get(out, 'ls')
                s.put(ref, 'ls', ls)
                ph = self.ls_phases(ls)
                for p in ph: p.kind = 'eager:' + p.kind
                r.append((s, ph))
            return r
        if k == 'gexp':
            n = self.i.nodes[src[2][0]]
            env, it = src[3], src[4]
            if len(n.generators) == 1 and not n.generators[0].ifs:
                g = n.generators[0]
                r = []
                for s, ph in self.phases(st, it, node):
                    if isinstance(ph, Raise): r.append((s, ph)); continue
                    def wrap(p):
                        def at(s2, j):
                            def f(s3, v):
                                e = I_.subenv(s3, env, **{'$compr': True})
                                res = []
                                for s4, fl in I_.assign(g.target, v, s3, e):
                                    if fl is not None: res.append((s4, fl)); continue
                                    res.extend(I_.ev(n.elt, s4, e))
                                return res
                            return I_.bind(p.at(s2, j), f)
                        return Phase(p.n, at, 'gexp:' + p.kind, p.live)
                    r.append((s, [wrap(p) for p in ph]))
                return r
            r = []
            for s, ls in self.run_compr(st, env, n, 'elt', first=it):
                r.append((s, ls if isinstance(ls, Raise) else self.ls_phases(ls)))
            return r
        if k == 'map':
            f, srcs = src[2], src[3]
            inner = srcs[0] if len(srcs) == 1 else ('S', 'zip', srcs)
            r = []
            for s, ph in self.phases(st, inner, node):
                if isinstance(ph, Raise): r.append((s, ph)); continue
                def wrap(p):
                    def at(s2, j):
                        return I_.bind(p.at(s2, j), lambda s3, v: I_.call(f, v[1] if len(srcs) > 1 else (v,), {}, s3, node))
                    return Phase(p.n, at, 'map:' + p.kind, p.live)
                r.append((s, [wrap(p) for p in ph]))
            return r
        if k == 'filter':
            f, inner = src[2], src[3]
            r = []
            for s, ls in self.loop_collect(st, inner, node, lambda s2, v: self._filt(s2, f, v, node)):
                r.append((s, ls if isinstance(ls, Raise) else self.ls_phases(ls)))
            return r
        if k == 'flat':
            r = []
            for s, ls in self.loop_collect(st, src[2], node, lambda s2, v: self.collect(s2, v, node)):
                r.append((s, ls if isinstance(ls, Raise) else self.ls_phases(ls)))
            return r
        if k == 'enum':
            inner, start = src[2], src[3]
            r = []
            for s, ph in self.phases(st, inner, node):
                if isinstance(ph, Raise): r.append((s, ph)); continue
                out = []; off = start
                for p in ph:
                    def wrap(p, off):
                        def at(s2, j):
                            return I_.bind(p.at(s2, j), lambda s3, v: [(s3, ('tup', (add(off, j) if off is not None else s3.unknown('enumerate offset'), v)))])
                        return Phase(p.n, at, 'enum:' + p.kind, p.live)
                    out.append(wrap(p, off))
                    off = add(off, p.n) if p.n is not None and off is not None else None
                r.append((s, out))
            return r
        if k == 'zip':
            outs = [(st, ())]
            for x in src[2]:
                nxt = []
                for s, acc in outs:
                    if isinstance(acc, Raise): nxt.append((s, acc)); continue
                    for s2, ph in self.phases(s, x, node):
                        nxt.append((s2, ph if isinstance(ph, Raise) else acc + (ph,)))
                outs = nxt
            r = []
            for s, phs in outs:
                if isinstance(phs, Raise): r.append((s, phs)); continue
                r.extend(self.zip_phases(s, phs, node))
            return r
        if k == 'chain':
            outs = [(st, [])]
            for x in src[2]:
                nxt = []
                for s, acc in outs:
                    if isinstance(acc, Raise): nxt.append((s, acc)); continue
                    for s2, ph in self.phases(s, x, node):
                        nxt.append((s2, ph if isinstance(ph, Raise) else acc + ph))
                outs = nxt
            return outs
        if k == 'islice':
            inner, lo, hi, step = src[2:6]
            r = []
            for s, ph in self.phases(st, inner, node):
                if isinstance(ph, Raise): r.append((s, ph)); continue
                if cint(step) != 1: s.imprecise('islice step'); r.append((s, ph)); continue
                for s2, ph2 in (self.take(s, ph, hi) if hi != NONE else [(s, ph)]):
                    r.append((s2, self.drop(ph2, lo, s2)))
            return r
        if k == 'rev':
            r = []
            for s, ph in self.phases(st, src[2], node):
                if isinstance(ph, Raise): r.append((s, ph)); continue
                def wrap(p):
                    n = p.n
                    def at(s2, j):
                        return p.at(s2, sub(add(n, I(-1)), j))
                    return Phase(n, at, 'rev:' + p.kind, p.live)
                if any(p.n is None for p in ph): s.imprecise('reversed of unknown length'); r.append((s, ph)); continue
                r.append((s, [wrap(p) for p in reversed(ph)]))
            return r
        if k == 'trie':
            return m.trie_phases(st, src[2], node)
        if k == 'ttrie':
            ref, c, ver = src[2:5]
            r = []
            for s, ph in m.trie_phases(st, c, node):
                if isinstance(ph, Raise): r.append((s, ph)); continue
                def wrap(p):
                    def at(s2, j):
                        return p.at(s2, j)
                    return Phase(p.n, at, p.kind, (ref, ver))
                r.append((s, [wrap(p) for p in ph]))
            return r
        if k == 'custom':      # supplied by a rule: src[2] indexes a callback
            return self.i.custom[src[2]](st, src, node)
        st.imprecise('source ' + str(k))
        return [(st, [Phase(None, lambda s, j: [(s, s.unknown('item'))])])]

    # ------------------------------------------------------------ collecting
    def lazy_gen(self, st, ref, F, env, node):
        """A generator whose body ends in a loop that yields once a step."""
        I_ = self.i
        saved = st.stack
        frame = ((st.get(ref, 'fid'), ('gen', ref), 0),)
        st.stack = saved + frame
        last = F.node.body[-1]
        it = last.iter if isinstance(last, ast.For) else last.value.value
        r = []
        def step(s2, v):
            if not isinstance(last, ast.For): return [(s2, v)]
            keep = s2.stack; s2.stack = keep + frame
            out = s2.new('list', {'ls': ()}, None)
            s2.put(env, '$yield', out)
            res = []
            for s3, fl in I_.assign(last.target, v, s2, env):
                if fl is not None: s3.stack = keep; res.append((s3, fl)); continue
                for s4, fl in I_.block(last.body, s3, env):
                    s4.stack = keep
                    ls = s4.get(out, 'ls')
                    if isinstance(fl, Raise): res.append((s4, fl))
                    elif fl is None and len(ls) == 1 and ls[0][0] == 'it': res.append((s4, ls[0][1]))
                    else: res.append((s4, s4.unknown('generator step')))
            return res
        for s, fl in I_.block(F.node.body[:-1], st, env):
            if fl is not None:
                s.stack = saved
                r.append((s, fl if isinstance(fl, Raise) else [])); continue
            for s1, v in I_.bind(I_.ev(it, s, env), lambda s1, v: self.get_iter(s1, v, node)):
                s1.stack = saved
                if isinstance(v, Raise): r.append((s1, v)); continue
                for s2, ph in self.phases(s1, v, node):
                    if isinstance(ph, Raise): r.append((s2, ph)); continue
                    def wrap(p): return Phase(p.n, lambda s3, j: I_.bind(p.at(s3, j), step), 'gen:' + p.kind, p.live)
                    r.append((s2, [wrap(p) for p in ph]))
        return r

    def any_eq(self, st, x, y, node):
        """x in y, by iterating y."""
        I_ = self.i
        def g(s, src):
            def body(s2, v):
                r = []
                for s3, w in I_.cmp_is(s2, x, v, node):
                    for s4, b in I_.split(s3, w, node):
                        if b is True: r.append((s4, ('ret', TRUE))); continue
                        if isinstance(b, Raise): r.append((s4, b)); continue
                        for s5, w2 in I_.cmp_eq(s4, v, x, node):
                            if isinstance(w2, Raise): r.append((s5, w2)); continue
                            for s6, b2 in I_.split(s5, w2, node):
                                r.append((s6, b2 if isinstance(b2, Raise) else ('ret', TRUE) if b2 else None))
                return r
            return [(s2, fl if isinstance(fl, Raise) else fl[1] if fl else FALSE) for s2, fl in self.run_src(s, src, body, node)]
        return I_.bind(self.get_iter(st, y, node), g)

    def collect(self, st, v, node):
        """The items of an iterable, as list pieces."""
        I_ = self.i
        if v[0] == 'tup': return [(st, tuple(('it', x) for x in v[1]))]
        if v[0] == 'r' and st.cls(v) == 'list': return [(st, st.get(v, 'ls'))]
        if v[0] == 't' and v[1] == 'tuple': return [(st, v[2])]
        return I_.bind(self.get_iter(st, v, node),
                       lambda s, src: self.loop_collect(s, src, node, lambda s2, x: [(s2, (('it', x),))]))

    def loop_collect(self, st, src, node, f):
        """Run f over a source and concatenate the list pieces it returns."""
        I_ = self.i
        tmp = st.new('list', {'ls': ()}, None)
        def body(s, v):
            r = []
            for s2, more in f(s, v):
                if isinstance(more, Raise): r.append((s2, more)); continue
                if more: s2.put(tmp, 'ls', s2.get(tmp, 'ls') + more)
                r.append((s2, None))
            return r
        out = []
        for s, fl in self.run_src(st, src, body, node):
            if isinstance(fl, Raise): out.append((s, fl)); continue
            ls = s.get(tmp, 'ls')
            s.heap.pop(tmp[1], None)
            out.append((s, ls))
        return out

    def run_compr(self, st, env, n, what, first=None):
        I_ = self.i
        e = I_.subenv(st, env, **{'$compr': True})
        tmp = st.new('list', {'ls': ()}, None)
        def emit(s):
            if what == 'elt': outs = I_.ev(n.elt, s, e)
            else: outs = [(s2, v if isinstance(v, Raise) else ('tup', v)) for s2, v in I_.evals([n.key, n.value], s, e)]
            r = []
            for s2, v in outs:
                if isinstance(v, Raise): r.append((s2, v)); continue
                s2.put(tmp, 'ls', s2.get(tmp, 'ls') + (('it', v),))
                r.append((s2, None))
            return r
        out = []
        for s, fl in self.compr_loops(st, env, e, n, emit, first):
            if isinstance(fl, Raise): out.append((s, fl)); continue
            out.append((s, s.get(tmp, 'ls')))
        return out

    def compr_loops(self, st, env, e, n, emit, first=None):
        I_ = self.i
        def gen(s, i):
            if i == len(n.generators): return emit(s)
            g = n.generators[i]
            def body(s1, v):
                r = []
                for s2, fl in I_.assign(g.target, v, s1, e):
                    if fl is not None: r.append((s2, fl)); continue
                    outs = [(s2, True)]
                    for c in g.ifs:
                        nxt = []
                        for s3, ok in outs:
                            if ok is not True: nxt.append((s3, ok)); continue
                            for s4, w in I_.ev(c, s3, e):
                                if isinstance(w, Raise): nxt.append((s4, w)); continue
                                nxt.extend(I_.split(s4, w, c))
                        outs = nxt
                    for s3, ok in outs:
                        if isinstance(ok, Raise): r.append((s3, ok))
                        elif ok: r.extend(gen(s3, i + 1))
                        else: r.append((s3, None))
                return r
            def run(s1, src): return self.run_src(s1, src, body, n)
            if i == 0 and first is not None: return run(s, first)
            r = []
            for s1, v in I_.ev(g.iter, s, e if i else env):
                if isinstance(v, Raise): r.append((s1, v)); continue
                for s2, src in self.get_iter(s1, v, n):
                    if isinstance(src, Raise): r.append((s2, src)); continue
                    r.extend(run(s2, src))
            return r
        return gen(st, 0)

    def _filt(self, st, f, v, node):
        if f == NONE: outs = [(st, v)]
        else: outs = self.i.call(f, (v,), {}, st, node)
        r = []
        for s, w in outs:
            if isinstance(w, Raise): r.append((s, w)); continue
            for s2, b in self.i.split(s, w, node):
                r.append((s2, b if isinstance(b, Raise) else ((('it', v),) if b else ())))
        return r

    def take(self, st, phs, n):
        """The first n elements of a phase list."""
        outs = [(st, [], n)]
        r = []
        for idx, p in enumerate(phs):
            nxt = []
            for s, acc, left in outs:
                if p.n is None: s.imprecise('islice of unknown length'); r.append((s, acc + [p])); continue
                d = sub(left, p.n)            # left >= p.n ?
                for s2, b in self.i.split_ge0(s, d):
                    if b:
                        rest = sub(left, p.n)
                        nxt.append((s2, acc + [p], rest))
                    else: r.append((s2, acc + [Phase(left, p.at, p.kind, p.live)]))
            outs = nxt
        for s, acc, left in outs: r.append((s, acc))
        return r

    def drop(self, phs, n, st):
        """Skip n elements (only handled inside the first phase)."""
        if cint(n) == 0 or not phs: return phs
        p = phs[0]
        if p.n is None:
            st.imprecise('skip in unknown length'); return phs
        if not st.entails(sub(p.n, n)):
            c = cint(p.n)
            if c is not None and cint(n) is not None and c < cint(n):
                return self.drop(phs[1:], I(cint(n) - c), st)
            st.add(sub(p.n, n))
            st.imprecise('skip across phases')
        return [Phase(sub(p.n, n), lambda s, j: p.at(s, add(j, n)), p.kind, p.live)] + phs[1:]

    def zip_phases(self, st, phs, node):
        I_ = self.i
        def at_all(ps):
            def at(s, j):
                outs = [(s, ())]
                for p in ps:
                    nxt = []
                    for s1, acc in outs:
                        if isinstance(acc, Raise): nxt.append((s1, acc)); continue
                        for s2, v in p.at(s1, j):
                            nxt.append((s2, v if isinstance(v, Raise) else acc + (v,)))
                    outs = nxt
                return [(s2, v if isinstance(v, Raise) else ('tup', v)) for s2, v in outs]
            return at
        if any(len(x) == 0 for x in phs): return [(st, [])]
        if all(len(x) == 1 for x in phs):
            ps = [x[0] for x in phs]
            at = at_all(ps)
            live = next((p.live for p in ps if p.live), None)
            ns = []
            for p in ps:
                if p.n not in ns: ns.append(p.n)
            kind = 'zip:' + next((p.kind for p in ps if self.walks(p)), 'lp')
            if None in ns: return [(st, [Phase(None, at, kind, live)])]
            outs = [(st, ns[0])]
            for n in ns[1:]:
                nxt = []
                for s, mn in outs:
                    for s2, b in I_.split_ge0(s, sub(n, mn)):
                        nxt.append((s2, mn if b else n))
                outs = nxt
            return [(s, [Phase(mn, at, kind, live)]) for s, mn in outs]
        # merge phase lists step by step: consume the shorter first phase
        firsts = [x[0] for x in phs]
        if all(p.n is not None for p in firsts) and len(phs) == 2:
            a, b = firsts
            out = []
            for s, ge in I_.split_ge0(st, sub(a.n, b.n)):
                if ge:      # b is the shorter or equal
                    rest = [self.drop(list(phs[0]), b.n, s), phs[1][1:]]; n = b.n
                else:
                    rest = [phs[0][1:], self.drop(list(phs[1]), a.n, s)]; n = a.n
                rest = [[p for p in x if cint(p.n) != 0] if True else x for x in rest]
                for s2, more in self.zip_phases(s, rest, node):
                    out.append((s2, more if isinstance(more, Raise) else [Phase(n, at_all([a, b]), 'zip')] + more))
            return out
        st.imprecise('zip of composite sources')
        return [(st, [Phase(None, at_all(firsts), 'zip')])]

    def ls_phases(self, ls, f=None):
        """Phases of a list description."""
        out = []
        g = f or (lambda s, x: [(s, x)])
        for p in ls:
            if p[0] == 'it':
                v = p[1]
                out.append(Phase(I(1), (lambda v: lambda s, j: g(s, v))(v), 'it'))
            elif p[0] == 'lp':
                cnt, js, vals = p[1], p[2], p[3]
                if len(vals) == 1:
                    def at(s, j, js=js, v=vals[0]): return g(s, subst(v, {js: j}))
                    out.append(Phase(cnt, at, 'lp'))
                else:
                    def at2(s, j, vals=vals): 
                        s.imprecise('several items per iteration')
                        return g(s, vals[0])
                    out.append(Phase(scale(cnt, len(vals)), at2, 'lp'))
            elif p[0] == 'sorted':
                n, sid, samples = p[1], p[2], p[3]
                def at3(s, j, sid=sid, p=p): return g(s, ('t', 'srt', p, j))
                out.append(Phase(n, at3, 'sorted'))
            elif p[0] == 'hv':
                samples = p[2]
                def at4(s, j, samples=samples):
                    r = []
                    for i, v in enumerate(samples):
                        s2 = s.fork() if i < len(samples) - 1 else s
                        r.extend(g(s2, self.instance(s2, v)))
                    return r
                out.append(Phase(None, at4, 'hv'))
        return out

    def instance(self, st, v):
        return v

    # ------------------------------------------------------------------- loops
    def for_stmt(self, n, st, env):
        I_ = self.i
        def f(s, it):
            def g(s2, src):
                def body(s3, v):
                    outs = []
                    for s4, fl in I_.assign(n.target, v, s3, env):
                        if fl is not None: outs.append((s4, fl)); continue
                        outs.extend(I_.block(n.body, s4, env))
                    return outs
                r = []
                for s5, fl in self.run_src(s2, src, body, n):
                    if fl is None and n.orelse: r.extend(I_.block(n.orelse, s5, env))
                    elif fl == ('brk',): r.append((s5, None))
                    else: r.append((s5, fl))
                return r
            return I_.bind(self.get_iter(s, it, n), g)
        return I_.bind(I_.ev(n.iter, st, env), f)

    def while_loop(self, n, st, env):
        I_ = self.i
        def body(s, k):
            outs = []
            for s1, v in I_.ev(n.test, s, env):
                if isinstance(v, Raise): outs.append((s1, v)); continue
                for s2, b in I_.split(s1, v, n.test):
                    if isinstance(b, Raise): outs.append((s2, b))
                    elif b: outs.extend(I_.block(n.body, s2, env))
                    else: outs.append((s2, ('exit',)))
            return outs
        r = []
        for s, fl in self.run_loop(st, None, body, n, is_while=True):
            if fl is None and n.orelse: r.extend(I_.block(n.orelse, s, env))
            elif fl == ('brk',): r.append((s, None))
            else: r.append((s, fl))
        return r

    def run_src(self, st, src, body, node):
        """Run body over a source: flows None (exhausted), brk, ret, Raise."""
        I_ = self.i
        r = self.push(st, src, body, node)
        if r is not None: return r
        r = []
        for s, phs in self.phases(st, src, node):
            if isinstance(phs, Raise): r.append((s, phs)); continue
            kinds = tuple(p.kind for p in phs)
            def gone_by(s1, v):
                """body, noting that the walk goes on past an element"""
                r1 = body(s1, v)
                for s2, fl in r1:
                    if fl is None or fl == ('cnt',):
                        known = sure(s2)
                        if known and I_.walked is None: I_.walked = (I_.site(node, s2), s2)
                        s2.event('TRAV', I_.site(node, s2), kinds, known)
                return r1
            outs = [(s, None)]
            for p in phs:
                nxt = []
                for s1, fl in outs:
                    if fl is not None: nxt.append((s1, fl)); continue
                    nxt.extend(self.run_phase(s1, p, gone_by if self.walks(p) else body, node))
                outs = nxt
            if src[1] == 'it':
                for s1, fl in outs:
                    if src[2][1] in s1.heap:
                        s1.put(src[2], 'src', ('S', 'ls', ())); s1.put(src[2], 'pos', I(0))
            r.extend(outs)
        return r

    def walks(self, p):
        """Does the phase go through the elements of a collection (and not
        through a list already in hand)?"""
        base = p.kind.rsplit(':', 1)[-1]
        if base in ('it', 'lp', 'sorted', 'hv', ''): return p.kind == '' and p.n is None
        return p.n is None or cint(p.n) is None

    # ------------------------------------------------- stepping through sources
    def pushes(self, st, src):
        """Is the source run better step by step, its consumer in between?"""
        k = src[1]
        if k == 'gen': return st.get(src[2], 'ls') is None and not st.get(src[2], 'used') and cint(st.get(src[2], 'pos', I(0))) == 0
        if k == 'it': return cint(st.get(src[2], 'pos', I(0))) == 0 and not st.get(src[2], 'used') and self.pushes(st, st.get(src[2], 'src'))
        if k == 'gexp':
            n = self.i.nodes[src[2][0]]
            return len(n.generators) > 1 or bool(n.generators[0].ifs) or self.pushes(st, src[4])
        if k in ('filter', 'flat'): return True
        if k == 'map': return len(src[3]) == 1 and self.pushes(st, src[3][0])
        if k == 'enum': return src[3] is not None and self.pushes(st, src[2])
        if k == 'chain': return any(self.pushes(st, x) for x in src[2])
        return False

    def stepwise(self, st, src):
        """Do the phases of the source stand for single steps?"""
        k = src[1]
        if k == 'gen': return lazy_body(self.p.fns[st.get(src[2], 'fid')].node.body)
        if k == 'it': return self.stepwise(st, st.get(src[2], 'src'))
        if k == 'gexp':
            n = self.i.nodes[src[2][0]]
            return len(n.generators) == 1 and not n.generators[0].ifs and self.stepwise(st, src[4])
        if k in ('filter', 'flat'): return False
        if k == 'map': return all(self.stepwise(st, x) for x in src[3])
        if k == 'enum': return self.stepwise(st, src[2])
        if k == 'chain': return all(self.stepwise(st, x) for x in src[2])
        return True

    def push(self, st, src, body, node):
        """Run a generator (or what is built on one) with the consumer called
        at every yield, as Python does; None where the source is no such thing."""
        I_ = self.i
        if not self.pushes(st, src): return None
        k = src[1]
        def through(f):
            """the consumer, after f"""
            def b(s, v):
                r = []
                for s2, w in f(s, v):
                    if isinstance(w, Raise): r.append((s2, w))
                    else: r.extend(body(s2, w))
                return r
            return b
        if k == 'it':
            ref = src[2]
            inner = st.get(ref, 'src')
            st.put(ref, 'used', True)
            r = self.run_src(st, inner, body, node)
            for s, fl in r:
                if fl is None and ref[1] in s.heap:
                    s.put(ref, 'src', ('S', 'ls', ())); s.put(ref, 'used', False)
            return r
        if k == 'chain':
            outs = [(st, None)]
            for x in src[2]:
                nxt = []
                for s, fl in outs:
                    if fl is not None: nxt.append((s, fl)); continue
                    nxt.extend(self.run_src(s, x, body, node))
                outs = nxt
            return outs
        if k == 'flat':
            def b(s, v):
                return I_.bind(self.get_iter(s, v, node), lambda s2, x: self.run_src(s2, x, body, node))
            return self.run_src(st, src[2], b, node)
        if k == 'map': return self.run_src(st, src[3][0], through(lambda s, v: I_.call(src[2], (v,), {}, s, node)), node)
        if k == 'filter':
            def b(s, v):
                r = []
                for s2, w in self._filt(s, src[2], v, node):
                    if isinstance(w, Raise): r.append((s2, w))
                    elif w: r.extend(body(s2, v))
                    else: r.append((s2, None))
                return r
            return self.run_src(st, src[3], b, node)
        if k == 'enum':
            tmp = st.new('$env', {'v': src[3]})
            def b(s, v):
                j = s.get(tmp, 'v'); s.put(tmp, 'v', add(j, I(1)))
                return body(s, ('tup', (j, v)))
            return self.run_src(st, src[2], b, node)
        if k == 'gexp':
            n = I_.nodes[src[2][0]]
            e = I_.subenv(st, src[3], **{'$compr': True})
            return self.compr_loops(st, src[3], e, n, lambda s: [x for s2, v in I_.ev(n.elt, s, e) for x in ([(s2, v)] if isinstance(v, Raise) else body(s2, v))], src[4])
        ref = src[2]
        st.put(ref, 'used', True)
        fid = st.get(ref, 'fid'); env = st.get(ref, 'env')
        F = self.p.fns[fid]
        mine = st.stack
        def back(s, v):
            keep = s.stack; s.stack = mine
            r = []
            for s2, fl in body(s, v):
                s2.stack = keep
                r.append((s2, NONE if fl is None or fl == ('cnt',) else fl if isinstance(fl, Raise) and fl.exc[2] == 'gexit' else GExit(fl)))
            return r
        top = len(I_.cbs)
        I_.cbs.append(back)
        st.put(env, '$cb', top)
        st.stack = mine + ((fid, ('gen', ref), 0),)
        r = []
        for s, fl in I_.block(F.node.body, st, env):
            s.stack = mine
            if isinstance(fl, GExit): r.append((s, fl.fl)); continue
            if isinstance(fl, Raise):
                if fl.exc[1] == 'StopIteration' and fl.exc[2] != 'internal':
                    fl = I_.exc(s, 'RuntimeError', 'internal', node, 'generator raised StopIteration')
                r.append((s, fl)); continue
            if fl == ('dead',): r.append((s, fl)); continue
            if ref[1] in s.heap: s.put(ref, 'ls', ())
            r.append((s, None))
        del I_.cbs[top:]
        return r

    def live_changed(self, st, p):
        ref, ver = p.live
        if ref[1] not in st.heap: return False
        return st.get(ref, 'ver') != ver

    def run_phase(self, st, p, body, node):
        I_ = self.i
        def step(s, k):
            if p.live and self.live_changed(s, p):
                s.event('ITERMUT', I_.site(node, s), p.live[0])
                return [(s, I_.exc(s, 'RuntimeError', 'iter', node, 'trie updated during iteration'))]
            outs = []
            for s1, v in p.at(s, k):
                if isinstance(v, Raise): outs.append((s1, v)); continue
                outs.extend(body(s1, v))
            return outs
        outs = self.run_loop(st, p.n, step, node)
        return outs

    def run_loop(self, st, n, step, node, is_while=False):
        """n: affine count, or None (unknown, possibly zero); while loops end
        by an ('exit',) flow of step."""
        I_ = self.i
        results = []
        st.x['$loops'] = st.x.get('$loops', 0) + 1
        loopid = (getattr(node, 'lineno', 0), st.x['$loops'], len(st.stack))
        cn = cint(n) if n is not None else None
        if cn is None and n is not None and st.x.get('$pin'):
            # a count the scenario has fixed
            for q in range(7):
                if st.entails(sub(n, I(q))) and st.entails(sub(I(q), n)): cn = q
        if cn is not None and cn <= max(4, I_.unroll):
            # few iterations: run them one by one
            outs = [(st, None)]
            for k in range(max(cn, 0)):
                nxt = []
                for s, fl in outs:
                    if fl is not None: nxt.append((s, fl)); continue
                    for s2, f2 in step(s, I(k)):
                        nxt.append((s2, None if f2 == ('cnt',) else f2))
                outs = nxt
            return outs
        # zero iterations
        heads = []
        if is_while: heads = [st]
        elif n is None:
            z = st.fork(); results.append((z, None)); heads = [st]
        else:
            for s, b in I_.split_ge0(st, add(n, I(-1)), node):
                if b: heads.append(s)
                else: results.append((s, None))
        # peel the first iteration (a while loop: as many as the entry asks for)
        peel = 0
        while heads and peel < (max(1, I_.unroll) if is_while or n is None else 1):
            nxt = []
            for h in heads:
                for s, fl in step(h, I(peel)):
                    if fl is None or fl == ('cnt',): nxt.append(s)
                    elif fl == ('exit',): results.append((s, None))
                    else: results.append((s, fl))
            peel += 1
            heads = []
            for s in nxt:
                if is_while: heads.append(s)
                elif n is None:
                    z = s.fork(); results.append((z, None)); heads.append(s)
                else:
                    for s2, b in I_.split_ge0(s, add(n, I(-1 - peel)), node):
                        if b: heads.append(s2)
                        else: results.append((s2, None))
            if len(heads) > 12: raise Abort('too many loop heads')
        peel = max(peel, 1)
        groups = {}
        for h in heads:
            groups.setdefault(self.signature(h), []).append(h)
        if len(heads) > 12: raise Abort('too many loop heads')
        for h in heads:
            results.extend(self.fixpoint(h, n, step, node, loopid, peel, is_while))
            if len(results) > 300: raise Abort('too many paths')
        return results

    def signature(self, st):
        """Control-like values that partition loop heads."""
        out = []
        for oid, o in st.heap.items():
            if o.cls == '$env' or not o.fresh or o.cls in self.p.classes:
                for k, v in o.f.items():
                    if k.startswith('$'): continue
                    if v == NONE: out.append((oid, k, 'none'))
                    elif isinstance(v, tuple) and v and v[0] == 'k': out.append((oid, k, v))
        for k, v in st.x.items():
            if not k.startswith('$'): out.append(('x', k, v))
        return tuple(sorted(out, key=repr))

    def relsig(self, st, base):
        """Signature restricted to locations of the loop-entry state."""
        return tuple(e for e in self.signature(st) if e[0] == 'x' or e[0] in base)

    def fixpoint(self, h0, n, step, node, loopid, peel, is_while):
        I_ = self.i
        k = ('s', 'k', loopid)
        base = set(h0.heap)
        results = []
        H = {}          # signature -> head state valid at iteration k (>= peel)
        # first generic iteration from the concrete head
        first = h0
        sig0 = self.relsig(first, base)
        heads = {sig0: first}
        concrete = {sig0: True}       # head still describes only k == peel
        order = [sig0]
        stable = False
        rounds = 0
        final = {}
        # iterate to a fixpoint
        while not stable:
            rounds += 1
            stable = True
            final = {}
            for sig in list(order):
                h = heads[sig]; conc = concrete[sig]
                s = h.fork()
                kk = I(peel) if conc else k
                if not conc:
                    if not s.add(sub(k, I(peel))): continue
                if n is not None and not s.add(sub(sub(n, kk), I(1))): 
                    final[sig] = []
                    continue
                I_.tick(20)
                outs = step(s, kk)
                final[sig] = outs
                for s2, fl in outs:
                    if not (fl is None or fl == ('cnt',)): continue
                    g = self.relsig(s2, base)
                    if g not in heads:
                        if len(order) >= 8:
                            s2.imprecise('too many loop shapes'); g = sig
                        else:
                            ns = self.shift_back(s2, k) if not conc else s2.fork()
                            # state at iteration peel+1: describe it generically
                            heads[g] = self.generic_from(ns, k, peel, conc, loopid)
                            concrete[g] = False
                            order.append(g); stable = False
                            continue
                    tgt = heads[g]
                    if concrete[g]:
                        if conc:
                            ng = self.lgg(tgt, s2, k, peel, loopid, shifted=False)
                        else:
                            ng = self.lgg(tgt, self.shift_back(s2, k), k, peel, loopid, shifted=False, same=True)
                        heads[g] = ng; concrete[g] = False; stable = False
                    else:
                        if conc:
                            ng, ok = self.join_concrete(tgt, s2, k, peel, loopid)
                        else:
                            ng, ok = self.check(tgt, s2, k, loopid)
                        if not ok:
                            heads[g] = ng; stable = False
            if rounds >= MAXROUNDS and not stable:
                for sig in order:
                    heads[sig].imprecise('loop not stabilised')
                    for s2, fl in final.get(sig, []): s2.imprecise('loop not stabilised')
                break
        # collect
        for sig in order:
            h = heads[sig]
            for s2, fl in final.get(sig, []):
                if fl is None or fl == ('cnt',): continue
                if fl == ('exit',): results.append((s2, None))
                else: results.append((s2, fl))
            if is_while: continue
            e = h.fork()
            if n is None:
                if concrete[sig]: continue       # already reported as the 1-iteration exit
                if e.add(sub(k, I(peel + 1))): results.append((e, None))
            else:
                if concrete[sig]:
                    # only k == peel iterations are possible
                    e2 = e
                    if e2.add(sub(n, I(peel))) and e2.add(sub(I(peel), n)): results.append((e2, None))
                    continue
                e = self.subst_state(e, {k: n})
                if e is not None and e.add(sub(n, I(peel + 1))): results.append((e, None))
        # a loop that can never end: no way out at all
        if is_while and not results:
            s = h0.fork()
            if any(x.imp for x in heads.values()): s.imprecise('a loop with no way out')
            results.append((s, I_.crash(s, 'InfiniteLoop', node, 'the loop has no way out')))
        if is_while: self.check_progress(h0, heads, final, k, node, results, order)
        return results

    def check_progress(self, h0, heads, final, k, node, results, order):
        """A path through the body of a while loop that leaves the state
        unchanged repeats for ever."""
        def general(st):
            vals = [v for o in st.heap.values() for v in o.f.values() if isinstance(v, tuple)]
            return {x for x in vals if contains(x, lambda y: y[0] in ('u', 'hv') or y == k)}
        known = general(h0)
        for sig in order:
            h = heads[sig]
            if h.imp or general(h) - known: continue
            for s2, fl in final.get(sig, []):
                if not (fl is None or fl == ('cnt',)): continue
                if self.same_state(h, s2, k) and not s2.imp:
                    s = s2.fork()
                    results.append((s, self.i.crash(s, 'InfiniteLoop', node, 'an iteration of the loop can leave everything unchanged, so the loop never ends')))
                    return

    def same_state(self, a, b, k):
        for oid, o in a.heap.items():
            p = b.heap.get(oid)
            if p is None: return False
            if p.f != o.f: return False
        for x, v in a.x.items():
            if b.x.get(x) != v and x != '$loops': return False
        # user callbacks in the body could change the outcome of the test
        for e in b.ev[len(a.ev):]:
            if e[0] in ('UOP', 'UCALL', 'UNEXT'): return False
        return True

    # ------------------------------------------------------ state substitution
    def subst_state(self, st, m):
        s = st.fork()
        for oid, o in list(s.heap.items()):
            f2 = None
            for key, v in o.f.items():
                if isinstance(v, tuple):
                    w = subst(v, m)
                    if w is not v and w != v:
                        if f2 is None: f2 = dict(o.f)
                        f2[key] = w
            if f2 is not None: s.heap[oid] = Obj(o.cls, f2, o.fresh, o.site)
        s.facts = {subst(a, m): b for a, b in s.facts.items()}
        s.types = {subst(a, m): b for a, b in s.types.items()}
        s.x = {a: (subst(b, m) if isinstance(b, tuple) else b) for a, b in s.x.items()}
        s.ev = subst(s.ev, m)
        cons = s.cons; s.cons = ()
        for c in cons:
            if not s.add(subst(c, m)): return None
        return s

    def shift_back(self, st, k):
        """Re-express a state at iteration k+1 as one at iteration k."""
        s = self.subst_state(st, {k: add(k, I(-1))})
        return s if s is not None else st.fork()

    def generic_from(self, st, k, peel, from_concrete, loopid):
        s = st
        if from_concrete:
            # values are those at k == peel+1; keep them but forget exactness
            s.imprecise('loop shape first seen late') if False else None
        return s

    # ----------------------------------------------------------- generalisation
    def lgg(self, A, B, k, peel, loopid, shifted, same=False):
        """Generalise head A (k == peel) with state B (k == peel+1)."""
        ctx = Gen(self, A, B, k, loopid, peel, mode='first' if not same else 'same')
        return ctx.run()

    def check(self, H, M, k, loopid):
        """Is M an instance of H with k := k+1?  -> (new head, ok)"""
        Hs = self.subst_state(H, {k: add(k, I(1))})
        if Hs is None: return H, True
        ctx = Gen(self, Hs, M, k, loopid, 0, mode='check', H=H)
        new = ctx.run()
        if ctx.ok: return H, True
        new = self.subst_state(new, {k: add(k, I(-1))}) or new
        return new, False

    def join_concrete(self, H, M, k, peel, loopid):
        """Is M (a state at k == peel+1) an instance of H at k := peel+1?"""
        Hs = self.subst_state(H, {k: I(peel + 1)})
        if Hs is None: return H, True
        ctx = Gen(self, Hs, M, k, loopid, peel, mode='check', H=H)
        new = ctx.run()
        if ctx.ok: return H, True
        new2 = Gen(self, H, M, k, loopid, peel, mode='same').run()
        return new2, False


CONTENT_TAGS = ('ec', 'abs', 'lb', 'cb', 'w', 'd', 'lw', 'hv')


class Gen:
    """Least general generalisation of two abstract states."""
    def __init__(self, loops, A, B, k, loopid, peel, mode, H=None):
        self.L = loops; self.A = A; self.B = B; self.k = k; self.loopid = loopid
        self.peel = peel; self.mode = mode; self.H = H
        self.pairs = {}; self.inv = {}
        self.ok = True
        self.lengths = []
        self.left = {}; self.right = {}
        self.refpairs = {}
        self.newobjs = {}
        self.cnt = 0

    def isvar(self, v): return v[0] == 'phi'

    def var(self, a, b):
        key = (a, b)
        if key in self.pairs: return self.pairs[key]
        if self.mode == 'check' and self.isvar(a) and a[1] == self.loopid:
            if a in self.inv and self.inv[a] != b:
                self.ok = False
            else:
                self.inv[a] = b
                self.pairs[key] = a
                self.right[a] = b; self.left[a] = a
                self.learn(a, a, b)
                return a
        self.ok = False
        self.cnt += 1
        used = self.L.__dict__.setdefault('used', {})
        n = used.get(self.loopid, 0); used[self.loopid] = n + 1
        v = ('phi', self.loopid, n)
        self.pairs[key] = v
        self.left[v] = a; self.right[v] = b
        self.learn(v, a, b)
        return v

    def learn(self, v, a, b):
        L = self.L
        pr = L.prov.setdefault(v, set())
        pr.add(a); pr.add(b)
        if v not in L.isnode or True:
            na = L.i.is_node(a); nb = L.i.is_node(b)
            if v == a: L.isnode[v] = L.isnode.get(v, False) and nb
            else: L.isnode[v] = na and nb

    def g(self, a, b):
        if a == b: return a
        ia = a[0] == 'i' or (self.intlike(a)); ib = b[0] == 'i' or self.intlike(b)
        if a[0] in CONTENT_TAGS and b[0] in CONTENT_TAGS: return self.content(a, b)
        if a[0] in ('i', 's', 't', 'phi') and b[0] in ('i', 's', 't', 'phi') and (a[0] == 'i' or b[0] == 'i' or (ia and ib)):
            d = sub(b, a)
            c = cint(d)
            if self.mode == 'check' and self.isvar(a): return self.var(a, b)
            if c is not None and c != 0 and self.mode == 'first':
                return add(a, scale(add(self.k, I(-self.peel)), c))
            if self.mode == 'check' and a[0] == 'i':
                # a phi inside an affine form may absorb the difference
                vs = [s for s, q in a[2] if self.isvar(s) and abs(q) == 1]
                if len(vs) == 1:
                    v = vs[0]; q = dict(a[2])[v]
                    tgt = add(v, scale(d, q))
                    self.var(v, tgt)
                    if self.ok: return a
            if not self.struct(a, b): return self.var(a, b)
        if self.struct(a, b):
            if a[0] == 'r': return self.ref(a, b)
            if a[0] == 't' and a[1] in ('srt',): return self.var(a, b)
            return tuple(self.g2(x, y) for x, y in zip(a, b))
        if a[0] == 'r' and b[0] == 'r': return self.ref(a, b)
        return self.var(a, b)

    def intlike(self, a):
        return self.L.i.ptype(self.A, a) == 'int' or self.L.i.is_node(a) is True and False

    def g2(self, x, y):
        if isinstance(x, tuple) and isinstance(y, tuple):
            if x == y: return x
            if x and y and isinstance(x[0], str) and isinstance(y[0], str): return self.g(x, y)
            if len(x) == len(y): return tuple(self.g2(p, q) for p, q in zip(x, y))
        return x

    def struct(self, a, b):
        """Can a and b be generalised item by item?"""
        if a[0] != b[0] or len(a) != len(b): return False
        t = a[0]
        if t in ('k', 's', 'phi', 'u', 'cls', 'i', 'bi'): return False
        if t == 'r': return False
        if t == 't' and a[1] != b[1]: return False
        def fits(x, y):
            if isinstance(x, tuple) and isinstance(y, tuple):
                if x and y and isinstance(x[0], str) and isinstance(y[0], str): return True
                if x and y and isinstance(x[0], str) != isinstance(y[0], str): return False
                return len(x) == len(y) and all(fits(p, q) for p, q in zip(x, y))
            return x == y
        return all(fits(x, y) for x, y in zip(a, b))

    def ref(self, a, b):
        key = (a, b)
        if key in self.refpairs: return self.refpairs[key]
        A, B = self.A, self.B
        if a[1] not in A.heap or b[1] not in B.heap: return self.var(a, b)
        oa, ob = A.heap[a[1]], B.heap[b[1]]
        if oa.cls != ob.cls or not (oa.fresh and ob.fresh): return self.var(a, b)
        merged = self.mode == 'check' and a[1] >= 10 ** 6
        if merged:
            if a in self.inv and self.inv[a] != b: self.ok = False
            self.inv[a] = b
            nr = a
        else:
            self.ok = False
            used = self.L.__dict__.setdefault('usedref', {})
            n = used.get('n', 0); used['n'] = n + 1
            nr = ('r', 10 ** 6 + n)
        self.refpairs[key] = nr
        self.newobjs[nr[1]] = Obj(oa.cls, {}, True, oa.site)
        f = self.fields(oa, ob)
        self.newobjs[nr[1]] = Obj(oa.cls, f, True, oa.site)
        return nr

    def fields(self, oa, ob):
        f = {}
        for key, v in oa.f.items():
            if key not in ob.f: 
                continue
            w = ob.f[key]
            if isinstance(v, tuple) and isinstance(w, tuple):
                if v == w: f[key] = v
                elif oa.cls in ('list', '$dict', '$set') and key == 'ls' or key == '$ls': f[key] = self.pieces(v, w)
                elif v and w and isinstance(v[0], str) and isinstance(w[0], str): f[key] = self.g(v, w)
                elif not v or not w or not isinstance(v[0], str): f[key] = self.g2(v, w) if len(v) == len(w) else v
                else: f[key] = self.var(v, w)
            else: f[key] = v
        return f

    # contents of tries: sequences of writes
    def suffix(self, base, c):
        """Writes that lead from base to c, or None."""
        out = []
        while c != base:
            if c[0] == 'w': out.append(('w', c[2], c[3])); c = c[1]
            elif c[0] == 'd': out.append(('d', c[2])); c = c[1]
            else: return None
            if len(out) > 8: return None
        out.reverse()
        return out

    def param(self, v, cur, js):
        """Express a value of iteration cur in terms of js (0-based)."""
        return subst(v, {self.k: add(js, I(self.peel))}) if cur is None else v

    def content(self, a, b):
        k = self.k
        js = ('s', 'j', self.loopid)
        if self.mode == 'first':
            suf = self.suffix(a, b)
            if suf is not None and all(x[0] == 'w' for x in suf):
                return ('lw', a, add(k, I(-self.peel)), js, ())
            return self.havoc(a, b)
        if self.mode == 'check':
            # a is the head content with k -> k+1
            if a[0] == 'lw' and a[3] == js:
                cntm = add(a[2], I(-1))
                prev = ('lw', a[1], cntm, js, self.kdown(a[4]))
                prev0 = prev
                # strip writes from b down to the head's content at k
                suf = self.suffix_to(prev0, b)
                if suf is not None and all(x[0] == 'w' for x in suf):
                    W = tuple((subst(x[1], {k: add(js, I(1))}), subst(x[2], {k: add(js, I(1))})) for x in suf)
                    if a[4] == () and suf:
                        self.ok = False
                        return ('lw', a[1], a[2], js, W)
                    if W == a[4]: return a
                    # equal at this iteration?
                    return self.havoc(a, b)
                if suf == [] : pass
            return self.havoc(a, b)
        return self.havoc(a, b)

    def kdown(self, W): return W

    def suffix_to(self, target, c):
        out = []
        n = 0
        while True:
            if c == target: out.reverse(); return out
            if c[0] == 'w': out.append(('w', c[2], c[3])); c = c[1]
            elif c[0] == 'd': out.append(('d', c[2])); c = c[1]
            else: return None
            n += 1
            if n > 8: return None

    def havoc(self, a, b):
        if a[0] == 'hv' and a[1] == self.loopid and self.mode == 'check':
            samples = self.samples(b, a)
            if set(samples) <= set(a[2]): return a
            self.ok = False
            return ('hv', self.loopid, tuple(dict.fromkeys(a[2] + samples)), a[3])
        self.ok = False
        base = a
        while base[0] in ('w', 'd', 'lw'): base = base[1]
        return ('hv', self.loopid, tuple(dict.fromkeys(self.samples(a, None) + self.samples(b, None))), base)

    def samples(self, c, stop):
        """Values written in a content term (k generalised away)."""
        out = []
        kk = ('s', 'anyk', self.loopid)
        while True:
            if stop is not None and c[0] == 'hv' and c[1] == stop[1]: break
            if c[0] == 'w': out.append(c[3]); c = c[1]
            elif c[0] == 'd': c = c[1]
            elif c[0] == 'lw':
                for _, v in c[4]: out.append(v)
                c = c[1]
            elif c[0] == 'hv': out.extend(c[2]); break
            else: break
        return tuple(subst(x, {self.k: kk}) for x in out)

    # list pieces
    def pieces(self, a, b):
        js = ('s', 'j', self.loopid)
        k = self.k
        n = len(a)
        if self.mode == 'first':
            if b[:n] == a and all(p[0] == 'it' for p in b[n:]):
                if len(b) > n: return a + (('lp', add(k, I(-self.peel)), js, ()),)
            if n < len(b) and b[len(b) - n:] == a and all(p[0] == 'it' for p in b[:len(b) - n]):
                return (('lp', add(k, I(-self.peel)), ('s', 'jr', self.loopid), ()),) + a
            r = self.replaced(a, b)
            if r is not None: return r
            return self.hvpieces(a, b)
        if self.mode == 'check':
            r = self.replaced_more(a, b)
            if r is not None: return r
        if self.mode == 'check' and a and a[0][0] == 'lp' and a[0][2] == ('s', 'jr', self.loopid):
            lp = a[0]; jr = lp[2]
            prev = ('lp', add(lp[1], I(-1)), jr, tuple(subst(v, {k: add(k, I(-1))}) for v in lp[3]))
            m = len(b) - n
            if m >= 0 and b[m + 1:] == a[1:] and b[m] == prev and all(p[0] == 'it' for p in b[:m]):
                W = tuple(subst(p[1], {k: sub(k, jr)}) for p in b[:m])
                if lp[3] == () and W:
                    self.ok = False
                    return (('lp', lp[1], jr, W),) + a[1:]
                if W == lp[3]: return a
                return self.hvpieces(a, b)
        if self.mode == 'check' and a and a[-1][0] == 'lp' and a[-1][2] == js:
            lp = a[-1]
            prev = ('lp', add(lp[1], I(-1)), js, lp[3])
            if b[:n - 1] == a[:-1] and len(b) >= n and b[n - 1] == prev and all(p[0] == 'it' for p in b[n:]):
                d = cint(sub(k, lp[1]))
                W = tuple(subst(p[1], {k: add(js, I(1 + (d or 0)))}) for p in b[n:])
                if lp[3] == () and W:
                    self.ok = False
                    return a[:-1] + (('lp', lp[1], js, W),)
                if W == lp[3]: return a
                return self.hvpieces(a, b)
        if len(a) == len(b) and self.mode == 'check' and all(x[0] == y[0] for x, y in zip(a, b)):
            pass
        return self.hvpieces(a, b)

    # elements replaced one after the other, from the front, the back or both:
    # X + replaced + rest + replaced + Y
    def replaced(self, a, b):
        k = self.k; js, jr = ('s', 'j', self.loopid), ('s', 'jr', self.loopid)
        hole = ('s', 'hole', self.loopid)
        n = len(a)
        for i, r in enumerate(a):
            if r[0] != 'lp' or b[:i] != a[:i]: continue
            for f, g in ((1, 0), (0, 1), (1, 1)):
                m = i + f
                if len(b) != n + f + g or b[m][0] != 'lp' or b[m + 1 + g:] != a[i + 1:]: continue
                if f and b[i][0] != 'it' or g and b[m + 1][0] != 'it': continue
                def rest(c): return ('lp', sub(r[1], scale(c, f + g)), r[2], tuple(subst(x, {r[2]: add(r[2], scale(c, f))}) for x in r[3]))
                if b[m] != rest(I(1)): continue
                d = add(k, I(-self.peel))
                self.lengths.append(rest(d)[1])
                return a[:i] + ((('lp', d, js, (hole,)),) if f else ()) + (rest(d),) + ((('lp', d, jr, (hole,)),) if g else ()) + a[i + 1:]
        return None

    def replaced_more(self, a, b):
        k = self.k; js, jr = ('s', 'j', self.loopid), ('s', 'jr', self.loopid)
        hole = ('s', 'hole', self.loopid)
        n = len(a)
        for i, r in enumerate(a):
            if r[0] != 'lp' or r[2] in (js, jr): continue
            f = int(i > 0 and a[i - 1][0] == 'lp' and a[i - 1][2] == js)
            g = int(i + 1 < n and a[i + 1][0] == 'lp' and a[i + 1][2] == jr)
            if not f and not g or len(b) != n + f + g: continue
            front = a[i - 1] if f else None; back = a[i + 1] if g else None
            x = a[:i - f]; y = a[i + 1 + g:]
            want = []; at = len(x)
            if b[:at] != x or y and b[len(b) - len(y):] != y: continue
            new = list(a)
            if f:
                if b[at] != ('lp', add(front[1], I(-1))) + front[2:] or b[at + 1][0] != 'it': continue
                d = cint(sub(k, front[1]))
                if d is None: continue
                new[i - 1] = front[:3] + ((subst(b[at + 1][1], {k: add(js, I(d + 1))}),),)
                at += 2
            if b[at] != r: continue
            at += 1
            if g:
                prev = ('lp', add(back[1], I(-1)), jr, tuple(subst(v, {k: add(k, I(-1))}) for v in back[3]))
                if b[at][0] != 'it' or b[at + 1] != prev: continue
                new[i + 1] = back[:3] + ((subst(b[at][1], {k: sub(k, jr)}),),)
            new = tuple(new)
            if new == a: return a
            if all(p[3] == (hole,) for p in (front, back) if p is not None):
                self.ok = False
                return new
            return None
        return None

    def hvpieces(self, a, b):
        kk = ('s', 'anyk', self.loopid)
        if self.mode == 'check' and len(a) == 1 and a[0][0] == 'hv' and a[0][1] == self.loopid:
            sm = tuple(self.psamples(b, kk))
            if set(sm) <= set(a[0][2]): return a
            self.ok = False
            return (('hv', self.loopid, tuple(dict.fromkeys(a[0][2] + sm))),)
        self.ok = False
        sm = tuple(dict.fromkeys(tuple(self.psamples(a, kk)) + tuple(self.psamples(b, kk))))
        return (('hv', self.loopid, sm),)

    def psamples(self, ls, kk):
        for p in ls:
            if p[0] == 'it': yield subst(p[1], {self.k: kk})
            elif p[0] == 'lp':
                for v in p[3]: yield subst(v, {self.k: kk})
            elif p[0] == 'hv':
                for v in p[2]: yield v
            elif p[0] == 'sorted':
                for v in p[3]: yield v

    def run(self):
        A, B = self.A, self.B
        S = A.fork()
        heap = {}
        for oid, oa in A.heap.items():
            ob = B.heap.get(oid)
            if ob is None: continue
            if oa is ob or oa.f == ob.f: heap[oid] = oa; continue
            if oid in self.newobjs: continue
            if oid >= 10 ** 6 and self.mode == 'check' and ('r', oid) in self.inv: continue
            f = self.fields(oa, ob)
            heap[oid] = Obj(oa.cls, f, oa.fresh, oa.site)
        # objects of B that generalised fields still refer to (created in the body)
        for oid, o in self.newobjs.items(): heap[oid] = o
        seen = set(heap)
        stack = [v for o in heap.values() for v in o.f.values() if isinstance(v, tuple)]
        while stack:
            v = stack.pop()
            for x in walk(v):
                if x[0] == 'r' and len(x) == 2 and x[1] not in seen:
                    seen.add(x[1])
                    src = B.heap.get(x[1]) or A.heap.get(x[1])
                    if src is not None:
                        heap[x[1]] = src
                        stack.extend(w for w in src.f.values() if isinstance(w, tuple))
        S.heap = heap
        S.nid = max(A.nid, B.nid)
        # facts
        facts = {}
        if self.mode == 'check':
            m = dict(self.right)
            m2 = {v: b for v, b in m.items() if v != b}
            for f, val in A.facts.items():
                w = subst(f, m2) if m2 else f
                if B.facts.get(w) == val: facts[f] = val
                elif self.trivial(w, val, B): facts[f] = val
                else: self.ok = False
        else:
            inv = {}
            for v, b in self.right.items():
                if b not in inv: inv[b] = v
            left = {v: a for v, a in self.left.items()}
            for f, val in A.facts.items():
                if B.facts.get(f) == val: facts[f] = val
            if inv:
                for f, val in B.facts.items():
                    gf = subst(f, inv)
                    if gf == f: continue
                    back = subst(gf, left)
                    if A.facts.get(back) == val or self.trivial(back, val, A): facts[gf] = val
        S.facts = facts
        types = {t: v for t, v in A.types.items() if B.types.get(t) == v}
        S.types = types
        # constraints: those of A that B entails under the renaming
        cons = []
        ren = {v: b for v, b in self.right.items()}
        for c in A.cons:
            c2 = subst(c, ren) if self.mode == 'check' else c
            if c2 in B.cons or entails(relevant(B.cons, c2), c2): cons.append(c)
            else: self.ok = False if self.mode == 'check' else self.ok
        if self.mode == 'first':
            # relations that move with the iteration: c -/+ (k - peel) >= 0
            kp = add(self.k, I(-self.peel))
            ksyms = set(A.cons)
            for c in A.cons:
                if contains(c, lambda x: x == self.k): continue
                cm = add(c, I(-1))
                if entails(relevant(B.cons, cm), cm): cons.append(sub(c, kp))
                elif c not in cons:
                    cp = add(c, I(1))
                    if entails(relevant(B.cons, cp), cp): cons.append(add(c, kp))
        cons += self.lengths     # a candidate: pieces never have negative length
        S.cons = tuple(dict.fromkeys(cons))
        # events
        ev = list(A.ev)
        keys = {self.evkey(e) for e in ev}
        for e in B.ev:
            if self.evkey(e) not in keys:
                keys.add(self.evkey(e)); ev.append(e)
                if self.mode == 'check': self.ok = False
        S.ev = tuple(ev)
        imp = list(A.imp)
        for w in B.imp:
            if w not in imp:
                imp.append(w)
        S.imp = tuple(imp)
        x = {}
        for key, v in A.x.items():
            w = B.x.get(key)
            if key == '$loops': x[key] = v
            elif w == v: x[key] = v
            elif key == '$mut': x[key] = ('any',)
            elif isinstance(v, tuple) and isinstance(w, tuple) and v and w and isinstance(v[0], str) and isinstance(w[0], str):
                x[key] = self.g(v, w)
            elif v != w:
                x[key] = v
                S.imprecise('auxiliary state changes in a loop') if not key.startswith('$') else None
        S.x = x
        S.pc = B.pc
        return S

    def evkey(self, e):
        site = next((x for x in e if isinstance(x, tuple) and len(x) == 3 and isinstance(x[0], str) and isinstance(x[1], int)), None)
        refs = tuple(x for x in e if isinstance(x, tuple) and len(x) == 2 and x[0] == 'r' and x[1] < 1000)
        names = tuple(x for x in e[2:] if isinstance(x, str))
        return (e[0], site, refs if e[0] in ('SET', 'TW', 'FORCE') else (), names)

    def trivial(self, f, val, st):
        if f[0] == 'null':
            n = self.L.i.nonnull(st, f[1])
            if n is not None: return (not n) == val
            p = st.facts.get(('null', f[1]))
            return p == val if p is not None else False
        if f[0] == 'eq' and f[1] == f[2]: return val
        if f[0] == 'inst':
            t = self.L.i.isa(st, f[1], f[2])
            return t == val
        return False
