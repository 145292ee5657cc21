"""Models of the Python built-ins, of the phamt tries, and of opaque values
(the user's own objects) used by the abstract interpreter."""
import ast
from .terms import *
from .core import *


def _ls_items(ls):
    return tuple(p[1] for p in ls) if all(p[0] == 'it' for p in ls) else None


# how many positional arguments the built-ins take
ARITY = {'len': (1, 1), 'isinstance': (2, 2), 'issubclass': (2, 2), 'hash': (1, 1), 'iter': (1, 2), 'next': (1, 2), 'callable': (1, 1),
         'repr': (1, 1), 'ascii': (1, 1), 'id': (1, 1), 'abs': (1, 1), 'sum': (1, 2), 'all': (1, 1), 'any': (1, 1), 'sorted': (1, 1),
         'min': (1, 99), 'max': (1, 99), 'getattr': (2, 3), 'setattr': (3, 3), 'hasattr': (2, 2), 'delattr': (2, 2), 'divmod': (2, 2),
         'object.__setattr__': (3, 3), 'type.__setattr__': (3, 3), 'object.__delattr__': (2, 2), 'object.__getattribute__': (2, 2),
         'object.__new__': (1, 99), 'object.__hash__': (1, 1), 'object.__repr__': (1, 1), 'object.__str__': (1, 1), 'object.__eq__': (2, 2),
         'json.dumps': (1, 1), 'functools.reduce': (2, 3), 'format': (1, 2), 'round': (1, 2), 'chr': (1, 1), 'ord': (1, 1), 'vars': (0, 1),
         'new type': (1, 3), 'new reversed': (1, 1), 'new enumerate': (1, 2), 'new map': (2, 99), 'new filter': (2, 2), 'new range': (1, 3),
         'new list': (0, 1), 'new tuple': (0, 1), 'new set': (0, 1), 'new frozenset': (0, 1), 'new islice': (2, 4), 'new THAMT': (0, 1),
         'new PHAMT': (0, 1), 'new RLock': (0, 0), 'new Lock': (0, 0), 'new int': (0, 2), 'new bool': (0, 1), 'new slice': (1, 3)}
for _n in ('eq', 'ne', 'lt', 'le', 'gt', 'ge', 'is_', 'is_not', 'contains', 'getitem', 'delitem', 'add', 'sub', 'mul', 'and_', 'or_', 'xor',
           'iadd', 'isub', 'imul', 'iand', 'ior', 'ixor'): ARITY['operator.' + _n] = (2, 2)


def absrep(st, con, role):
    """A number in the representation of a collection given by its contents."""
    v = ('t', 'absrep', role, intern(con))
    st.types[v] = 'int'
    if role != 'start': st.add(v)
    return v


CHANGES = {'add', 'discard', 'remove', 'pop', 'popitem', 'clear', 'update', 'setdefault', 'difference_update',
           'intersection_update', 'symmetric_difference_update', '__setitem__', '__delitem__', '__ior__', '__iand__', '__isub__', '__ixor__'}


class Models:
    def __init__(self, interp):
        self.i = interp
        self.p = interp.p

    # ------------------------------------------------------------ trie contents
    def base_of(self, c):
        while c[0] in ('w', 'd', 'lw'): c = c[1]
        return c

    def nodelike(self, c):
        b = self.base_of(c)
        return b[0] == 'cb'

    def keyeq(self, st, a, b, node):
        """[(st, bool)] for equality of two trie keys."""
        if a == b: return [(st, True)]
        return self.i.split_eqi(st, sub(a, b), node)

    def c_get(self, st, c, key, node):
        """Look up key: [(st, value | None)]."""
        self.i.tick()
        t = c[0]
        if key == NONE:
            return [(st, self.i.crash(st, 'TypeError', node, 'a trie key must be an integer, not None'))]
        if t == 'ec': return [(st, None)]
        if t == 'lb':
            _, name, s0, n = c
            idx = sub(key, s0)
            r = []
            for s, b in self.i.split_ge0(st, idx, node):
                if not b: r.append((s, None)); continue
                for s2, b2 in self.i.split_ge0(s, sub(sub(n, I(1)), idx), node):
                    r.append((s2, ('t', 'at', name, idx) if b2 else None))
            return r
        if t == 'cb':
            _, name, role, kind = c
            if role == 'els': return self.node_get(st, name, kind, key, node)
            return self.idx_get(st, name, key, node)
        if t == 'w':
            r = []
            for s, b in self.keyeq(st, key, c[2], node):
                if b: r.append((s, c[3]))
                else: r.extend(self.c_get(s, c[1], key, node))
            return r
        if t == 'd':
            r = []
            for s, b in self.keyeq(st, key, c[2], node):
                if b: r.append((s, None))
                else: r.extend(self.c_get(s, c[1], key, node))
            return r
        if t == 'lw':
            return self.lw_get(st, c, key, node)
        if t == 'abs' and extern(c[1])[0] == 'aseq':
            idx = sub(key, absrep(st, c[1], 'start'))
            r = []
            for s, b in self.i.split_ge0(st, idx, node):
                if b: r.extend(self.ls_index(s, extern(c[1])[1], idx, node))
                else: r.append((s, None))
            return r
        if t == 'hv':
            st.imprecise('contents after an unsummarised loop')
            r = []
            for v in c[2]:
                s = st.fork(); r.append((s, v))
            s = st.fork(); r.append((s, None))
            r.extend(self.c_get(st, c[3], key, node))
            return r
        st.imprecise('trie contents'); return [(st, st.unknown('trie lookup'))]

    def lw_get(self, st, c, key, node):
        _, prev, count, js, W = c
        def cand(s, i, key):
            """[(s, j|None)]: iteration in which write i hit the key."""
            k, _v = W[i]
            d = sub(k, js) if False else k
            cc, dd = aff(d)
            b = dd.get(js, 0)
            rest = mk(cc, {x: y for x, y in dd.items() if x != js})
            if contains(rest, lambda x: x == js) or b not in (1, -1, 0):
                s.imprecise('loop writes with irregular keys')
                return [(s, None)]
            if b == 0:
                return [(s2, sub(count, I(1)) if hit else None) for s2, hit in self.keyeq(s, key, rest, node)]
            j = sub(key, rest) if b == 1 else sub(rest, key)
            r = []
            for s2, h in self.i.split_ge0(s, j, node):
                if not h: r.append((s2, None)); continue
                for s3, h3 in self.i.split_ge0(s2, sub(sub(count, I(1)), j), node):
                    r.append((s3, j if h3 else None))
            return r
        outs = [(st, None, -1)]
        for i in range(len(W)):
            nxt = []
            for s, bj, bi in outs:
                for s2, j in cand(s, i, key):
                    if j is None: nxt.append((s2, bj, bi)); continue
                    if bj is None: nxt.append((s2, j, i)); continue
                    for s3, later in self.i.split_ge0(s2, sub(j, bj), node):
                        nxt.append((s3, j, i) if later else (s3, bj, bi))
            outs = nxt
        r = []
        for s, j, i in outs:
            if j is None: r.extend(self.c_get(s, prev, key, node))
            else: r.append((s, subst(W[i][1], {js: j})))
        return r

    def node_get(self, st, name, kind, key, node):
        if key[0] == 's' and len(key) > 2 and key[2] == 'top': return [(st, None)]
        if not self.i.is_node(key) and st.entails(sub(key, ('s', name, 'top'))): return [(st, None)]
        if key[0] in ('u',) or not self.i.is_node(key):
            if not (key[0] == 'phi'):
                st.imprecise('lookup of an unknown node')
                s2 = st.fork()
                return [(st, self.elval(name, kind, key)), (s2, None)]
        return [(st, self.elval(name, kind, key))]

    def elval(self, name, kind, nd):
        if kind == 'set': e = ('t', 'el', name, nd)
        else: e = ('tup', (('t', 'key', name, nd), ('t', 'val', name, nd)))
        return ('tup', (e, ('t', 'next', name, nd)))

    def idx_get(self, st, name, h, node):
        for f, v in st.facts.items():
            if f[0] == 'has' and f[1] == name and (f[2] == h or (st.entails(sub(f[2], h)) and st.entails(sub(h, f[2])))):
                return [(st, ('t', 'head', name, f[2]) if v else None)]
        # the hash of a stored element is always there
        if h[0] == 't' and h[1] == 'hash' and h[2][0] == 't' and h[2][1] in ('el', 'key') and h[2][2] == name:
            nd = h[2][3]
            if nd[0] == 't' and nd[1] == 'nd': return [(st, nd)]    # (the first of those with its hash)
            return [(st, ('t', 'head', name, h))]
        b = st.fork()
        r = []
        if self.i.assume(st, ('has', name, h), True):
            # something is stored
            if st.add(sub(('s', name, 'n'), I(1))):
                self.i.note(st, node, f'the hash is present in {name}'); r.append((st, ('t', 'head', name, h)))
        if self.i.assume(b, ('has', name, h), False):
            self.i.note(b, node, f'the hash is absent from {name}'); r.append((b, None))
        return r

    def dom(self, st, c, node=None):
        """Key set of a list-like content: [(st, [(lo, hi)..])] or None."""
        t = c[0]
        if t == 'ec': return [(st, ())]
        if t == 'lb': return [(st, ((c[2], add(c[2], c[3])),))]
        if t == 'abs' and extern(c[1])[0] == 'aseq':
            s0 = absrep(st, c[1], 'start')
            return [(st, ((s0, add(s0, self.ls_len(st, extern(c[1])[1]))),))]
        if t not in ('w', 'd', 'lw'): return None
        prev = self.dom(st, c[1], node)
        if prev is None: return None
        r = []
        for s, iv in prev:
            if t == 'w': r.extend(self.dom_add(s, iv, 0, c[2], node))
            elif t == 'd': r.extend(self.dom_del(s, iv, 0, c[2], node))
            else:
                outs = [(s, iv)]
                for k, _ in c[4]:
                    cc, dd = aff(k); js = c[3]
                    b = dd.get(js, 0)
                    rest = mk(cc, {x: y for x, y in dd.items() if x != js})
                    if contains(rest, lambda x: x == js) or b not in (1, -1, 0): return None
                    if b == 1: lo, hi = rest, add(rest, c[2])
                    elif b == -1: lo, hi = add(sub(rest, c[2]), I(1)), add(rest, I(1))
                    else: lo, hi = rest, add(rest, I(1))
                    nxt = []
                    for s2, iv2 in outs: nxt.extend(self.dom_merge(s2, iv2, 0, lo, hi, node))
                    outs = nxt
                r.extend(outs)
        return r

    def dom_add(self, st, iv, i, key, node):
        if i >= len(iv): return [(st, iv + ((key, add(key, I(1))),))]
        lo, hi = iv[i]
        rep = lambda a, b: iv[:i] + ((a, b),) + iv[i + 1:]
        r = []
        for s, ge in self.i.split_ge0(st, sub(key, lo), node):
            if ge:
                for s2, lt in self.i.split_ge0(s, sub(sub(hi, I(1)), key), node):
                    if lt: r.append((s2, iv)); continue
                    for s3, eq in self.i.split_eqi(s2, sub(key, hi), node):
                        if eq: r.append((s3, rep(lo, add(hi, I(1)))))
                        else: r.extend(self.dom_add(s3, iv, i + 1, key, node))
            else:
                for s3, eq in self.i.split_eqi(s, sub(key, sub(lo, I(1))), node):
                    if eq: r.append((s3, rep(sub(lo, I(1)), hi)))
                    else: r.extend(self.dom_add(s3, iv, i + 1, key, node))
        return r

    def dom_del(self, st, iv, i, key, node):
        if i >= len(iv): return [(st, iv)]
        lo, hi = iv[i]
        rep = lambda *x: iv[:i] + x + iv[i + 1:]
        r = []
        for s, ge in self.i.split_ge0(st, sub(key, lo), node):
            if not ge: r.extend(self.dom_del(s, iv, i + 1, key, node)); continue
            for s2, lt in self.i.split_ge0(s, sub(sub(hi, I(1)), key), node):
                if not lt: r.extend(self.dom_del(s2, iv, i + 1, key, node)); continue
                for s3, eq in self.i.split_eqi(s2, sub(key, lo), node):
                    if eq: r.append((s3, rep((add(lo, I(1)), hi)))); continue
                    for s4, eq2 in self.i.split_eqi(s3, sub(key, sub(hi, I(1))), node):
                        if eq2: r.append((s4, rep((lo, sub(hi, I(1))))))
                        else: r.append((s4, rep((lo, key), (add(key, I(1)), hi))))
        return r

    def dom_merge(self, st, iv, i, lo, hi, node):
        r = []
        for s, ne in self.i.split_ge0(st, sub(sub(hi, lo), I(1)), node):
            if not ne: r.append((s, iv)); continue
            if i >= len(iv): r.append((s, iv + ((lo, hi),))); continue
            a, b = iv[i]
            for s2, t1 in self.i.split_ge0(s, sub(b, lo), node):
                if not t1: r.extend(self.dom_merge(s2, iv, i + 1, lo, hi, node)); continue
                for s3, t2 in self.i.split_ge0(s2, sub(hi, a), node):
                    if not t2: r.extend(self.dom_merge(s3, iv, i + 1, lo, hi, node)); continue
                    for s4, x in self.i.split_ge0(s3, sub(lo, a), node):
                        nlo = a if x else lo
                        for s5, y in self.i.split_ge0(s4, sub(b, hi), node):
                            nhi = b if y else hi
                            r.append((s5, iv[:i] + ((nlo, nhi),) + iv[i + 1:]))
        return r

    def ivlen(self, iv):
        n = I(0)
        for lo, hi in iv: n = add(n, sub(hi, lo))
        return n

    def c_len(self, st, c, node=None):
        t = c[0]
        if t == 'ec': return [(st, I(0))]
        if t == 'lb': return [(st, c[3])]
        if t == 'abs' and extern(c[1])[0] == 'aseq': return [(st, self.ls_len(st, extern(c[1])[1]))]
        if t == 'abs' and c[2] == 'els': return [(st, self.i.contract.content_len(extern(c[1])))]
        if t == 'cb': 
            n = ('s', c[1], 'n')
            if c[2] == 'els': return [(st, n)]
            m = ('s', c[1], 'ni')
            st.add(m); st.add(sub(n, m))
            return [(st, m)]
        if t in ('w', 'd'):
            d = self.dom(st, c, node) if not self.nodelike(c) else None
            if d is not None: return [(s, self.ivlen(iv)) for s, iv in d]
            r = []
            for s, v in self.c_get(st, c[1], c[2], node):
                if isinstance(v, Raise): r.append((s, v)); continue
                for s2, n in self.c_len(s, c[1], node):
                    if t == 'w': r.append((s2, n if v is not None else add(n, I(1))))
                    else: r.append((s2, add(n, I(-1)) if v is not None else n))
            return r
        if t == 'lw':
            d = self.dom(st, c, node)
            if d is not None: return [(s, self.ivlen(iv)) for s, iv in d]
        u = st.unknown('length of a generalised trie')
        st.add(u)
        return [(st, u)]

    def kv(self, st, c, key, node):
        """The (key, value) pair of an existing key."""
        r = []
        for s, v in self.c_get(st, c, key, node):
            if v is None: continue
            r.append((s, v if isinstance(v, Raise) else ('tup', (key, v))))
        return r

    def trie_phases(self, st, c, node):
        from .loops import Phase
        I_ = self.i
        if not self.nodelike(c) and self.base_of(c)[0] != 'hv':
            d = self.dom(st, c, node)
            if d is not None:
                r = []
                for s, iv in d:
                    r.extend((s2, ph) for s2, ph in self.iv_phases(s, c, iv, node))
                return r
        b = self.base_of(c)
        if b[0] == 'abs' and c == b and c[2] == 'els' and self.i.contract is not None:
            return [(st, self.i.contract.node_phases(st, extern(c[1])))]
        if b[0] == 'cb':
            if b[2] != 'els': 
                n = ('s', b[1], 'ni'); st.add(n)
                return [(st, [Phase(n, lambda s, j: [(s, ('tup', (('t', 'hk', b[1], j), ('t', 'head', b[1], ('t', 'hk', b[1], j)))))], 'trie')])]
            name, kind = b[1], b[3]
            n = ('s', name, 'n')
            removed = []; added = []
            x = c
            outs = [(st, (), I(0))]
            # which written keys are new, which base nodes are gone
            chain = []
            while x != b:
                if x[0] == 'lw': st.imprecise('iteration over a loop-written trie'); break
                chain.append(x); x = x[1]
            chain.reverse()
            r = []
            outs = [(st, (), 0)]
            for x in chain:
                nxt = []
                for s, new, gone in outs:
                    for s2, v in self.c_get(s, x[1], x[2], node):
                        if isinstance(v, Raise): continue
                        if x[0] == 'w':
                            nxt.append((s2, new if v is not None else new + (x[2],), gone))
                        else:
                            if x[2] in new: nxt.append((s2, tuple(k for k in new if k != x[2]), gone))
                            else: nxt.append((s2, new, gone + (1 if v is not None else 0)))
                outs = nxt
            for s, new, gone in outs:
                nm = n if not gone else add(n, I(-gone))
                tag = name if not gone else (name, 'without', gone)
                def at(s2, j, tag=tag, gone=gone):
                    k = ('t', 'nd', tag, j)
                    return self.kv(s2, c, k, node)
                ph = [Phase(nm, at, 'trie')]
                for k in new: ph.append(Phase(I(1), (lambda k: lambda s2, j: self.kv(s2, c, k, node))(k), 'it'))
                r.append((s, ph))
            return r
        st.imprecise('iteration over a generalised trie')
        samples = []
        x = c
        while x[0] in ('w', 'd', 'lw', 'hv'):
            if x[0] == 'w': samples.append(x[3])
            if x[0] == 'lw': samples.extend(v for _, v in x[4])
            if x[0] == 'hv': samples.extend(x[2]); x = x[3]; continue
            x = x[1]
        base = x
        def at(s, j):
            r = []
            for v in samples:
                s2 = s.fork(); r.append((s2, ('tup', (('t', 'anykey', c, j), v))))
            if base[0] == 'cb' and base[2] == 'els':
                s2 = s.fork(); r.append((s2, ('tup', (('t', 'nd', base[1], j), self.elval(base[1], base[3], ('t', 'nd', base[1], j))))))
            elif base[0] == 'lb':
                s2 = s.fork(); r.append((s2, ('tup', (add(base[2], j), ('t', 'at', base[1], ('t', 'anyidx', j))))))
            if not r: r.append((s, ('tup', (s.unknown('key'), s.unknown('value')))))
            return r
        return [(st, [Phase(None, at, 'trie')])]

    def iv_phases(self, st, c, iv, node):
        """Iteration order of a trie with integer keys: 0, 1, ... then the
        negative keys in ascending order."""
        from .loops import Phase
        I_ = self.i
        def at_from(lo):
            return lambda s, j: self.kv(s, c, add(lo, j), node)
        pos = [(st, [], [])]
        for lo, hi in iv:
            nxt = []
            for s, P, N in pos:
                for s2, ge in I_.split_ge0(s, lo, node):
                    if ge: nxt.append((s2, P + [(lo, hi)], N)); continue
                    for s3, neg in I_.split_ge0(s2, scale(hi, -1), node):
                        if neg: nxt.append((s3, P, N + [(lo, hi)]))
                        else: nxt.append((s3, P + [(I(0), hi)], N + [(lo, I(0))]))
            pos = nxt
        r = []
        for s, P, N in pos:
            for s2, P2 in self.sort_iv(s, P, node):
                for s3, N2 in self.sort_iv(s2, N, node):
                    r.append((s3, [Phase(sub(hi, lo), at_from(lo), 'trie') for lo, hi in P2 + N2]))
        return r

    def sort_iv(self, st, ivs, node):
        if len(ivs) <= 1: return [(st, ivs)]
        r = []
        for s, rest in self.sort_iv(st, ivs[1:], node):
            outs = [(s, 0)]
            x = ivs[0]
            done = []
            for pos in range(len(rest) + 1):
                nxt = []
                for s1, _ in outs:
                    if pos == len(rest): done.append((s1, rest + [x])); continue
                    for s2, ge in self.i.split_ge0(s1, sub(x[0], rest[pos][0]), node):
                        if ge: nxt.append((s2, 0))
                        else: done.append((s2, rest[:pos] + [x] + rest[pos:]))
                outs = nxt
            r.extend(done)
        return r

    # trie operations
    def badkey(self, st, k, node):
        """The crash of a trie key that is no integer, or None."""
        t = self.i.ptype(st, k)
        if t in ('int', 'bool', 'any') or (t is None and not (k[0] == 't' and k[1] in ('el', 'key', 'val', 'at', 'ke', 'kv', 'klz', 'forced'))): return None
        if self.i.isa(st, k, 'int') is True: return None
        return self.i.crash(st, 'TypeError', node, f'a trie key must be an integer, not {show(k)}')

    def t_write(self, st, ref, key, val, node):
        bad = self.badkey(st, key, node)
        if bad is not None: return [(st, bad)]
        st.event('TW', self.i.site(node, st), ref, key, val)
        st.put(ref, 'c', ('w', st.get(ref, 'c'), key, val))
        self.bump(st, ref)
        return [(st, NONE)]

    def bump(self, st, ref):
        st.put(ref, 'ver', add(st.get(ref, 'ver', I(0)), I(1)))
        m = st.x.get('$mut', 0)
        st.x['$mut'] = m + 1 if isinstance(m, int) else m

    def t_del(self, st, ref, key, node):
        bad = self.badkey(st, key, node)
        if bad is not None: return [(st, bad)]
        r = []
        for s, v in self.c_get(st, st.get(ref, 'c'), key, node):
            if isinstance(v, Raise): r.append((s, v)); continue
            if v is None: r.append((s, self.i.exc(s, 'KeyError', 'internal', node, f'trie key {show(key)} is missing'))); continue
            s.event('TW', self.i.site(node, s), ref, key, None)
            s.put(ref, 'c', ('d', s.get(ref, 'c'), key))
            self.bump(s, ref)
            r.append((s, NONE))
        return r

    # --------------------------------------------------------------- list helper
    def ls_len(self, st, ls):
        n = I(0)
        for p in ls:
            if p[0] == 'it': n = add(n, I(1))
            elif p[0] == 'lp': n = add(n, scale(p[1], max(len(p[3]), 1)))
            elif p[0] == 'sorted': n = add(n, p[1])
            else:
                u = ('t', 'len', ('t', 'list', (p,)))
                st.imprecise('length of a generalised list')
                st.add(u); n = add(n, u)
        return n

    def len_of(self, st, v):
        """Length of an opaque or builtin value (an int value)."""
        if v[0] == 'tup': return I(len(v[1]))
        if v[0] == 'k' and v[1] == 'str': return I(len(v[2]))
        if v[:2] == ('t', 'str'):
            n = I(0)
            for x in v[2]: n = add(n, self.len_of(st, x))
            return n
        if v[0] == 't':
            if v[1] == 'bdict' :
                if _ls_items(v[2]) is not None: return I(len(v[2]))
            if v[1] == 'tuple': return self.ls_len(st, v[2])
            if v[1] == 'bset':
                it = _ls_items(v[3])
                if it is not None and len(it) <= 1: return I(len(it))
                n = ('t', 'len', v)
                st.add(n)
                m = self.ls_len(st, v[3])
                st.add(sub(m, n))
                return n
            if v[1] in ('ditems', 'dkeysv', 'dvalues'): return self.len_of(st, v[2])
        n = ('t', 'len', v)
        st.add(n)
        return n

    def unpk(self, v, i, n):
        if v[0] == 't' and v[1] == 'item' and v[2][0] == 't' and v[2][1] == 'ditems':
            d = v[2][2]; k = ('t', 'item', d, v[3])
            return k if i == 0 else ('t', 'sub', d, k)
        return ('t', 'unpk', v, i, n)

    def to_str(self, st, v, how, node):
        """str() / repr() of a value."""
        I_ = self.i
        if istext(v) and how == 'str': return [(st, v)]
        if v[:2] == ('k', 'str'): return [(st, ('k', 'str', repr(v[2])))]
        if cint(v) is not None: return [(st, ('k', 'str', str(cint(v))))]
        if v[0] == 'r' and st.cls(v) in self.p.classes:
            for meth in (('__str__', '__repr__') if how == 'str' else ('__repr__',)):
                o, f = self.p.lookup(st.cls(v), meth)
                if o is not None and f[0] == 'fn':
                    def res(s, w):
                        t = I_.ptype(s, w)
                        if t == 'str': return [(s, w)]
                        if t is None or t in ('any', 'other') or w[0] == 'u': return [(s, ('t', 'text', how, w))]
                        return [(s, I_.crash(s, 'TypeError', node, f'{meth} returned non-string ({show(w)})'))]
                    return I_.bind(I_.call(f, (v,), {}, st, node), res)
            return [(st, ('t', 'text', how, v))]
        if v[0] == 'r' and st.cls(v) == 'list':
            for p in st.get(v, 'ls'):
                for x in ((p[1],) if p[0] == 'it' else p[3] if p[0] == 'lp' else ()):
                    st.event('STR', I_.site(node, st), x)
            return [(st, ('t', 'text', how, v))]
        if v[0] in ('s', 't', 'phi') and I_.ptype(st, v) not in ('int', 'str', 'bool'):
            st.event('STR', I_.site(node, st), v)
        return [(st, ('t', 'text', how, v))]

    def join(self, st, sep, ls, node):
        """sep.join(elements)"""
        I_ = self.i
        for p in ls:
            for x in ((p[1],) if p[0] == 'it' else p[3] if p[0] == 'lp' else ()):
                t = I_.ptype(st, x)
                if t not in (None, 'any', 'other', 'str', 'elem') and x[0] not in ('u', 'phi'):
                    return [(st, I_.crash(st, 'TypeError', node, f'sequence item: expected str instance, {t} found'))]
        it = _ls_items(ls)
        if it is not None:
            parts = []
            for x in it:
                if parts: parts.append(sep)
                parts.append(x)
            return [(st, strcat(parts))] if all(istext(x) for x in parts) else [(st, ('t', 'join', sep, ls))]
        return [(st, ('t', 'join', sep, ls))]

    # ------------------------------------------------------------------ lists
    def list_ls(self, st, ref): return st.get(ref, 'ls')

    def ls_index(self, st, ls, k, node):
        """Element k >= 0 of a list description: [(st, value | None)]"""
        outs = []
        cur = [(st, k)]
        for p in ls:
            nxt = []
            for s, i in cur:
                if p[0] == 'it':
                    for s2, eq in self.i.split_eqi(s, i, node):
                        if eq: outs.append((s2, p[1]))
                        elif s2.entails(add(i, I(-1))): nxt.append((s2, add(i, I(-1))))
                        else: outs.append((s2, None))
                elif p[0] == 'lp' and len(p[3]) == 1:
                    for s2, ge in self.i.split_ge0(s, sub(sub(p[1], I(1)), i), node):
                        if ge: outs.append((s2, subst(p[3][0], {p[2]: i})))
                        else: nxt.append((s2, sub(i, p[1])))
                elif p[0] == 'sorted':
                    for s2, ge in self.i.split_ge0(s, sub(sub(p[1], I(1)), i), node):
                        if ge: outs.append((s2, ('t', 'srt', p, i)))
                        else: nxt.append((s2, sub(i, p[1])))
                else:
                    outs.append((s, s.unknown('element of a generalised list')))
            cur = nxt
        for s, i in cur: outs.append((s, None))
        return outs

    def ls_samples(self, ls):
        out = []
        for p in ls:
            if p[0] == 'it': out.append(p[1])
            elif p[0] in ('lp', 'sorted'): out.extend(p[3])
            elif p[0] == 'hv': out.extend(p[2])
        return tuple(dict.fromkeys(out))

    def rev_ls(self, st, ls):
        out = []
        for p in reversed(ls):
            if p[0] == 'lp' and len(p[3]) == 1:
                out.append(('lp', p[1], p[2], (subst(p[3][0], {p[2]: sub(sub(p[1], I(1)), p[2])}),)))
            elif p[0] == 'it': out.append(p)
            else:
                st.imprecise('reversed list'); out.append(('hv', 0, self.ls_samples((p,))))
        return tuple(out)

    def newlist(self, st, ls, node): return st.new('list', {'ls': tuple(ls)}, self.i.site(node, st))

    def list_method(self, st, ref, name, args, kw, node, ret=None):
        I_ = self.i
        ls = st.get(ref, 'ls')
        if name == 'append':
            st.put(ref, 'ls', ls + (('it', args[0]),)); return [(st, NONE)]
        if name == 'extend' or name == '__iadd__':
            if args[0][0] == 'r' and args[0] == ref:
                st.put(ref, 'ls', ls + ls); return [(st, ret or NONE)]
            def f(s, more):
                s.put(ref, 'ls', s.get(ref, 'ls') + more); return [(s, ret or NONE)]
            return I_.bind(I_.l.collect(st, args[0], node), f)
        if name == 'insert':
            if cint(args[0]) == 0: st.put(ref, 'ls', (('it', args[1]),) + ls); return [(st, NONE)]
            it = _ls_items(ls); c = cint(args[0])
            if it is not None and c is not None:
                l2 = list(it); l2.insert(c, args[1]); st.put(ref, 'ls', tuple(('it', x) for x in l2)); return [(st, NONE)]
            st.imprecise('list.insert'); st.put(ref, 'ls', (('hv', 0, self.ls_samples(ls) + (args[1],)),)); return [(st, NONE)]
        if name == 'pop':
            k = args[0] if args else I(-1)
            if cint(k) == -1 and ls and ls[-1][0] == 'it':
                st.put(ref, 'ls', ls[:-1]); return [(st, ls[-1][1])]
            if cint(k) == 0 and ls and ls[0][0] == 'it':
                st.put(ref, 'ls', ls[1:]); return [(st, ls[0][1])]
            if not ls: return [(st, I_.crash(st, 'IndexError', node, 'pop from empty list'))]
            if cint(k) == -1 and ls[-1][0] == 'lp' and len(ls[-1][3]) == 1:
                p = ls[-1]; r = []
                for s, ge in I_.split_ge0(st, sub(p[1], I(1)), node):
                    if not ge: r.append((s, I_.crash(s, 'IndexError', node, 'pop from empty list'))); continue
                    s.put(ref, 'ls', ls[:-1] + (('lp', sub(p[1], I(1)), p[2], p[3]),))
                    r.append((s, subst(p[3][0], {p[2]: sub(p[1], I(1))})))
                return r
            st.imprecise('list.pop')
            st.put(ref, 'ls', (('hv', 0, self.ls_samples(ls)),))
            return [(s, v) for s, v in ((st.fork(), x) for x in self.ls_samples(ls))] or [(st, st.unknown('list.pop'))]
        if name == 'reverse': st.put(ref, 'ls', self.rev_ls(st, ls)); return [(st, NONE)]
        if name == 'clear': st.put(ref, 'ls', ()); return [(st, NONE)]
        if name == 'copy': return [(st, self.newlist(st, ls, node))]
        if name == 'sort':
            return I_.bind(self.sort_ls(st, ls, kw, node), lambda s, l2: (s.put(ref, 'ls', l2), [(s, NONE)])[1])
        if name in ('__getitem__',): return self.getitem(st, ref, args[0], node)
        if name == '__setitem__': return self.setitem(st, ref, args[0], args[1], node)
        if name == '__len__': return [(st, self.ls_len(st, ls))]
        if name == '__contains__': return I_.cmp_in(st, args[0], ref, node)
        if name == '__iter__': return self.mkiter(st, ('S', 'lsref', ref), node)
        if name in ('count', 'index', 'remove') and I_.contract is not None:
            return I_.call(self.p.help['list_' + name], (ref,) + tuple(args), kw, st, node)
        if name == 'count':
            st.event('EQ', I_.site(node, st), args[0], ref)
            n = ('t', 'len', ('t', 'count', ref, args[0])); st.add(n)
            return [(st, n)]
        if name in ('index', 'remove'):
            st.event('EQ', I_.site(node, st), args[0], ref)
            b = st.fork()
            b.imprecise('list.' + name)
            r = [(b, I_.exc(b, 'ValueError', 'raise', node, 'not in list'))]
            if name == 'remove': st.put(ref, 'ls', (('hv', 0, self.ls_samples(ls)),)); st.imprecise('list.remove'); r.append((st, NONE))
            else: st.imprecise('list.index'); r.append((st, st.unknown('list.index')))
            return r
        return [(st, st.unknown('list.' + name))]

    def sort_ls(self, st, ls, kw, node):
        I_ = self.i
        key = kw.get('key', NONE); rev = kw.get('reverse', FALSE)
        n = self.ls_len(st, ls)
        if not ls: return [(st, ())]
        for x in self.ls_samples(ls): st.event('LT', I_.site(node, st), x, x)
        return [(st, (('sorted', n, 0, self.ls_samples(ls), ls, key, rev),))]

    # -------------------------------------------------------------- attributes
    LISTM = {'append', 'extend', 'insert', 'pop', 'reverse', 'clear', 'copy', 'sort', 'count', 'index', 'remove',
             '__getitem__', '__setitem__', '__len__', '__contains__', '__iter__', '__iadd__', '__delitem__', '__reversed__'}

    def obj_attr(self, st, v, name, node, default):
        """Attribute of a heap object that is not an instance of a repo class."""
        I_ = self.i
        c = st.cls(v)
        if c in ('set', 'frozenset', 'oset', 'dict', 'aview') and I_.prims: return [(st, ('bim', '$abs.' + name, v))]
        if c == 'list':
            if name in self.LISTM: return [(st, ('bim', 'list.' + name, v))]
        elif c == 'THAMT':
            if name in ('persistent', 'get', '__len__', '__iter__', '__getitem__', '__setitem__', '__delitem__', '__contains__'):
                return [(st, ('bim', 'THAMT.' + name, v))]
        elif c == 'partial':
            m = {'func': 'fn', 'args': 'args', 'keywords': 'kw'}
            if name in m:
                x = st.get(v, m[name])
                if name == 'args': x = ('tup', tuple(x))
                if name == 'keywords': x = ('t', 'bdict', tuple(('it', ('tup', (('k', 'str', a), b))) for a, b in x.items()))
                return [(st, x)]
        elif c in ('RLock', 'Lock'):
            if name in ('acquire', 'release', '__enter__', '__exit__'): return [(st, ('bim', c + '.' + name, v))]
        elif c in ('iter', 'gen'):
            if name in ('__next__', '__iter__', 'send', 'close', 'throw'): return [(st, ('bim', 'iter.' + name, v))]
        if name in ('__eq__', '__ne__', '__hash__', '__repr__', '__str__', '__reduce__', '__reduce_ex__'):
            return [(st, ('bim', 'object.' + name, v))]
        if default is not None: return [(st, default)]
        return [(st, I_.crash(st, 'AttributeError', node, f"'{c}' object has no attribute '{name}'"))]

    def cls_attr(self, st, v, name, node):
        c = v[1]
        if c == 'PHAMT' and name == 'empty': return [(st, ('ph', ('ec',)))]
        if c == 'chain' and name == 'from_iterable': return [(st, ('bi', 'chain.from_iterable'))]
        if c in ('object', 'list', 'tuple', 'dict', 'set', 'frozenset', 'str', 'int', 'type', 'PHAMT', 'THAMT', 'float', 'bool') or c in BUILTIN_EXC:
            return [(st, ('bi', c + '.' + name))]
        return [(st, st.unknown(f'{c}.{name}'))]

    PHM = {'assoc', 'dissoc', 'get', 'transient', '__len__', '__iter__', '__getitem__', '__contains__'}
    NOATTR = {
        'set': {'add', 'discard', 'remove', 'pop', 'clear', 'copy', 'union', 'intersection', 'difference', 'symmetric_difference',
                'issubset', 'issuperset', 'isdisjoint', 'update', 'intersection_update', 'difference_update',
                'symmetric_difference_update'},
        'frozenset': {'copy', 'union', 'intersection', 'difference', 'symmetric_difference', 'issubset', 'issuperset', 'isdisjoint'},
        'oset': {'isdisjoint'},
        'list': LISTM, 'tuple': {'index', 'count'},
        'dict': {'keys', 'values', 'items', 'get', 'pop', 'popitem', 'setdefault', 'update', 'clear', 'copy'},
        'str': None, 'any': None, None: None, 'iterable': None,
    }

    def val_attr(self, st, v, name, node, default):
        I_ = self.i
        if v[0] == 'ph':
            if name in self.PHM: return [(st, ('bim', 'PHAMT.' + name, v))]
            return [(st, I_.crash(st, 'AttributeError', node, f"'PHAMT' object has no attribute '{name}'"))]
        if v == NONE:
            if default is not None: return [(st, default)]
            return [(st, I_.crash(st, 'AttributeError', node, f"'NoneType' object has no attribute '{name}'"))]
        t = I_.ptype(st, v)
        if I_.isa(st, v, 'lazy') or st.facts.get(('inst', v, 'lazy')):
            o, f = self.p.lookup('lazy', name)
            if o is not None: return [(st, ('bim', 'lazy.' + name, v))]
            if I_.in_slots('lazy', name): return [(st, ('t', 'lzattr', v, name))]
        if t == 'slice' or (v[0] == 't' and v[1] == 'slice'):
            if name == 'indices': return [(st, ('bim', 'slice.indices', v))]
            if name in ('start', 'stop', 'step'):
                if v[0] == 't' and v[1] == 'slice': return [(st, v[2 + ('start', 'stop', 'step').index(name)])]
                return [(st, ('t', 'slattr', v, name))]
        if t == 'int' and not name.startswith('__'):
            if name in ('real', 'numerator'): return [(st, v)]
            if name in ('imag', 'denominator'): return [(st, I('id'.index(name[0])))]
            if hasattr(int, name): return [(st, ('bim', 'opq.' + name, v))]
            if default is not None: return [(st, default)]
            return [(st, I_.crash(st, 'AttributeError', node, f"'int' object has no attribute '{name}'"))]
        if v[0] == 'exc':
            if name == 'args': return [(st, ('tup', v[5] if len(v) > 5 and v[5] else ()))]
            if name == 'with_traceback': return [(st, ('bim', 'exc.with_traceback', v))]
            return [(st, ('t', 'excattr', v[1], name))]
        if v[0] == 'S': return [(st, ('bim', 'iter.' + name, v))]
        ok = self.NOATTR.get(t, ())
        if name in ('__name__', '__qualname__', '__wrapped__', '__dict__', '__code__', '__self__', '__func__') and v[0] in ('s', 't') and t in (None, 'callable', 'any', 'other'):
            # not every object, nor every callable, has it
            s2 = st.fork(); r = []
            if I_.assume(st, ('hasattr', v, name), True): r.append((st, ('t', 'text', 'str', v) if name.endswith('name__') else ('t', 'attr', v, name)))
            if I_.assume(s2, ('hasattr', v, name), False):
                r.append((s2, default if default is not None else I_.crash(s2, 'AttributeError', node, f'not every {t or "object"} has {name}')))
            return r
        if ok is None or name in ok or name.startswith('__'):
            if default is not None and ok is None:
                s2 = st.fork()
                r = []
                if I_.assume(st, ('hasattr', v, name), True): r.append((st, ('bim', 'opq.' + name, v)))
                if I_.assume(s2, ('hasattr', v, name), False): r.append((s2, default))
                return r
            return [(st, ('bim', 'opq.' + name, v))]
        if default is not None: return [(st, default)]
        if t == 'other' or t == 'callable':
            return [(st, I_.exc(st, 'AttributeError', 'raise', node, name))]
        if t in self.NOATTR:
            return [(st, I_.crash(st, 'AttributeError', node, f"'{t}' object has no attribute '{name}'"))]
        return [(st, ('bim', 'opq.' + name, v))]

    # --------------------------------------------------------------- subscripts
    def getitem(self, st, v, k, node):
        I_ = self.i
        if v[0] == 'ph': return self.must_get(st, v[1], k, node)
        if v[0] == 'r' and st.cls(v) == 'THAMT': return self.must_get(st, st.get(v, 'c'), k, node)
        if v[0] == 'tup':
            if k[0] == 't' and k[1] == 'slice':
                c = [None if x == NONE else cint(x) for x in k[2:5]]
                if all(x == NONE or cint(x) is not None for x in k[2:5]): return [(st, ('tup', v[1][slice(*c)]))]
                return [(st, st.unknown('tuple slice'))]
            c = cint(k)
            if c is not None:
                if -len(v[1]) <= c < len(v[1]): return [(st, v[1][c])]
                return [(st, I_.crash(st, 'IndexError', node, 'tuple index out of range'))]
            return [(st, st.unknown('tuple index'))]
        ls = None
        if v[0] == 'r' and st.cls(v) == 'list': ls = st.get(v, 'ls')
        elif v[0] == 't' and v[1] == 'tuple': ls = v[2]
        if ls is not None:
            if k[0] == 't' and k[1] == 'slice':
                return [(st, self.newlist(st, self.ls_slice(st, ls, k), node))]
            n = self.ls_len(st, ls)
            if I_.ptype(st, k) not in ('int', 'bool', None, 'any'):
                return [(st, I_.crash(st, 'TypeError', node, 'list indices must be integers'))]
            r = []
            for s, ge in I_.split_ge0(st, k, node):
                kk = k if ge else add(k, n)
                if not ge:
                    for s1, ok in I_.split_ge0(s, kk, node):
                        if not ok: r.append((s1, I_.crash(s1, 'IndexError', node, 'list index out of range')))
                        else: r.extend(self.ls_at(s1, ls, kk, node))
                else: r.extend(self.ls_at(s, ls, kk, node))
            return r
        if v == NONE or v[0] in ('i', 'fn', 'bm'):
            return [(st, I_.crash(st, 'TypeError', node, f'{show(v)} is not subscriptable'))]
        if v[0] == 't' and v[1] == 'bdict':
            it = _ls_items(v[2])
            if it is not None and all(x[0] == 'tup' for x in it):
                outs = [(st, None)]
                for x in it:
                    nxt = []
                    for s, r0 in outs:
                        if r0 is not None: nxt.append((s, r0)); continue
                        for s2, w in I_.cmp_eq(s, x[1][0], k, node):
                            if isinstance(w, Raise): nxt.append((s2, w)); continue
                            for s3, b in I_.split(s2, w, node): nxt.append((s3, x[1][1] if b is True else None))
                    outs = nxt
                return [(s, v2 if v2 is not None else I_.exc(s, 'KeyError', 'raise', node)) for s, v2 in outs]
        if v[0] == 'S':
            if v[1] in ('range', 'slicerange'): return self.range_at(st, v, k, node)
            if v[1] in ('map', 'filter', 'zip', 'enumerate', 'chain', 'islice', 'rev'):
                return [(st, I_.crash(st, 'TypeError', node, f"'{v[1]}' object is not subscriptable"))]
            return [(st, st.unknown('item of a stream'))]
        if istext(v):
            x = self.fold_str('__getitem__', v, (k,)) if v[0] == 'k' else None
            return [(st, x if x is not None else ('t', 'sop', 'sub', v, k))]
        if v[0] == 't' and v[1] == 'bset':
            return [(st, I_.crash(st, 'TypeError', node, "'set' object is not subscriptable"))]
        if cint(k) is not None and v[0] in ('t', 's', 'phi') and I_.ptype(st, v) in (None, 'any', 'tuple') :
            # an item of an opaque pair
            if cint(k) in (0, 1): return [(st, self.unpk(v, cint(k), 2))]
        return I_.may_raise([(st, ('t', 'sub', v, k))], node)

    def must_get(self, st, c, k, node):
        I_ = self.i
        r = []
        if I_.ptype(st, k) not in ('int', 'bool', None) :
            if I_.ptype(st, k) != 'any':
                return [(st, I_.crash(st, 'TypeError', node, f'a trie key must be an integer, not {show(k)}'))]
        for s, v in self.c_get(st, c, k, node):
            if v is None: r.append((s, I_.exc(s, 'KeyError', 'internal', node, f'trie key {show(k)} is missing')))
            else: r.append((s, v))
        return r

    def ls_at(self, st, ls, k, node):
        return [(s, v if v is not None else self.i.crash(s, 'IndexError', node, 'list index out of range')) for s, v in self.ls_index(st, ls, k, node)]

    def ls_slice(self, st, ls, k):
        a, b, c = k[2:5]
        if a == NONE and b == NONE:
            if c == NONE or cint(c) == 1: return ls
            if cint(c) == -1: return self.rev_ls(st, ls)
        it = _ls_items(ls)
        if it is not None and all(x == NONE or cint(x) is not None for x in (a, b, c)):
            return tuple(('it', x) for x in it[slice(*[None if x == NONE else cint(x) for x in (a, b, c)])])
        st.imprecise('list slice')
        return (('hv', 0, self.ls_samples(ls)),)

    # ------------------------------------- dicts and sets that a function changes
    def mutable(self, st, v):
        """A dict or set value in a variable whose function changes it."""
        if v[1] == 'bdict': return st.new('$dict', {'ls': v[2]}, None)
        if v[2] != 'set': return v
        return st.new('$set', {'ls': v[3]}, None)

    def snapshot(self, st, v):
        if v[0] == 'r':
            c = st.cls(v) if v[1] in st.heap else None
            if c == '$dict': return ('t', 'bdict', st.get(v, 'ls'))
            if c == '$set': return ('t', 'bset', 'set', st.get(v, 'ls'))
        return v

    def dict_items(self, ls):
        """[(key, value)] with constant keys, or None."""
        it = _ls_items(ls)
        if it is None or not all(x[0] == 'tup' and len(x[1]) == 2 and x[1][0][0] in ('k', 'i', 'cls', 'fn') for x in it): return None
        return [x[1] for x in it]

    def own_method(self, st, v, m, a, kw, node):
        """A method that changes the dict or set of a local variable."""
        I_ = self.i
        ls = st.get(v, 'ls')
        def put(items): st.put(v, 'ls', tuple(('it', x) for x in items))
        if m == 'clear': st.put(v, 'ls', ()); return [(st, NONE)]
        if st.cls(v) == '$set':
            if m == 'add':
                st.event('HASH', I_.site(node, st), a[0])
                st.put(v, 'ls', ls + (('it', a[0]),))
                return I_.may_raise([(st, NONE)], node)
            if m == 'update':
                def f(s, more): s.put(v, 'ls', s.get(v, 'ls') + more); return [(s, NONE)]
                return I_.bind(I_.l.collect(st, a[0], node), f)
        else:
            d = self.dict_items(ls)
            if m == 'update' and d is not None:
                more = [(('k', 'str', k), x) for k, x in kw.items()]
                src = self.snapshot(st, a[0]) if a else ('t', 'bdict', ())
                first = self.dict_items(src[2]) if src[0] == 't' and src[1] == 'bdict' else None
                if first is not None:
                    for k, x in list(first) + more: d = self.put_key(d, k, x)
                    put([('tup', kv) for kv in d]); return [(st, NONE)]
            if m in ('pop', 'setdefault') and d is not None and a and a[0][0] in ('k', 'i', 'cls', 'fn'):
                hit = [x for k, x in d if k == a[0]]
                if m == 'pop':
                    put([('tup', kv) for kv in d if kv[0] != a[0]])
                    return [(st, hit[0] if hit else a[1] if len(a) > 1 else I_.exc(st, 'KeyError', 'raise', node))]
                x = hit[0] if hit else a[1] if len(a) > 1 else NONE
                if not hit: put([('tup', kv) for kv in d] + [('tup', (a[0], x))])
                return [(st, x)]
        st.imprecise('method ' + m + ' of a local ' + st.cls(v)[1:])
        st.put(v, 'ls', (('hv', 0, self.ls_samples(ls) + tuple(a)),))
        return I_.may_raise([(st, st.unknown(m))], node)

    def put_key(self, d, k, x):
        return [(q, x if q == k else y) for q, y in d] if any(q == k for q, _ in d) else list(d) + [(k, x)]

    def setitem(self, st, v, k, val, node):
        I_ = self.i
        if v[0] == 'r' and st.cls(v) == '$dict':
            ls = st.get(v, 'ls')
            d = self.dict_items(ls)
            if d is not None and (k[0] in ('k', 'i', 'cls', 'fn') or not d):
                st.put(v, 'ls', tuple(('it', ('tup', kv)) for kv in self.put_key(d, k, val)))
            else:
                st.imprecise('dict item assignment')
                st.put(v, 'ls', ls + (('it', ('tup', (k, val))),))
            st.event('HASH', I_.site(node, st), k)
            return I_.may_raise([(st, NONE)], node) if k[0] not in ('k', 'i', 'cls', 'fn') else [(st, NONE)]
        if v[0] == 'r' and st.cls(v) == 'THAMT': return self.t_write(st, v, k, val, node)
        if v[0] == 'r' and st.cls(v) == 'list':
            ls = st.get(v, 'ls'); it = _ls_items(ls); c = cint(k)
            if it is not None and c is not None:
                if -len(it) <= c < len(it):
                    l2 = list(it); l2[c] = val
                    st.put(v, 'ls', tuple(('it', x) for x in l2)); return [(st, NONE)]
                return [(st, I_.crash(st, 'IndexError', node, 'list assignment index out of range'))]
            st.imprecise('list item assignment')
            st.put(v, 'ls', (('hv', 0, self.ls_samples(ls) + (val,)),))
            return [(st, NONE)]
        if v[0] in ('ph', 'tup', 'k', 'i', 'cls', 'fn'):
            return [(st, I_.crash(st, 'TypeError', node, f'{I_.tname(st, v)} does not support item assignment'))]
        if v[0] == 't' and v[1] in ('bdict', 'bset'): st.imprecise('a dict is changed in place')
        st.event('SETU', I_.site(node, st), v, '[]')
        return [(st, NONE)]

    def delitem(self, st, v, k, node):
        I_ = self.i
        if v[0] == 'r' and st.cls(v) == '$dict':
            return [(s, x if isinstance(x, Raise) else NONE) for s, x in self.own_method(st, v, 'pop', (k,), {}, node)]
        if v[0] == 'r' and st.cls(v) == 'THAMT': return self.t_del(st, v, k, node)
        if v[0] == 'r' and st.cls(v) == 'list':
            ls = st.get(v, 'ls')
            it = _ls_items(ls); c = cint(k)
            if it is not None and c is not None and -len(it) <= c < len(it):
                l2 = list(it); del l2[c]; st.put(v, 'ls', tuple(('it', x) for x in l2)); return [(st, NONE)]
            st.imprecise('list item deletion')
            st.put(v, 'ls', (('hv', 0, self.ls_samples(ls)),))
            return [(st, NONE)]
        if v[0] in ('ph', 'tup', 'k', 'i'):
            return [(st, I_.crash(st, 'TypeError', node, f'{I_.tname(st, v)} does not support item deletion'))]
        if v[0] == 't' and v[1] in ('bdict', 'bset'): st.imprecise('a dict is changed in place')
        st.event('SETU', I_.site(node, st), v, '[]')
        return [(st, NONE)]

    # -------------------------------------------------------------- constructors
    def mkiter(self, st, src, node):
        return [(st, st.new('iter', {'src': src, 'pos': I(0)}, self.i.site(node, st)))]

    def construct(self, st, c, args, kw, node):
        I_ = self.i
        n = len(args)
        lo, hi = ARITY.get('new ' + c, (0, 99))
        if not lo <= n + len(kw) <= hi or (c == 'type' and n == 2):
            return [(st, I_.crash(st, 'TypeError', node, f'{c}() takes {lo}{"" if hi == lo else f" to {hi}"} arguments, not {n + len(kw)}'))]
        if c == 'THAMT':
            if n == 0: return [(st, st.new('THAMT', {'c': ('ec',), 'ver': I(0)}, I_.site(node, st)))]
            x = args[0]
            if x[0] == 'ph': return [(st, st.new('THAMT', {'c': x[1], 'ver': I(0)}, I_.site(node, st)))]
            if x[0] == 'u': 
                return [(st, st.new('THAMT', {'c': ('hv', 0, (), ('ec',)), 'ver': I(0)}, I_.site(node, st)))]
            return [(st, I_.crash(st, 'TypeError', node, f'THAMT() needs a PHAMT, not {I_.tname(st, x)}'))]
        if c == 'PHAMT':
            if n == 0: return [(st, ('ph', ('ec',)))]
            return [(st, st.unknown('PHAMT(...)'))]
        if c == 'object': return [(st, st.new('object', {}, I_.site(node, st)))]
        if c == 'super':
            if n == 2 and args[0][0] == 'cls':
                k, o = args[0][1], args[1]
                oc = o[1] if o[0] == 'cls' else st.cls(o) if o[0] == 'r' else None
                if k in self.p.classes and oc in self.p.classes and not self.p.issub(oc, k):
                    return [(st, I_.crash(st, 'TypeError', node, f'super({k}, {oc}): {oc} is not a subclass of {k}'))]
                return [(st, ('super', k, o))]
            return [(st, st.unknown('super'))]
        if c == 'type':
            if n == 1: return I_.getattr(st, args[0], '__class__', node)
            return [(st, st.unknown('type(...)'))]
        if c in ('list', 'tuple', 'set', 'frozenset'):
            if n == 0:
                if c == 'list': return [(st, self.newlist(st, (), node))]
                if c == 'tuple': return [(st, ('tup', ()))]
                if I_.contract is not None: return [(st, I_.contract.mk(st, c, ('aset', ()), True, node))]
                return [(st, ('t', 'bset', c, ()))]
            if c == 'tuple' and args[0][0] == 'tup': return [(st, args[0])]
            def f(s, ls):
                if c == 'list': return [(s, self.newlist(s, ls, node))]
                if c == 'tuple':
                    it = _ls_items(ls)
                    return [(s, ('tup', it) if it is not None else ('t', 'tuple', ls))]
                for x in self.ls_samples(ls): s.event('HASH', I_.site(node, s), x)
                if I_.contract is not None:
                    sm = self.ls_samples(ls)
                    if all(y[0] == 't' and y[1] == 'ke' for y in map(I_.contract.canon, sm)):
                        return I_.bind(I_.contract.as_set(s, ('S', 'ls', ls), node), lambda s2, con: [(s2, I_.contract.mk(s2, c, con, True, node))])
                return I_.may_raise([(s, ('t', 'bset', c, ls))], node)
            return I_.bind(I_.l.collect(st, args[0], node), f)
        if c == 'dict':
            if n == 0: return [(st, ('t', 'bdict', tuple(('it', ('tup', (('k', 'str', a), b))) for a, b in kw.items())))]
            a = args[0]
            def g(s, ls):
                if I_.contract is not None and not kw:
                    sm = self.ls_samples(ls)
                    if sm is not None and all(x[0] == 'tup' and len(x[1]) == 2 and (lambda k: k[0] == 't' and k[1] in ('ke', 'klz'))(I_.contract.canon(x[1][0])) for x in sm):
                        return I_.contract.as_dict(s, ls, node)
                return [(s, ('t', 'bdict', ls))]
            if a[0] == 'r' and I_.contract is not None and not kw and st.cls(a) == 'dict' and I_.contract.con(st, a) is not None:
                return [(st, I_.contract.mk(st, 'dict', I_.contract.con(st, a), True, node))]
            if a[0] == 't' and a[1] == 'bdict': return [(st, a)]
            if a[0] == 'r' and st.cls(a) in self.p.classes:
                o, f = self.p.lookup(st.cls(a), 'keys')
                if o is not None:
                    # dict(m): for k in m.keys(): d[k] = m[k]
                    def ks(s, kv):
                        def body(s2, k):
                            return I_.bind(I_.getitem(s2, a, k, node), lambda s3, v: [(s3, (('it', ('tup', (k, v))),))])
                        return I_.bind(I_.l.loop_collect(s, kv, node, body), g)
                    return I_.bind(I_.bind(I_.call(('bm', f, a), (), {}, st, node), lambda s, v: I_.l.get_iter(s, v, node)), ks)
            if I_.ptype(st, a) == 'dict':
                return I_.bind(I_.l.collect(st, ('t', 'ditems', a), node), g)
            return I_.bind(I_.l.collect(st, a, node), g)
        if c == 'str' or c == 'repr':
            if n == 0: return [(st, ('k', 'str', ''))]
            return self.to_str(st, args[0], 'repr' if c == 'repr' else 'str', node)
        if c == 'int':
            if n == 0: return [(st, I(0))]
            if args[0] in (TRUE, FALSE): return [(st, I(1 if args[0] == TRUE else 0))]
            if I_.ptype(st, args[0]) in ('int',): return [(st, args[0])]
            if args[0] == NONE: return [(st, I_.crash(st, 'TypeError', node, 'int(None)'))]
            return I_.may_raise([(st, self.typed(st, ('t', 'intof', args[0]), 'int'))], node)
        if c == 'bool':
            if n == 0: return [(st, FALSE)]
            return [(s, b if isinstance(b, Raise) else boolv(b)) for s, b in I_.split(st, args[0], node)]
        if c == 'slice':
            a = {1: (NONE, args[0], NONE), 2: args + (NONE,), 3: args}[n]
            return [(st, ('t', 'slice') + tuple(a))]
        if c == 'range':
            return self.mkrange(st, args, node)
        if c in ('map', 'filter', 'zip', 'enumerate', 'reversed', 'chain', 'islice', 'starmap', 'takewhile', 'dropwhile', 'repeat', 'count', 'accumulate'):
            return self.mkitertool(st, c, args, kw, node)
        if c == 'partial':
            return [(st, st.new('partial', {'fn': args[0], 'args': tuple(args[1:]), 'kw': dict(kw)}, I_.site(node, st)))]
        if c in ('RLock', 'Lock'): return [(st, st.new(c, {}, I_.site(node, st)))]
        if c in ('property', 'staticmethod', 'classmethod'):
            return [(st, ({'property': 'prop', 'staticmethod': 'sm', 'classmethod': 'cm'}[c], args[0]))]
        return [(st, st.unknown(f'{c}(...)'))]

    def typed(self, st, v, t):
        st.types[v] = t
        return v

    def mkrange(self, st, args, node):
        I_ = self.i
        if len(args) == 3 and all(a[0] == 't' and a[1] == 'sli' for a in args) and [a[4] for a in args] == [0, 1, 2] \
                and len({a[2:4] for a in args}) == 1:
            return [(st, ('S', 'slicerange', args[0][2], args[0][3]))]
        for a in args:
            if I_.ptype(st, a) not in ('int', 'bool', None) or a == NONE:
                if I_.ptype(st, a) in ('any',): continue
                return [(st, I_.crash(st, 'TypeError', node, f'range() argument {show(a)} is not an integer'))]
        if len(args) == 1: lo, hi, sp = I(0), args[0], I(1)
        elif len(args) == 2: lo, hi, sp = args[0], args[1], I(1)
        else: lo, hi, sp = args[:3]
        if cint(sp) == 0: return [(st, I_.exc(st, 'ValueError', 'raise', node, 'range() arg 3 must not be zero'))]
        if cint(sp) is None:
            r = []
            for s, z in I_.split_eqi(st, sp, node):
                if z: r.append((s, I_.exc(s, 'ValueError', 'raise', node, 'range() arg 3 must not be zero')))
                else: r.append((s, ('S', 'range', lo, hi, sp)))
            return r
        return [(st, ('S', 'range', lo, hi, sp))]

    def range_len(self, st, v, node):
        """The number of elements of range(lo, hi, step): (state, int)."""
        lo, hi, sp = v[2:]; c = cint(sp)
        if c and cint(lo) is not None and cint(hi) is not None: return [(st, I(len(range(cint(lo), cint(hi), c))))]
        if c is None: return [(st, st.unknown('range step'))]
        d = sub(hi, lo) if c > 0 else sub(lo, hi)
        r = []
        for s, ge in self.i.split_ge0(st, d, node):
            if not ge: r.append((s, I(0))); continue
            if abs(c) == 1: r.append((s, d)); continue
            n = ('t', 'rangelen', lo, hi, I(c)); a = abs(c)
            if s.add(sub(scale(n, a), d)) and s.add(sub(add(d, I(a - 1)), scale(n, a))): r.append((s, n))
        return r

    def range_at(self, st, v, k, node):
        """range(lo, hi, step)[k]."""
        I_ = self.i
        if v[1] == 'slicerange':
            n = ('t', 'slen', v[2], v[3]); st.add(n)
            lens = [(st, n)]
            def at(s, j):
                x = ('t', 'sidx', v[2], v[3], j)
                s.add(x); s.add(add(sub(v[3], x), I(-1)))
                return x
        else:
            lens = None
            lo, sp = v[2], cint(v[4])
            at = lambda s, j: add(lo, scale(j, sp))
        if I_.ptype(st, k) not in ('int', 'bool', None, 'any') or k[0] == 't' and k[1] == 'slice': return [(st, st.unknown('range item'))]
        r = []
        for s, n in lens or self.range_len(st, v, node):
            if n[0] == 'u': r.append((s, n)); continue
            bad = lambda z: r.append((z, I_.crash(z, 'IndexError', node, 'range object index out of range')))
            for s1, ge in I_.split_ge0(s, k, node):
                j = k if ge else add(k, n)
                for s2, ok in I_.split_ge0(s1, sub(sub(n, I(1)), j) if ge else j, node):
                    if ok: r.append((s2, at(s2, j)))
                    else: bad(s2)
        return r

    def range_in(self, st, x, v, node):
        """x in range(lo, hi, ±1)."""
        lo, hi, c = v[2], v[3], cint(v[4])
        if c == -1: lo, hi = add(hi, I(1)), add(lo, I(1))
        r = []
        for s, ge in self.i.split_ge0(st, sub(x, lo), node):
            if not ge: r.append((s, FALSE)); continue
            for s2, lt in self.i.split_ge0(s, sub(sub(hi, x), I(1)), node): r.append((s2, boolv(lt)))
        return r

    def mkitertool(self, st, c, args, kw, node):
        I_ = self.i
        def src_all(s, vals):
            outs = [(s, ())]
            for v in vals:
                nxt = []
                for s1, acc in outs:
                    if isinstance(acc, Raise): nxt.append((s1, acc)); continue
                    for s2, x in I_.l.get_iter(s1, v, node):
                        nxt.append((s2, x if isinstance(x, Raise) else acc + (x,)))
                outs = nxt
            return outs
        def it(s, src): return self.mkiter(s, src, node)
        if c == 'map':
            return I_.bind(src_all(st, args[1:]), lambda s, x: it(s, ('S', 'map', args[0], x)))
        if c == 'filter':
            return I_.bind(src_all(st, args[1:]), lambda s, x: it(s, ('S', 'filter', args[0], x[0])))
        if c == 'zip':
            return I_.bind(src_all(st, args), lambda s, x: it(s, ('S', 'zip', x)))
        if c == 'enumerate':
            start = args[1] if len(args) > 1 else kw.get('start', I(0))
            return I_.bind(src_all(st, args[:1]), lambda s, x: it(s, ('S', 'enum', x[0], start)))
        if c == 'chain':
            return I_.bind(src_all(st, args), lambda s, x: it(s, ('S', 'chain', x)))
        if c == 'islice':
            a = args[1:]
            lo, hi, sp = (I(0), a[0], I(1)) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else I(1))
            if lo == NONE: lo = I(0)
            if sp == NONE: sp = I(1)
            # negative arguments raise ValueError
            outs = [(st, True)]
            for x in (lo, hi):
                if x == NONE: continue
                nxt = []
                for s, ok in outs:
                    if ok is not True: nxt.append((s, ok)); continue
                    for s2, b in I_.split_ge0(s, x, node):
                        nxt.append((s2, True if b else I_.crash(s2, 'ValueError', node, 'islice() bounds must not be negative')))
                outs = nxt
            return I_.bind(outs, lambda s0, _: I_.bind(src_all(s0, args[:1]), lambda s, x: it(s, ('S', 'islice', x[0], lo, hi, sp))))
        if c == 'reversed':
            v = args[0]
            if v[0] == 'r' and st.cls(v) in self.p.classes:
                r = I_.special(st, v, '__reversed__', (), node)
                if r is not None: return r
                o1, _ = self.p.lookup(st.cls(v), '__len__'); o2, _ = self.p.lookup(st.cls(v), '__getitem__')
                if o1 and o2:
                    def f(s, n):
                        return it(s, ('S', 'map', ('bm', self.p.lookup(s.cls(v), '__getitem__')[1], v), (('S', 'range', sub(n, I(1)), I(-1), I(-1)),)))
                    return I_.bind(self.builtin_len(st, v, node), f)
                return [(st, I_.crash(st, 'TypeError', node, f"'{st.cls(v)}' object is not reversible"))]
            if v[0] == 'r' and st.cls(v) == 'list': return it(st, ('S', 'ls', self.rev_ls(st, st.get(v, 'ls'))))
            if v[0] == 'tup': return it(st, ('S', 'ls', tuple(('it', x) for x in reversed(v[1]))))
            if v[0] == 'S' and v[1] in ('range', 'slicerange'): return it(st, ('S', 'rev', v))
            if v[0] in ('r', 'ph', 'k', 'i') or (v[0] == 't' and v[1] == 'bset'):
                return [(st, I_.crash(st, 'TypeError', node, f"'{I_.tname(st, v)}' object is not reversible"))]
            t = I_.ptype(st, v)
            if t in ('set', 'frozenset', 'oset', 'int'):
                return [(st, I_.crash(st, 'TypeError', node, f"'{t}' object is not reversible"))]
            if I_.prims:
                r = I_.prims(st, v, '__reversed__', (), {}, node)
                if r is not None: return r
            return it(st, ('S', 'rev', ('S', 'opq', v)))
        st.imprecise(c)
        return it(st, ('S', c))

    # ------------------------------------------------------------------ builtins
    def builtin_len(self, st, v, node):
        I_ = self.i
        if v[0] == 'r':
            c = st.cls(v)
            if c in self.p.classes:
                r = I_.special(st, v, '__len__', (), node)
                if r is not None: return r
                return [(st, I_.crash(st, 'TypeError', node, f"object of type '{c}' has no len()"))]
            if c == 'list': return [(st, self.ls_len(st, st.get(v, 'ls')))]
            if c == 'THAMT': return self.c_len(st, st.get(v, 'c'), node)
            if c in ('set', 'frozenset', 'oset', 'dict', 'aview') and I_.prims:
                r = I_.prims(st, v, '__len__', (), {}, node)
                if r is not None: return r
            return [(st, I_.crash(st, 'TypeError', node, f"object of type '{c}' has no len()"))]
        if v[0] == 'ph': return self.c_len(st, v[1], node)
        if v[0] in ('i', 'fn', 'bm', 'cls') or v == NONE:
            return [(st, I_.crash(st, 'TypeError', node, f'object {show(v)} has no len()'))]
        if v[0] == 'S':
            if v[1] == 'range': return self.range_len(st, v, node)
            if v[1] in ('map', 'filter', 'zip', 'enumerate', 'chain', 'islice', 'rev'):
                return [(st, I_.crash(st, 'TypeError', node, f"object of type '{v[1]}' has no len()"))]
            if v[1] in ('ls',): return [(st, self.ls_len(st, v[2]))]
            r = []
            for s, ph in I_.l.phases(st, v, node):
                if isinstance(ph, Raise): r.append((s, ph)); continue
                n = I(0)
                for p in ph: n = add(n, p.n) if p.n is not None else s.unknown('len')
                r.append((s, n))
            return r
        if I_.prims:
            r = I_.prims(st, v, '__len__', (), {}, node)
            if r is not None: return r
        t = I_.ptype(st, v)
        if t in ('iter', 'iterable', 'other', 'callable', 'int', 'slice'):
            if t in ('iterable', 'other'): return [(st, I_.exc(st, 'TypeError', 'nolen', node, 'the argument has no len()'))]
            return [(st, I_.crash(st, 'TypeError', node, f"object of type '{t}' has no len()"))]
        return [(st, self.len_of(st, v))]

    def hash_(self, st, v, node):
        I_ = self.i
        if v[0] == 'r' and st.cls(v) in self.p.classes:
            o, f = self.p.lookup(st.cls(v), '__hash__')
            if o is not None and f == NONE:
                return [(st, I_.exc(st, 'TypeError', 'raise', node, 'unhashable type'))]
            o2, f2 = self.p.lookup(st.cls(v), '__eq__')
            r = I_.special(st, v, '__hash__', (), node)
            if r is not None: return r
            return [(st, ('t', 'hash', v))]
        if v[0] == 'r' and st.cls(v) == 'frozenset' and '$a' in st.heap[v[1]].f:
            return [(st, ('t', 'hash', ('t', 'fz', st.get(v, '$a'))))]
        if v[0] == 'r' and st.cls(v) in ('list', 'THAMT', 'set', 'dict'):
            return [(st, I_.crash(st, 'TypeError', node, f"unhashable type: '{st.cls(v)}'"))]
        if v[0] == 't' and v[1] in ('bdict',) or (v[0] == 't' and v[1] == 'bset' and v[2] == 'set'):
            return [(st, I_.crash(st, 'TypeError', node, 'unhashable type'))]
        st.event('HASH', I_.site(node, st), v)
        return I_.may_raise([(st, dict(st.x.get('$hash', ())).get(v, ('t', 'hash', v)))], node)

    def call_builtin(self, st, name, args, kw, node):
        I_ = self.i
        a = args
        n = len(args)
        lo, hi = ARITY.get(name, (0, 99))
        if not lo <= n <= hi:
            return [(st, I_.crash(st, 'TypeError', node, f'{name}() takes {lo}{"" if hi == lo else f" to {hi}" if hi < 99 else " or more"} arguments, not {n}'))]
        if name == 'len': return self.builtin_len(st, a[0], node)
        if name == 'isinstance': return I_.isinstance_(st, a[0], a[1], node)
        if name == 'issubclass':
            if a[0][0] == 'cls':
                cs = a[1][1] if a[1][0] == 'tup' else (a[1],)
                if all(c[0] == 'cls' for c in cs):
                    b = PYTYPE_BASES.get(a[0][1])
                    return [(st, boolv(any(self.p.issub(a[0][1], c[1]) if a[0][1] in self.p.classes or b is None else c[1] in b for c in cs)))]
            if a[0][0] == 't' and a[0][1] == 'type': return I_.isinstance_(st, a[0][2], a[1], node)
            return [(st, st.unknown('issubclass'))]
        if name == 'hash': return self.hash_(st, a[0], node)
        if name == 'iter':
            if n == 2: return [(st, st.unknown('iter(callable, sentinel)'))]
            v = a[0]
            if v[0] == 'r' and st.cls(v) in ('iter', 'gen'): return [(st, v)]
            if v[0] == 'r' and st.cls(v) in self.p.classes and not I_.prims:
                r = I_.special(st, v, '__iter__', (), node)
                if r is not None: return r
            return I_.bind(I_.l.get_iter(st, v, node), lambda s, src: [(s, src[2])] if src[1] in ('it', 'gen') else self.mkiter(s, src, node))
        if name == 'next': return self.next_(st, a, node)
        if name == 'sorted':
            return I_.bind(I_.l.collect(st, a[0], node), lambda s, ls: I_.bind(self.sort_ls(s, ls, kw, node), lambda s2, l2: [(s2, self.newlist(s2, l2, node))]))
        if name in ('all', 'any'):
            stop = name == 'any'
            def g(s, src):
                def body(s2, v):
                    return [(s3, b if isinstance(b, Raise) else (('ret', boolv(stop)) if b == stop else None)) for s3, b in I_.split(s2, v, node)]
                return [(s2, fl if isinstance(fl, Raise) else fl[1] if fl else boolv(not stop)) for s2, fl in I_.l.run_src(s, src, body, node) if fl != ('dead',)]
            return I_.bind(I_.l.get_iter(st, a[0], node), g)
        if name == 'sum':
            acc = st.new('$env', {'v': a[1] if n > 1 else I(0)})
            def g(s, src):
                def body(s2, v):
                    def h(s3, w): s3.put(acc, 'v', w); return [(s3, None)]
                    if v in (TRUE, FALSE): v = I(1 if v == TRUE else 0)
                    if I_.ptype(s2, v) == 'bool':
                        r = []
                        for s3, b in I_.split(s2, v, node):
                            r.extend([(s3, b)] if isinstance(b, Raise) else h(s3, add(s3.get(acc, 'v'), I(int(b)))))
                        return r
                    return I_.bind(I_.binop(s2, ast.Add, s2.get(acc, 'v'), v, node), h)
                return [(s2, fl if isinstance(fl, Raise) else s2.get(acc, 'v')) for s2, fl in I_.l.run_src(s, src, body, node)]
            return I_.bind(I_.l.get_iter(st, a[0], node), g)
        if name in ('min', 'max'):
            if n >= 2 and all(I_.ptype(st, x) in ('int', 'bool') for x in a):
                outs = [(st, a[0])]
                for x in a[1:]:
                    nxt = []
                    for s, m in outs:
                        for s2, ge in I_.split_ge0(s, sub(x, m), node):
                            nxt.append((s2, (x if ge else m) if name == 'max' else (m if ge else x)))
                    outs = nxt
                return outs
            if n >= 2 and any(x == NONE for x in a):
                return [(st, I_.crash(st, 'TypeError', node, 'comparison with None'))]
            return [(st, st.unknown(name))]
        if name in ('repr', 'ascii', 'format'): return self.to_str(st, a[0], 'repr' if name == 'repr' else 'str', node)
        if name == 'callable':
            v = a[0]
            if v[0] in ('fn', 'bm', 'bi', 'bim', 'cls'): return [(st, TRUE)]
            if v[0] == 'r':
                return [(st, boolv(st.cls(v) == 'partial' or (st.cls(v) in self.p.classes and self.p.lookup(st.cls(v), '__call__')[0] is not None)))]
            t = I_.ptype(st, v)
            if t == 'callable': return [(st, TRUE)]
            if t not in (None, 'any'): return [(st, FALSE)]
            return [(s, boolv(b)) for s, b in I_.fork(st, ('callable', v), node, f'callable({show(v)})')]
        if name in ('getattr', 'hasattr'):
            nm = a[1][2] if a[1][0] == 'k' and a[1][1] == 'str' else None
            if nm is None:
                # a name that is not a constant
                return [(st, st.unknown('computed attribute name'))]
            d = a[2] if n > 2 else None
            if name == 'hasattr':
                mark = ('k', 'absent', nm)
                r = []
                for s, v in I_.getattr(st, a[0], nm, node, default=mark):
                    r.append((s, FALSE if v == mark else (v if isinstance(v, Raise) else TRUE)))
                return r
            return I_.getattr(st, a[0], nm, node, default=d)
        if name in ('setattr', 'object.__setattr__', 'type.__setattr__'):
            nm = a[1][2] if a[1][0] == 'k' and a[1][1] == 'str' else '?'
            if nm == '?': st.imprecise('computed attribute name')
            return I_.setattr(st, a[0], nm, a[2], node, raw=name != 'setattr')
        if name in ('delattr', 'object.__delattr__'):
            nm = a[1][2] if a[1][0] == 'k' and a[1][1] == 'str' else '?'
            return I_.delattr(st, a[0], nm, node, raw=name != 'delattr')
        if name == 'object.__getattribute__':
            nm = a[1][2] if a[1][0] == 'k' and a[1][1] == 'str' else None
            if nm: return I_.getattr(st, a[0], nm, node)
            return [(st, st.unknown('computed attribute name'))]
        if name == 'object.__new__':
            if a and a[0][0] == 'cls':
                c = a[0][1]
                if c in self.p.classes: return [(st, st.new(c, {}, I_.site(node, st)))]
                if c in BUILTIN_EXC: return [(st, ('exc', c, 'raise', I_.site(node, st), '', tuple(a[1:])))]
            return [(st, st.unknown('object.__new__'))]
        if name == 'object.__init__': return [(st, NONE)]
        if name == 'object.__eq__': return [(st, boolv(a[0] == a[1]))]
        if name == 'object.__hash__': return [(st, ('t', 'hash', a[0]))]
        if name in ('object.__repr__', 'object.__str__'): return [(st, ('t', 'text', 'repr', a[0]))]
        if name == 'id': return [(st, self.typed(st, ('t', 'id', a[0]), 'int'))]
        if name == 'abs':
            if I_.ptype(st, a[0]) == 'int':
                return [(s, a[0] if b else scale(a[0], -1)) for s, b in I_.split_ge0(st, a[0], node)]
            return [(st, st.unknown('abs'))]
        if name == 'divmod':
            return I_.bind(I_.binop(st, ast.FloorDiv, a[0], a[1], node), lambda s, q: I_.bind(I_.binop(s, ast.Mod, a[0], a[1], node), lambda s2, m: [(s2, ('tup', (q, m)))]))
        if name == 'print': return [(st, NONE)]
        if name == 'json.dumps': return [(st, ('t', 'json', a[0] if a[0][0] != 'r' else ('t', 'list', st.get(a[0], 'ls')) if st.cls(a[0]) == 'list' else a[0]))]
        if name == 'functools.reduce' and n in (2, 3):
            acc = st.new('$env', {'v': a[2] if n > 2 else ('u', 'reduce')})
            def g(s, src):
                def body(s2, v):
                    old = s2.get(acc, 'v')
                    if old == ('u', 'reduce'): s2.put(acc, 'v', v); return [(s2, None)]
                    def h(s3, w): s3.put(acc, 'v', w); return [(s3, None)]
                    return I_.bind(I_.call(a[0], (old, v), {}, s2, node), h)
                r = []
                for s2, fl in I_.l.run_src(s, src, body, node):
                    if isinstance(fl, Raise): r.append((s2, fl)); continue
                    if fl == ('dead',): continue
                    v = s2.get(acc, 'v')
                    r.append((s2, I_.crash(s2, 'TypeError', node, 'reduce() of empty iterable with no initial value') if v == ('u', 'reduce') else v))
                return r
            return I_.bind(I_.l.get_iter(st, a[1], node), g)
        if name == 'chain.from_iterable' or name == 'from_iterable':
            it = a[0][1] if a[0][0] == 'tup' else None
            if it is not None: return self.mkitertool(st, 'chain', it, {}, node)
            return I_.bind(I_.l.get_iter(st, a[0], node), lambda s, x: self.mkiter(s, ('S', 'flat', x), node))
        if name.startswith('operator.'):
            op = name[9:]
            if op == 'itemgetter' and n == 1: return [(st, ('ext', 'itemgetter', a[0]))]
            if op == 'attrgetter' and n == 1 and a[0][0] == 'k': return [(st, ('ext', 'attrgetter', a[0]))]
            if op == 'index': return self.construct(st, 'int', a, {}, node)
            m = {'eq': ast.Eq, 'ne': ast.NotEq, 'lt': ast.Lt, 'le': ast.LtE, 'gt': ast.Gt, 'ge': ast.GtE, 'is_': ast.Is, 'is_not': ast.IsNot}
            if op in m: return I_.compare(st, m[op](), a[0], a[1], node)
            if op == 'contains': return I_.compare(st, ast.In(), a[1], a[0], node)
            if op == 'getitem': return I_.getitem(st, a[0], a[1], node)
            if op == 'setitem' and n == 3: return [(s, v if isinstance(v, Raise) else NONE) for s, v in I_.setitem(st, a[0], a[1], a[2], node)]
            if op == 'delitem' and n == 2: return [(s, v if isinstance(v, Raise) else NONE) for s, v in I_.delitem(st, a[0], a[1], node)]
            if op == 'truth': return [(s, b if isinstance(b, Raise) else boolv(b)) for s, b in I_.split(st, a[0], node)]
            if op == 'methodcaller' and n >= 1 and a[0][0] == 'k': return [(st, ('ext', 'methodcaller', a[0], a[1:]))]
            if op == 'not_': return [(s, b if isinstance(b, Raise) else boolv(not b)) for s, b in I_.split(st, a[0], node)]
            bo = {'add': ast.Add, 'sub': ast.Sub, 'mul': ast.Mult, 'and_': ast.BitAnd, 'or_': ast.BitOr, 'xor': ast.BitXor, 'floordiv': ast.FloorDiv, 'mod': ast.Mod, 'concat': ast.Add}
            if op in bo: return I_.binop(st, bo[op], a[0], a[1], node)
            io = {'iadd': ast.Add, 'isub': ast.Sub, 'imul': ast.Mult, 'iand': ast.BitAnd, 'ior': ast.BitOr, 'ixor': ast.BitXor, 'iconcat': ast.Add}
            if op in io: return I_.binop(st, io[op], a[0], a[1], node, inplace=True)
            if op == 'neg': return [(st, scale(a[0], -1))] if I_.ptype(st, a[0]) == 'int' else [(st, st.unknown('neg'))]
        if '.' in name:
            c, m = name.split('.', 1)
            if c in EXTERNAL_CLASSES and a:
                if m == '__new__' and a[0][0] == 'cls' and a[0][1] == c: return self.construct(st, c, a[1:], kw, node)
                return I_.bind(I_.getattr(st, a[0], m, node), lambda s, f: I_.call(f, a[1:], kw, s, node) if f[0] in ('bim', 'bm') else [(s, s.unknown(name))])
            if c in BUILTIN_EXC: return [(st, NONE)]
        return [(st, st.unknown('builtin ' + name))]

    def next_(self, st, a, node):
        I_ = self.i
        v = a[0]
        if v[0] == 'r' and st.cls(v) in ('iter', 'gen'):
            src = ('S', 'gen', v) if st.cls(v) == 'gen' else st.get(v, 'src')
            pos = st.get(v, 'pos', I(0))
            if I_.l.pushes(st, ('S', 'it', v) if st.cls(v) == 'iter' else src) and not I_.l.stepwise(st, src):
                return [(s, fl if isinstance(fl, Raise) else fl[1] if fl else a[1] if len(a) > 1 else I_.exc(s, 'StopIteration', 'raise', node))
                        for s, fl in I_.l.run_src(st, ('S', 'it', v) if st.cls(v) == 'iter' else src, lambda s, x: [(s, ('ret', x))], node) if fl != ('dead',)]
            if st.get(v, 'used') : st.imprecise('iterator used in part')
            r = []
            for s, phs in I_.l.phases(st, src, node):
                if isinstance(phs, Raise): r.append((s, phs)); continue
                if cint(pos) != 0: phs = I_.l.drop(phs, pos, s)
                todo = [(s, 0)]
                for idx, p in enumerate(phs):
                    nxt = []
                    for s1, _ in todo:
                        if p.n is None:
                            s2 = s1.fork(); nxt.append((s2, 0)); opts = [(s1, True)]
                        else: opts = I_.split_ge0(s1, sub(p.n, I(1)), node)
                        for s2, b in opts:
                            if not b: nxt.append((s2, 0)); continue
                            if p.live and I_.l.live_changed(s2, p):
                                s2.event('ITERMUT', I_.site(node, s2), p.live[0])
                                r.append((s2, I_.exc(s2, 'RuntimeError', 'iter', node))); continue
                            for s3, x in p.at(s2, I(0)):
                                s3.put(v, 'pos', add(pos, I(1)))
                                r.append((s3, x))
                    todo = nxt
                for s1, _ in todo:
                    r.append((s1, a[1] if len(a) > 1 else I_.exc(s1, 'StopIteration', 'raise', node)))
            return r
        if v[0] == 'S':
            return I_.bind(self.mkiter(st, v, node), lambda s, it: self.next_(s, (it,) + tuple(a[1:]), node))
        if v[0] == 'r' and st.cls(v) in self.p.classes:
            r = I_.special(st, v, '__next__', (), node)
            if r is not None: return r
        if v[0] in ('r', 'ph', 'tup', 'k', 'i'):
            return [(st, I_.crash(st, 'TypeError', node, f"'{I_.tname(st, v)}' object is not an iterator"))]
        return [(st, st.unknown('next of an opaque iterator'))]

    # ------------------------------------------------------------ bound methods
    def call_method(self, st, name, v, args, kw, node):
        I_ = self.i
        c, m = name.split('.', 1)
        a = args
        n = len(a)
        if c == '$abs':
            r = I_.prims(st, v, m, a, kw, node) if I_.prims else None
            return r if r is not None else [(st, st.unknown('method ' + m))]
        if c == 'list':
            if m == '__delitem__': return self.delitem(st, v, a[0], node)
            if m == '__reversed__': return self.mkitertool(st, 'reversed', (v,), {}, node)
            if v[0] != 'r': return self.call_opq(st, m, v, a, kw, node)
            return self.list_method(st, v, m, a, kw, node)
        if c in ('THAMT', 'PHAMT'):
            cont = v[1] if v[0] == 'ph' else st.get(v, 'c')
            lo, hi = {'get': (1, 2), 'assoc': (2, 2), 'dissoc': (1, 1), 'transient': (0, 0), 'persistent': (0, 0), '__getitem__': (1, 1),
                      '__len__': (0, 0), '__iter__': (0, 0), '__contains__': (1, 1), '__setitem__': (2, 2), '__delitem__': (1, 1)}.get(m, (0, 9))
            if not lo <= n <= hi or kw:
                return [(st, I_.crash(st, 'TypeError', node, f'{c}.{m}() takes {lo} to {hi} arguments, not {n}'))]
            if m in ('get', 'assoc', 'dissoc'):
                bad = self.badkey(st, a[0], node)
                if bad is not None: return [(st, bad)]
            if m == 'get':
                d = a[1] if n > 1 else NONE
                return [(s, d if x is None else x) for s, x in self.c_get(st, cont, a[0], node)]
            if m == '__getitem__': return self.must_get(st, cont, a[0], node)
            if m == '__len__': return self.c_len(st, cont, node)
            if m == '__contains__': return [(s, x if isinstance(x, Raise) else boolv(x is not None)) for s, x in self.c_get(st, cont, a[0], node)]
            if m == '__iter__': return I_.bind(I_.l.get_iter(st, v, node), lambda s, src: self.mkiter(s, src, node))
            if m == 'persistent': return [(st, ('ph', cont))]
            if m == 'transient': return [(st, st.new('THAMT', {'c': cont, 'ver': I(0)}, I_.site(node, st)))]
            if m == '__setitem__': return self.t_write(st, v, a[0], a[1], node)
            if m == '__delitem__': return self.t_del(st, v, a[0], node)
            if m == 'assoc':
                return [(st, ('ph', ('w', cont, a[0], a[1])))]
            if m == 'dissoc':
                r = []
                for s, x in self.c_get(st, cont, a[0], node):
                    if isinstance(x, Raise): r.append((s, x))
                    elif x is None: r.append((s, ('ph', cont)))       # phamt lets it pass
                    else: r.append((s, ('ph', ('d', cont, a[0]))))
                return r
        if c in ('RLock', 'Lock'):
            more = []
            if m == 'acquire' and not (set(a[:1]) | {kw.get('blocking', TRUE)} <= {TRUE} and set(a[1:]) | {kw.get('timeout', I(-1))} <= {I(-1)}):
                more = [(st.fork(), FALSE)]          # a limited attempt may fail
            st.event({'acquire': 'LOCK', '__enter__': 'LOCK', 'release': 'UNLOCK', '__exit__': 'UNLOCK'}[m], I_.site(node, st), v)
            sts = [st] if I_.onlock is None else I_.onlock(st, v, m)
            return [(s, TRUE if m == 'acquire' else NONE) for s in sts] + more
        if c == 'lazy':
            if m == '__call__': return self.force(st, v, node)
            if m == 'is_ready': return [(st, ('t', 'truth', ('t', 'ready', v)))]
            return [(st, ('t', 'text', 'str', v))]
        if c == 'iter':
            if m == '__next__': return self.next_(st, (v,), node)
            if m == '__iter__': return [(st, v)]
        if c == 'slice' and m == 'indices':
            r = self.slice_indices(st, v, a[0], node)
            if r is not None: return r
            return [(st, ('t', 'sliceidx', v, a[0]))]
        if c == 'exc': return [(st, v)]
        if c == 'object':
            if m in ('__setattr__', '__delattr__', '__getattribute__', '__eq__', '__hash__', '__repr__', '__str__', '__init__'):
                return self.call_builtin(st, name, (v,) + tuple(a), kw, node)
            return [(st, st.unknown(name))]
        if c == 'opq': return self.call_opq(st, m, v, a, kw, node)
        return [(st, st.unknown('method ' + name))]

    def slice_indices(self, st, v, n, node):
        """slice.indices(n) for a known step, by cases over start and stop."""
        I_ = self.i
        if not (v[0] == 't' and v[1] == 'slice' and len(v) == 5): return None
        a, b, sp = v[2:]
        step = 1 if sp == NONE else cint(sp)
        if step is None: return None
        for x in (a, b):
            if x != NONE and I_.ptype(st, x) not in ('int', 'bool'): return None
        if step == 0: return [(st, I_.exc(st, 'ValueError', 'raise', node, 'slice step cannot be zero'))]
        lower, upper = (I(0), n) if step > 0 else (I(-1), sub(n, I(1)))
        def clamp(s, x, dflt):
            if x == NONE: return [(s, dflt)]
            r = []
            for s1, nonneg in I_.split_ge0(s, x, node):
                if nonneg:
                    for s2, over in I_.split_ge0(s1, sub(x, add(upper, I(1))), node): r.append((s2, upper if over else x))
                else:
                    y = add(x, n)
                    for s2, ok in I_.split_ge0(s1, sub(y, lower), node): r.append((s2, y if ok else lower))
            return r
        lo, hi = (lower, upper) if step > 0 else (upper, lower)
        return [(s2, ('tup', (x, y, I(step)))) for s1, x in clamp(st, a, lo) for s2, y in clamp(s1, b, hi)]

    INTOPS = {'add': ast.Add, 'sub': ast.Sub, 'mul': ast.Mult, 'floordiv': ast.FloorDiv, 'mod': ast.Mod, 'lt': ast.Lt, 'le': ast.LtE,
              'gt': ast.Gt, 'ge': ast.GtE, 'eq': ast.Eq, 'ne': ast.NotEq}
    FOLD = {'upper', 'lower', 'strip', 'lstrip', 'rstrip', 'title', 'capitalize', 'startswith', 'endswith', 'isdigit', 'isalpha', 'isidentifier',
            'isspace', 'isupper', 'islower', 'find', 'rfind', 'count', 'replace', 'ljust', 'rjust', 'center', '__getitem__', '__contains__',
            '__len__', '__mul__', '__mod__', '__add__', 'removeprefix', 'removesuffix', 'format'}

    def fold_str(self, m, v, a):
        """A method of a string constant with constant arguments; None when it cannot be decided here."""
        if m not in self.FOLD: return None
        def const(x):
            if x[0] == 'k' and x[1] == 'str': return x[2]
            if x == NONE and m == '__getitem__': return None
            if x[0] == 'tup' and m in ('__mod__', 'startswith', 'endswith'): return tuple(const(y) for y in x[1])
            if x[0] == 't' and x[1] == 'slice' and m == '__getitem__': return slice(*(const(y) for y in x[2:5]))
            if cint(x) is None: raise ValueError
            return cint(x)
        try:
            args = [const(x) for x in a]
            if m == '__mul__' and not 0 <= args[0] * len(v[2]) < 200: return None
            r = getattr(v[2], m)(*args)
        except Exception: return None
        return boolv(r) if isinstance(r, bool) else I(r) if isinstance(r, int) else ('k', 'str', r) if isinstance(r, str) else None

    def call_opq(self, st, m, v, a, kw, node):
        """A method of the user's (or a builtin) value."""
        I_ = self.i
        if v[0] == 'r' and st.cls(v) in ('$dict', '$set'): return self.own_method(st, v, m, a, kw, node)
        if v[0] == 't' and v[1] in ('bdict', 'bset') and m in CHANGES: st.imprecise('a dict or set is changed in place')
        t = I_.ptype(st, v)
        if t == 'int' and not m.startswith('__'): return [(st, st.unknown('int.' + m))]
        if t == 'int' and len(a) == 1 and I_.ptype(st, a[0]) == 'int' and m.strip('_') in self.INTOPS:
            o = self.INTOPS[m.strip('_')]
            return I_.compare(st, o(), v, a[0], node) if issubclass(o, ast.cmpop) else I_.binop(st, o, v, a[0], node)
        if v[0] == 'tup' and m in ('index', 'count') and len(a) == 1 and not kw:
            outs, r = [(st, I(0))], []
            for j, y in enumerate(v[1]):
                nxt = []
                for s, n in outs:
                    for s1, c in I_.cmp_in(s, a[0], ('tup', (y,)), node):
                        if isinstance(c, Raise): r.append((s1, c)); continue
                        for s2, hit in I_.split(s1, c, node):
                            if isinstance(hit, Raise): r.append((s2, hit))
                            elif m == 'count': nxt.append((s2, add(n, I(1)) if hit else n))
                            elif hit: r.append((s2, I(j)))
                            else: nxt.append((s2, n))
                outs = nxt
            return r + [(s, n if m == 'count' else I_.exc(s, 'ValueError', 'raise', node, 'not in tuple')) for s, n in outs]
        if v[0] == 'k' and v[1] == 'str':
            x = self.fold_str(m, v, a) if not kw else None
            if x is not None: return [(st, x)]
        if t == 'str' or (v[0] == 'k' and v[1] == 'str') or (v[0] == 't' and v[1] == 'str'):
            if m == 'join':
                def f(s, ls):
                    return self.join(s, v, ls, node)
                return I_.bind(I_.l.collect(st, a[0], node), f)
            if m in ('startswith', 'endswith', 'isdigit', 'isalpha', 'isidentifier', 'isspace', 'isupper', 'islower'):
                return [(st, ('t', 'truth', ('t', 'sop', m, v) + tuple(a)))]
            if m in ('find', 'rfind', 'count', 'index', 'rindex', '__len__'):
                return [(st, self.len_of(st, v) if m == '__len__' else self.typed(st, ('t', 'sop', m, v) + tuple(a), 'int'))]
            if m in ('split', 'rsplit', 'splitlines', 'partition', 'rpartition', 'encode'): return [(st, st.unknown('str.' + m))]
            return [(st, ('t', 'sop', m, v) + tuple(a))]
        if v[0] == 't' and v[1] == 'bdict' or t == 'dict':
            if m == 'items':
                return [(st, ('S', 'ls', v[2]) if v[0] == 't' and v[1] == 'bdict' else ('t', 'ditems', v))]
            if m == 'keys': return [(st, ('S', 'dkeys', v[2]) if v[0] == 't' and v[1] == 'bdict' else v)]
            if m == 'get' and v[0] == 't' and v[1] == 'bdict':
                return [(s, (a[1] if len(a) > 1 else NONE) if isinstance(x, Raise) and x.exc[1] == 'KeyError' else x) for s, x in self.getitem(st, v, a[0], node)]
            if m == 'pop' and v[0] == 't' and v[1] == 'bdict' and a and a[0][0] == 'k':
                st.imprecise('keyword pop'); return [(st, st.unknown('dict.pop'))]
            if m == 'values' and v[0] == 't' and v[1] == 'bdict':
                it = _ls_items(v[2])
                if it is not None and all(x[0] == 'tup' for x in it): return [(st, ('S', 'ls', tuple(('it', x[1][1]) for x in it)))]
        if m == '__len__': return self.builtin_len(st, v, node)
        if m == '__iter__': return I_.bind(I_.l.get_iter(st, v, node), lambda s, src: self.mkiter(s, src, node))
        if m == '__contains__': return I_.cmp_in(st, a[0], v, node)
        if m == '__getitem__': return self.getitem(st, v, a[0], node)
        if m == '__eq__': return I_.cmp_eq(st, v, a[0], node)
        if m == '__hash__': return self.hash_(st, v, node)
        if m in ('__str__', '__repr__'): return self.to_str(st, v, 'repr' if m == '__repr__' else 'str', node)
        if I_.prims:
            r = I_.prims(st, v, m, a, kw, node)
            if r is not None: return r
        st.event('UMETH', I_.site(node, st), v, m, a)
        res = ('t', 'ucall', v, m, tuple(a))
        if m in ('issubset', 'issuperset', 'isdisjoint', 'is_ready'): res = ('t', 'truth', res)
        return I_.may_raise([(st, res)], node)

    def force(self, st, v, node):
        I_ = self.i
        st.event('FORCE', I_.site(node, st), v)
        if v[0] == 't' and v[1] == 'klz': return [(st, v[2])]
        return I_.may_raise([(st, ('t', 'forced', v))], node)

    def call_opaque(self, st, fn, args, kw, node):
        I_ = self.i
        if st.facts.get(('inst', fn, 'lazy')) or I_.isa(st, fn, 'lazy'):
            if args: return [(st, I_.crash(st, 'TypeError', node, 'lazy() takes no arguments'))]
            return self.force(st, fn, node)
        if fn[0] == 'u': return [(st, st.unknown('call of an unknown'))]
        st.event('UCALL', I_.site(node, st), fn, tuple(args))
        return I_.may_raise([(st, ('t', 'ucall', fn, '()', tuple(args) + tuple(('tup', (('k', 'str', k), v)) for k, v in kw.items())))], node)

    def call_ext(self, st, fn, args, kw, node):
        if fn[1] == 'itemgetter': return self.i.getitem(st, args[0], fn[2], node)
        if fn[1] == 'methodcaller': return self.i.bind(self.i.getattr(st, args[0], fn[2][2], node), lambda s, f: self.i.call(f, fn[3], kw, s, node))
        if fn[1] == 'attrgetter': return self.i.getattr(st, args[0], fn[2][2], node)
        return [(st, st.unknown('external call'))]
