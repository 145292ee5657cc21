"""Contract mode: algorithms over collections are interpreted from their source
while the primitive operations of the collections (look up, add, remove, iterate,
...) are replaced by their contracts over an abstract domain of element kinds.

An element is ('t','ke',K,side,j): the j-th element of kind K, as held by operand
`side`.  Elements are equal exactly when kind and index are equal, whatever the
side; they are identical only if the side is equal too.  A set is a sequence of
segments ('g',K,side,lo,hi), a mapping a sequence ('g',K,side,lo,hi,value) with
the value a term over the index symbol JA, a sequence a list description.  All
bounds are affine terms over symbolic, unbounded counts."""
import ast
from .terms import *
from .core import *
from .loops import Phase
from .world import *

JA = ('s', 'ja')


def ke(K, side, j): return ('t', 'ke', K, side, j)
SPECIAL = {}          # kinds of keys whose values are all one particular object


def kv(K, side, j): return SPECIAL[K] if K in SPECIAL else ('t', 'kv', K, side, j)
def klz(v): return ('t', 'klz', v)


MAP_PRIMS = {'__len__', '__contains__', '__getitem__', 'get', 'getlazy', '__iter__', '__reversed__', 'keys', 'items', 'values',
             'set', 'drop', '__setitem__', '__delitem__', 'pop', 'clear', 'transient', 'persistent', 'is_lazy', 'is_ready'}
SET_PRIMS = {'__len__', '__contains__', '__iter__', 'add', 'discard', 'clear', 'transient', 'persistent'}
SEQ_PRIMS = {'__len__', '__iter__', 'append', 'prepend', 'insert', 'clear', 'transient', 'persistent', '__getitem__', 'set',
             'delete', '__delitem__', '__setitem__', 'getlazy'}
PRIMS = {'set': SET_PRIMS, 'map': MAP_PRIMS, 'seq': SEQ_PRIMS}
BUILTIN_ABS = ('set', 'frozenset', 'oset', 'dict', 'aview')


def content_len(con):
    n = I(0)
    for g in con[1]: n = add(n, sub(g[4], g[3]))
    return n


class Contract:
    KEYED = {'__contains__', '__getitem__', 'get', 'getlazy', 'set', 'drop', '__setitem__', '__delitem__', 'pop', 'is_lazy', 'is_ready',
             'add', 'discard', 'setdefault'}

    def __init__(self, interp, prog):
        self.i = interp; self.p = prog
        self.lt = {}             # (K1, K2) -> True: every K1 element sorts before every K2 element
        self.unordered = False
        self.bypass = set()      # (class, method) interpreted from source all the same
        self.newbypass = set()

    def install(self):
        self.i.prims = self.prims
        self.i.basecall = self.basecall
        self.i.contract = self
        return self

    # ------------------------------------------------------------------ objects
    def mk(self, st, cls, con, fresh=False, node=None):
        f = {'ver': I(0)}
        if con[0] == 'aseq': f['$ls'] = con[1]
        else: f['$a'] = con
        return st.new(cls, f, self.i.site(node, st) if node is not None else None, fresh=fresh)

    def con(self, st, ref):
        """The contents of a collection (None: not known)."""
        o = st.heap[ref[1]]
        if o.cls in ALL and REP[o.cls]['els'] in o.f:
            c = self.decode(st, o)
            if c is not None: return c
            if '$a' in o.f or '$ls' in o.f:
                st.imprecise('the trie of an abstract collection is written directly')
            return None
        if '$a' in o.f: return o.f['$a']
        if '$ls' in o.f: return ('aseq', o.f['$ls'])
        return None

    def decode(self, st, o):
        """The contents that a representation stands for."""
        R = REP[o.cls]; k = kind_of(o.cls)
        cs = {}
        for role in ('els', 'idx'):
            if role not in R: continue
            t = o.f.get(R[role])
            if t is None: return None
            cs[role] = t[1] if t[0] == 'ph' else st.get(t, 'c') if t[0] == 'r' and st.cls(t) == 'THAMT' else None
            if cs[role] is None: return None
        e = cs['els']
        if k == 'seq':
            st0 = o.f.get(R['start'])
            if st0 is None: return None
            r = self.seq_pieces(st, e, st0)
            return None if r is None else ('aseq', r)
        if e == ('ec',) and cs['idx'] == ('ec',): return ('aset' if k == 'set' else 'amap', ())
        if e[0] == 'abs' and cs['idx'] == ('abs', e[1], 'idx') and o.f.get(R['top']) == ('t', 'absrep', 'top', e[1]): return extern(e[1])
        return None

    def seq_pieces(self, st, c, start):
        M = self.i.m
        if c == ('ec',): return ()
        if c[0] == 'abs': con = extern(c[1]); return con[1] if con[0] == 'aseq' and (start == ('t', 'absrep', 'start', c[1]) or not con[1]) else None
        if c[0] not in ('w', 'lw'): return None
        pre = self.seq_pieces(st, c[1], start)
        if pre is None: return None
        at = add(start, M.ls_len(st, pre))
        if c[0] == 'w':
            if not self.same(st, c[2], at): return None
            return pre + (('it', c[3]),)
        if len(c[4]) != 1: return None
        key, val = c[4][0]
        if not self.same(st, subst(key, {c[3]: I(0)}), at) or cint(sub(sub(key, c[3]), subst(key, {c[3]: I(0)}))) != 0: return None
        return pre + (('lp', c[2], c[3], (val,)),)

    def rep(self, st, ref, name):
        """Materialise the representation of an abstract collection."""
        o = st.heap[ref[1]]
        if o.cls not in ALL or not ('$a' in o.f or '$ls' in o.f): return None
        R = REP[o.cls]
        if name not in R.values(): return None
        con = o.f['$a'] if '$a' in o.f else ('aseq', o.f['$ls'])
        from .models import absrep
        for role, fl in R.items():
            if fl in o.f: continue
            if role in ('els', 'idx'):
                c = ('abs', intern(con), role) if con[1] else ('ec',)
                v = ('ph', c) if o.cls in PERSISTENT else st.new('THAMT', {'c': c, 'ver': I(0)}, None, fresh=False)
            elif role in ('start', 'top'):
                v = absrep(st, con, role)
                if not con[1]: st.add(v); st.add(scale(v, -1))
            elif role == 'version': v = absrep(st, con, role)
            else: v = NONE
            st.put(ref, fl, v)
        return st.get(ref, name)

    def content_len(self, con): return content_len(con)

    def node_phases(self, st, con):
        """Iteration over the element trie of a set or mapping."""
        out = []
        for g in con[1]:
            n = sub(g[4], g[3])
            if cint(n) == 0: continue
            def at(s, j, g=g):
                k = self.uncanon(ke(g[1], g[2], add(g[3], j)))
                x = k if con[0] == 'aset' else ('tup', (k, self.valat(g, add(g[3], j))))
                return [(s, ('tup', (('t', 'absrep', ('slot', k), intern(con)), ('tup', (x, ('t', 'absrep', ('next', k), intern(con)))))))]
            out.append(Phase(n, at, 'kind', None))
        return out

    def setcon(self, st, ref, con):
        o = st.heap[ref[1]]
        for fl in REP.get(o.cls, {}).values():
            if fl in o.f: st.rem(ref, fl)
        if con[0] == 'aseq': st.put(ref, '$ls', con[1])
        else: st.put(ref, '$a', con)
        v = st.get(ref, 'ver')
        st.put(ref, 'ver', add(v, I(1)) if v is not None else I(1))

    # --------------------------------------------------------------- segments
    def canon(self, k):
        """Elements of other forms as kind elements: keyword names, and pairs."""
        if k[0] == 'k' and k[1] == 'str': return ke('kw:' + k[2], 'K', I(0))
        if k[0] in ('k', 'i'):
            for n, v in SPECIAL.items():
                if v == k and n.startswith('key '): return ke(n[4:], 'A', I(0))
        if k[0] == 'tup' and len(k[1]) == 2 and k[1][0][0] == 't' and k[1][0][1] == 'ke':
            e, v = k[1]
            return ke(('pair', e[2], self.absval(v, e[4])), e[3], e[4])
        return k

    def uncanon(self, k):
        if k[0] == 't' and k[1] == 'ke' and isinstance(k[2], str) and 'key ' + k[2] in SPECIAL: return SPECIAL['key ' + k[2]]
        if k[0] == 't' and k[1] == 'ke' and isinstance(k[2], tuple) and k[2][0] == 'pair':
            return ('tup', (ke(k[2][1], k[3], k[4]), subst(k[2][2], {JA: k[4]})))
        return k

    def find(self, st, segs, k, node):
        """-> [(state, segment index | None)] for element k."""
        if k[0] == 't' and k[1] == 'klz': k = k[2]
        k = self.canon(k)
        if not (k[0] == 't' and k[1] == 'ke'):
            if any(True for g in segs) and k[0] not in ('k', 'i'):
                st.imprecise('look-up of an element of unknown kind')
            return [(st, None)]
        K, j = k[2], k[4]
        outs = []; cur = [st]
        for i, g in enumerate(segs):
            if g[1] != K: continue
            nxt = []
            for s in cur:
                for s1, ge in self.i.split_ge0(s, sub(j, g[3]), node):
                    if not ge: nxt.append(s1); continue
                    for s2, lt in self.i.split_ge0(s1, sub(sub(g[4], I(1)), j), node):
                        if lt: outs.append((s2, i))
                        else: nxt.append(s2)
            cur = nxt
        return outs + [(s, None) for s in cur]

    def absval(self, v, j):
        def go(x):
            if isinstance(x, tuple):
                if len(x) == 5 and x[0] == 't' and x[1] in ('ke', 'kv') and x[4] == j: return x[:4] + (JA,)
                return tuple(go(y) for y in x)
            return x
        return go(v)

    def valat(self, g, j): return subst(g[5], {JA: j})

    def seg_add(self, st, con, k, val=None):
        """Content with absent element k added."""
        segs = con[1]; K, side, j = k[2], k[3], k[4]
        v = () if con[0] == 'aset' else (self.absval(val, j),)
        for i, g in enumerate(segs):
            if g[1] == K and g[2] == side and g[5:] == v:
                if st.entails(sub(j, g[4])) and st.entails(sub(g[4], j)):
                    return (con[0], segs[:i] + (g[:4] + (add(g[4], I(1)),) + v,) + segs[i + 1:])
                if st.entails(sub(add(j, I(1)), g[3])) and st.entails(sub(g[3], add(j, I(1)))):
                    return (con[0], segs[:i] + (g[:3] + (j, g[4]) + v,) + segs[i + 1:])
        if any(g[1] == K and not self.empty(st, g) for g in segs) and len(segs) > 12:
            st.imprecise('scattered elements')
        return (con[0], segs + (('g', K, side, j, add(j, I(1))) + v,))

    def empty(self, st, g): return st.entails(sub(g[3], g[4]))

    def seg_del(self, st, con, i, j):
        segs = con[1]; g = segs[i]
        if st.entails(sub(g[3], j)):           # j == lo
            new = (g[:3] + (add(j, I(1)), g[4]) + g[5:],)
        elif st.entails(sub(j, sub(g[4], I(1)))):
            new = (g[:4] + (j,) + g[5:],)
        else:
            new = (g[:4] + (j,) + g[5:], g[:3] + (add(j, I(1)), g[4]) + g[5:])
        return (con[0], segs[:i] + new + segs[i + 1:])

    def seg_set(self, st, con, i, k, val):
        """Replace the value of the present key k (in segment i)."""
        segs = con[1]; g = segs[i]; j = k[4]
        v = self.absval(val, j)
        if v == g[5]: return con
        # extend a segment of this value that ends at j
        for m, h in enumerate(segs):
            if h[1] == g[1] and h[2] == g[2] and h[5] == v and m != i and st.entails(sub(j, h[4])) and st.entails(sub(h[4], j)) and st.entails(sub(g[3], j)):
                out = list(segs)
                out[m] = h[:4] + (add(j, I(1)), h[5])
                out[i] = g[:3] + (add(j, I(1)), g[4], g[5])
                return ('amap', tuple(out))
        mid = ('g', g[1], g[2], j, add(j, I(1)), v)
        left = () if st.entails(sub(g[3], j)) else (g[:4] + (j, g[5]),)
        right = () if st.entails(sub(j, sub(g[4], I(1)))) and not contains(g[4], lambda x: x[0] == 's') else (g[:3] + (add(j, I(1)), g[4], g[5]),)
        return ('amap', segs[:i] + left + (mid,) + right + segs[i + 1:])

    # --------------------------------------------------------------- iteration
    def seg_phases(self, st, con, what, live, deliver=False, rev=False, node=None):
        out = []
        for g in con[1]:
            def at(s, j, g=g):
                k = ke(g[1], g[2], add(g[3], j))
                if con[0] == 'aset' or what == 'keys': return [(s, self.uncanon(k))]
                v = self.valat(g, add(g[3], j))
                if deliver: v = self.deliver(s, v, node)
                return [(s, v if what == 'values' else ('tup', (self.uncanon(k), v)))]
            n = sub(g[4], g[3])
            if rev:
                def at(s, j, at0=at, n=n): return at0(s, sub(sub(n, I(1)), j))
            if cint(n) == 0: continue
            out.append(Phase(n, at, 'kind', live))
        if rev: out.reverse()
        return out

    def deliver(self, st, v, node):
        if v[0] == 't' and v[1] == 'klz':
            st.event('FORCE', self.i.site(node, st) if node is not None else None, v)
            return v[2]
        return v

    def src_phases(self, st, src, node):
        """Interp.custom['kinds']: ('S','custom','kinds', ref, what, rev)"""
        ref, what, rev = src[3:6]
        raw = what == 'raw'
        c = self.con(st, ref)
        cls = st.cls(ref)
        live = (ref, st.get(ref, 'ver')) if cls in TRANSIENT or cls in ('set', 'dict') else None
        if c is None: st.imprecise('iteration'); return [(st, [])]
        if c[0] == 'aseq':
            f = None
            if cls in LAZY and not raw: f = lambda s, x: [(s, self.deliver(s, x, node))]
            ph = self.i.l.ls_phases(c[1], f)
            if cls in TRANSIENT: live = (ref, st.get(ref, 'ver'))
            for p in ph: p.live = live; p.kind = 'kind'
            return [(st, ph)]
        return [(st, self.seg_phases(st, c, what, live, cls in LAZY, rev, node))]

    def iter_src(self, st, ref, what='keys', rev=False):
        if st.get(ref, 'ver') is None: st.put(ref, 'ver', I(0))
        return ('S', 'custom', 'kinds', ref, what, rev)

    # ---------------------------------------------------------------- the hook
    def basecall(self, st, fn, obj, node):
        """The plain kind's own __iter__ called on a lazy list: its stored elements."""
        if obj[1] not in st.heap: return None
        c = st.cls(obj)
        if c not in LAZY or c not in SEQ or (c, '__iter__') in self.bypass or self.con(st, obj) is None: return None
        base = {'llist': 'plist', 'tllist': 'tlist'}[c]
        f = self.i.p.lookup(base, '__iter__')[1]
        if f is None or f[:2] != fn[:2] or self.i.p.lookup(c, '__iter__')[1] == f: return None
        return self.i.m.mkiter(st, self.iter_src(st, obj, 'raw'), node)

    def prims(self, st, obj, meth, args, kw, node):
        if args and (args[0][0] == 'tup' or args[0][:2] == ('k', 'str')) and meth in self.KEYED and obj[0] == 'r' and \
           obj[1] in st.heap and st.cls(obj) not in SEQ and st.cls(obj) != 'aview':
            args = (self.canon(args[0]),) + tuple(args[1:])
        if obj[0] == 'cls' and meth == '$new': return self.new(st, obj[1], args, kw, node)
        if obj[0] != 'r': return None
        if obj[1] not in st.heap: return None
        c = st.cls(obj)
        if meth.startswith('$bin_'): meth = '__' + meth[5:] + '__'
        if c in BUILTIN_ABS and ('$a' in st.heap[obj[1]].f or c == 'aview'): return self.builtin(st, obj, c, meth, args, kw, node)
        if c not in ALL: return None
        k = kind_of(c)
        if meth not in PRIMS[k]: return None
        if (c, meth) in self.bypass: return None
        if k == 'seq' and meth in ('__getitem__',) and args and self.i.ptype(st, args[0]) == 'slice': return None
        con = self.con(st, obj)
        if con is None: return None
        r = getattr(self, 'p_' + k)(st, obj, c, con, meth, args, kw, node)
        return r

    def edited(self, st, obj, c, con, node, same=False):
        """The outcome of an edit: the object itself (transient), or a new one."""
        if c in TRANSIENT:
            if not same:
                st.event('AEDIT', self.i.site(node, st), obj)
                self.setcon(st, obj, con)
            return [(st, NONE)]
        if same: return [(st, obj)]
        return [(st, self.mk(st, c, con, True, node))]

    def partner(self, st, obj, c, con, node):
        return [(st, self.mk(st, PARTNER[c], con, True, node))]

    def p_set(self, st, obj, c, con, m, a, kw, node):
        if m == '__len__': return [(st, content_len(con))]
        if m == '__contains__': return [(s, boolv(i is not None)) for s, i in self.find(st, con[1], a[0], node)]
        if m == '__iter__': return self.i.m.mkiter(st, self.iter_src(st, obj), node)
        if m in ('transient', 'persistent'): return self.partner(st, obj, c, con, node)
        if m == 'clear': return self.edited(st, obj, c, ('aset', ()), node)
        r = []
        a = (self.canon(a[0]),) + tuple(a[1:])
        for s, i in self.find(st, con[1], a[0], node):
            if m == 'add':
                if i is not None: r += self.edited(s, obj, c, con, node, same=True)
                elif not self.iske(a[0]): s.imprecise('an element of unknown kind is added'); r += self.edited(s, obj, c, con, node)
                else: r += self.edited(s, obj, c, self.seg_add(s, con, a[0]), node)
            else:
                if i is None: r += self.edited(s, obj, c, con, node, same=True)
                else: r += self.edited(s, obj, c, self.seg_del(s, con, i, a[0][4]), node)
        return r

    def iske(self, v): return v[0] == 't' and v[1] == 'ke'

    def p_map(self, st, obj, c, con, m, a, kw, node):
        if m == '__len__': return [(st, content_len(con))]
        if m == '__contains__': return [(s, boolv(i is not None)) for s, i in self.find(st, con[1], a[0], node)]
        if m == '__iter__': return self.i.m.mkiter(st, self.iter_src(st, obj), node)
        if m == '__reversed__': return self.i.m.mkiter(st, self.iter_src(st, obj, 'keys', True), node)
        if m in ('keys', 'values', 'items'):
            return [(st, st.new('aview', {'d': obj, 'what': ('k', 'str', m)}, self.i.site(node, st)))]
        if m in ('transient', 'persistent'): return self.partner(st, obj, c, con, node)
        if m == 'clear': return self.edited(st, obj, c, ('amap', ()), node)
        if m in ('set', '__setitem__') and len(a) < 2: return None
        if not a: return None
        d = a[1] if len(a) > 1 else kw.get('default', NONE)
        r = []
        a = (self.canon(a[0]),) + tuple(a[1:])
        for s, i in self.find(st, con[1], a[0], node):
            hit = i is not None
            val = self.valat(con[1][i], a[0][4]) if hit else None
            if m in ('__getitem__', 'get', 'getlazy'):
                if hit: r.append((s, self.deliver(s, val, node) if c in LAZY and m != 'getlazy' else val))
                elif m == '__getitem__': r.append((s, self.i.exc(s, 'KeyError', 'raise', node, 'missing key')))
                else: r.append((s, d))
            elif m in ('is_lazy', 'is_ready'):
                r.append((s, s.unknown(m)))
            elif m in ('set', '__setitem__'):
                if hit: r += self.edited(s, obj, c, self.seg_set(s, con, i, a[0], a[1]), node, same=val == a[1])
                elif not self.iske(a[0]):
                    s.imprecise('a key of unknown kind is added'); r += self.edited(s, obj, c, con, node)
                else: r += self.edited(s, obj, c, self.seg_add(s, con, a[0], a[1]), node)
            elif m in ('drop', '__delitem__'):
                if hit: r += self.edited(s, obj, c, self.seg_del(s, con, i, a[0][4]), node)
                elif m == 'drop': r += self.edited(s, obj, c, con, node, same=True)
                else: r.append((s, self.i.exc(s, 'KeyError', 'raise', node, 'missing key')))
            elif m == 'pop':
                if hit:
                    if c in LAZY: val = self.deliver(s, val, node)
                    for s2, o in self.edited(s, obj, c, self.seg_del(s, con, i, a[0][4]), node):
                        r.append((s2, val if c in TRANSIENT else ('tup', (val, o))))
                elif len(a) > 1: r.append((s, a[1] if c in TRANSIENT else ('tup', (a[1], obj))))
                else: r.append((s, self.i.exc(s, 'KeyError', 'raise', node, 'missing key')))
            else: return None
        return r

    def p_seq(self, st, obj, c, con, m, a, kw, node):
        ls = con[1]
        M = self.i.m
        if m == '__len__': return [(st, M.ls_len(st, ls))]
        if m == '__iter__': return self.i.m.mkiter(st, self.iter_src(st, obj), node)
        if m in ('transient', 'persistent'): return self.partner(st, obj, c, con, node)
        if m == 'clear': return self.edited(st, obj, c, ('aseq', ()), node)
        if m == 'append': return self.edited(st, obj, c, ('aseq', ls + (('it', a[0]),)), node)
        if m == 'prepend': return self.edited(st, obj, c, ('aseq', (('it', a[0]),) + ls), node)
        n = M.ls_len(st, ls)
        if m in ('__getitem__', 'getlazy', 'set', '__setitem__', 'delete', '__delitem__', 'insert'):
            k = a[0] if a else I(-1)
            if self.i.ptype(st, k) not in ('int', None): return None
            r = []
            for s, neg in self.i.split_ge0(st, sub(I(-1), k), node):
                kk = add(n, k) if neg else k
                if m == 'insert':
                    s.imprecise('insert in contract mode'); r += self.edited(s, obj, c, con, node); continue
                for s1, low in self.i.split_ge0(s, sub(I(-1), kk), node):
                    if low: r.append((s1, self.i.exc(s1, 'IndexError', 'raise', node))); continue
                    for s2, v in M.ls_index(s1, ls, kk, node):
                        if v is None: r.append((s2, self.i.exc(s2, 'IndexError', 'raise', node))); continue
                        if m == '__getitem__': r.append((s2, self.deliver(s2, v, node) if c in LAZY else v))
                        elif m == 'getlazy': r.append((s2, v))
                        elif m in ('delete', '__delitem__'):
                            l2 = self.ls_del(s2, ls, kk)
                            r += self.edited(s2, obj, c, ('aseq', l2), node)
                        else:
                            l2 = self.ls_put(s2, ls, kk, a[1])
                            r += self.edited(s2, obj, c, ('aseq', l2), node)
            return r
        return None

    def ls_cut(self, st, ls, k):
        """Split list pieces at position k (0 <= k < len): (before, element, after)."""
        off = I(0)
        for i, p in enumerate(ls):
            n = I(1) if p[0] == 'it' else p[1] if p[0] in ('lp', 'sorted') and (p[0] == 'sorted' or len(p[3]) == 1) else None
            if n is None: return None
            rel = sub(k, off)
            if st.entails(rel) and st.entails(sub(sub(n, I(1)), rel)):
                if p[0] == 'it': return ls[:i], ls[i + 1:]
                if p[0] != 'lp': return None
                left = () if st.entails(scale(rel, -1)) else (('lp', rel, p[2], p[3]),)
                right = (('lp', sub(sub(n, I(1)), rel), p[2], tuple(subst(x, {p[2]: add(add(p[2], rel), I(1))}) for x in p[3])),)
                if st.entails(scale(right[0][1], -1)): right = ()
                return ls[:i] + left, right + ls[i + 1:]
            off = add(off, n)
        return None

    def ls_del(self, st, ls, k):
        r = self.ls_cut(st, ls, k)
        if r is None: st.imprecise('deletion in contract mode'); return ls
        return r[0] + r[1]

    def ls_put(self, st, ls, k, v):
        r = self.ls_cut(st, ls, k)
        if r is None: st.imprecise('replacement in contract mode'); return ls
        return r[0] + (('it', v),) + r[1]

    # ------------------------------------------------------------- construction
    def new(self, st, c, args, kw, node):
        if c not in ALL or c in self.newbypass: return None
        k = kind_of(c)
        if kw and k != 'map': return None
        if len(args) > 1: return None
        empty = {'seq': ('aseq', ()), 'set': ('aset', ()), 'map': ('amap', ())}[k]
        if not args:
            ref = self.mk(st, c, empty, True, node)
            return self.addkw(st, ref, kw, node)
        x = args[0]
        if x[0] == 'r' and st.cls(x) in ALL and kind_of(st.cls(x)) == k and self.con(st, x) is not None:
            con = self.con(st, x)
            if st.cls(x) in LAZY and c not in LAZY:
                con = self.strip(st, con, node)
            ref = self.mk(st, c, con, True, node)
            return self.addkw(st, ref, kw, node)
        ref = self.mk(st, c if c in TRANSIENT else PARTNER[c], empty, True, node)
        if k == 'map':
            def pairs(s, v):
                if v[0] == 'r' and (s.cls(v) in MAPS or s.cls(v) == 'dict'):
                    return self.prims(s, v, 'items', (), {}, node)
                if v[0] == 't' and v[1] == 'bdict': return [(s, ('S', 'ls', v[2]))]
                return [(s, v)]
            def body(s, kvp):
                return self.i.bind(self.pair(s, kvp, node), lambda s2, p: [(s3, w if isinstance(w, Raise) else None) for s3, w in self.prims(s2, ref, '__setitem__', p, {}, node)])
            outs = self.i.bind(pairs(st, x), lambda s, v: self.i.bind(self.i.l.get_iter(s, v, node), lambda s2, src: self.i.l.run_src(s2, src, body, node)))
        else:
            add_ = 'append' if k == 'seq' else 'add'
            def body(s, v): return [(s2, w if isinstance(w, Raise) else None) for s2, w in self.prims(s, ref, add_, (v,), {}, node)]
            outs = self.i.bind(self.i.l.get_iter(st, x, node), lambda s, src: self.i.l.run_src(s, src, body, node))
        r = []
        for s, fl in outs:
            if isinstance(fl, Raise): r.append((s, fl)); continue
            if c in PERSISTENT:
                o2 = self.mk(s, c, self.con(s, ref), True, node)
            else: o2 = ref
            r += self.addkw(s, o2, kw, node)
        return r

    def pair(self, st, v, node):
        if v[0] == 'tup' and len(v[1]) == 2: return [(st, v[1])]
        st.imprecise('pair of unknown shape')
        return [(st, (self.i.m.unpk(v, 0, 2), self.i.m.unpk(v, 1, 2)))]

    def addkw(self, st, ref, kw, node):
        if kw: st.imprecise('keyword construction in contract mode')
        return [(st, ref)]

    def strip(self, st, con, node):
        def go(x):
            if isinstance(x, tuple):
                if len(x) == 3 and x[0] == 't' and x[1] == 'klz': return x[2]
                return tuple(go(y) for y in x)
            return x
        new = go(con)
        if new != con: st.event('FORCE', self.i.site(node, st) if node is not None else None, con)
        return new

    # ------------------------------------------------- builtin sets, dicts, views
    def builtin(self, st, obj, c, m, a, kw, node):
        if c == 'aview': return self.view(st, obj, m, a, node)
        con = self.con(st, obj)
        if m == '__len__': return [(st, content_len(con))]
        if m == '__contains__': return [(s, boolv(i is not None)) for s, i in self.find(st, con[1], a[0], node)]
        if m == '__iter__': return self.i.m.mkiter(st, self.iter_src(st, obj), node)
        if c == 'dict':
            if m in ('keys', 'items', 'values'):
                return [(st, st.new('aview', {'d': obj, 'what': ('k', 'str', m)}, self.i.site(node, st)))]
            if m == '__reversed__': return self.i.m.mkiter(st, self.iter_src(st, obj, 'keys', True), node)
            if m in ('get', '__getitem__'): return self.p_map(st, obj, 'tdict', con, m, a, kw, node)
            if m in ('__setitem__', '__delitem__', 'clear', 'pop'): return self.p_map(st, obj, 'tdict', con, m, a, kw, node)
            if m == 'copy': return [(st, self.mk(st, 'dict', con, True, node))]
            if m == '__eq__':
                oc = self.con(st, a[0]) if a[0][0] == 'r' else None
                if oc is None or oc[0] != 'amap' or st.cls(a[0]) != 'dict': return [(st, FALSE)]
                return self.dict_eq(st, con, oc, node)
            if m == 'setdefault':
                d = a[1] if len(a) > 1 else NONE
                r = []
                for s, i in self.find(st, con[1], a[0], node):
                    if i is not None: r.append((s, self.valat(con[1][i], a[0][4])))
                    else:
                        self.setcon(s, obj, self.seg_add(s, con, a[0], d)); r.append((s, d))
                return r
            if m == 'update' and len(a) == 1:
                def body(s, x):
                    return self.i.bind(self.pair(s, x, node), lambda s2, kvp: [(s3, w if isinstance(w, Raise) else None)
                                       for s3, w in self.p_map(s2, obj, 'tdict', self.con(s2, obj), '__setitem__', kvp, {}, node)])
                x = a[0]
                if x[0] == 'r' and (st.cls(x) in MAPS or st.cls(x) == 'dict'): pre = self.prims(st, x, 'items', (), {}, node)
                else: pre = [(st, x)]
                outs = self.i.bind(pre, lambda s, v: self.i.bind(self.i.l.get_iter(s, v, node), lambda s2, src: self.i.l.run_src(s2, src, body, node)))
                return [(s, fl if isinstance(fl, Raise) else NONE) for s, fl in outs]
            return [(st, st.unknown('dict.' + m))]
        if m in ('add', 'discard', 'clear'): return self.p_set(st, obj, 'tset', con, m, a, kw, node)
        if m == 'copy': return [(st, self.mk(st, c, con, True, node))]
        if m in ('issubset', 'issuperset', 'isdisjoint', 'union', 'intersection', 'difference', 'symmetric_difference',
                 '__and__', '__or__', '__sub__', '__xor__', '__le__', '__lt__', '__ge__', '__gt__', '__eq__') and len(a) == 1:
            def f(s, oc):
                return self.setop(s, con, oc, m, c, node)
            return self.i.bind(self.as_set(st, a[0], node), f)
        if m == 'update' and len(a) == 1:
            return self.i.bind(self.as_set(st, a[0], node), lambda s, oc: [(s2, NONE) for s2, r in self.i.bind(
                self.setop(s, con, oc, 'union', c, node), lambda s3, o: (self.setcon(s3, obj, self.con(s3, o)), [(s3, NONE)])[1])])
        return [(st, st.unknown(c + '.' + m))]

    def as_set(self, st, v, node):
        """The aset content of an iterable."""
        if v[0] == 'r' and self.con(st, v) is not None and self.con(st, v)[0] == 'aset': return [(st, self.con(st, v))]
        if v[0] == 't' and v[1] == 'bset': v = ('S', 'ls', v[3])
        tmp = self.mk(st, 'set', ('aset', ()), True, node)
        def body(s, x): return [(s2, w if isinstance(w, Raise) else None) for s2, w in self.p_set(s, tmp, 'tset', self.con(s, tmp), 'add', (self.canon(x),), {}, node)]
        outs = self.i.bind(self.i.l.get_iter(st, v, node), lambda s, src: self.i.l.run_src(s, src, body, node))
        r = []
        for s, fl in outs:
            if isinstance(fl, Raise): r.append((s, fl)); continue
            r.append((s, self.con(s, tmp)))
        return r

    def as_dict(self, st, ls, node):
        """dict(pairs)"""
        tmp = self.mk(st, 'dict', ('amap', ()), True, node)
        def body(s, x):
            return self.i.bind(self.pair(s, x, node), lambda s2, kvp: [(s3, w if isinstance(w, Raise) else None)
                               for s3, w in self.p_map(s2, tmp, 'tdict', self.con(s2, tmp), '__setitem__', kvp, {}, node)])
        return [(s, fl if isinstance(fl, Raise) else tmp) for s, fl in self.i.l.run_src(st, ('S', 'ls', ls), body, node)]

    def dict_eq(self, st, A, B, node):
        ka = ('aset', tuple(g[:5] for g in A[1])); kb = ('aset', tuple(g[:5] for g in B[1]))
        r = []
        for s, v in self.setop(st, ka, kb, '__eq__', 'set', node):
            if v != TRUE: r.append((s, v)); continue
            outs = [(s, TRUE)]
            for ga in A[1]:
                for gb in B[1]:
                    if ga[1] != gb[1]: continue
                    nxt = []
                    for s1, acc in outs:
                        if acc != TRUE: nxt.append((s1, acc)); continue
                        # an index common to both segments
                        for s2, pa in self.nonempty(s1, ga, node):
                            if not pa: nxt.append((s2, TRUE)); continue
                            for s3, pb in self.nonempty(s2, gb, node):
                                if not pb: nxt.append((s3, TRUE)); continue
                                if not (self.same(s3, ga[3], gb[3]) and self.same(s3, ga[4], gb[4])):
                                    if s3.entails(sub(ga[3], gb[4])) or s3.entails(sub(gb[3], ga[4])): nxt.append((s3, TRUE)); continue
                                    if ga[3] != gb[3] or ga[4] != gb[4]: s3.imprecise('dict comparison of partial kinds')
                                j = ga[3]
                                for s4, v4 in self.i.cmp_eq(s3, self.valat(ga, j), self.valat(gb, j), node):
                                    if isinstance(v4, Raise): nxt.append((s4, v4)); continue
                                    for s5, b in self.i.split(s4, v4, node): nxt.append((s5, b if isinstance(b, Raise) else boolv(b)))
                    outs = nxt
            r += outs
        return r

    def kinds(self, con): return list(dict.fromkeys(g[1] for g in con[1]))

    def span(self, st, con, K):
        """[lo, hi) of kind K, if it is one interval."""
        gs = [g for g in con[1] if g[1] == K and not self.empty(st, g)]
        if not gs: return None
        if len(gs) == 1: return gs[0]
        gs2 = sorted(gs, key=repr)
        # adjacent?
        for order in (gs, gs2):
            if all(st.entails(sub(order[i][4], order[i + 1][3])) and st.entails(sub(order[i + 1][3], order[i][4])) for i in range(len(order) - 1)):
                return order[0][:4] + (order[-1][4],) + order[0][5:]
        return 'many'

    def setop(self, st, A, B, m, c, node):
        """Set algebra on contents; kinds must be whole intervals."""
        outs = [(st, ())]
        # for each kind decide presence in A and B (interval equality required)
        for K in dict.fromkeys(self.kinds(A) + self.kinds(B)):
            nxt = []
            for s, acc in outs:
                ga, gb = self.span(s, A, K), self.span(s, B, K)
                if ga == 'many' or gb == 'many':
                    s.imprecise('set operation on scattered elements'); nxt.append((s, acc)); continue
                for s1, pa in self.nonempty(s, ga, node):
                    for s2, pb in self.nonempty(s1, gb, node):
                        if pa and pb and (not self.same(s2, ga[3], gb[3]) or not self.same(s2, ga[4], gb[4])):
                            s2.imprecise('set operation on partial kinds')
                        if pa or pb: nxt.append((s2, acc + ((K, ga if pa else None, gb if pb else None),)))
                        else: nxt.append((s2, acc))
            outs = nxt
        r = []
        for s, acc in outs:
            sub_ = all(not (ga and not gb) for _, ga, gb in acc)
            sup = all(not (gb and not ga) for _, ga, gb in acc)
            dis = all(not (ga and gb) for _, ga, gb in acc)
            if m in ('issubset', '__le__'): r.append((s, boolv(sub_)))
            elif m in ('issuperset', '__ge__'): r.append((s, boolv(sup)))
            elif m == '__lt__': r.append((s, boolv(sub_ and not sup)))
            elif m == '__gt__': r.append((s, boolv(sup and not sub_)))
            elif m == '__eq__': r.append((s, boolv(sup and sub_)))
            elif m == 'isdisjoint': r.append((s, boolv(dis)))
            else:
                keep = []
                for K, ga, gb in acc:
                    g = ga or gb
                    w = m.strip('_')
                    if w in ('and', 'intersection'): ok = ga and gb
                    elif w in ('or', 'union'): ok = True
                    elif w in ('sub', 'difference'): ok = ga and not gb
                    else: ok = bool(ga) != bool(gb)
                    if ok: keep.append(g)
                r.append((s, self.mk(s, c, ('aset', tuple(keep)), True, node)))
        return r

    def same(self, st, a, b): return a == b or (st.entails(sub(a, b)) and st.entails(sub(b, a)))

    def nonempty(self, st, g, node):
        if g is None: return [(st, False)]
        return self.i.split_ge0(st, sub(sub(g[4], g[3]), I(1)), node)

    def view(self, st, obj, m, a, node):
        d = st.get(obj, 'd'); what = st.get(obj, 'what')[2]
        con = self.con(st, d)
        if m == '__len__': return [(st, content_len(con))]
        if m == '__iter__': return self.i.m.mkiter(st, self.iter_src(st, d, what), node)
        if m == '__reversed__': return self.i.m.mkiter(st, self.iter_src(st, d, what, True), node)
        if m == '__contains__':
            if what == 'keys': return [(s, boolv(i is not None)) for s, i in self.find(st, con[1], a[0], node)]
            if what == 'items' and a[0][0] == 'tup' and len(a[0][1]) == 2:
                r = []
                for s, i in self.find(st, con[1], a[0][1][0], node):
                    if i is None: r.append((s, FALSE)); continue
                    v = self.valat(con[1][i], a[0][1][0][4])
                    if st.cls(d) in LAZY: v = self.deliver(s, v, node)
                    r += self.i.cmp_eq(s, v, a[0][1][1], node)
                return r
        if m == '$isinst': return None
        return [(st, st.unknown('view.' + m))]

    # ------------------------------------------------------- element comparisons
    def eq(self, st, a, b, node):
        """a == b where at least one is a kind element; None if undecided here."""
        ea = a[0] == 't' and a[1] in ('ke', 'kv'); eb = b[0] == 't' and b[1] in ('ke', 'kv')
        if ea and eb:
            self.i_eq(st, a, b, node)
            if a[1] != b[1]: return [(st, FALSE)]
            if a[2] != b[2]: return [(st, FALSE)]
            if a[1] == 'kv' and a[3] != b[3] and ('diff', a[2]) in self.lt: return [(st, FALSE)]
            return [(st, ('t', 'eqi', sub(a[4], b[4])))]
        o = b if ea else a
        if o[0] in ('k', 'i', 'tup', 'cls', 'fn', 'bm') or o[0] == 'r': return [(st, FALSE)]
        if o[0] == 't' and o[1] == 'klz': st.event('LZEQ', self.i.site(node, st)); return [(st, FALSE)]      # a lazy object equals only itself
        return None

    def i_eq(self, st, a, b, node): st.event('EQ', self.i.site(node, st), a, b)

    def ident(self, st, a, b):
        ea = a[0] == 't' and a[1] in ('ke', 'kv'); eb = b[0] == 't' and b[1] in ('ke', 'kv')
        if ea and eb:
            if a[1:4] != b[1:4]: return [(st, FALSE)]
            return [(st, ('t', 'eqi', sub(a[4], b[4])))]
        o = b if ea else a
        if o[0] == 't' and o[1] == 'klz': return [(st, FALSE)]
        if o[0] in ('k', 'i', 'tup', 'cls', 'fn', 'bm', 'r'): return [(st, FALSE)]
        return None

    def less(self, st, a, b, node):
        if not (a[1] in ('ke', 'kv') and b[0] == 't' and b[1] in ('ke', 'kv')): return None
        K, L = a[2], b[2]
        if self.unordered: return [(st, self.i.exc(st, 'TypeError', 'user', node, 'elements that cannot be ordered'))]
        if (K, L) in self.lt: return [(st, TRUE)]
        if (L, K) in self.lt: return [(st, FALSE)]
        if K == L:
            if a[4] == b[4]: return [(st, FALSE)]
        return None
