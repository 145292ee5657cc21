"""Symbolic receivers and arguments: the representation of the collections is
described here and nowhere else."""
import ast
from .terms import *
from .core import *

LISTS = ('plist', 'llist'); TLISTS = ('tlist', 'tllist')
SETS = ('pset',); TSETS = ('tset',)
DICTS = ('pdict', 'ldict'); TDICTS = ('tdict', 'tldict')
SEQ = LISTS + TLISTS; SETLIKE = SETS + TSETS; MAPS = DICTS + TDICTS
ALL = SEQ + SETLIKE + MAPS
PERSISTENT = LISTS + SETS + DICTS
TRANSIENT = TLISTS + TSETS + TDICTS
LAZY = ('llist', 'tllist', 'ldict', 'tldict')
PARTNER = {'plist': 'tlist', 'llist': 'tllist', 'pset': 'tset', 'pdict': 'tdict', 'ldict': 'tldict'}
PARTNER.update({v: k for k, v in list(PARTNER.items())})
PLAIN = {'llist': 'plist', 'tllist': 'tlist', 'ldict': 'pdict', 'tldict': 'tdict'}

# representation: class -> field roles
REP = {}
for c in LISTS: REP[c] = {'els': '_phamt', 'start': '_start', 'hash': '_hashcode'}
for c in TLISTS: REP[c] = {'els': '_thamt', 'start': '_start', 'orig': '_orig'}
for c in SETS + DICTS: REP[c] = {'els': '_els', 'idx': '_idx', 'top': '_top', 'hash': '_hashcode'}
for c in TSETS: REP[c] = {'els': '_els', 'idx': '_idx', 'top': '_top', 'orig': '_orig'}
for c in TDICTS: REP[c] = {'els': '_els', 'idx': '_idx', 'top': '_top', 'version': '_version', 'orig': '_orig'}


def kind_of(c):
    if c in SEQ: return 'seq'
    if c in SETLIKE: return 'set'
    return 'map'


def contkind(c):
    return 'set' if c in SETLIKE else 'dict'


class World:
    def __init__(self, prog, interp):
        self.p = prog; self.i = interp
        self.hook = None

    def state(self):
        s = self.p.base.fork()
        s.x = {'$loops': 0}
        return s

    def sym(self, name, ptype=None, st=None):
        v = ('s', name)
        if ptype is not None and st is not None: st.types[v] = ptype
        return v

    def contents(self, c, name):
        """The content terms of a symbolic collection."""
        if c in SEQ: return {'els': ('lb', name, ('s', name, 'start'), ('s', name, 'n'))}
        k = contkind(c)
        return {'els': ('cb', name, 'els', k), 'idx': ('cb', name, 'idx', k)}

    def recv(self, st, c, name, orig=False, hashed=False, empty=None):
        """A pre-existing symbolic instance of class c."""
        R = REP[c]
        f = {}
        n = ('s', name, 'n')
        st.add(n)
        if empty is True: st.add(scale(n, -1))
        if empty is False: st.add(add(n, I(-1)))
        st.types[n] = 'int'
        cont = self.contents(c, name)
        for role in ('els', 'idx'):
            if role not in R: continue
            if c in PERSISTENT: f[R[role]] = ('ph', cont[role])
            else:
                t = st.new('THAMT', {'c': cont[role], 'ver': I(0)}, None, fresh=False)
                f[R[role]] = t
        if 'start' in R:
            f[R['start']] = ('s', name, 'start'); st.types[('s', name, 'start')] = 'int'
        if 'top' in R:
            f[R['top']] = ('s', name, 'top'); st.types[('s', name, 'top')] = 'int'; st.add(sub(('s', name, 'top'), n))
        if 'version' in R:
            f[R['version']] = ('s', name, 'version'); st.types[('s', name, 'version')] = 'int'; st.add(('s', name, 'version'))
        if 'hash' in R:
            f[R['hash']] = ('t', 'cachedhash', name) if hashed else NONE
            if hashed: st.types[('t', 'cachedhash', name)] = 'int'
        ref = st.new(c, {}, None, fresh=False)
        if 'orig' in R:
            if orig:
                pc = PARTNER[c]
                o = self.bare(st, pc, name)
                st.add(add(n, I(-1)))
                f[R['orig']] = o
            else: f[R['orig']] = NONE
        st.heap[ref[1]] = Obj(c, f, False, None)
        return ref

    def bare(self, st, pc, name):
        """The remembered persistent original of a transient: equal contents."""
        R = REP[pc]
        cont = self.contents(pc, name)
        f = {}
        for role in ('els', 'idx'):
            if role in R: f[R[role]] = ('ph', cont[role])
        if 'start' in R: f[R['start']] = ('s', name, 'start')
        if 'top' in R: f[R['top']] = ('s', name, 'top')
        f[R['hash']] = NONE
        return st.new(pc, f, None, fresh=False)

    def node_syms(self): pass

    def call(self, st, obj, meth, args=(), kw=None, node=None):
        """obj.meth(*args, **kw)"""
        I_ = self.i
        rec = (obj, meth, tuple(args), kw or {}, st.fork(), len(st.ev))
        I_.walked = None
        try: outs = I_.bind(I_.getattr(st, obj, meth, node), lambda s, f: I_.call(f, tuple(args), kw or {}, s, node))
        except Abort:
            if self.hook: self.hook(rec, None)
            raise
        if self.hook: self.hook(rec, outs)
        return outs

    def binop(self, st, op, x, y, node, inplace=False):
        """x op y, judged as an operation of the collection among the operands."""
        I_ = self.i
        nm = {ast.Add: 'add', ast.Mult: 'mul', ast.BitOr: 'or', ast.BitAnd: 'and', ast.Sub: 'sub', ast.BitXor: 'xor'}[op]
        def coll(v): return v[0] == 'r' and v[1] in st.heap and st.cls(v) in ALL
        if coll(x):
            m = f'__i{nm}__'
            if not inplace or self.p.lookup(st.cls(x), m)[0] is None: m = f'__{nm}__'
            rec = (x, m, (y,), {}, st.fork(), len(st.ev))
        else: rec = (y, f'__r{nm}__', (x,), {}, st.fork(), len(st.ev))
        outs = I_.binop(st, op, x, y, node, inplace=inplace)
        # operands that neither side supports: the interpreter's own TypeError
        top = I_.site(node, st)
        if self.hook: self.hook(rec, [(s, v) for s, v in outs if not (isinstance(v, Raise) and v.exc[1] == 'TypeError' and v.exc[3] == top)])
        return outs
