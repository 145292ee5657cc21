"""Scenarios and judgements shared by the rules: formulas over the symbolic
counts, feasibility of a violated specification in an abstract outcome, and the
record of obligations."""
import ast, os, time, traceback
from .terms import *
from .core import *
from .load import load_program
from .world import *
from .contract import *

# thorough runs: longer chains, more elements, more steps, more objects
DEEP = os.environ.get('VERIF_TIER') == 'thorough'

# ---------------------------------------------------------------- formulas
def GE(e): return ('ge', e)
def EQ0(e): return AND(GE(e), GE(scale(e, -1)))
def AND(*fs): return ('and',) + fs
def OR(*fs): return ('or',) + fs
def NOT(f): return ('not', f)
T = ('and',)
F = ('or',)


def dnf(f, pos=True):
    k = f[0]
    if k == 'ge': return [[f[1]]] if pos else [[sub(I(-1), f[1])]]
    if k == 'not': return dnf(f[1], not pos)
    conj = (k == 'and') == pos
    if conj:
        out = [[]]
        for g in f[1:]: out = [a + b for a in out for b in dnf(g, pos)]
        return out
    return [c for g in f[1:] for c in dnf(g, pos)]


NONLIN = ('mulop', 'bitop', 'uop', 'str')


def possible(st, f):
    """May formula f hold in this outcome?  (polyhedral emptiness)"""
    for conj in dnf(f):
        if not infeasible(list(st.cons) + conj): return True
    return False


def nonlinear(st, *es):
    for e in list(st.cons) + list(es):
        if contains(e, lambda x: x[0] == 't' and len(x) > 1 and x[1] in NONLIN or x[0] == 'u'): return True
    return False


class Findings:
    def __init__(self):
        self.obl = 0; self.ok = 0; self.und = 0; self.viol = []; self.why = {}; self.entries = 0; self.paths = 0
        self.samples = []; self.time = 0.0
        self.by = {}             # rule -> [obligations, discharged, undecided], judged centrally

    def tally(self, rule, what):
        b = self.by.setdefault(rule, [0, 0, 0])
        b[0] += 1
        if what == 'ok': b[1] += 1
        elif what == 'und': b[2] += 1

    def undecided(self, why):
        if isinstance(why, tuple) and len(why) == 1: why = why[0]
        self.obl += 1; self.und += 1
        why = str(why)[:160]
        self.why[why] = self.why.get(why, 0) + 1

    def good(self): self.obl += 1; self.ok += 1

    def bad(self, rule, where, text, key=None, path=()):
        self.obl += 1
        self.viol.append({'rule': rule, 'where': where, 'text': text, 'key': key or f'{rule}|{where}|{text}'[:300], 'path': list(path)})
        # a wrong answer for which a lazy object was compared in place of its value
        if rule in ('C09', 'C20', 'C22') and path and self.last is not None:
            e = [e for e in self.last.ev if e[0] == 'LZEQ']
            if e: self.bad('C05', where, f'{text}; a lazy object is compared instead of its value at {":".join(map(str, e[-1][1][:2])) if e[-1][1] else "?"}', path=path)

    last = None

    def merge(self, o):
        self.obl += o.obl; self.ok += o.ok; self.und += o.und; self.viol += o.viol; self.entries += o.entries; self.paths += o.paths
        for k, v in o.why.items(): self.why[k] = self.why.get(k, 0) + v
        for k, v in o.by.items(): self.by[k] = [a + b for a, b in zip(self.by.get(k, [0, 0, 0]), v)]
        self.samples += o.samples; self.time += o.time


_learned = {}


def learn_names(cx):
    """The slots that play the parts of REP may be called otherwise: when the
    usual names are gone, build a collection of one element and see which slot
    holds what."""
    if cx.root in _learned: return
    _learned[cx.root] = True
    for c in ALL:
        names = set()
        for b in cx.fp.mro(c):
            k = cx.fp.classes.get(b)
            if k is None: continue
            sl = k.attrs.get('__slots__')
            if not isinstance(sl, tuple): continue
            for v in (sl[1] if sl[0] == 'tup' else (sl,)):
                if v[0] == 'k' and v[1] == 'str': names.add(v[2])
        R = REP[c]
        gone = [r for r, f in R.items() if f not in names and r != 'orig']
        if not names or not gone: continue
        st = cx.fw.state()
        x = ('s', 'x'); st.types[x] = 'elem'; y = ('s', 'y'); st.types[y] = 'elem'
        item = ('tup', (x, y)) if c in MAPS else x
        lst = st.new('list', {'ls': (('it', item),)}, None)
        outs = cx.run(cx.fi, lambda: cx.fi.instantiate(('cls', c), (lst,), {}, st, ast.Pass(lineno=0, col_offset=0))) or ()
        for s, v in outs:
            if isinstance(v, Raise) or v[0] != 'r' or s.cls(v) != c: continue
            for fl, w in s.heap[v[1]].f.items():
                if fl in R.values() or fl.startswith('$') or not isinstance(w, tuple): continue
                t = w[1] if w[0] == 'ph' else s.get(w, 'c') if w[0] == 'r' and s.cls(w) == 'THAMT' else None
                if t is not None:
                    role = 'els' if c in SEQ or t[0] == 'w' and t[3][0] == 'tup' else 'idx'
                elif w == NONE: role = 'hash' if c in PERSISTENT else 'orig'
                elif cint(w) is not None:
                    role = next((r for r in gone if r in ('start', 'top', 'version')), None)
                    if role == 'top' and 'version' in gone and cint(w) != 1: role = 'version'
                else: continue
                if role in gone or role in R and R[role] not in names and role in ('orig', 'hash'):
                    R[role] = fl
                    if role in gone: gone.remove(role)
            break


def trie_base(c):
    """The content a trie started from."""
    while c[0] in ('w', 'd', 'lw'): c = c[1]
    return c


def broken(s, ref):
    """The text if the representation of a collection is certainly wrong: no
    trie where one belongs, or the trie of another role."""
    o = s.heap[ref[1]]; R = REP[o.cls]
    for role in ('els', 'idx'):
        if role not in R: continue
        t = o.f.get(R[role])
        if t is None or t == NONE: continue
        if t[0] in ('i', 'tup', 'cls', 'fn', 'bi') or t[0] == 'k' or t[0] == 'r' and t[1] in s.heap and s.cls(t) in ALL + ('list', 'dict', 'set', 'iter', 'gen'):
            return f'a {o.cls} is left with {show(t) if t[0] != "r" else "a " + s.cls(t)} for its {R[role]}'
        if o.cls in TRANSIENT and t[0] == 'ph': return f'a {o.cls} is left with an unchangeable trie for its {R[role]}'
        c = t[1] if t[0] == 'ph' else s.get(t, 'c') if t[0] == 'r' and s.cls(t) == 'THAMT' else None
        if c is None: continue
        b = trie_base(c)
        if b[0] in ('cb', 'abs') and b[2] != role and 'idx' in R: return f'the {b[2]} trie is used as the {R[role]} of a {o.cls}'
    for role in ('start', 'top'):
        if role not in R: continue
        t = o.f.get(R[role])
        if t is None or t == NONE: continue
        if t[0] in ('ph', 'tup', 'cls', 'fn') or t[0] == 'k' and t[1] not in ('int', 'bool') or t[0] == 'r' and t[1] in s.heap:
            return f'a {o.cls} is left with {show(t) if t[0] != "r" else "a " + s.cls(t)} for its {R[role]}'
    return None


class Ctx:
    """One analysed program: full mode (representation level) and contract mode."""
    def __init__(self, root):
        self.root = root
        self.fp, self.fi = load_program(root)
        self.fw = World(self.fp, self.fi)
        self.cp, self.ci = load_program(root)
        self.cw = World(self.cp, self.ci)
        self.C = Contract(self.ci, self.cp).install()
        self.ci.custom['kinds'] = self.C.src_phases
        self.f = Findings()
        from .central import examine
        self.fw.hook = lambda rec, outs: examine(self, self.fi, rec, outs)
        self.cw.hook = lambda rec, outs: examine(self, self.ci, rec, outs)
        learn_names(self)

    # where is a public operation defined?
    def where(self, c, m):
        o, v = self.fp.lookup(c, m)
        v0 = v
        while v and v[0] in ('cm', 'sm', 'prop'): v = v[1]
        if v and v[0] == 'fn':
            f = self.fp.fns[v[1]]
            return f'{os.path.relpath(f.file, self.root)}:{f.node.lineno} {f.qual}'
        return f'{c}.{m}'

    def has(self, c, m):
        o, v = self.fp.lookup(c, m)
        return o is not None and v != NONE

    # ------------------------------------------------------- running entries
    def run(self, it, thunk, budget=150000, secs=60):
        """thunk() -> outcomes; None if the analysis gave up."""
        for i in (self.fi, self.ci):
            i.steps = 0; i.budget = budget; i.deadline = time.time() + secs
        self.f.entries += 1
        try:
            outs = thunk()
        except Abort as e:
            self.f.undecided('gave up: ' + str(e)); return None
        except RecursionError:
            self.f.undecided('gave up: nesting'); return None
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.f.undecided(f'analyser: {type(e).__name__} {e} at {os.path.basename(tb.filename)}:{tb.lineno}'); return None
        self.f.paths += len(outs)
        return outs

    def imp(self, st):
        """Is this outcome over-approximate?  Then it cannot convict."""
        if st.imp or st.lost: return True
        # an integer generalised over iterations without a closed form
        for e in st.cons:
            if contains(e, lambda x: x[0] == 'phi' or x[0] == 'u'): return True
        return False

    def trace(self, st):
        self.f.last = st
        return [f'{l}: {t}' for l, t in st.pc[-14:]]

    def truths(self, it, outs):
        """Outcomes -> [(state, True|False|Raise)] by truth value."""
        r = []
        for s, v in outs:
            if isinstance(v, Raise): r.append((s, v)); continue
            r.extend(it.split(s, v))
        return r

    def cstate(self):
        st = self.cw.state()
        self.C.lt = {}; self.C.unordered = False; self.C.bypass = set(); self.C.newbypass = set()
        return st


def cnt(st, n):
    v = ('s', n, 'n'); st.types[v] = 'int'; st.add(v)
    if 'key ' + n in SPECIAL: st.add(sub(I(1), v))       # one particular element, there or not
    return v


def seg(K, side, n, val=None, lo=None): return ('g', K, side, lo or I(0), n) + (() if val is None else (val,))


def lp(K, side, n, val=None, lo=None):
    """A list piece: n elements of kind K."""
    for w in ('seq ', 'key '):
        if val is None and w + K in SPECIAL: val = lambda K, side, j, x=SPECIAL[w + K]: x
    j = JA if lo is None else add(lo, JA)
    return ('lp', n, JA, ((val if val is not None else ke)(K, side, j),))


BOPS = {'&': ast.BitAnd, '|': ast.BitOr, '-': ast.Sub, '^': ast.BitXor, '+': ast.Add, '*': ast.Mult}
COPS = {'==': ast.Eq, '!=': ast.NotEq, '<': ast.Lt, '<=': ast.LtE, '>': ast.Gt, '>=': ast.GtE}


def kwnames(cx):
    """The keywords a function that takes any of them could mistake for its own
    parameters."""
    out = set()
    for F in cx.fp.fns.values():
        a = F.node.args
        if a.kwarg: out |= {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    return sorted(out)
