"""Questions about laziness, and the raw counterparts of lazy collections (C28):
is_lazy, is_ready, getlazy, ready_all, as_plist / as_pdict / as_tdict,
__holdlazy__, holdlazy, unlazy, reprlazy and strlazy.  Each is interpreted from
its source down to the tries; the answers are compared with what the element
stored there is."""
from .scen import *
from .rules_list import must, user_exc, veq, at, observe as lobserve
from .rules_chain import Scn, X, lzs, observe as dobserve
from .rules_set import rcheck
import itertools, os

NODE = ast.parse('x').body[0].value
RAW = {'llist': ('as_plist', 'plist'), 'ldict': ('as_pdict', 'pdict'), 'tldict': ('as_tdict', 'tdict')}


def c28(cx, c):
    if c in LAZY:
        for lz in (True, False):
            for meth in ('is_lazy', 'is_ready', 'getlazy'):
                if cx.has(c, meth): yield lambda lz=lz, meth=meth: ask(cx, c, meth, lz)
            for orig in ((False, True) if c in TRANSIENT else (False,)):
                for how in ('as', '__holdlazy__', 'holdlazy'):
                    if c in RAW: yield lambda lz=lz, how=how, orig=orig: raw(cx, c, how, lz, orig)
        if cx.has(c, 'ready_all'):
            for n in range(6 if DEEP else 4):
                for pat in itertools.product((True, False), repeat=n): yield lambda pat=pat: ready(cx, c, pat)
    if c not in RAW:
        for req in (None, False, True): yield lambda req=req: notheld(cx, c, req)
    if c == 'llist':
        for f in ('unlazy', 'reprlazy', 'strlazy'):
            for lz in (True, False): yield lambda f=f, lz=lz: util(cx, f, lz)


def scene(cx, c, lz, orig=False):
    """state, receiver, argument, the stored element the argument leads to"""
    if c in SEQ:
        st = cx.fw.state(); st.x['$lazy'] = lz
        r = cx.fw.recv(st, c, 'x', orig=orig)
        i = ('s', 'i'); st.types[i] = 'int'
        st.add(i); st.add(sub(sub(('s', 'x', 'n'), I(1)), i))
        return st, r, i, at(i), None
    sc = Scn(cx, c, 2, 1, orig, lz)
    return sc.st, sc.r, X, sc.vals[1], sc


def forced(s): return [e for e in s.ev if e[0] == 'FORCE']


def ask(cx, c, meth, lz):
    it = cx.fi; it.unroll = 6
    try:
        st, r, a, el, sc = scene(cx, c, lz)
        where = cx.where(c, meth); what = f'{c}.{meth} of {"a lazy" if lz else "an ordinary"} element'
        rd = ('truth', ('t', 'ready', el))
        for s, v in cx.run(it, lambda: cx.fw.call(st, r, meth, (a,))) or ():
            if isinstance(v, Raise):
                if not user_exc(v): rcheck(cx, 'C28', where, what, s, v)
                continue
            must(cx, 'C28', where, what, s, not forced(s), 'computes the element')
            if meth == 'getlazy':
                must(cx, 'C28', where, what, s, v == el, f'gives {show(v)}, not the stored element'); continue
            for s2, b in it.split(s, v):
                if isinstance(b, Raise): rcheck(cx, 'C28', where, what, s2, b); continue
                if meth == 'is_lazy': must(cx, 'C28', where, what, s2, b == lz, f'is {b}')
                elif not lz: must(cx, 'C28', where, what, s2, b, 'is False')
                elif s2.facts.get(rd) is None: must(cx, 'C28', where, what, s2, False, f'is {b} whether or not the element has its value')
                else: must(cx, 'C28', where, what, s2, b == s2.facts[rd], f'is {b} although the element is {"" if not b else "not "}ready')
    finally: it.unroll = 1


def raw(cx, c, how, lz, orig):
    it = cx.fi; it.unroll = 6
    try:
        st, r, a, el, sc = scene(cx, c, lz, orig)
        m, kind = RAW[c]
        if how == 'holdlazy':
            fn = modfn(cx, it, 'holdlazy')
            if fn is None: return
            where = place(cx, it, fn); what = f'holdlazy({c})'
            f = lambda: it.call(fn, (r,), {}, st, NODE)
        else:
            meth = m if how == 'as' else how
            where = cx.where(c, meth); what = f'{c}.{meth}()'
            f = lambda: cx.fw.call(st, r, meth, ())
        for s, v in cx.run(it, f) or ():
            if isinstance(v, Raise):
                if not user_exc(v): rcheck(cx, 'C28', where, what, s, v)
                continue
            must(cx, 'C28', where, what, s, not forced(s), 'computes elements')
            if v[0] != 'r': must(cx, 'C28', where, what, s, False, f'gives {show(v)}'); continue
            must(cx, 'C28', where, what, s, s.cls(v) == kind, f'gives a {s.cls(v)}, not a {kind}')
            if s.cls(v) != kind: continue
            if c in SEQ: lobserve(cx, 'C28', where, what, s, v, [(('s', 'x', 'n'), at)], kind)
            else:
                e, n = sc.expect('none')
                dobserve(sc, 'C28', where, what, s, v, e, n, kind)
    finally: it.unroll = 1


def modfn(cx, it, name):
    """A function the package exports."""
    return it.p.modules.get("pcollections", {}).get(name) or it.p.modules.get("pcollections._lazy", {}).get(name)


def place(cx, it, f):
    F = it.p.fns.get(f[1]) if f[0] == 'fn' else None
    return f'{os.path.relpath(F.file, cx.root)}:{F.node.lineno} {F.qual}' if F else show(f)


def notheld(cx, c, req):
    """holdlazy of anything that is not a lazy collection: the object itself, or
    a TypeError if a lazy one was required."""
    it = cx.fi
    f = modfn(cx, it, 'holdlazy')
    if f is None: return
    st = cx.fw.state()
    r = cx.fw.recv(st, c, 'x', orig=False)
    where = place(cx, it, f); what = f'holdlazy({c})' if req is None else f'holdlazy({c}, require_lazy={req})'
    for s, v in cx.run(it, lambda: it.call(f, (r,), {} if req is None else {'require_lazy': boolv(req)}, st, NODE)) or ():
        if req:
            if isinstance(v, Raise) and not user_exc(v): must(cx, 'C28', where, what, s, v.exc[1] == 'TypeError' and v.exc[0] != 'internal', f'raises {v.exc[1]}, not TypeError')
            elif not isinstance(v, Raise): must(cx, 'C28', where, what, s, False, f'gives {show(v)} instead of TypeError')
        elif isinstance(v, Raise):
            if not user_exc(v): rcheck(cx, 'C28', where, what, s, v)
        else: must(cx, 'C28', where, what, s, v == r, f'gives {show(v)}, not the object itself')


def util(cx, name, lz):
    """unlazy, reprlazy and strlazy of a lazy object and of any other."""
    it = cx.fi
    f = modfn(cx, it, name)
    if f is None: return
    st = cx.fw.state(); st.x['$lazy'] = None
    x = ('s', 'obj'); st.facts[('inst', x, 'lazy')] = lz; st.facts[('null', x)] = False
    where = place(cx, it, f); what = f'{name} of {"a lazy object" if lz else "any other object"}'
    for s, v in cx.run(it, lambda: it.call(f, (x,), {}, st, NODE)) or ():
        if isinstance(v, Raise):
            if not user_exc(v): rcheck(cx, 'C28', where, what, s, v)
            continue
        if name == 'unlazy': must(cx, 'C28', where, what, s, v == (('t', 'forced', x) if lz else x), f'gives {show(v)}')
        else:
            must(cx, 'C28', where, what, s, not forced(s), 'computes the object')
            if lz: must(cx, 'C28', where, what, s, it.ptype(s, v) == 'str', f'gives {show(v)}')
            else: must(cx, 'C28', where, what, s, v == ('t', 'text', name[:-4], x), f'gives {show(v)}')


def ready(cx, c, pat):
    it = cx.fi
    st = cx.fw.state(); st.x['$lazy'] = None; st.x['$pin'] = True
    r = cx.fw.recv(st, c, 'x', orig=False)
    n = ('s', 'x', 'n'); k = len(pat)
    st.add(sub(n, I(k))); st.add(sub(I(k), n))
    if c in SEQ:
        st = it.l.subst_state(st, {n: I(k), ('s', 'x', 'start'): I(-1)})
        vals = [at(I(i)) for i in range(k)]
    else: vals = [('t', 'val', 'x', ('t', 'nd', 'x', I(i))) for i in range(k)]
    for v, z in zip(vals, pat): st.facts[('inst', v, 'lazy')] = z
    where = cx.where(c, 'ready_all'); what = f'{c}.ready_all() of {k} elements'
    it.unroll = 6
    try: outs = cx.run(it, lambda: cx.fw.call(st, r, 'ready_all', ()))
    finally: it.unroll = 1
    for s, v in outs or ():
        if isinstance(v, Raise):
            if not user_exc(v): rcheck(cx, 'C28', where, what, s, v)
            continue
        must(cx, 'C28', where, what, s, v == r, f'gives {show(v)}, not the collection itself')
        done = {e[2] for e in forced(s)}
        for i, (x, z) in enumerate(zip(vals, pat)):
            if z: must(cx, 'C28', where, what, s, x in done, f'leaves element {i} uncomputed')
