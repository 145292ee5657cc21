"""lazy objects (C07): the state machine of one object, with other threads
advancing it at every point where the running thread does not hold the lock.

The states are taken from the source: S0 is what lazy.__new__ leaves behind,
S1..Sn are the states between the writes that an undisturbed successful call
makes.  A read of a field outside the lock may see any state from the last one
seen onwards; acquiring the lock waits for writers, so it sees S0 or Sn."""
from .scen import *
from .rules_list import must

NODE = ast.parse('x').body[0].value
FN, A0, K0 = ('s', 'fn'), ('s', 'arg0'), ('s', 'kwarg')


def new(cx, st, args=(A0,), kw=None):
    it = cx.fi
    st.types[FN] = 'callable'
    st.facts[('callable', FN)] = True
    return cx.run(it, lambda: it.instantiate(('cls', 'lazy'), (FN,) + args, kw or {}, st, NODE))


def publish(st, v):
    """The object is now shared: everything reachable from it pre-exists."""
    from .central import reach
    for i in reach(st, v):
        o = st.heap[i]
        st.heap[i] = Obj(o.cls, o.f, False, o.site)


def held(st, locks):
    n = {}
    for e in st.ev:
        if e[0] == 'LOCK': n[e[2]] = n.get(e[2], 0) + 1
        elif e[0] == 'UNLOCK': n[e[2]] = n.get(e[2], 0) - 1
    return {k for k, v in n.items() if v > 0}, {k for k, v in n.items() if v != 0}


def made(cx):
    for args, kw in [((), {}), ((A0,), {}), ((A0,), {'k': K0})] + [((), {u: K0}) for u in kwnames(cx)]:
        st = cx.fw.state(); st.x['$lazy'] = False
        outs = new(cx, st, args, kw)
        for s, v in outs or ():
            if isinstance(v, Raise):
                if v.exc[2] == 'internal': must(cx, 'C07', cx.where('lazy', '__new__'), 'lazy(fn, ...)', s, False, f'raises {v.exc[1]} {v.exc[4]}')
                continue
            if v[0] != 'r' or s.cls(v) != 'lazy': cx.f.undecided('lazy(...) gives ' + show(v)); continue
            publish(s, v); s.ev = []if isinstance(s.ev, list) else ()
            yield s, v, args, kw


def fields(st, v): return dict(st.heap[v[1]].f)


def setfields(st, v, f):
    o = st.heap[v[1]]
    st.heap[v[1]] = Obj(o.cls, dict(f), o.fresh, o.site)


def c07(cx, c):
    if c != 'plist': return
    yield lambda: notcallable(cx)
    yield lambda: calls(cx)
    yield lambda: errors(cx)


def notcallable(cx):
    """lazy(x) of something that cannot be called is a TypeError."""
    it = cx.fi; st = cx.fw.state()
    st.types[FN] = 'int'; st.facts[('callable', FN)] = False
    where = cx.where('lazy', '__new__')
    for s, v in cx.run(it, lambda: it.instantiate(('cls', 'lazy'), (FN,), {}, st, NODE)) or ():
        must(cx, 'C07', where, 'lazy() of an object that is not callable', s, isinstance(v, Raise) and v.exc[1] == 'TypeError', 'no TypeError')


def value_of(args, kw):
    return ('t', 'ucall', FN, '()', tuple(args) + tuple(('tup', (('k', 'str', k), x)) for k, x in kw.items()))


def calls(cx):
    it = cx.fi
    wc = cx.where('lazy', '__call__'); wr = cx.where('lazy', 'is_ready')
    for st0, L, args, kw in made(cx):
        VAL = value_of(args, kw)
        S0 = fields(st0, L)
        # ---- undisturbed: one call, then a second one
        stages = None
        for s, v in cx.run(it, lambda: cx.fw.call(st0.fork(), L, '__call__')) or ():
            what = 'a call of a pending lazy object'
            if isinstance(v, Raise): must(cx, 'C07', wc, what, s, False, f'raises {v.exc[1]} {v.exc[4]}'); continue
            must(cx, 'C07', wc, what, s, v == VAL, f'returns {show(v)}, not what its function returned')
            n = [e for e in s.ev if e[0] == 'UCALL']
            must(cx, 'C07', wc, what, s, len(n) == 1, f'runs the function {len(n)} times')
            must(cx, 'C07', wc, what, s, not held(s, None)[1], 'leaves a lock held')
            for s2, v2 in cx.run(it, lambda: cx.fw.call(s.fork(), L, '__call__')) or ():
                w2 = 'a second call'
                if isinstance(v2, Raise): must(cx, 'C07', wc, w2, s2, False, f'raises {v2.exc[1]} {v2.exc[4]}'); continue
                must(cx, 'C07', wc, w2, s2, v2 == VAL, f'returns {show(v2)}, not the value computed')
                must(cx, 'C07', wc, w2, s2, len([e for e in s2.ev if e[0] == 'UCALL']) == 1, 'runs the function again')
            cur = dict(S0); seq = [dict(cur)]
            for e in s.ev:
                if e[0] == 'SET' and e[2] == L:
                    if e[4] is None: cur.pop(e[3], None)
                    else: cur[e[3]] = e[4]
                    if cur != seq[-1]: seq.append(dict(cur))
            if stages is None: stages = seq
            elif stages != seq: cx.f.undecided('several ways a call of a lazy object can succeed')
        if stages is None: cx.f.undecided('no successful call of a lazy object'); continue
        last = len(stages) - 1
        must(cx, 'C07', wc, 'a successful call', st0, last > 0, 'caches nothing, so that the function runs again')
        # ---- is_ready in every state
        for k, f in enumerate(stages):
            s1 = st0.fork(); setfields(s1, L, f)
            for s, v in cx.run(it, lambda: cx.fw.call(s1, L, 'is_ready')) or ():
                if isinstance(v, Raise): must(cx, 'C07', wr, 'is_ready()', s, False, f'raises {v.exc[1]} {v.exc[4]}'); continue
                for s2, b in it.split(s, v):
                    if k == 0: must(cx, 'C07', wr, 'is_ready() of a pending lazy object', s2, b is False, 'is not False')
                    elif k == last: must(cx, 'C07', wr, 'is_ready() of a computed lazy object', s2, b is True, 'is not True, whatever its value is')
        # ---- other threads
        it.volatile, it.onlock = hooks(stages, L)
        try:
            for raises in (False, True):
                it.user_raises = it.base_raises = raises
                s1 = st0.fork(); s1.x['$stage'] = 0
                outs = cx.run(it, lambda: cx.fw.call(s1, L, '__call__'))
                for s, v in outs or (): judge(cx, wc, s, v, L, VAL, S0, st0, stages)
                if not raises:
                    s1 = st0.fork(); s1.x['$stage'] = 0
                    for s, v in cx.run(it, lambda: cx.fw.call(s1, L, 'is_ready')) or ():
                        if isinstance(v, Raise): continue
                        for s2, b in it.split(s, v):
                            if b is not True: continue
                            # whoever saw it ready can read the value
                            it.user_raises = it.base_raises = False
                            s3 = s2.fork(); n0 = len(s3.ev)
                            for s4, v4 in cx.run(it, lambda: cx.fw.call(s3, L, '__call__')) or ():
                                ran = [e for e in s4.ev[n0:] if e[0] == 'UCALL']
                                must(cx, 'C07', wr, 'another thread is computing the value', s4, v4 == VAL and not ran,
                                     'is_ready() says True before the value is in place')
        finally:
            it.volatile = it.onlock = None; it.user_raises = it.base_raises = False


def hooks(stages, L):
    last = len(stages) - 1

    def volatile(st, v, name, node):
        o = st.heap[v[1]]
        if v != L or st.x.get('$stage') is None: return [(st, o.f[name])]
        r = []; seen = set()
        for k in range(st.x['$stage'], last + 1):
            x = stages[k].get(name)
            if x is None or x in seen: continue
            seen.add(x)
            s = st.fork(); s.x['$stage'] = k; setfields(s, L, stages[k])
            r.append((s, x))
        return r

    def onlock(st, v, m):
        if m in ('release', '__exit__'):
            k = st.x.get('$locked')
            if k is not None:
                # nothing written: the others go on; otherwise this call has won
                st.x['$stage'] = k if fields(st, L) == stages[k] else last if fields(st, L) == stages[last] else None
                st.x['$locked'] = None
            return [st]
        if st.x.get('$stage') is None: return [st]
        r = []
        for k in sorted({0, last}):
            if k < st.x['$stage']: continue
            s = st.fork(); setfields(s, L, stages[k]); s.x['$stage'] = None; s.x['$locked'] = k; s.event('STAGE', k)
            r.append(s)
        if not r:
            s = st.fork(); setfields(s, L, stages[last]); s.x['$stage'] = None; s.x['$locked'] = last; s.event('STAGE', last); r.append(s)
        return r
    return volatile, onlock


def judge(cx, where, s, v, L, VAL, S0, st0, stages):
    last = len(stages) - 1
    what = 'called while other threads call it'
    ucalls = []; nheld = {}; cur = None; wrote = False
    for e in s.ev:
        if e[0] == 'LOCK': nheld[e[2]] = nheld.get(e[2], 0) + 1
        elif e[0] == 'STAGE': cur = e[1]
        elif e[0] == 'UNLOCK':
            nheld[e[2]] = nheld.get(e[2], 0) - 1
            must(cx, 'C07', where, what, s, nheld[e[2]] >= 0, f'releases a lock it does not hold at {e[1]}')
        locked = any(n > 0 for n in nheld.values())
        mine = all(k[1] in st0.heap for k, n in nheld.items() if n > 0)
        if e[0] == 'UCALL' and e[2] == FN or e[0] == 'UCALL' and contains(e[2], lambda x: x == FN):
            ucalls.append(e)
            must(cx, 'C07', where, what, s, cur == 0, f'runs the function although another thread may have computed the value, at {e[1]}')
            must(cx, 'C07', where, what, s, locked and mine, f'runs the function without the lock of the object at {e[1]}')
        if e[0] == 'SET' and e[2] == L:
            wrote = True
            must(cx, 'C07', where, what, s, locked and mine, f'writes {e[3]} without the lock of the object at {e[1]}')
    must(cx, 'C07', where, what, s, not any(nheld.values()), 'leaves a lock held' + (' when the function raises' if isinstance(v, Raise) else ''))
    must(cx, 'C07', where, what, s, len(ucalls) <= 1, 'runs the function twice')
    for ref in {e[2] for e in s.ev if e[0] == 'LOCK'}:
        must(cx, 'C07', where, what, s, s.cls(ref) == 'RLock', 'a function that asks for its own value would wait for itself for ever (the lock is not reentrant)')
    if isinstance(v, Raise):
        ux = [e for e in s.ev if e[0] == 'UEXC']
        if not ux:
            must(cx, 'C07', where, what, s, False, f'raises {v.exc[1]} {v.exc[4]}'); return
        raised_base = v.exc[1] == 'UserBaseError'
        must(cx, 'C07', where, 'the function raises', s, v.exc[1] == 'LazyError' or raised_base, f'reports {v.exc[1]}, not LazyError')
        must(cx, 'C07', where, 'the function raises', s, fields(s, L) == S0, 'something is cached although the function failed')
        return
    must(cx, 'C07', where, what, s, v == VAL, f'returns {show(v)}, not the value computed')


def errors(cx):
    """The text of the error can be produced for every callable and arguments."""
    it = cx.fi
    if 'LazyError' not in cx.fp.classes: cx.f.undecided('no LazyError'); return
    for st0, L, args, kw in made(cx):
        it.user_raises = True
        outs = cx.run(it, lambda: cx.fw.call(st0.fork(), L, '__call__'))
        it.user_raises = False
        for s, v in outs or ():
            if not isinstance(v, Raise) or v.exc[1] != 'LazyError': continue
            e = v.exc[5]
            if not (isinstance(e, tuple) and e and e[0] == 'r'): cx.f.undecided('the error object is not known'); continue
            for m in ('__str__', '__repr__'):
                if not cx.has('LazyError', m): continue
                where = cx.where('LazyError', m)
                for s2, t in cx.run(it, lambda: cx.fw.call(s.fork(), e, m)) or ():
                    must(cx, 'C07', where, f'{m} of the error of a failed lazy object', s2, not isinstance(t, Raise) or t.exc[2] == 'user',
                         f'raises {t.exc[1] + " " + str(t.exc[4]) if isinstance(t, Raise) else ""}')
