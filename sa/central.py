"""What must hold of every call of every public operation, judged on each
outcome of each scenario any rule runs: no internal failure (C16), persistent
collections untouched (C01), only the edited transient changed (C02), the class
of the result (C04), laziness (C05, C06), no traversal in single-element
operations (C23)."""
from .terms import *
from .core import *
from .world import *

# ------------------------------------------------------------------- the tables
EDIT_T = {  # methods that edit a transient receiver
    'seq': {'append', 'prepend', 'insert', 'extend', '__setitem__', '__delitem__', 'pop', 'remove', 'clear', 'reverse', 'sort', '__iadd__', '__imul__'},
    'set': {'add', 'discard', 'remove', 'pop', 'clear', 'addall', 'discardall', 'removeall', 'update', 'intersection_update', 'difference_update',
            'symmetric_difference_update', '__iand__', '__ior__', '__isub__', '__ixor__'},
    'map': {'__setitem__', '__delitem__', 'pop', 'popitem', 'clear', 'setdefault', 'update', '__ior__', 'set', 'drop', 'delete', 'setall', 'dropall', 'deleteall'},
}
INPLACE = {'__iadd__', '__imul__', '__iand__', '__ior__', '__isub__', '__ixor__'}
SAME = {    # methods whose result is a collection of the receiver's class, for a persistent receiver
    'seq': {'append', 'prepend', 'insert', 'set', 'delete', 'drop', 'remove', 'reverse', 'sort', 'extend', 'clear', '__add__', '__radd__', '__mul__', '__rmul__', 'copy', '$slice'},
    'set': {'add', 'discard', 'remove', 'addall', 'discardall', 'removeall', 'union', 'intersection', 'difference', 'symmetric_difference', 'clear', 'copy',
            '__and__', '__or__', '__sub__', '__xor__', '__rand__', '__ror__', '__rsub__', '__rxor__'},
    'map': {'set', 'drop', 'delete', 'dropall', 'deleteall', 'setall', 'update', 'clear', 'copy', 'setdefault'},
}
PAIR = {'seq': {'pop'}, 'set': {'pop'}, 'map': {'pop', 'popitem'}}
SAME_T = {
    'seq': {'__add__', '__radd__', '__mul__', '__rmul__', 'copy', '$slice'} | {'__iadd__', '__imul__'},
    'set': {'union', 'intersection', 'difference', 'symmetric_difference', 'copy', '__and__', '__or__', '__sub__', '__xor__', '__rand__', '__ror__', '__rsub__', '__rxor__',
            '__iand__', '__ior__', '__isub__', '__ixor__'},
    'map': {'copy'},
}
AS = {('llist', 'as_plist'): 'plist', ('llist', '__holdlazy__'): 'plist', ('ldict', 'as_pdict'): 'pdict', ('ldict', '__holdlazy__'): 'pdict',
      ('tldict', 'as_tdict'): 'tdict'}
RAW_OK = {'getlazy', 'as_plist', 'as_pdict', 'as_tdict', '__holdlazy__', '__repr__', '__str__'}
NOFORCE = {
    'seq': {'__len__', 'append', 'prepend', 'insert', 'set', '__setitem__', 'delete', '__delitem__', 'drop', 'clear', 'transient', 'persistent', 'copy', 'getlazy',
            'is_lazy', 'is_ready', 'as_plist', '__holdlazy__', '__repr__', '__str__', '__iter__', '__reversed__'},
    'map': {'__len__', '__contains__', '__iter__', '__reversed__', 'keys', 'values', 'items', 'set', '__setitem__', 'drop', 'delete', '__delitem__', 'dropall', 'deleteall', 'setall',
            'clear', 'transient', 'persistent', 'copy', 'getlazy', 'is_lazy', 'is_ready', 'as_pdict', 'as_tdict', '__holdlazy__', '__repr__', '__str__'},
}
ONEFORCE = {'__getitem__', 'get', 'pop', 'setdefault', 'popitem'}
SINGLE = {
    'seq': {'__len__', '__getitem__', 'append', 'prepend', 'set', '__setitem__', 'transient', 'persistent', '__iter__', 'getlazy', 'is_lazy', 'is_ready', 'copy'},
    'set': {'__len__', '__contains__', '__iter__', 'add', 'discard', 'remove', 'pop', 'transient', 'persistent'},
    'map': {'__len__', '__contains__', '__iter__', '__getitem__', 'get', 'getlazy', 'is_lazy', 'is_ready', 'set', '__setitem__', 'drop', 'delete', '__delitem__', 'pop',
            'setdefault', 'keys', 'values', 'items', 'transient', 'persistent'},
}
INTERNAL_ANY = ('NameError', 'UnboundLocalError', 'AttributeError', 'RecursionError', 'InfiniteLoop', 'AssertionError', 'ZeroDivisionError',
                'NotImplementedError', 'SystemError', 'StopIteration', 'RuntimeError', 'TypeError')


def userexc(v): return v.exc[2] in ('user', 'iter', 'nolen') or v.exc[1] in ('LazyError', 'UserError', 'UserBaseError')


def raw_lazy(v):
    """An undelivered lazy element inside a value ($lazy policy: every element is lazy)."""
    if not isinstance(v, tuple) or not v: return None
    if v[0] == 't' and len(v) > 1:
        if v[1] == 'forced': return None
        if v[1] in ('at', 'val'): return v
        if v[1] == 'klz': return v
        if v[1] == 'srt': return None
        if v[1] in ('eq', 'is', 'inst', 'null', 'truth', 'lt', 'in', 'str', 'text', 'join', 'sop', 'hash', 'key', 'el', 'next', 'head', 'nd', 'has', 'eqi', 'ge0', 'hasattr'): return None
    if v[0] in ('cls', 'fn', 'bi', 'S', 'exc', 'k', 'i', 's', 'ph'): return None
    for x in v:
        r = raw_lazy(x)
        if r: return r
    return None


def forces(v):
    out = []
    def go(x):
        if isinstance(x, tuple):
            if len(x) > 2 and x[0] == 't' and x[1] == 'forced': out.append(x[2])
            for y in x: go(y)
    go(v)
    return out


def reach(st, v, seen=None):
    """Heap references reachable from a value."""
    seen = set() if seen is None else seen
    stack = [v]
    while stack:
        x = stack.pop()
        if not isinstance(x, tuple): continue
        if len(x) == 2 and x[0] == 'r' and isinstance(x[1], int):
            if x[1] in seen or x[1] not in st.heap: continue
            seen.add(x[1])
            stack.extend(st.heap[x[1]].f.values())
        else: stack.extend(y for y in x if isinstance(y, tuple))
    return seen


def examine(cx, it, rec, outs):
    from .scen import broken
    obj, m, args, kw, st0, base = rec
    if obj[0] != 'r' or obj[1] not in st0.heap: return
    c = st0.cls(obj)
    if c not in ALL: return
    k = kind_of(c); f = cx.f
    full = it is cx.fi
    where = cx.where(c, m); what = f'{c}.{m}'
    sl = m == '__getitem__' and args and it.ptype(st0, args[0]) == 'slice'
    mm = '$slice' if sl else m
    if outs is None:
        # the analysis gave up; a walk it had certainly begun by then counts
        if full and m in SINGLE[k] and not sl and it.walked:
            site, s = it.walked
            f.tally('C23', 'bad')
            f.viol.append({'rule': 'C23', 'where': where, 'text': f'{what}: traverses the elements at {site[0]}:{site[1]} {site[2]}',
                           'key': f'C23|{where}|{what}: traverses the elements'[:300], 'path': cx.trace(s)})
        return
    policy = st0.x.get('$lazy')
    involved = [i for i in reach(st0, ('tup', (obj,) + tuple(args) + tuple(kw.values())))]

    for s, v in outs:
        imp = None

        def verdict(rule, ok, text, site=None, sure=False):
            nonlocal imp
            if ok: f.tally(rule, 'ok'); return
            if imp is None: imp = cx.imp(s)
            if imp and not sure: f.tally(rule, 'und'); return
            f.tally(rule, 'bad')
            at = f' at {site[0]}:{site[1]} {site[2]}' if site else ''
            f.viol.append({'rule': rule, 'where': where, 'text': f'{what}: {text}{at}', 'key': f'{rule}|{where}|{what}: {text}'[:300], 'path': cx.trace(s)})
        ev = s.ev[base:]
        # ---- C16
        if isinstance(v, Raise):
            x = v.exc
            bad = x[2] == 'internal' and x[1] in INTERNAL_ANY and not userexc(v)
            verdict('C16', not bad, f'raises {x[1]} {x[4]}', x[3])
        else: verdict('C16', True, '')
        # ---- C01, C02: what was written
        touched = {}
        for e in ev:
            if e[0] == 'SET' and e[2][0] == 'r' and e[2][1] in st0.heap:
                o = st0.heap[e[2][1]]
                if o.cls in PERSISTENT:
                    hashf = REP[o.cls].get('hash')
                    if o.f.get(e[3], 0) == e[4]: continue
                    okh = e[3] == hashf and e[4] is not None and (it.ptype(s, e[4]) == 'int') and o.f.get(hashf) in (NONE, None)
                    verdict('C01', okh, f'changes {e[3]} of a persistent {o.cls}', e[1])
                elif o.cls in TRANSIENT:
                    if e[2] == obj and m in EDIT_T[k]: continue
                    R = REP[o.cls]
                    role = [r for r, fl in R.items() if fl == e[3]]
                    if role and role[0] in ('els', 'idx', 'start', 'top') and o.f.get(e[3]) != e[4]:
                        verdict('C02', False, f'changes {e[3]} of {"the receiver, although it is not an edit" if e[2] == obj else "another " + o.cls}', e[1])
            elif e[0] == 'TW' and e[2][0] == 'r' and e[2][1] in st0.heap:
                own = [('r', i) for i, o in st0.heap.items() if o.cls in TRANSIENT and e[2] in o.f.values()]
                if obj in own and m in EDIT_T[k] and len(own) == 1: verdict('C02', True, ''); continue
                if not own: continue          # private storage of an earlier step
                if s.get(e[2], 'c') == st0.get(e[2], 'c'): continue
                who = 'the receiver, although it is not an edit' if own == [obj] else 'another ' + '/'.join(s.cls(x) for x in own if x != obj)
                verdict('C02', False, f'writes to the storage of {who}', e[1])
            elif e[0] == 'AEDIT' and e[2][0] == 'r' and e[2][1] in st0.heap:
                o = st0.heap[e[2][1]]
                if o.cls in PERSISTENT: verdict('C01', False, f'changes the contents of a persistent {o.cls}', e[1]); continue
                if e[2] == obj and m in EDIT_T[k]: verdict('C02', True, ''); continue
                if it is cx.ci and cx.C.con(s, e[2]) == cx.C.con(st0, e[2]): continue
                verdict('C02', False, f'changes the contents of {"the receiver, although it is not an edit" if e[2] == obj else "another " + o.cls}', e[1])
        if any(st0.heap[i].cls in PERSISTENT for i in involved): verdict('C01', True, '')
        if any(st0.heap[i].cls in TRANSIENT for i in involved): verdict('C02', True, '')
        if isinstance(v, Raise): continue
        # ---- sharing of mutable storage
        if full:
            bad = None
            for i in reach(s, ('tup', (v, obj))):
                if s.heap[i].cls in ALL: bad = bad or broken(s, ('r', i))
            verdict('C16', bad is None, f'{bad}')
            owners = {}
            for i in reach(s, ('tup', (v, obj) + tuple(args))):
                o = s.heap[i]
                if o.cls in PERSISTENT:
                    R = REP[o.cls]
                    for role in ('els', 'idx'):
                        if role in R:
                            x = o.f.get(R[role])
                            if x is not None and x[0] == 'r' and x[1] in s.heap and s.cls(x) == 'THAMT':
                                verdict('C01', False, f'a persistent {o.cls} is left holding a mutable trie')
                    # the cached hash of a new object
                    h = o.f.get(R['hash'])
                    if i not in st0.heap:
                        if h not in (NONE, None) and h[0] == 't' and h[1] == 'cachedhash':
                            same = any(q.cls in ALL and all(q.f.get(REP[q.cls][r]) == o.f.get(R[r]) for r in ('els', 'idx', 'start') if r in R and r in REP[q.cls])
                                       and q.f.get(REP[q.cls].get('hash')) == h for q in st0.heap.values())
                            verdict('C08', same, f'the new {o.cls} keeps the cached hash code of another collection')
                        else: f.tally('C08', 'ok')
                elif o.cls in TRANSIENT:
                    for x in o.f.values():
                        if isinstance(x, tuple) and len(x) == 2 and x[0] == 'r' and x[1] in s.heap and s.cls(x) == 'THAMT': owners.setdefault(x, set()).add(i)
            for x, os_ in owners.items():
                verdict('C02', len(os_) == 1, 'two transients share one mutable trie')
        if m in INPLACE and v != ('k', 'NotImplementedType', 'NotImplemented'):
            verdict('C02', v == obj, f'the in-place operator gives {show(v)}, not the transient it edited')
        elif mm in SAME_T[k] and v[0] == 'r' and v[1] in st0.heap and st0.heap[v[1]].cls in TRANSIENT:
            verdict('C02', False, f'gives an existing {st0.heap[v[1]].cls} instead of a new one')
        # ---- C04
        want = None; res = v
        P = c in PERSISTENT
        if m in ('transient', 'persistent'): want = PARTNER[c]
        elif (c, m) in AS: want = AS[c, m]
        elif mm in (SAME if P else SAME_T)[k]: want = c
        elif P and m in PAIR[k] and v[0] == 'tup' and len(v[1]) == 2: want = c; res = v[1][1]
        if want is not None and v != ('k', 'NotImplementedType', 'NotImplemented'):
            if res[0] == 'r' and res[1] in s.heap: verdict('C04', s.cls(res) == want, f'gives a {s.cls(res)}, not a {want}')
            elif res[0] in ('k', 'i', 'tup', 'S'): verdict('C04', False, f'gives {show(res)}, not a {want}')
        # ---- C05, C06
        if c in LAZY:
            if m not in RAW_OK and (policy is True or not full):
                r = raw_lazy(v)
                if v[0] == 'r' and v[1] in s.heap and s.cls(v) == 'list': r = raw_lazy(s.get(v, 'ls'))
                verdict('C05', r is None, f'delivers a lazy object ({show(r) if r else ""})')
            fo = [(e[1], e[2]) for e in ev if e[0] == 'FORCE']
            if m in NOFORCE[k] and not sl:
                fo = [x for x in fo if mine(x[1])]
                verdict('C06', not fo, f'computes {show(fo[0][1]) if fo else ""}', fo[0][0] if fo else None)
            elif m in ONEFORCE and not sl and full and policy is True:
                got = forces(v)
                extra = [x for x in fo if x[1] not in got]
                verdict('C06', not extra, f'computes {show(extra[0][1]) if extra else ""}, which is not the element asked for', extra[0][0] if extra else None)
        elif not full and m not in RAW_OK:
            # plain kinds hold values, whatever they were made from
            bad = None
            for i in reach(s, ('tup', (v, obj))):
                o = s.heap[i]
                if o.cls not in ALL or o.cls in LAZY: continue
                con = cx.C.con(s, ('r', i))
                if con is not None and (i not in st0.heap or cx.C.con(st0, ('r', i)) != con):
                    if contains(con, lambda x: x[0] == 't' and len(x) > 1 and x[1] == 'klz'): bad = o.cls
            verdict('C05', bad is None, f'leaves a {bad} holding lazy objects instead of values')
        # ---- C23
        if full and m in SINGLE[k] and not sl:
            tr = [e for e in ev if e[0] == 'TRAV']
            tr = [e for e in tr if e[3]] or tr
            verdict('C23', not tr, 'traverses the elements', tr[0][1] if tr else None, bool(tr) and tr[0][3])


def mine(v):
    """Is the computed element one of the receiver's?  (contract mode: side A)"""
    if contains(v, lambda x: x[0] == 't' and len(x) > 3 and x[1] in ('kv', 'ke') and x[3] != 'A'): return False
    if contains(v, lambda x: x[0] == 't' and len(x) > 2 and x[1] in ('at', 'val') and x[2] in ('B', 'C')): return False
    return True
