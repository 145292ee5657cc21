"""The public operations of the collections and the argument shapes under which
the analysis examines them.  An argument shape is 'name:type', where type is an
analysis type ('int', 'any', 'list', ...), a collection class, 'self' (the
receiver itself), or ('const', value)."""
from .world import *

ITERS = ('list', 'iterable')
PCALL = ALL


def _iters(c):
    k = kind_of(c)
    base = ['B:list', 'B:iterable', 'self'] + ['B:' + x for x in ALL if x != c] + ['B:' + c]
    if k == 'set': base += ['B:set', 'B:frozenset']
    return base


def _maps(c):
    return ['B:dict', 'self', 'B:iterable'] + ['B:' + x for x in MAPS]


def ops(c):
    """[(method, [args...], kwargs, tags)] for class c.  tags: 'edit', 'read', 'new', 'cmp', 'conv', ..."""
    k = kind_of(c); P = c in PERSISTENT
    r = []

    def op(m, *args, kw=None, tags=''):
        r.append((m, list(args), kw or {}, set(tags.split())))
    T = not P
    op('__len__', tags='read single')
    op('__iter__', tags='read view')
    op('__reversed__', tags='read view')
    op('__str__', tags='read str'); op('__repr__', tags='read str')
    op('__reduce__', tags='read conv')
    if T or hasattr_copy(c): op('copy', tags='conv')
    op('clear', tags='edit')
    if P: op('transient', tags='conv partner'); op('__hash__', tags='read hash')
    else: op('persistent', tags='conv partner')
    if k == 'seq':
        op('__getitem__', 'i:int', tags='read single')
        op('__getitem__', ('slice', None, None, None), tags='read slice')
        op('__getitem__', ('slice', 'a:int', 'b:int', None), tags='read slice')
        op('__getitem__', ('slice', 'a:int', None, -1), tags='read slice')
        op('__getitem__', ('slice', None, 'b:int', 2), tags='read slice')
        op('__getitem__', ('slice', None, 'b:int', 's:int'), tags='read slice')
        op('__contains__', 'x:any', tags='read search')
        op('count', 'x:any', tags='read search')
        op('index', 'x:any', tags='read search')
        op('index', 'x:any', 'a:int', tags='read search')
        op('index', 'x:any', 'a:int', 'b:int', tags='read search')
        op('__mul__', 'k:int', tags='new'); op('__rmul__', 'k:int', tags='new')
        op('__json__', tags='read')
        op('append', 'x:any', tags='edit single'); op('prepend', 'x:any', tags='edit single')
        op('insert', 'i:int', 'x:any', tags='edit')
        op('pop', tags='edit single'); op('pop', 'i:int', tags='edit')
        op('remove', 'x:any', tags='edit search')
        op('reverse', tags='edit')
        op('sort', tags='edit'); op('sort', kw={'key': 'f:callable'}, tags='edit')
        op('sort', kw={'reverse': ('const', True)}, tags='edit')
        for b in _iters(c):
            op('extend', b, tags='edit')
            op('__add__', b, tags='new')
            op('__radd__', b, tags='new')
            if T: op('__iadd__', b, tags='edit inplace')
        for b in _iters(c) + ['B:any', 'B:int']:
            for m in ('__eq__', '__ne__', '__lt__', '__le__', '__gt__', '__ge__'): op(m, b, tags='cmp read')
        if P:
            op('set', 'i:int', 'x:any', tags='edit single')
            op('delete', tags='edit single'); op('delete', 'i:int', tags='edit')
            op('drop', 'i:int', tags='edit'); op('drop', tags='edit single')
        else:
            op('__setitem__', 'i:int', 'x:any', tags='edit single')
            op('__delitem__', 'i:int', tags='edit')
            op('__imul__', 'k:int', tags='edit inplace')
    elif k == 'set':
        op('__contains__', 'x:any', tags='read single')
        op('add', 'x:any', tags='edit single'); op('discard', 'x:any', tags='edit single')
        op('remove', 'x:any', tags='edit single'); op('pop', tags='edit single')
        op('__json__', tags='read')
        for b in _iters(c):
            op('addall', b, tags='edit'); op('discardall', b, tags='edit'); op('removeall', b, tags='edit')
            for m in ('union', 'intersection', 'difference', 'symmetric_difference', 'isdisjoint', 'issubset', 'issuperset'):
                op(m, b, tags='new' if not m.startswith('is') else 'read')
            if T:
                for m in ('update', 'intersection_update', 'difference_update', 'symmetric_difference_update'):
                    op(m, b, tags='edit')
        op('union', tags='new'); op('intersection', tags='new'); op('difference', tags='new')
        op('union', 'B:list', 'C:pset', tags='new'); op('intersection', 'B:set', 'C:pset', tags='new')
        op('difference', 'B:list', 'C:pset', tags='new')
        if T: op('update', 'B:list', 'C:pset', tags='edit')
        sets = ['self', 'B:pset', 'B:tset', 'B:set', 'B:frozenset', 'B:oset']
        for b in sets:
            for m in ('__and__', '__or__', '__sub__', '__xor__', '__rand__', '__ror__', '__rsub__', '__rxor__'):
                op(m, b, tags='new')
            if T:
                for m in ('__iand__', '__ior__', '__isub__', '__ixor__'): op(m, b, tags='edit inplace')
        for b in sets + ['B:any', 'B:int', 'B:list']:
            for m in ('__eq__', '__ne__', '__lt__', '__le__', '__gt__', '__ge__'): op(m, b, tags='cmp read')
    else:
        op('__contains__', 'x:any', tags='read single')
        op('__getitem__', 'x:any', tags='read single')
        op('get', 'x:any', tags='read single'); op('get', 'x:any', 'd:any', tags='read single')
        op('keys', tags='view'); op('values', tags='view'); op('items', tags='view')
        op('__json__', tags='read')
        op('pop', 'x:any', tags='edit single'); op('pop', 'x:any', 'd:any', tags='edit single')
        op('popitem', tags='edit single')
        op('setdefault', 'x:any', tags='edit single'); op('setdefault', 'x:any', 'd:any', tags='edit single')
        for b in _maps(c): op('update', b, tags='edit')
        op('update', tags='edit'); op('update', kw={'u': 'x:any'}, tags='edit')
        op('update', 'B:pdict', kw={'u': 'x:any'}, tags='edit')
        for b in ['B:dict', 'self', 'B:any', 'B:int', 'B:list'] + ['B:' + x for x in MAPS]:
            for m in ('__eq__', '__ne__'): op(m, b, tags='cmp read')
        if P:
            op('set', 'x:any', 'y:any', tags='edit single')
            op('drop', 'x:any', tags='edit single'); op('delete', 'x:any', tags='edit single')
            for b in ('B:list', 'B:iterable', 'B:pset', 'B:plist'):
                op('dropall', b, tags='edit'); op('deleteall', b, tags='edit')
            op('setall', 'B:list', 'C:list', tags='edit'); op('setall', 'B:iterable', 'C:plist', tags='edit')
            op('setall', 'B:iterable', 'C:iterable', tags='edit')
        else:
            op('__setitem__', 'x:any', 'y:any', tags='edit single')
            op('__delitem__', 'x:any', tags='edit single')
    if c in ('llist',):
        op('is_lazy', 'i:int', tags='read noforce single'); op('is_ready', 'i:int', tags='read noforce single')
        op('ready_all', tags='read'); op('as_plist', tags='conv'); op('__holdlazy__', tags='conv')
        op('getlazy', 'i:int', tags='read noforce single')
    if c == 'tllist': op('getlazy', 'i:int', tags='read noforce single')
    if c in ('ldict', 'tldict'):
        op('is_lazy', 'x:any', tags='read noforce single'); op('is_ready', 'x:any', tags='read noforce single')
        op('ready_all', tags='read'); op('__holdlazy__', tags='conv')
        op('as_pdict' if c == 'ldict' else 'as_tdict', tags='conv')
        op('getlazy', 'x:any', tags='read noforce single'); op('getlazy', 'x:any', 'd:any', tags='read noforce single')
    return r


def hasattr_copy(c): return True


def ctor_args(c):
    """Constructor argument shapes."""
    r = [[], ['B:list'], ['B:iterable'], ['B:any']]
    r += [['B:' + x] for x in ALL]
    r += [['B:set'], ['B:dict']]
    return r
