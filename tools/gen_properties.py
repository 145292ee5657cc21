#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so the long lines stay reviewable)."""
import json, os
L='pcollections/_list.py'; S='pcollections/_set.py'; D='pcollections/_dict.py'
Z='pcollections/_lazy.py'; AC='pcollections/abc/_core.py'; AQ='pcollections/abc/_seq.py'
AS='pcollections/abc/_set.py'; AM='pcollections/abc/_map.py'; U='pcollections/util/_core.py'
I='pcollections/__init__.py'
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
        why_tests_cant=why,
        anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
            mechanism=[dict(name=a,where=b) for a,b in mech],
            observe_at=list(observe),hook_needed=None)))

p('C01','Persistent collections never change',
 "Once created, a persistent collection (plist, pset, pdict, llist, ldict) keeps the same elements for ever: no method of it, of its views, or of any transient made from it changes its contents, whatever is done later. Assigning or deleting an attribute or an item of a persistent collection raises TypeError and changes nothing. The only hidden state a persistent collection may update is its own cached hash code.",
 ['histories','inputs'],'every public operation, every history of edits of derived transients, every element type',
 'Tests edit a few derived collections and look at a few originals; they cannot cover every operation, argument kind and alias.',
 [L,S,D,Z,AC,AQ,AS,AM],
 [('Persistent.__setattr__/__delattr__/__setitem__/__delitem__ raise TypeError',AC),('storage handed to a transient is a new mutable trie',L+', '+S+', '+D+', '+Z)],
 [('_phamt/_els/_idx','immutable trie holding the elements',L+', '+S+', '+D),('_hashcode','cached hash','same')],
 ['any later read of the original collection'])
p('C02','A transient owns its contents; only its own edits change it',
 "Editing one transient collection never changes any other transient or persistent collection, however they were derived from each other (copy, conversion, slicing, lazy or plain counterpart, persistent/transient round trip). Operations that are not edits (reading, comparing, converting, operators that return a new collection) leave the transient and their arguments unchanged, and in-place operators return the very transient they edited.",
 ['histories','inputs'],'every pair of collections derived from each other, every later edit of either',
 'Sharing only shows when one of two related objects is edited later; tests try few derivation/edit pairs.',
 [L,S,D,Z,AQ,AS,AM],
 [('every constructor and conversion copies the mutable trie',L+', '+S+', '+D+', '+Z)],
 [('_thamt/_els/_idx of transients','mutable trie, owned by exactly one transient',L+', '+S+', '+D)])
p('C03','Conversions always reflect the current contents',
 "Converting a transient to a persistent collection (persistent(), the persistent constructors, copy()) yields exactly the elements the transient holds at that moment, including right after any edit made through any method, and converting a persistent collection to a transient yields exactly its elements. An edit that replaces a value, removes, inserts, or clears is never lost because an earlier original was remembered.",
 ['histories','inputs'],'every edit operation followed by every conversion',
 'A stale remembered original only shows for particular edit/convert sequences; tests convert after few of the edits.',
 [L,S,D,Z,AQ,AS,AM],
 [('every edit resets the remembered original','tlist/tset/tdict edit methods'),('persistent() returns the remembered original only if nothing changed',L+', '+S+', '+D+', '+Z)],
 [('_orig','the persistent collection the transient still equals, or None',L+', '+S+', '+D)])
p('C04','Operations keep the kind of collection',
 "An operation on a collection returns a collection of the kind the user expects: edits, slices, copies, operators and clear() of a plist, llist, pset, pdict or ldict return the same persistent kind, transient() and persistent() move between the documented partners (plist/tlist, llist/tllist, pset/tset, pdict/tdict, ldict/tldict), and operators, slices and copies of a transient return the same transient kind. In particular, an operation on a lazy collection never silently yields a non-lazy collection, or the reverse; only the explicit as_... and holdlazy conversions cross over.",
 ['inputs','histories'],'every operation of every collection kind, for empty and non-empty receivers, and every argument kind',
 'Equality between kinds hides a wrong result kind, and tests compare results with ==.',
 [L,S,D,Z,AQ,AS,AM],
 [('_new / type(self)(...) / cls.empty used to build results',L+', '+S+', '+D+', '+Z)])
p('C05','Lazy collections deliver values, never lazy objects',
 "Reading an element of a lazy collection (llist, tllist, ldict, tldict) through any public reading operation - indexing, get, iteration, reversed, keys/items/values views, pop, popitem, setdefault of an existing key, membership, comparison, hashing, conversion to a plain collection - delivers the computed value, never the lazy object standing for it. Only the operations documented to expose lazy objects (getlazy, as_plist, as_pdict, as_tdict, holdlazy) return them.",
 ['inputs','histories'],'every public reading operation of every lazy class, every position of a lazy element',
 'Tests read lazy collections through a few accessors only; inherited accessors are not exercised.',
 [Z,L,D,AQ,AM],
 [('unlazy / isinstance(v, lazy) in accessors and view _from_kv',Z)])
p('C06','Lazy elements are computed only when asked for',
 "Operations that do not need an element's value never compute it: building a lazy collection, editing or removing other elements, transient(), persistent(), copy(), conversion between llist and tllist or ldict and tldict, len, clear, key membership, iterating over keys, is_lazy, is_ready, getlazy, as_... and holdlazy, repr and str of lazy collections. Reading one element by index or key computes at most that element.",
 ['inputs','histories'],'every non-reading operation of every lazy class, every set of pending elements',
 'Premature evaluation is invisible in results; tests check it for a handful of calls.',
 [Z,L,D,AQ,AM],
 [('raw accessors plist.__getitem__/pdict.get used by non-reading methods',Z)])
p('C07','A lazy value is computed once, safely, and only success is cached',
 "Calling a lazy object runs its function at most once successfully, however many threads call it and in whatever interleaving; every call returns that one value, and no caller can observe the object as ready before the value is in place. If the function raises, nothing is cached, the error is reported as LazyError (whose text can always be produced), no lock stays held, and a later call tries again.",
 ['schedules','fault_sequences','inputs'],'all interleavings of concurrent calls, all failures of the function',
 'Needs particular thread interleavings or failures inside the call; no test uses threads.',
 [Z],[('lazy.__call__ lock, re-check, publish order',Z)],
 [('partial','pending computation, lock and error, or None when ready',Z),('value','cached value',Z)])
p('C08','Equal collections have equal hashes',
 "Collections that compare equal and are hashable hash equally: plist with llist, pdict with ldict, sets with sets and frozensets, independent of insertion order, internal layout, history or whether lazy elements are already computed. The hash of a collection never changes once taken and never is that of another collection's contents: a derived collection computes its own.",
 ['inputs','histories'],'all pairs of equal collections, all derivation histories',
 'Needs equal collections built in different ways, or derived after the hash was cached; tests hash few.',
 [L,S,D,Z,AQ,AS,AM],[('__hash__ from the values; cache reset in every new object',L+', '+S+', '+D)],
 [('_hashcode','cached hash or None',L+', '+S+', '+D)])
p('C09','Equality means equal contents',
 "Two sequences (plist, llist, tlist, tllist, list) are equal exactly when they have the same length and equal elements at every position; two sets exactly when each contains the other's elements; two mappings exactly when they have the same keys with equal values. Comparing with an object of an unrelated type is False, never an error, elements need only support ==, and != is always the opposite of ==.",
 ['inputs'],'all pairs of collections and operands of any type, elements that cannot be ordered',
 'Tests compare a few orderable contents; unorderable elements, prefixes and other types are not reached.',
 [AQ,AS,AM,U],[('__eq__/__ne__ of the abstract classes',AQ+', '+AS),('setcmp',U)])
p('C10','Elements with colliding hashes are kept apart',
 "Adding, finding, replacing and removing one element or key of a set or mapping (pset, tset, pdict, tdict, ldict, tldict) affects exactly that element and no other, also when any number of elements have the same hash. After the operation the other elements are still found, the length is right, and every operation terminates.",
 ['inputs','histories'],'all collision-chain lengths, all positions in the chain, all histories of adds and removes',
 'Tests use integers and strings, which never collide; chains longer than one are never reached.',
 [S,D],[('chain search and relinking in add/discard/set/drop/pop/__setitem__/__delitem__',S+', '+D)],
 [('_idx','hash -> first node of chain',S+', '+D),('_els','node -> (element, next node)',S+', '+D),('_top','next free node',S+', '+D)])
p('C11','Set operations compute the mathematical result',
 "For pset and tset, union, intersection, difference, symmetric difference (methods, operators with operands on either side, in-place forms), isdisjoint, issubset, issuperset, addall, discardall, removeall, remove, discard and pop give the result that the definition of sets prescribes, for all operands including empty sets, equal sets, and any other set type. remove and removeall of a missing element and pop from an empty set raise KeyError.",
 ['inputs'],'all pairs of sets, by membership of an arbitrary element in each operand',
 'Tests use random sets through part of the operators; empty and one-sided cases of the methods are not reached.',
 [AS,S,U],[('PersistentSet/TransientSet algebra',AS),('setcmp',U)])
p('C12','Mapping operations have exactly their documented effect',
 "For pdict, tdict, ldict and tldict, the operations set, setdefault, update, setall, drop, delete, dropall, deleteall, pop, popitem, get, item access and clear bind exactly the keys they are given to the given values (the last one given wins), remove exactly the keys they are asked to remove, and leave every other key alone. Missing keys are ignored, replaced by the given default, or reported by KeyError as documented for each operation.",
 ['inputs'],'all mappings and arguments, by the binding of an arbitrary key',
 'Tests exercise set/drop/pop on random dicts; many of the derived operations are never called.',
 [AM,D,Z],[('PersistentMapping/TransientMapping derived operations',AM)])
p('C13','Sequence indices obey the bounds of the sequence',
 "Reading, replacing or deleting position i of a sequence of length n (plist, llist, tlist, tllist) addresses element i for 0 <= i < n and element n+i for -n <= i < 0, and raises IndexError for every other integer, changing nothing; drop leaves the sequence unchanged instead. insert clamps positions beyond either end as list.insert does.",
 ['inputs'],'all lengths, all integer positions, any internal offset',
 'Off-by-one errors only show at particular length/position/offset combinations.',
 [L,Z,AQ],[('bounds tests and negative index normalisation',L)],
 [('_start','internal offset of position 0',L)])
p('C14','Sequence edits put every element where a list would',
 "append, prepend, insert, replacing (set / item assignment), delete / del / pop, clear and their transient counterparts produce exactly the sequence that the same edit of a Python list produces: every element before, at, and after the edited position, and the length, are right. This holds for every length, every position and every internal layout left by earlier edits.",
 ['inputs','histories'],'all lengths, positions and offsets left by earlier prepends and deletions',
 'Shifts depend on which half the position is in and on the offset; random tests sample a few.',
 [L,Z],[('element shifting in delete/insert/__delitem__',L)],
 [('_start','internal offset of position 0',L)])
p('C15','Traversal agrees with indexing',
 "Iterating over a sequence visits exactly the elements at positions 0..n-1 in order, reversed() visits them in the opposite order, slices select the positions that Python slicing prescribes for any start, stop and step; sort, reverse, extend, concatenation and repetition produce the elements that the list operations of the same name produce.",
 ['inputs','histories'],'all lengths, offsets (including windows that straddle the sign change of internal keys), slices',
 'Tests rarely reach sequences whose internal offset is negative, and not all slice forms.',
 [L,Z,AQ],[('__iter__ in the three cases of the offset',L),('derived sequence operations',AQ)],
 [('_start','internal offset of position 0',L)])
p('C16','No operation fails for an internal reason',
 "A public operation applied to arguments its documentation allows either succeeds or raises the exception documented for the situation (or one raised by the user's own objects); it never fails because of an undefined name or attribute, a wrong number of arguments, a comparison of unrelated internal values, an uninitialised variable, or endless looping or recursion.",
 ['inputs','configurations'],'every public operation of every collection, every path through it',
 'Python finds such faults only when the path runs; many operations have no test.',
 [L,S,D,Z,AQ,AS,AM,U],[('all code paths','whole package')])
p('C17','Editing during iteration and self-operands',
 "An in-place operation of a transient whose operand is the transient itself (l.extend(l), l += l, s -= s, s ^= s, s.update(s), s.discardall(s), d.update(d), l *= k) has the result that using a snapshot of the operand would have. An iterator over a tdict or tldict, or over one of its views, that is resumed after keys were added, removed or cleared raises RuntimeError and never yields stale or missing entries.",
 ['histories','inputs'],'every in-place operation with its receiver as operand; every key-changing edit between two steps of an iterator',
 'Aliased operands and edits between iterator steps are special histories that no test builds.',
 [AQ,AS,AM,D,Z],[('snapshots in in-place operations',AQ+', '+AS),('version check of tdict iterators',D)],
 [('_version','count of key changes, compared by iterators',D)])
p('C18','Copying, pickling and JSON preserve kind and contents',
 "copy.copy, copy.deepcopy, pickle round trips and the copy() method of a collection give a collection of the same kind with equal contents; a persistent collection may return itself, a transient never does. The JSON form is that of the equal list or dict.",
 ['inputs'],'every collection kind and contents, empty ones included',
 'Tests do not pickle, copy or serialise the collections.',
 [AC,AQ,AS,AM],[('__reduce__, copy, __json__',AC+', '+AQ+', '+AS+', '+AM)])
p('C19','Constructors take exactly what list, set and dict take',
 "Constructing a collection from no argument, an iterable, a mapping, keyword arguments, or any other pcollections type yields exactly the elements of the argument, in the requested kind; lazy kinds built from lazy kinds keep pending elements pending, and plain kinds built from lazy kinds hold the computed values. More than one positional argument raises TypeError, as do keyword arguments to lists and sets, and a constructor never changes or stays tied to its argument.",
 ['inputs','configurations'],'all pairs of constructor and argument kind, empty and non-empty',
 'The fast paths for particular argument kinds form a matrix of which tests cover a few cells.',
 [L,S,D,Z],[('__new__ of each collection',L+', '+S+', '+D+', '+Z)])
p('C20','Mapping views agree with their mapping',
 "keys(), values() and items() of every mapping kind have the mapping's length, iterate over exactly its keys, values and pairs in one common order that is also the order of iterating the mapping, and reversed() gives the opposite order. Membership in them means: the key is bound; some key is bound to an equal value; the key is bound to an equal value; anything that is not a pair is not an item.",
 ['inputs'],'all mappings and probe objects, including None values and non-pairs',
 'Tests read views of small dicts; membership of absent keys, None values, and reversed views are not reached.',
 [D,Z],[('view classes',D+', '+Z)])
p('C21','Ordering comparisons follow the contents',
 "For sequences of mutually comparable elements, <, <=, > and >= compare lexicographically by the first unequal elements and then by length, as for lists. For sets they mean proper subset, subset, proper superset and superset. The four operators are mutually consistent and consistent with ==.",
 ['inputs'],'all pairs of sequences and of sets',
 'Tests compare a few random pairs; empty, prefix, disjoint and overlapping cases are not enumerated.',
 [AQ,AS,U],[('setcmp and seqcmp result codes and their use',U+', '+AQ+', '+AS)])
p('C22','Searching sequences finds what list would find',
 "For every sequence kind, x in s tells whether some element equals x, count(x) counts the elements equal to x, index(x) returns the first position holding an equal element (within start and stop when given as non-negative integers) and raises ValueError if there is none, and remove(x) removes exactly that first element or raises ValueError.",
 ['inputs'],'all sequences, by the positions of equal elements',
 'Tests search few lists and not the transient ones, where several of these never worked.',
 [AQ,Z],[('index/count/__contains__/remove',AQ)])
p('C23','Single-element operations do not walk the collection',
 "Reading, adding, replacing or removing one element or key (other than inserting or deleting inside a sequence), len, transient(), persistent(), the persistent/transient constructors applied to the partner kind, and getting a view or an iterator do not traverse or copy the elements of the collection. Their work is a bounded number of storage operations plus at most a walk of the elements whose hash equals that of the key.",
 ['inputs','histories'],'all sizes of the collection',
 'Only running time would reveal a hidden traversal; tests do not measure it.',
 [L,S,D,Z],[('trie assoc/dissoc/lookup, O(1) trie copies',L+', '+S+', '+D+', '+Z)])
p('C24','A failed edit changes nothing',
 "If adding, replacing or removing one element of a collection fails - the key or position is missing, or the element's own __hash__ or __eq__ raises at any point - the collection is left exactly as it was. In particular no partially linked or half-removed element is ever left in a transient.",
 ['fault_sequences','inputs'],'every point at which user code or a documented error can interrupt a single-element edit',
 'Needs an element whose __eq__ or __hash__ raises at a chosen comparison; no test does that.',
 [L,S,D,Z],[('all user code runs before the first structural write',S+', '+D+', '+L)])
p('C25','Time and memory bounds of edits',
 "A single-element edit of a persistent collection of n elements costs O(log n) time and allocates O(log n) memory, the rest being shared with the original.",
 ['inputs','histories'],'all sizes','Asymptotic costs are not measured by any test.',[L,S,D],[('phamt tries','phamt (C library)')])
p('C26','The trie library behaves as its documentation says',
 "The phamt library's persistent and transient tries keep every binding, iterate consistently, and isolate snapshots from later edits.",
 ['inputs','histories'],'all trie contents','The library is compiled code outside this repository.',[L,S,D],[('phamt','site-packages/phamt')])
p('C27','String forms are bounded and readable',
 "str() of a collection shows a prefix of its elements in order and is at most about 60 characters between its delimiters, with an ellipsis when elements are left out; repr() shows every element.",
 ['inputs'],'all collections and element reprs','Depends on the lengths of the elements\' own string forms.',[U,AQ,AS,AM],[('seqstr',U)])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P),'properties')
