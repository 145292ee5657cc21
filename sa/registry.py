"""Which rules decide which property, on which classes, in how many shards."""
from .world import *

FULL = [('rules_gen', 'full', ALL, 2)]
CHAIN = [('rules_chain', g, SETLIKE + MAPS, 1) for g in ('c10', 'c12one', 'c03chain', 'c24chain')]
LIST = [('rules_list', g, SEQ, 1) for g in ('c13', 'c14', 'c03seq', 'c24seq', 'c15rep', 'c15slice')]
CON_SET = [('rules_set', 'c09set', SETLIKE, 2), ('rules_set', 'c11', SETLIKE, 4), ('rules_set', 'c17set', TSETS, 3), ('rules_set', 'c21set', SETLIKE, 1)]
CON_SEQ = [('rules_seq', 'c02seq', SEQ, 1), ('rules_seq', 'c09seq', SEQ, 2), ('rules_seq', 'c15alg', SEQ, 2), ('rules_seq', 'c17seq', TLISTS, 1),
           ('rules_seq', 'c21seq', SEQ, 2), ('rules_seq', 'c22', SEQ, 2)]
CON_MAP = [('rules_map', 'c09map', MAPS, 3), ('rules_map', 'c12alg', MAPS, 3), ('rules_map', 'c17map', TDICTS, 1)]
MISC = [('rules_misc', g, ALL, 1) for g in ('c18', 'c19', 'c08')] + [('rules_misc', 'c20', MAPS, 1)]
EVERY = FULL + CHAIN + LIST + CON_SET + CON_SEQ + CON_MAP + MISC


def on(gens, classes):
    """The generators restricted to some classes."""
    return [(m, g, tuple(c for c in cs if c in classes), k) for m, g, cs, k in gens if any(c in classes for c in cs)]


REGISTRY = {
    'C07': [('rules_lazy', 'c07', ('plist',), 1)],
    'C01': EVERY + [('rules_misc', 'c01guards', PERSISTENT, 1)],
    'C04': EVERY,
    'C05': on(EVERY, LAZY) + [(m, g, tuple(c for c in cs if c not in LAZY), k) for m, g, cs, k in CON_SET + CON_SEQ + CON_MAP + MISC if g not in ('c08', 'c09set', 'c09seq', 'c09map', 'c21set', 'c21seq', 'c22')],
    'C06': on(EVERY, LAZY),
    'C16': EVERY,
    'C23': FULL + CHAIN + LIST,
    'C02': EVERY,
    'C03': [('rules_list', 'c03seq', SEQ, 1), ('rules_chain', 'c03chain', SETLIKE + MAPS, 1)],
    'C09': [('rules_set', 'c09set', SETLIKE, 2), ('rules_seq', 'c09seq', SEQ, 2), ('rules_map', 'c09map', MAPS, 3)],
    'C10': [('rules_chain', 'c10', SETLIKE + MAPS, 1)],
    'C11': [('rules_set', 'c11', SETLIKE, 4), ('rules_chain', 'c12one', SETLIKE, 1)],
    'C12': [('rules_map', 'c12alg', MAPS, 3), ('rules_chain', 'c12one', MAPS, 1)],
    'C13': [('rules_list', 'c13', SEQ, 1)],
    'C14': [('rules_list', 'c14', SEQ, 1)],
    'C15': [('rules_seq', 'c15alg', SEQ, 2), ('rules_list', 'c15rep', SEQ, 1), ('rules_list', 'c15slice', SEQ, 1)],
    'C17': [('rules_seq', 'c17seq', TLISTS, 1), ('rules_set', 'c17set', TSETS, 3), ('rules_map', 'c17map', TDICTS, 1), ('rules_misc', 'c17iter', TDICTS, 1)],
    'C08': EVERY,
    'C18': [('rules_misc', 'c18', ALL, 1)],
    'C19': [('rules_misc', 'c19', ALL, 1), ('rules_chain', 'c19chain', SETLIKE + MAPS, 1), ('rules_list', 'c19seq', SEQ, 1)],
    'C20': [('rules_misc', 'c20', MAPS, 1)],
    'C21': [('rules_set', 'c21set', SETLIKE, 1), ('rules_seq', 'c21seq', SEQ, 2)],
    'C22': [('rules_seq', 'c22', SEQ, 2)],
    'C27': [('rules_text', 'c27', ALL, 1)],
    'C28': [('rules_state', 'c28', ALL, 1), ('rules_chain', 'c28chain', ('ldict', 'tldict'), 1), ('rules_list', 'c28seq', ('llist', 'tllist'), 1)],
    'C24': [('rules_list', 'c24seq', SEQ, 1), ('rules_chain', 'c24chain', SETLIKE + MAPS, 1)],
}
TEXT = {
    'C01': 'Effect analysis of every public operation: on every outcome the writes that reach an object existing before the call are examined; none may reach a persistent collection, except an int stored in its own hash cache.',
    'C02': 'Effect analysis of every public operation: writes may reach only the receiver of an edit; no mutable trie is shared by two collections; in-place operators return their receiver.',
    'C04': 'The class of the result of every public operation is compared with a table of the documented kinds, on every outcome.',
    'C05': 'Flow of lazy elements: on every outcome of every reading operation of the lazy kinds, no stored lazy object reaches the result without having been computed.',
    'C06': 'Effect analysis: on every outcome of every operation of the lazy kinds that does not need a value, no lazy element is computed; a single-element read computes only that element.',
    'C16': 'Every public operation is interpreted with every documented shape of argument; no outcome ends in an exception of internal origin (undefined names and attributes, wrong argument counts, uncomparable values, endless recursion).',
    'C23': 'Effect analysis: no outcome of a single-element operation traverses or copies a trie.',
    'C03': 'Every single edit is interpreted on an arbitrary receiver (with and without a remembered original), then each conversion; the converted collection is read back through its public reading operations.',
    'C07': 'Interference analysis of one lazy object: the states a successful call moves through are read off the source; every read outside the lock may see any later state, every function may raise; value returned, number of runs, lock balance and what is cached are judged on every outcome.',
    'C08': 'Hash terms: the hash of a collection and of an equal one (other kind, other insertion order, other side, computed or pending values) are derived from the source over symbolic contents and compared up to element equality; a second hash equals the first; an edited transient does not answer with the old hash; on every operation, no result carries the cached hash of other contents.',
    'C09': 'Abstract interpretation of the comparison operators over element kinds with symbolic counts; every outcome is compared with the definition of equality.',
    'C10': 'Every look-up and single edit of sets and mappings is interpreted on a collection of any size with 0..3 stored elements of the argument\'s hash (the argument being none of them, the first, a middle one, the last, the only one) and elements of other hashes; afterwards every one of them is looked up.',
    'C11': 'Abstract interpretation of every set operation over element kinds (in the left operand, in the right, in both), with symbolic unbounded counts; the content of the result is compared with the mathematical result. Single-element operations are interpreted down to the trie.',
    'C12': 'Abstract interpretation of every derived mapping operation over key kinds with symbolic counts and symbolic values. Single-key operations are interpreted down to the trie.',
    'C13': 'Every indexed operation is interpreted with a symbolic length and index over any internal layout; outcomes are compared with the bounds rule for every integer.',
    'C14': 'Every sequence edit is interpreted with a symbolic length and position over any internal layout; the result is read back at every position and compared with the list edit.',
    'C15': 'Abstract interpretation of traversal, slicing, sorting, reversing, concatenation and repetition over symbolic sequences.',
    'C17': 'Abstract interpretation of in-place operations whose operand is the receiver; an iteration of a transient mapping or view is started, the mapping edited, and the next element asked for: every outcome must be a RuntimeError.',
    'C18': 'copy(), __copy__, __deepcopy__, __reduce__ (followed by the restoring call it names) and the JSON form are interpreted for every kind over symbolic contents; kind, contents and separateness of the result are judged.',
    'C19': 'Every constructor is interpreted from its source with every kind of argument (all collection kinds, list, iterator, set, dict, pairs, repetitions, keywords, too many arguments) over symbolic contents; kind, contents, laziness and separateness from the argument are judged.',
    'C20': 'keys(), values(), items(), iteration and reversed of every mapping kind are interpreted from their source over symbolic contents; lengths, elements, order and membership are compared with the definition.',
    'C21': 'Abstract interpretation of the ordering operators over element kinds and symbolic counts.',
    'C22': 'Abstract interpretation of the search operations over a sequence with a run of unequal elements, a match, and a rest.',
    'C27': 'repr() of every kind is interpreted over a collection of any size and the string it builds must hold the repr of every element once, in order; str() is interpreted over 0..4 elements whose texts have symbolic lengths: which elements are shown, the ellipsis and the width are compared with the definition.',
    'C28': 'is_lazy, is_ready, getlazy and the raw conversions of every lazy kind are interpreted down to the tries, for lazy and ordinary elements, and compared with the element stored there; ready_all is interpreted on collections of 0..3 elements with every mixture of lazy and ordinary ones.',
    'C24': 'Every single-element edit is interpreted with a missing key or position, and with element methods that raise at any point; the receiver is read back afterwards.',
}
NOTE = {}
_E = 'static analysis: effect analysis over the abstract outcomes (trace partitioning) of every public operation'
_K = 'static analysis: abstract interpretation of the source over element kinds with symbolic counts, primitive operations replaced by contracts'
_F = 'static analysis: abstract interpretation of the source down to the tries, with symbolic length, position and layout (affine constraints, loop generalisation)'
TECHNIQUE = {
    'C01': _E + ': writes that reach persistent objects',
    'C02': _E + ': writes and aliasing of mutable storage',
    'C03': _F + '; edit, conversion and look-up composed',
    'C04': 'static analysis: abstract class of the result of every public operation against a table of kinds',
    'C05': 'static analysis: flow (taint) of stored lazy objects to results, comparisons and hashes',
    'C06': _E + ': computations of lazy elements',
    'C07': 'static analysis: rely-guarantee interference analysis of one shared object; states read off the source',
    'C08': 'static analysis: symbolic hash terms compared up to equality of elements; cache staleness on every operation',
    'C09': _K, 'C11': _K, 'C12': _K, 'C17': _K + '; typestate of iterators', 'C21': _K, 'C22': _K,
    'C10': 'static analysis: shape analysis of collision chains by abstract interpretation down to the tries',
    'C13': _F, 'C14': _F, 'C15': _F + ' and over element kinds',
    'C16': 'static analysis: abstract interpretation of every public operation; reachability of internal failures',
    'C18': _K, 'C19': _K, 'C20': _K,
    'C23': _E + ': traversals and copies of tries',
    'C24': 'static analysis: exception-path analysis; every user method may raise at every call',
    'C27': 'static analysis: string terms of the built text, symbolic widths',
    'C28': _F + '; events of computing lazy elements',
}
NOT_APPLICABLE = {
    'C25': 'a bound on running time and allocation as a function of the size is a quantity of the trie library (compiled C outside this repository) and not decidable from this source; the structural part (no traversal) is C23.',
    'C26': 'the trie library is a compiled dependency whose source is not part of the repository; there is nothing here to analyse.',
}
# properties whose generators judge them themselves (the others are judged on
# every call that any generator makes)
OWN = {'C18', 'C19', 'C20', 'C07', 'C03', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C17', 'C21', 'C22', 'C24', 'C27', 'C28'}
# generators written for a property that is also judged on every call
ALSO = {'C08': {'c08'}, 'C01': {'c01guards'}, 'C05': {'c20'}, 'C06': {'c19', 'c20'}, 'C02': {'c02seq'}}
