"""What the discharged obligations rest on and do not themselves check (reported in every evidence file)."""
COMMON = [
 "generator: pyvc's translation of the Python text (ast -> the same statements with branches, loops, comprehensions, isinstance/len/dict/set/slice operations routed through pyvc/rt.py); what it drops: annotations, docstrings, `yield` is run eagerly (a generator is the list of what it yields)",
 "solvers: z3 (in process) and cvc5 answer unsat only for unsatisfiable queries",
 "== and hash of user elements are an equivalence relation and a function consistent with it, do not raise and have no side effect",
 "Python integers are mathematical; id() of live objects is unique",
 "CPython built-ins and the standard library behave as their contracts in pyvc/rt.py and pyvc/std.py say (list, tuple, dict, set, slice.indices, itertools, functools, collections.abc mixins)",
 "termination is not proved (recursive functions are checked against their own contract, loops against an invariant): partial correctness",
]
BY = {
 'imm': ["declarations of at most 4 members; collections.namedtuple behaves as documented; subscripting user structures is deterministic"],
 'vec': ["vectors of at most 2**35 elements (quick) / 2**45 (thorough): one obligation set per tree height 5..30 / 5..40, all heights within that bound and all lengths of each height are covered",
         "list lemmas over mathematical sequences (concatenation, reversal, index/count additive over concatenation)"],
 'map': ["finite-set cardinality lemmas and the flattening of buckets being a bijection between (bucket, position) and items",
         "the table size at which the map resizes is arbitrary (any threshold is admitted), int(length/2) exact below 2**53", "hash(frozenset(items)) depends only on the items"],
 'bag': ["a fold of increments over a sequence counts the occurrences of each element"],
 'decl': ["user functions (invariants, factories, serializers, type predicates) are deterministic, have no side effect, and their error codes are not callable",
          "declarations: at most 2 fields (checked collections: at most 2 types and 2 invariants over two levels of inheritance), at most 2 types per field, at most 2 class invariants, own or inherited (values unbounded)"],
 'nest': ["create() and serialize() of a nested checked type are deterministic; create(serialize(v)) equals v for the nested values (induction hypothesis), equal data create equal instances; a serialized value is not itself an instance of a declared checked type",
          "pickle and copy call the function returned by __reduce__ with equal copies of its arguments"],
 'tr': ["at most 3 (path, command) pairs per transform call (paths, structures and matchers unbounded)", "matchers and commands deterministic and free of side effects"],
 'c': ["pvectorcmodule.c is read through clang's AST (python3.12 headers); C integers are mathematical, with an obligation that every unsigned result fits (counts below 2**31, shifts at most 30)",
       "C API calls meet the contracts in pyvc/capi.py; allocation succeeds", "iterables are deterministic and user code called back does not touch the vector or evolver being worked on"],
}
PROP = {'C01': ['vec', 'map', 'bag', 'decl'], 'C02': ['vec', 'c'], 'C03': ['vec', 'c'], 'C04': ['map'], 'C05': ['map'], 'C06': ['map'], 'C07': ['map', 'bag'], 'C08': [], 'C09': [],
        'C10': ['vec', 'map', 'bag'], 'C11': ['decl', 'map', 'vec', 'nest'], 'C12': ['decl', 'map'], 'C13': ['decl', 'map'], 'C14': ['tr'], 'C15': [], 'C16': ['decl', 'map', 'nest'], 'C19': ['imm'], 'C17': ['vec', 'c'], 'C18': ['vec', 'c']}
def of(prop):
    return list(COMMON), [x for k in PROP.get(prop, []) for x in BY[k]]
