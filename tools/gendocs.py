#!/usr/bin/env python3
"""Writes MANIFEST.json and the property and seed tables of DESIGN.md from one description.  gendocs.py [caught.json]"""
import json, os, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = {
'C01': dict(level='proof', how="A frame condition on every operation: all pre-existing instances, trie nodes, buckets, tables and caller-owned lists/dicts are registered as frozen when a harness starts; every store the code performs is checked against that set, on every path, also on raising ones. Discharged together with the operation's own contract; C01 is the aggregate of all harnesses that build or take existing instances (all container modules and the C extension).",
            bounded="Retention of caller-owned mutable arguments by user subclasses and the interplay of several live evolvers are additionally sampled.",
            note="frame obligations of all operations under contract (Python modules and C extension)"),
'C02': dict(level='proof', how="PythonPVector: representation invariant of the 32-way trie per tree height (one obligation set per height, lengths symbolic), abstract view = sequence of elements. append/extend/set/mset/delete/remove/slice/add/mul/index/count/contains/iteration/comparison/tolist each against the list operation, including exactly when IndexError/ValueError/TypeError is raised and negative indices. The C vector against the same contracts (shared with C17).",
            bounded='nothing but the module table of the extension', note='trie heights up to 2^35 elements (quick) / 2^45 (thorough), all lengths of each height'),
'C03': dict(level='proof', how="Evolver as abstract list over (dirty nodes, original vector, extra tail): each public method from an arbitrary reachable evolver state, so any interleaving follows by induction over the state invariant. C evolver likewise, including which nodes are owned by it.",
            bounded='nothing', note='induction over the evolver state invariant: any interleaving of calls'),
'C04': dict(level='proof', how="PMap over an arbitrary bucket table of arbitrary size with arbitrary hashes: representation invariant (each key once, in the bucket its hash selects, length = number of keys), abstract view = finite map over equality classes. Every public operation against the dict operation; views and the abc mixins as shipped.",
            bounded='unhashable keys and raising __eq__/__hash__', note='any hash distribution, any table size'),
'C05': dict(level='proof', how="PMap._Evolver: each method from an arbitrary evolver state (any table, any pending changes, any size), `_reallocate` against its contract, persistent()/is_dirty.",
            bounded='nothing', note='induction over the evolver state invariant'),
'C06': dict(level='proof', how="PSet and its evolver over the map's contract; union/intersection/difference/comparisons through the methods of collections.abc.Set as shipped, executed by the same translator.",
            bounded='nothing', note='backing map by its contract (C04, C05)'),
'C07': dict(level='proof', how="PBag over the map's contract; multiplicities as a finite map to integers; loops over elements by a fold invariant (count of each element).",
            bounded='nothing', note='backing map by its contract'),
'C08': dict(level='proof', how="PList as an inductive structure: each method against the sequence operation; loops over the list by invariants over prefixes, recursion by contract.",
            bounded='nothing', note='lists of any length'),
'C09': dict(level='proof', how="PDeque as two persistent lists with lengths and a bound; representation invariant and abstract sequence; every operation against collections.deque for every count, index and bound.",
            bounded='nothing', note='lists behind it by the contract of C08'),
'C10': dict(level='proof', how="__eq__ of two arbitrary instances (independent representations, capacities, cached-hash states; subclasses of the classes included) is proved equivalent to equality of the abstract views, and hash to be a function of the view, before and after caching. C vector compare and hash included.",
            bounded='maps whose keys are attribute names', note='hash(frozenset)/hash(tuple) are functions of contents (CPython)'),
'C11': dict(level='proof', how="CheckedPVector, CheckedPSet, CheckedPMap, their metaclasses and evolvers are the real classes, run on declarations with symbolic types and invariants (own and inherited over up to two levels): construction, create, every update and every evolver method from an arbitrary state (pending errors included). Returned normally => every element, key and value has a declared type and satisfies all invariants, and the contents are those of the unchecked operation; otherwise the documented error with exactly the failed codes, and nothing changed.  Collections of checked elements (create() converts exactly the elements that are not of a declared type yet) and restored pickles likewise. The trie and the bucket table under them by their contracts (C02-C06).",
            bounded='declarations with more than 2 types or 2 invariants', note='declarations of at most 2 types and 2 invariants, two levels of inheritance; elements unbounded'),
'C12': dict(level='proof', how="PRecord, its metaclass and evolver executed on declarations with symbolic fields (types, invariants, factories, initial values, mandatory flags arbitrary; own and inherited); every create/set/update/remove/evolver step: returned => all fields valid and exactly the requested contents; raised => the documented error listing exactly the failed invariants and missing fields, those reported by factories (nested records) included. pvector_field, pset_field, pmap_field: generated type, factory, initial value.",
            bounded='declarations with more than 2 fields', note='declarations of at most 2 fields, values unbounded'),
'C13': dict(level='proof', how="PClass, its metaclass and evolver, as for C12; attribute assignment and deletion always raise; results differ in exactly the named fields.",
            bounded='declarations with more than 2 fields', note='declarations of at most 2 fields, values unbounded'),
'C14': dict(level='proof', how="_transformations.py: matching of one level against an arbitrary structure (map, vector, class instance) and an arbitrary matcher, recursion over the path by transform's own contract (induction over the path); exactly matched positions change, unchanged structure is returned as the identical object, missing keys are created, discard removes.",
            bounded='regular-expression matchers; more than 3 (path, command) pairs', note='containers by their contracts'),
'C15': dict(level='proof', how="freeze/thaw/mutant of _helpers.py: one level with contents of arbitrary kinds, recursion by their own contracts (structural induction).",
            bounded='round trip on concrete nestings', note='containers by their contracts'),
'C16': dict(level='proof', how="__reduce__ of vectors (both), maps, sets, lists, deques, classes, records, checked collections and the types generated by pvector_field/pset_field/pmap_field: the returned (function, arguments) rebuild an equal instance of the same class by running the real restore functions. serialize() of checked collections, classes and records applies the serializer to exactly the elements/fields that declare one. create(serialize(x)) gives back x: induction step per kind of structure, with create()/serialize() of the nested values arbitrary functions subject to the induction hypothesis; ignore_extra is passed on at every level.",
            bounded='copy/deepcopy and pickling through the modules themselves; sets of mixed plain and checked elements', note='the pickle and copy modules are assumed to follow the __reduce__ protocol'),
'C17': dict(level='proof', how="Every function of pvectorcmodule.c (extracted by clang on each run) against the *same* abstract contracts as PythonPVector: same sequence, same exceptions in the same cases. Interchangeability is then a lemma over the two contracts.",
            bounded='the method and type tables (static data) and module initialisation: differential runs only', note='C-API functions by assumed contracts (capi.py); C integers mathematical with range obligations'),
'C18': dict(level='proof', how="The same extraction with ghost reference counts: every C function is checked to return exactly the references it took (balance of owned references per object and node, per path, error paths included), never to read or write a released object or node, to keep node counts equal to the number of holders, and `traverse` to visit each reference this object owns at most once.",
            bounded='leaks across whole histories under the debug allocator, gc and user code that runs in the middle', note='allocation succeeds; user code called back does not touch the vector being modified (sampled)'),
'C19': dict(level='proof', how="immutable() is executed on the declarations listed; the class text it hands to exec is taken from that call, translated like the modules and run on symbolic member values, for every subset of members given to set(), directly and through a subclass with its own __new__. get_in: any number of keys by an invariant (structure reached after t keys), subscripting as an arbitrary partial function that may raise any error.",
            bounded='declarations of more than 4 members', note='declarations of at most 4 members (all patterns of frozen members up to 3), all values; paths of any length'),
}
def main():
    props = [json.loads(l) for l in open(V + '/properties.jsonl')]
    P.update(json.load(open(V + '/tools/override.json')) if os.path.exists(V + '/tools/override.json') else {})
    na = []
    checks, text = [], []
    for p in props:
        i = p['id']
        if i not in P:
            continue
        d = P[i]
        checks.append(dict(property=i, quick_cmd='python3 run.py %s --tier quick' % i, thorough_cmd='python3 run.py %s --tier thorough' % i,
                           technique='contract-based deductive verification of the real code (pyvc: obligations from the current source, z3 and cvc5)',
                           level=d['level'], level_note=(d['note'] + '. ' if d['note'] else '') + ('Trusts pyvc, the solvers and the assumptions listed in the evidence; partial correctness. Bounded stand-in (not counted as proved) for: ' + (d['bounded'] or 'nothing')),
                           evidence_file='evidence/%s.json' % i))
        text.append('**%s %s.** %s Bounded only: %s. Level: %s. Bounds/notes: %s.\n' % (i, p['title'], d['how'], d['bounded'], d['level'], d['note']))
    json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na), open(V + '/MANIFEST.json', 'w'), indent=1)
    caught = json.load(open(V + '/tools/caught.json')) if os.path.exists(V + '/tools/caught.json') else {}
    rows = ['| change | property | breaks | caught by |', '|---|---|---|---|']
    for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
        m = json.load(open(f))
        n = os.path.basename(os.path.dirname(f))
        rows.append('| %s | %s | %s | %s |' % (n, m['property'], m['what_it_breaks'].replace('|', '/')[:160], caught.get(n, 'not recorded')))
    open(V + '/DESIGN.md', 'w').write(open(V + '/tools/design_head.md').read().replace('@@PROPS@@', '\n'.join(text)).replace('@@SEEDS@@', '\n'.join(rows)))
main()
