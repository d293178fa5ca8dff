"""Equality/hash coherence, aliasing of caller data, failing operations."""
from base import *
import vec, maps, seqs
from maps import keypool, STYLES
from vec import build
from collections import Counter
from pyrsistent import (pvector, pmap, pset, pbag, plist, pdeque, PVector, PMap, PSet, CheckedPVector, CheckedPMap, CheckedPSet,
                        PRecord, PClass, field, freeze, thaw)
from pyrsistent._pvector import python_pvector

class CVInt(CheckedPVector):
    __type__ = int
class CSInt(CheckedPSet):
    pass
class CMAny(CheckedPMap):
    pass
class ClsA(PClass):
    a = field()
    b = field()
class ClsB(ClsA):
    c = field()
class ClsC(ClsA):
    pass
class Rec(PRecord):
    a = field()
    b = field()
    c = field()

def eqh(x, y, want, why):
    check((x == y) is want and (y == x) is want, '%s: == gives %s/%s, expected %s', why, x == y, y == x, want)
    check((x != y) is (not want) and (y != x) is (not want), '%s: != inconsistent with ==', why)
    if want:
        hx, hy = exc_name(lambda: hash(x)), exc_name(lambda: hash(y))
        if hx[0] and hy[0]:
            check(hx[1] == hy[1], '%s: equal but hashes %s and %s', why, hx, hy)

def map_variants(rng, d):
    out = [pmap(d), pmap(d, pre_size=rng.choice([1, 2, 3, 17, 64]))]
    its = list(d.items())
    rng.shuffle(its)
    x = pmap()
    for k, v in its:
        x = x.set(k, v)
    out.append(x)
    e = pmap({'zz%d' % i: i for i in range(20)}).evolver()
    for k, v in its:
        e[k] = v
    for i in range(20):
        if 'zz%d' % i not in d:
            del e['zz%d' % i]
    out.append(e.persistent())
    out.append(x.set('qq', 1).remove('qq') if 'qq' not in d else x)
    out.append(pmap({k: object() for k in d}).update(d))
    out.append(CMAny(d))
    return out

@family
def eq_hash(p):
    rng = random.Random(p['seed'])
    kind = p['kind']
    for _ in range(p['reps']):
        n = rng.choice([0, 1, 2, 3, 6, 33, 40])
        if kind == 'vec':
            a = [rng.choice([0, 1, 2, 'a', (1,), None, 1.0, True]) for _ in range(n)]
            b = list(a)
            r = rng.random()
            if r < .3 and b:
                b[rng.randrange(n)] = rng.choice([0, 7, 'z', 1.0])
            elif r < .45:
                b = b[:-1]
            elif r < .6:
                b = b + [0]
            A = [build(c, a, h) for c in (pvector, python_pvector) for h in range(5)]
            B = [build(c, b, h) for c in (pvector, python_pvector) for h in range(5)]
            for _ in range(8):
                x, y = rng.choice(A), rng.choice(B)
                eqh(x, y, a == b, 'vectors %s %s' % (short(a), short(b)))
                h1 = hash(x)
                check(hash(x) == h1, 'hash not stable')
            if all(type(z) is int for z in a):
                for x in A:
                    eqh(x, CVInt(a), True, 'vector and checked vector %s' % short(a))
        elif kind == 'map':
            keys = keypool(rng, p['style'], 12)
            if rng.random() < .2:
                keys = keys[:4] + ['_cached_hash', '_size', '_buckets', '__hash__', 'keys', 'evolver']
            a = {rng.choice(keys): rng.choice([0, 1, None, 'x', 2]) for _ in range(min(n, 12))}
            b = dict(a)
            r = rng.random()
            if r < .3 and b:
                b[rng.choice(list(b))] = rng.choice([0, 5, 'y'])
            elif r < .5:
                b[rng.choice(keys)] = 1
            elif r < .6 and b:
                del b[rng.choice(list(b))]
            for x in map_variants(rng, a):
                ys = map_variants(rng, b)
                for y in rng.sample(ys, 3):
                    if rng.random() < .5:
                        hash(x)
                    if rng.random() < .5:
                        hash(y)
                    eqh(x, y, a == b, 'maps %s %s' % (short(a), short(b)))
                    eqh(x, y, a == b, 'maps (after hashing) %s %s' % (short(a), short(b)))
                check((x == b) is (a == b) and (b == x) is (a == b), 'map against dict %s %s', short(a), short(b))
            x = pmap(a)
            hash(x)
            k = rng.choice(keys)
            y = x.set(k, 1)
            w = dict(a)
            w[k] = 1
            eqh(y, pmap(w), True, 'map after set on a hashed map')
            y.evolver().set(k, 99)
            eqh(y, pmap(w), True, 'map after an evolver of a hashed map')
            check(x != 5 and not (x == 'a') and (x == []) is False, 'map against non-mapping')
        elif kind == 'set':
            keys = keypool(rng, p['style'], 12)
            a = {rng.choice(keys) for _ in range(min(n, 12))}
            b = set(a)
            r = rng.random()
            if r < .3:
                b ^= {rng.choice(keys)}
            elif r < .5 and b:
                b.pop()
                b.add(rng.choice(keys))
            def variants(s):
                l = list(s)
                rng.shuffle(l)
                e = pset(keys).evolver()
                for k in set(keys):
                    if k not in s:
                        e.remove(k)
                return [pset(l), pset(l, pre_size=1), pmap({k: Obj(1) for k in l}).keys(), e.persistent(), pset().update(l), CSInt(l)]
            for x in variants(a):
                for y in rng.sample(variants(b), 3):
                    eqh(x, y, a == b, 'sets %s %s' % (short(a), short(b)))
                check((x == b) is (a == b) and (x == frozenset(b)) is (a == b), 'set against builtin set')
        elif kind == 'bag':
            keys = keypool(rng, p['style'], 5)
            a = [rng.choice(keys) for _ in range(min(n, 6))]
            b = list(a)
            rng.shuffle(b)
            if rng.random() < .5 and b:
                b[0] = rng.choice(keys)
            eqh(pbag(a), pbag(b), Counter(a) == Counter(b), 'bags %s %s' % (short(a), short(b)))
            if b:
                eqh(pbag(a), pbag(b).add(b[0]).remove(b[0]), Counter(a) == Counter(b), 'bags %s %s' % (short(a), short(b)))
                eqh(pbag(a), pbag(b[1:]) + pbag(b[:1]), Counter(a) == Counter(b), 'bags %s %s' % (short(a), short(b)))
        elif kind in ('list', 'deque'):
            a = [rng.choice([0, 1, 2.0, 'a']) for _ in range(min(n, 8))]
            b = list(a)
            r = rng.random()
            if r < .4 and b:
                b[rng.randrange(len(b))] = rng.choice([0, 2, 'q'])
            elif r < .6:
                b.append(1)
            if kind == 'list':
                for y in (plist(b), plist(b[::-1], reverse=True), plist(b).reverse().reverse(), plist(b + [1]).reverse().rest.reverse()):
                    eqh(plist(a), y, a == b, 'lists %s %s' % (a, b))
                check(plist(a) != a and (plist(a) == pdeque(a)) is False, 'list against other types')
            else:
                for y in (pdeque(b), pdeque(b).rotate(3).rotate(-3), pdeque().extend(b), pdeque().extendleft(b[::-1]), pdeque(b, maxlen=20), pdeque(b).append(1).pop()):
                    eqh(pdeque(a), y, a == b, 'deques %s %s' % (a, b))
        elif kind == 'rec':
            a = {k: rng.choice([0, 1, 'x']) for k in 'abc' if rng.random() < .8}
            b = dict(a)
            if rng.random() < .5:
                b[rng.choice('abc')] = rng.choice([0, 1, 'y'])
            its = list(b.items())
            rng.shuffle(its)
            y = Rec()
            for k, v in its:
                y = y.set(k, v)
            eqh(Rec(**a), y, a == b, 'records %s %s' % (a, b))
            eqh(Rec(**a), pmap(b), a == b, 'record and map %s %s' % (a, b))
        elif kind == 'cls':
            a = {k: rng.choice([0, 1, 'x']) for k in 'abc' if rng.random() < .8}
            b = dict(a)
            if rng.random() < .5:
                b[rng.choice('abc')] = rng.choice([0, 1, 'y'])
            elif rng.random() < .5 and b:
                del b[rng.choice(list(b))]
            ab = lambda d: {k: v for k, v in d.items() if k != 'c'}
            eqh(ClsB(**a), ClsB(**dict(b, a=5)).remove('a').set(**b), a == b, 'class instances %s %s' % (a, b))
            eqh(ClsA(**ab(a)), ClsB(**b), ab(a) == b, 'instances of a class and a subclass %s %s' % (ab(a), b))
            eqh(ClsA(**ab(a)), ClsC(**ab(b)), ab(a) == ab(b), 'instances of a class and a subclass %s %s' % (ab(a), ab(b)))
            check((ClsB(**a) == 3) is False and (ClsA() == pmap()) is False, 'class instance against something else')

def snap_all(o):
    """Everything observable about a persistent object."""
    if isinstance(o, PMap):
        return ('map', len(o), [(id(k), id(v)) for k, v in o.items()])
    if isinstance(o, (PVector,)) or hasattr(o, 'popleft') or hasattr(o, 'mcons'):
        return (type(o).__name__, len(o), [id(x) for x in o])
    return (type(o).__name__, len(o), [id(x) for x in o])

@family
def alias_inputs(p):
    """Caller containers mutated after construction; conversion results mutated; iterators advanced."""
    n = p['n']
    xs = [Obj(i) for i in range(n)]
    src = list(xs)
    vs = [pvector(src), pvector().extend(src), pvector([1]).extend(src)[1:], python_pvector(src), CheckedPVector(src), pvector(src) + src]
    e = pvector().evolver()
    e.extend(src)
    vs.append(e.persistent())
    e = python_pvector().evolver()
    e.extend(src)
    vs.append(e.persistent())
    wants = [list(x) for x in vs]
    def mutate(c):
        if isinstance(c, list):
            if c:
                c[0] = None
                c[-1] = None
            c.append(Obj('extra'))
            c.extend([1] * 40)
        elif isinstance(c, dict):
            for k in list(c)[:2]:
                c[k] = None
            c['extra'] = 1
        elif isinstance(c, set):
            c.add('extra')
            if n:
                c.pop()
    mutate(src)
    for x, w in zip(vs, wants):
        vec.verify(x, w, 'vector of %d changed when the source list was mutated' % n)
    for x, w in zip(vs, wants):
        t = x.tolist()
        mutate(t)
        t2 = list(x)
        mutate(t2)
        sl = x[:]
        vec.verify(x, w, 'vector of %d changed when its tolist() was mutated' % n)
        r = x.__reduce__()
        for a in r[1]:
            if isinstance(a, list):
                mutate(a)
        vec.verify(x, w, 'vector of %d changed when its reduce data was mutated' % n)
    d = {K(i, i % 5): Obj(i) for i in range(n)}
    src = dict(d)
    ms = [pmap(src), pmap(src, 3), pmap().update(src), CheckedPMap(src), pmap(list(src.items()))]
    mutate(src)
    for x in ms:
        maps.verify_map(x, d, 'map of %d changed when the source dict was mutated' % n)
        mutate(dict(x))
        mutate(thaw(x))
        r = x.__reduce__()
        for a in r[1]:
            mutate(a)
        maps.verify_map(x, d, 'map of %d changed when converted data was mutated' % n)
    s0 = set(d)
    src = set(s0)
    ss = [pset(src), CheckedPSet(src), pset().update(src)]
    mutate(src)
    for x in ss:
        maps.verify_set(x, s0, 'set of %d changed when the source set was mutated' % n)
        mutate(thaw(x))
        maps.verify_set(x, s0, 'set of %d changed when thawed data was mutated' % n)
    src = list(xs)
    ls = [plist(src), plist(src[::-1], reverse=True)]
    rs = list(xs)
    ls.append(plist(rs, reverse=True).reverse())
    q = pdeque(src)
    b = pbag(src)
    check(len(src) == n and all(map(operator.is_, src, xs)), 'a constructor changed its argument')
    check(all(map(operator.is_, rs, xs)), 'plist(reverse=True) changed its argument')
    mutate(src)
    mutate(rs)
    for x in ls:
        seqs.verify_list(x, xs, 'list of %d changed with its source' % n)
    seqs.verify_deque(q, xs, None, 'deque of %d changed with its source' % n)
    maps.verify_bag(b, Counter(xs), 'bag of %d changed with its source' % n)
    nested = {'a': [1, [2, 3]], 'b': {'c': [4]}, 'd': (1, [5]), 'e': {6}}
    f = freeze(nested)
    before = repr(sorted(f.items(), key=repr))
    nested['a'][1].append(9)
    nested['b']['c'].append(9)
    nested['d'][1].append(9)
    nested['e'].add(9)
    check(repr(sorted(f.items(), key=repr)) == before, 'frozen structure changed with its source')
    t = thaw(f)
    t['a'][1].append(9)
    t['b']['c'].append(9)
    t['d'][1].append(9)
    t['e'].add(9)
    check(repr(sorted(f.items(), key=repr)) == before, 'frozen structure changed with its thawed copy')

class Boom(Exception):
    pass

def boom_iter(xs, at):
    for i, x in enumerate(xs):
        if i == at:
            raise Boom
        yield x
    raise Boom

class BadEq:
    """hash fixed, comparing raises after a countdown."""
    def __init__(self, h, n, count):
        self.h, self.n, self.count = h, n, count
    def __hash__(self):
        return self.h
    def __eq__(self, o):
        self.count[0] -= 1
        if self.count[0] == 0:
            raise Boom
        return isinstance(o, BadEq) and o.n == self.n

@family
def failing_ops(p):
    """An operation that raises half-way leaves every existing object unchanged, and the exception propagates."""
    n, at = p['n'], p['at']
    xs = [Obj(i) for i in range(n)]
    ys = [Obj(('y', i)) for i in range(at + 3)]
    for ctor in (pvector, python_pvector):
        x = ctor(xs)
        for f in (lambda: x.extend(boom_iter(ys, at)), lambda: ctor(boom_iter(ys, at)), lambda: x + boom_iter(ys, at)):
            g = exc_name(f)
            check(not g[0] and g[1] is Boom, 'extend from a failing iterator gave %s', short(g))
            vec.verify(x, xs, 'vector changed by a failed extend')
        e = x.evolver()
        if n:
            e[0] = ys[0]
        g = exc_name(lambda: e.extend(boom_iter(ys, at)))
        check(not g[0] and g[1] is Boom, 'evolver.extend from a failing iterator gave %s', short(g))
        vec.verify(x, xs, 'vector changed by a failed evolver extend')
        g = exc_name(lambda: x.mset(0, ys[0], n + 5, ys[1]) if n else x.mset(3, 1))
        check(not g[0] and g[1] is IndexError, 'mset out of range gave %s', short(g))
        vec.verify(x, xs, 'vector changed by a failed mset')
    check(not exc_name(lambda: plist(xs).mcons(boom_iter(ys, at)))[0], 'mcons')
    q = pdeque(xs)
    check(not exc_name(lambda: q.extend(boom_iter(ys, at)))[0], 'deque extend')
    seqs.verify_deque(q, xs, None, 'deque changed by a failed extend')
    for cnt in range(1, 8):
        c = [10 ** 9]
        ks = [BadEq(3, i, c) for i in range(min(n, 6))]
        d = {k: Obj(i) for i, k in enumerate(ks)}
        mp = pmap(d)
        order = [k for k in mp]
        c[0] = 10 ** 9
        for f in (lambda: mp.set(BadEq(3, 99, c), 1), lambda: mp.remove(BadEq(3, 5, c)), lambda: mp.update({BadEq(3, 77, c): 1}), lambda: mp.evolver().set(BadEq(3, 1, c), 1)):
            c[0] = cnt
            exc_name(f)
            c[0] = 10 ** 9
            maps.verify_map(mp, d, 'map changed by a failed update')
            check(all(map(operator.is_, mp, order)), 'map order changed by a failed update')

@plan('C10')
def plan_eq(env):
    q = env['tier'] == 'quick'
    for r in range(6 if q else 80):
        for kind in ('vec', 'list', 'deque', 'rec', 'cls'):
            yield 'eq_hash', dict(seed=env['seed'] * 100 + r, kind=kind, reps=12)
        for kind in ('map', 'set', 'bag'):
            for st in STYLES:
                yield 'eq_hash', dict(seed=env['seed'] * 100 + r, kind=kind, style=st, reps=6)

@plan('C01')
def plan_alias(env):
    for n in (0, 1, 2, 5, 31, 32, 33, 64, 100, 1024, 1056, 1057):
        yield 'alias_inputs', dict(n=n)
        for at in (0, 1, 31, 32, 33, 70):
            yield 'failing_ops', dict(n=n, at=at)
