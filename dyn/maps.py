from base import *
import pyrsistent
from pyrsistent import pmap, m as mk, PMap, pset, s as mks, PSet, pbag, b as mkb, PBag
from collections import Counter, OrderedDict, UserDict

def keypool(rng, style, size):
    if style == 'ints':
        return [i * rng.choice([1, 1, 8, 16]) for i in range(size)]
    if style == 'neg':
        return [-i for i in range(size)] + [2 ** 61 - 1, 2 ** 61, -2 ** 61]
    if style == 'collide':                       # all in one bucket whatever the table size
        return [K(i, 7) for i in range(size)]
    if style == 'few':
        return [K(i, i % 3) for i in range(size)]
    if style == 'mod8':
        return [K(i, 8 * i) for i in range(size)]
    if style == 'mod64':
        return [K(i, 64 * (i // 2) + i % 2) for i in range(size)]
    if style == 'mixed':                          # 1 == 1.0 == True
        return [0, 1, 2, 3, 0.0, 1.0, True, False, 2.0, -1, -2, 'a', 'b', 'bb', None, (1, 2), (1, 2.0), frozenset([1]), b'x', '', ()] + ['k%d' % i for i in range(size)]
    if style == 'strs':
        return ['k%d' % i for i in range(size)]
STYLES = ['ints', 'neg', 'collide', 'few', 'mod8', 'mod64', 'mixed', 'strs']

def verify_map(mp, model, why, absent=()):
    check(len(mp) == len(model), '%s: len %d, expected %d', why, len(mp), len(model))
    ks = list(mp)
    check(len(ks) == len(model), '%s: iteration yields %d keys, expected %d', why, len(ks), len(model))
    check(len(set(ks)) == len(ks) and all(k in model for k in ks), '%s: keys are %s, expected %s', why, short(ks), short(list(model)))
    for k, val in model.items():
        check(k in mp, '%s: key %s missing', why, short(k))
        check(mp[k] is val, '%s: [%s] is %s, expected %s', why, short(k), short(mp[k]), short(val))
        check(mp.get(k) is val, '%s: get(%s)', why, short(k))
    its = list(mp.items())
    check(len(its) == len(model) and all(model[k] is v for k, v in its), '%s: items() differ', why)
    check(list(mp.iteritems()) == its and list(mp.iterkeys()) == [k for k, _ in its], '%s: iteritems/iterkeys differ from items', why)
    vs = list(mp.values())
    check(len(vs) == len(its) and all(x is y for x, (_, y) in zip(vs, its)) and list(mp.itervalues()) == vs, '%s: values() differ from items()', why)
    check(len(mp.items()) == len(model) and len(mp.values()) == len(model) and len(mp.keys()) == len(model), '%s: view length', why)
    check(set(mp.keys()) == set(model), '%s: keys()', why)
    kept = {k: k for k in model}
    check(all(type(k) is type(kept[k]) for k in ks), '%s: kept key objects differ from dict', why)
    for k in absent:
        if k not in model:
            check(k not in mp, '%s: absent key %s found', why, short(k))
            ok, e = exc_name(lambda: mp[k])
            check(not ok and e is KeyError, '%s: [absent %s] gave %s', why, short(k), short(e))
            d = object()
            check(mp.get(k, d) is d and mp.get(k) is None, '%s: get(absent)', why)
            check(k not in mp.keys() and (k, None) not in mp.items(), '%s: views contain an absent key', why)

def verify_items_view(mp, model, why):
    for k, val in list(model.items())[:5]:
        check((k, val) in mp.items(), '%s: items() misses %s', why, short(k))
        check((k, Obj(0)) not in mp.items(), '%s: items() contains a wrong value', why)
        check(val in mp.values(), '%s: values() misses %s', why, short(val))
    check(Obj(1) not in mp.values(), '%s: values() contains a foreign value', why)

@family
def map_ops(p):
    rng = random.Random(p['seed'])
    keys = keypool(rng, p['style'], p['n'])
    cnt = [0]
    def fresh():
        cnt[0] += 1
        return Obj(cnt[0]) if rng.random() < .7 else rng.choice(COMMON)
    COMMON = [Obj('c%d' % i) for i in range(3)] + [None, 0, False, ()]
    def rmap(k):
        d = {}
        for _ in range(k):
            d[rng.choice(keys)] = fresh()
        return d
    d0 = rmap(rng.choice([0, 1, 5, p['n']]))
    how = rng.randrange(5)
    m0 = pmap(d0, pre_size=rng.choice([0, 0, 1, 2, 3, 8, 100])) if how < 3 else pmap(list(d0.items())) if how == 3 else pmap().update(d0)
    pool = [(m0, d0)]
    verify_map(m0, d0, 'construction', keys)
    log = []
    for step in range(p['steps']):
        mp, d = pool[-1] if rng.random() < .6 else rng.choice(pool)
        op = rng.choice(['set', 'set', 'set', 'set', 'remove', 'discard', 'update', 'updw', 'evo', 'or', 'attr', 'view', 'setsame', 'keysop', 'grow'])
        k = rng.choice(keys)
        nd = dict(d)
        if op == 'set':
            x = fresh()
            nd[k] = x
            got = exc_name(lambda: mp.set(k, x))
        elif op == 'setsame':
            x = d.get(k, None)
            nd[k] = x
            got = exc_name(lambda: mp.set(k, x))
        elif op == 'grow':
            e = mp.evolver()
            for q in keys:
                if q not in nd:
                    nd[q] = fresh()
                    e[q] = nd[q]
            got = exc_name(e.persistent)
        elif op == 'remove':
            got = exc_name(lambda: mp.remove(k))
            if k not in d:
                check(not got[0] and got[1] is KeyError, 'remove(absent %s) gave %s', short(k), short(got))
                continue
            del nd[k]
        elif op == 'discard':
            got = exc_name(lambda: mp.discard(k))
            if k not in d:
                check(got[0] and got[1] is mp, 'discard(absent) does not return the map itself')
            nd.pop(k, None)
        elif op in ('update', 'or'):
            others = [rmap(rng.choice([0, 1, 3, 9])) for _ in range(rng.choice([0, 1, 1, 2, 3]) if op == 'update' else 1)]
            for o in others:
                nd.update(o)
            args = [rng.choice([lambda z: z, pmap])(o) for o in others]
            got = exc_name(lambda: mp.update(*args) if op == 'update' else (mp | args[0]) if rng.random() < .5 else mp + args[0])
        elif op == 'updw':
            others = [rmap(rng.choice([0, 1, 3, 9])) for _ in range(rng.choice([0, 1, 2, 3]))]
            calls, wcalls = [], []
            tag = rng.random() < .5
            def f(c):
                def g(l, r):
                    c.append((l, r))
                    return l if tag else r
                return g
            g = f(wcalls)
            for o in others:
                for kk, vv in o.items():
                    nd[kk] = g(nd[kk], vv) if kk in nd else vv
            got = exc_name(lambda: mp.update_with(f(calls), *others))
            check(len(calls) == len(wcalls) and all(x[0] is y[0] and x[1] is y[1] for x, y in zip(calls, wcalls)), 'update_with merged other pairs than expected: %s, expected %s', short(calls), short(wcalls))
        elif op == 'evo':
            e = mp.evolver()
            for _ in range(rng.choice([1, 3, 8, 20])):
                kk = rng.choice(keys)
                if rng.random() < .65:
                    x = fresh()
                    e[kk] = x
                    nd[kk] = x
                elif kk in nd:
                    del e[kk]
                    del nd[kk]
            got = exc_name(e.persistent)
        elif op == 'attr':
            a = rng.choice(['k0', 'k1', 'a', 'zz'])
            g = exc_name(lambda: getattr(mp, a))
            if a in d:
                check(g[0] and g[1] is d[a], 'attribute access')
            else:
                check(not g[0] and g[1] is AttributeError, 'attribute access to an absent key gave %s', short(g))
            continue
        elif op == 'view':
            verify_items_view(mp, d, 'views after ' + '; '.join(log[-3:]))
            continue
        elif op == 'keysop':
            ks = mp.keys()
            check(isinstance(ks, PSet), 'keys() is not a set')
            n1 = ks.add(k)
            check(set(n1) == set(d) | {k} and set(mp.keys()) == set(d), 'keys().add')
            if d:
                k2 = rng.choice(list(d))
                check(set(ks.remove(k2)) == set(d) - {k2}, 'keys().remove')
                check(k2 in ks, 'keys() changed by remove')
            verify_map(mp, d, 'map changed by operations on keys()', keys)
            continue
        log.append('%s(%s)' % (op, short(k, 30)))
        why = 'style=%s: %s' % (p['style'], '; '.join(log[-5:]))
        check(got[0], '%s raised %s', why, short(got[1]))
        check(isinstance(got[1], PMap), '%s: result is %s', why, type(got[1]))
        verify_map(got[1], nd, why, rng.sample(keys, min(4, len(keys))))
        verify_map(mp, d, 'operand changed by ' + why)
        pool.append((got[1], nd))
        if len(pool) > 10:
            pool.pop(rng.randrange(len(pool) - 1))
    for o, mo in pool:
        verify_map(o, mo, 'older version changed after ' + '; '.join(log[-8:]), keys)

@family
def map_evolver(p):
    rng = random.Random(p['seed'])
    keys = keypool(rng, p['style'], p['n'])
    cnt = [0]
    def fresh():
        cnt[0] += 1
        return rng.choice([Obj(cnt[0]), Obj(cnt[0]), None, False])
    d0 = {rng.choice(keys): fresh() for _ in range(rng.choice([0, 2, p['n']]))}
    m0 = pmap(d0, pre_size=rng.choice([0, 1, 2, 5, 64]))
    check(m0.evolver().persistent() is m0, 'persistent() of an untouched evolver is another object')
    snaps = [(m0, d0)]
    evs = [(m0.evolver(), dict(d0))]
    log = []
    for step in range(p['steps']):
        i = rng.randrange(len(evs))
        e, d = evs[i]
        op = rng.choice(['set', 'set', 'set', 'set', 'del', 'del', 'pers', 'same', 'fork', 'miss', 'grow'])
        k = rng.choice(keys)
        if op == 'set':
            x = fresh() if rng.random() < .9 else d.get(k)
            if rng.random() < .5:
                e[k] = x
            else:
                check(e.set(k, x) is e, 'set does not return the evolver')
            d[k] = x
        elif op == 'grow' and rng.random() < .3:
            for q in keys:
                x = fresh()
                e.set(q, x)
                d[q] = x
        elif op == 'del':
            if k in d:
                if rng.random() < .5:
                    del e[k]
                else:
                    check(e.remove(k) is e, 'remove does not return the evolver')
                del d[k]
        elif op == 'miss':
            miss = [q for q in keys if q not in d]
            if miss:
                k = rng.choice(miss)
                for f in (lambda: e[k], lambda: e.remove(k), lambda: e.__delitem__(k)):
                    ok, ex = exc_name(f)
                    check(not ok and ex is KeyError, 'evolver access to absent key gave %s', short(ex))
        elif op in ('pers', 'same'):
            r = e.persistent()
            verify_map(r, d, 'persistent after ' + ' '.join(log[-10:]), keys)
            snaps.append((r, dict(d)))
            if op == 'same':
                check(e.persistent() is r, 'persistent() twice gives different objects')
        elif op == 'fork' and len(evs) < 3:
            s, sd = rng.choice(snaps)
            evs.append((s.evolver(), dict(sd)))
        log.append('e%d.%s(%s)' % (i, op, short(k, 20)))
        why = 'style=%s: %s' % (p['style'], ' '.join(log[-10:]))
        check(len(e) == len(d), '%s: len(evolver) %d, expected %d', why, len(e), len(d))
        for q in rng.sample(keys, min(5, len(keys))):
            check((q in e) == (q in d), '%s: contains(%s)', why, short(q))
            if q in d:
                check(e[q] is d[q], '%s: evolver[%s] is %s, expected %s', why, short(q), short(e[q]), short(d[q]))
        s, sd = rng.choice(snaps)
        verify_map(s, sd, 'snapshot changed after ' + why)
    for e, d in evs:
        verify_map(e.persistent(), d, 'final persistent, style=%s %s' % (p['style'], ' '.join(log[-10:])), keys)
    for s, sd in snaps:
        verify_map(s, sd, 'snapshot changed at end: ' + ' '.join(log[-10:]), keys)

def verify_set(ps, model, why, absent=()):
    check(isinstance(ps, PSet), '%s: result is %s', why, type(ps))
    check(len(ps) == len(model), '%s: len %d, expected %d', why, len(ps), len(model))
    xs = list(ps)
    check(len(xs) == len(model) and set(xs) == model, '%s: elements %s, expected %s', why, short(xs), short(model))
    for x in list(model)[:40]:
        check(x in ps, '%s: %s missing', why, short(x))
    for x in absent:
        check((x in ps) == (x in model), '%s: contains(%s)', why, short(x))

@family
def set_ops(p):
    rng = random.Random(p['seed'])
    keys = keypool(rng, p['style'], p['n'])
    def rset(k):
        return {rng.choice(keys) for _ in range(k)}
    s0 = rset(rng.choice([0, 1, 5, p['n']]))
    pool = [(pset(s0, pre_size=rng.choice([1, 2, 8, 50])), s0), (pset(), set())]
    log = []
    for step in range(p['steps']):
        ps, st = rng.choice(pool) if rng.random() < .5 else pool[-1]
        op = rng.choice(['add', 'add', 'remove', 'discard', 'update', 'and', 'or', 'sub', 'xor', 'cmp', 'evo', 'keys', 'ctor', 'disj'])
        k = rng.choice(keys)
        why = 'style=%s: %s; %s(%s)' % (p['style'], '; '.join(log[-4:]), op, short(k, 30))
        w = None
        if op == 'add':
            g, w = exc_name(lambda: ps.add(k)), st | {k}
        elif op == 'remove':
            g = exc_name(lambda: ps.remove(k))
            if k not in st:
                check(not g[0] and g[1] is KeyError, '%s gave %s', why, short(g))
                continue
            w = st - {k}
        elif op == 'discard':
            g, w = exc_name(lambda: ps.discard(k)), st - {k}
            if k not in st:
                check(g[1] is ps, '%s: discard(absent) gives another object', why)
        elif op == 'update':
            o = rset(rng.choice([0, 1, 4, 12]))
            g, w = exc_name(lambda: ps.update(rng.choice([list, tuple, iter, pset])(list(o)))), st | o
        elif op in ('and', 'or', 'sub', 'xor'):
            o, os_ = rng.choice(pool + [(frozenset(x), x) for x in [rset(4)]])
            f = {'and': operator.and_, 'or': operator.or_, 'sub': operator.sub, 'xor': operator.xor}[op]
            named = {'and': 'intersection', 'or': 'union', 'sub': 'difference', 'xor': 'symmetric_difference'}[op]
            w = f(st, os_)
            if not isinstance(o, PSet) and rng.random() < .4:
                w = f(os_, st)
                g = exc_name(lambda: f(o, ps))
            else:
              g = exc_name(lambda: f(ps, o)) if rng.random() < .6 else exc_name(lambda: getattr(ps, named)(o))
        elif op == 'cmp':
            o, os_ = rng.choice(pool + [(set(st), st), (frozenset(st | {k}), st | {k}), (pset(st - {k}), st - {k})])
            for f in (operator.eq, operator.ne, operator.lt, operator.le, operator.gt, operator.ge):
                check(f(ps, o) is f(st, os_), '%s: %s of %s and %s', why, f.__name__, short(st), short(os_))
            check(ps.issubset(o) is (st <= os_) and ps.issuperset(o) is (st >= os_), '%s: issubset/issuperset', why)
            continue
        elif op == 'disj':
            o, os_ = rng.choice(pool)
            check(ps.isdisjoint(o) is st.isdisjoint(os_), '%s: isdisjoint', why)
            continue
        elif op == 'keys':
            d = {x: Obj(1) for x in st}
            g, w = exc_name(lambda: pmap(d).keys()), set(st)
        elif op == 'ctor':
            g, w = exc_name(lambda: rng.choice([pset, lambda z: mks(*z)])(list(st))), set(st)
        elif op == 'evo':
            e = ps.evolver()
            w = set(st)
            for _ in range(rng.choice([0, 1, 4, 15])):
                q = rng.choice(keys)
                r = rng.random()
                if r < .55:
                    check(e.add(q) is e, 'add does not return the evolver')
                    w.add(q)
                elif r < .9 and q in w:
                    check(e.remove(q) is e, 'remove does not return the evolver')
                    w.remove(q)
                elif q not in w:
                    ok, ex = exc_name(lambda: e.remove(q))
                    check(not ok and ex is KeyError, 'evolver remove(absent) gave %s', short(ex))
                elif rng.random() < .5:
                    verify_set(e.persistent(), w, why + ' intermediate persistent()')
                check(len(e) == len(w), '%s: len(evolver)', why)
            g = exc_name(e.persistent)
            if g[0]:
                check(e.persistent() is g[1], '%s: persistent() twice', why)
        log.append('%s(%s)' % (op, short(k, 20)))
        check(g[0], '%s raised %s', why, short(g[1]))
        verify_set(g[1], w, why, rng.sample(keys, min(4, len(keys))))
        verify_set(ps, st, 'operand changed by ' + why)
        pool.append((g[1], w))
        if len(pool) > 9:
            pool.pop(rng.randrange(len(pool) - 1))
    for o, w in pool:
        verify_set(o, w, 'older version changed after ' + '; '.join(log[-8:]), keys)

def verify_bag(pb, c, why, absent=()):
    check(isinstance(pb, PBag), '%s: result is %s', why, type(pb))
    check(len(pb) == sum(c.values()), '%s: len %d, expected %d', why, len(pb), sum(c.values()))
    check(Counter(pb) == c, '%s: elements %s, expected %s', why, short(sorted(map(repr, pb))), short(c))
    for k in list(c) + list(absent):
        check(pb.count(k) == c[k] and (k in pb) == (c[k] > 0), '%s: count(%s) is %s, expected %s', why, short(k), pb.count(k), c[k])

@family
def bag_ops(p):
    rng = random.Random(p['seed'])
    keys = keypool(rng, p['style'], p['n'])
    def relems(k):
        return [rng.choice(keys) for _ in range(k)]
    e0 = relems(rng.choice([0, 1, 6, 20]))
    pool = [(pbag(e0), Counter(e0)), (pbag([]), Counter())]
    log = []
    for step in range(p['steps']):
        pb, c = rng.choice(pool) if rng.random() < .5 else pool[-1]
        op = rng.choice(['add', 'add', 'remove', 'remove', 'update', 'add2', 'sub', 'or', 'and', 'eq', 'ctor'])
        k = rng.choice(keys + list(c) * 2)
        why = 'style=%s: %s; %s(%s)' % (p['style'], '; '.join(log[-4:]), op, short(k, 30))
        if op == 'add':
            g, w = exc_name(lambda: pb.add(k)), c + Counter([k])
        elif op == 'remove':
            g = exc_name(lambda: pb.remove(k))
            if not c[k]:
                check(not g[0] and g[1] is KeyError, '%s gave %s', why, short(g))
                continue
            w = c - Counter([k])
        elif op == 'update':
            xs = relems(rng.choice([0, 1, 3, 10]))
            g, w = exc_name(lambda: pb.update(rng.choice([list, tuple, iter, pbag])(xs))), c + Counter(xs)
        elif op in ('add2', 'sub', 'or', 'and'):
            o, oc = rng.choice(pool)
            f = {'add2': operator.add, 'sub': operator.sub, 'or': operator.or_, 'and': operator.and_}[op]
            g, w = exc_name(lambda: f(pb, o)), f(c, oc)
            verify_bag(o, oc, 'right operand changed by ' + why)
        elif op == 'eq':
            o, oc = rng.choice(pool + [(pbag(list(pb)[::-1]), c)])
            check((pb == o) is (c == oc) and (pb != o) is (c != oc), '%s: == of %s and %s', why, short(c), short(oc))
            continue
        elif op == 'ctor':
            xs = list(c.elements())
            rng.shuffle(xs)
            g, w = exc_name(lambda: mkb(*xs) if rng.random() < .5 else pbag(xs)), +c
        w = +w
        log.append('%s(%s)' % (op, short(k, 20)))
        check(g[0], '%s raised %s', why, short(g[1]))
        verify_bag(g[1], w, why, rng.sample(keys, min(4, len(keys))))
        verify_bag(pb, c, 'operand changed by ' + why)
        pool.append((g[1], w))
        if len(pool) > 9:
            pool.pop(rng.randrange(len(pool) - 1))
    for o, w in pool:
        verify_bag(o, w, 'older version changed after ' + '; '.join(log[-8:]), keys)

@family
def map_inputs(p):
    """Constructors from mappings, pair iterables, generators, all pre_sizes; large maps through every reallocation."""
    n, ps = p['n'], p['pre']
    d = {K(i, i * p['mul']): Obj(i) for i in range(n)}
    for ctor in (lambda: pmap(d, ps), lambda: pmap(list(d.items()), ps), lambda: pmap(OrderedDict(d), ps),
                 lambda: pmap(iter(d.items()), ps), lambda: pmap(UserDict(d), ps), lambda: pmap(pmap(d), ps)):
        verify_map(ctor(), d, 'pmap(n=%d, pre_size=%d, hash stride %d)' % (n, ps, p['mul']), [K('z', 0)])
    e = pmap({}, ps).evolver() if ps else pmap().evolver()
    m = {}
    for i, (k, x) in enumerate(d.items()):
        e[k] = x
        m[k] = x
        if i % 37 == 0 or n < 40:
            check(len(e) == len(m) and e[k] is x, 'evolver growth at %d (pre_size %d)', i, ps)
            for q in list(m)[::7]:
                check(e[q] is m[q], 'evolver growth at %d loses a key (pre_size %d, stride %d)', i, ps, p['mul'])
    verify_map(e.persistent(), d, 'evolver growth n=%d pre=%d' % (n, ps))
    mm = pmap({}, ps) if ps else pmap()
    for k, x in list(d.items())[:150]:
        mm = mm.set(k, x)
    verify_map(mm, dict(list(d.items())[:150]), 'set growth n=%d pre=%d' % (n, ps))
    for k in list(d)[:150:2]:
        mm = mm.remove(k)
    verify_map(mm, {k: d[k] for k in list(d)[1:150:2]}, 'removal after growth n=%d pre=%d' % (n, ps))

@plan('C01', 'C04')
def plan_map(env):
    q = env['tier'] == 'quick'
    for r in range(12 if q else 120):
        for st in STYLES:
            for n in (3, 12, 40):
                yield 'map_ops', dict(seed=env['seed'] * 1000 + r, style=st, n=n, steps=25)

@plan('C04')
def plan_map2(env):
    for n in (0, 1, 2, 5, 6, 8, 9, 12, 13, 22, 33, 70, 200, 700):
        for ps in (0, 1, 2, 3, 8, 16, 100):
            for mul in (1, 8, 0, 3):
                if mul == 0 and n > 80:
                    continue
                yield 'map_inputs', dict(n=n, pre=ps, mul=mul)

@plan('C05', 'C01')
def plan_mapev(env):
    q = env['tier'] == 'quick'
    for r in range(14 if q else 150):
        for st in STYLES:
            for n in (3, 12, 40):
                yield 'map_evolver', dict(seed=env['seed'] * 1000 + r, style=st, n=n, steps=40)

@plan('C06', 'C01')
def plan_set(env):
    q = env['tier'] == 'quick'
    for r in range(14 if q else 150):
        for st in STYLES:
            for n in (3, 12, 40):
                yield 'set_ops', dict(seed=env['seed'] * 1000 + r, style=st, n=n, steps=30)

@plan('C07', 'C01')
def plan_bag(env):
    q = env['tier'] == 'quick'
    for r in range(14 if q else 150):
        for st in STYLES:
            for n in (2, 4, 15):
                yield 'bag_ops', dict(seed=env['seed'] * 1000 + r, style=st, n=n, steps=30)
