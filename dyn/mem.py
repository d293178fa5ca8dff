"""Reference counts, node lifetime and GC behaviour of the C extension (C18). Meant to run with PYTHONMALLOC=debug."""
from base import *
import gc, sys, weakref, tracemalloc
import vec as V
from pyrsistent import pvector, PVector

class W:
    __slots__ = ('n', 'ref', '__weakref__')
    def __init__(self, n):
        self.n = n
        self.ref = None

class Boom:
    def __init__(self, k): self.k = k
    def __iter__(self):
        for i in range(self.k):
            yield W(i)
        raise KeyError('boom')

class EqBoom:
    def __eq__(self, o): raise ZeroDivisionError
    __hash__ = None

class DelHook:
    """Finaliser that looks at and updates vectors while the extension is releasing things."""
    def __init__(self, f): self.f = f
    def __del__(self): self.f()

def churn():
    x = pvector(range(70))
    y = x.extend(range(1100)).set(3, 1).append(2)
    return y[5]

def script(rng, S, steps, deep):
    """A deterministic random program over vectors whose elements come from S. Returns nothing; all locals die."""
    pick = lambda: rng.choice(S)
    pool = [(pvector([]), [])]
    for n in deep:
        m = [pick() for _ in range(n)]
        pool.append((V.build(pvector, m, rng.randrange(5)), m))
    evs = []
    for _ in range(steps):
        v, m = rng.choice(pool)
        n = len(m)
        op = rng.choice(['append', 'appends', 'extend', 'extvec', 'set', 'setT', 'mset', 'del', 'delslice', 'slice', 'mul', 'add', 'evo', 'evset', 'evset', 'evapp', 'evdel', 'evpers', 'evdrop', 'drop', 'drop',
                         'iterpart', 'err', 'cmp', 'query', 'tolist', 'evget', 'rep', 'hash'])
        r = None
        if op == 'append':
            x = pick(); r = v.append(x), m + [x]
        elif op == 'appends':
            w = list(m); u = v
            for _ in range(rng.choice([2, 31, 33, 65])):
                x = pick(); u = u.append(x); w.append(x)
            r = u, w
        elif op == 'extend':
            xs = [pick() for _ in range(rng.choice([0, 1, 31, 32, 33, 64, 1030]))]
            r = v.extend(rng.choice([list, tuple, iter])(xs)), m + xs
        elif op == 'extvec':
            u, w = rng.choice(pool)
            if n + len(w) < 40000: r = v.extend(u), m + w
        elif op in ('set', 'setT') and n:
            i = rng.randrange(n) if op == 'set' else n - 1 - rng.randrange(min(n, 33))
            x = pick(); w = list(m); w[i] = x; r = v.set(i, x), w
        elif op == 'mset' and n:
            w = list(m); a = []
            for _ in range(rng.choice([1, 3, 40])):
                i, x = rng.randrange(n), pick(); w[i] = x; a += [i, x]
            r = v.mset(*a), w
        elif op == 'del' and n:
            i = rng.randrange(n); w = list(m); del w[i]; r = v.delete(i), w
        elif op == 'delslice' and n:
            i, j = sorted((rng.randrange(n), rng.randrange(n))); w = list(m); del w[i:j]; r = v.delete(i, j), w
        elif op == 'slice':
            s = V.rslice(rng, n); r = v[s], m[s]
        elif op == 'mul' and n < 300:
            k = rng.choice([0, 1, 2, 5]); r = v * k, m * k
        elif op == 'add':
            xs = [pick() for _ in range(rng.choice([0, 1, 40]))]; r = v + xs, m + xs
        elif op == 'evo' and len(evs) < 6:
            evs.append([v.evolver(), list(m)])
        elif op.startswith('ev') and evs:
            q = rng.choice(evs); e, w = q; k = len(w)
            if op == 'evset' and k:
                for _ in range(rng.choice([1, 2, 20])):
                    i, x = rng.randrange(-k, k), pick(); e[i] = x; w[i] = x
            elif op == 'evapp':
                x = pick(); e.append(x); w.append(x); xs = [pick() for _ in range(rng.choice([0, 40]))]; e.extend(xs); w.extend(xs)
            elif op == 'evdel' and k:
                i = rng.randrange(k); del e[i]; del w[i]
            elif op == 'evpers':
                r = e.persistent(), list(w)
            elif op == 'evget' and k:
                i = rng.randrange(-k, k); check(e[i] is w[i], 'evolver content')
            elif op == 'evdrop':
                evs.remove(q)
            q = e = w = None
        elif op == 'drop' and len(pool) > 1:
            pool.pop(rng.randrange(len(pool)))
        elif op == 'iterpart':
            it = iter(v); c = rng.randrange(n + 1)
            for _ in range(min(c, 50)): next(it)
        elif op == 'cmp':
            u = rng.choice(pool)[0]; v == u; v != u
            if n < 50:
                exc_name(lambda: v < u)
            v == [1]; v != 3
        elif op == 'query':
            x = pick(); x in v; v.count(x); exc_name(lambda: v.index(x)); exc_name(lambda: v.remove(x)); exc_name(lambda: v.remove(W(-1)))
        elif op == 'tolist':
            v.tolist(); list(v); len(v)
        elif op == 'rep' and n < 100:
            repr(v)
        elif op == 'hash':
            exc_name(lambda: hash(v))
        elif op == 'err':
            for f in (lambda: v.extend(Boom(rng.choice([0, 5, 40, 70]))), lambda: v.extend(5), lambda: v[n], lambda: v[-n - 1], lambda: v['a'], lambda: v.set(n + 1, pick()), lambda: v.set('a', pick()),
                      lambda: v.mset(n + 5, pick()), lambda: v.mset(0, pick(), n + 5, pick()), lambda: v.mset(1), lambda: v.mset('a', 1), lambda: v.delete(n), lambda: v.delete('a'), lambda: v.append(), lambda: v * 'a', lambda: v + 5,
                      lambda: v.index(EqBoom()), lambda: v.count(EqBoom()), lambda: EqBoom() in v, lambda: v.remove(EqBoom()), lambda: v == pvector([EqBoom()] * n), lambda: pvector(5), lambda: pvector(Boom(40)),
                      lambda: v.evolver().extend(5), lambda: v.evolver().delete(n), lambda: v.evolver().set(n + 1, pick()), lambda: v.evolver()[n], lambda: v.evolver().__setitem__('a', 1), lambda: v.evolver().extend(Boom(3)),
                      lambda: v.set(None, pick()), lambda: v.index(pick(), 'a'), lambda: v.index(), lambda: v.transform(['a', 'b'], 3), lambda: hash(pvector([EqBoom()])), lambda: hash(v.append([]))):
                exc_name(f)
            f = None
        if r is not None:
            V.verify(r[0], r[1], 'result of ' + op, deep=len(r[1]) < 3000)
            if len(r[1]) < 40000:
                pool.append(r)
            if len(pool) > 10:
                pool.pop(rng.randrange(len(pool)))
        r = u = None
        if rng.random() < .15:
            churn()
        if rng.random() < .05:
            gc.collect()
        if rng.random() < .1:
            for o, w in pool:
                V.verify(o, w, 'live vector after %s' % op, deep=len(w) < 3000)
            for e, w in evs:
                check(len(e) == len(w) and all(e[i] is w[i] for i in range(len(w))), 'live evolver after %s', op)
            e = w = o = None
    for o, w in pool:
        V.verify(o, w, 'live vector at the end', deep=True)

@family
def mem_refs(p):
    """After any program all element references are returned, exactly; no node is lost; freed elements die."""
    S = [W(i) for i in range(12)]
    bank = S * 5000                 # surplus so that over-release shows up as a low count instead of a crash
    del bank[:]                     # (keep refcounts plain; bank list re-created below)
    bank = S * 5000
    gc.collect()
    base = [sys.getrefcount(x) for x in S]
    x = None
    rng = random.Random(p['seed'])
    script(rng, S, p['steps'], p['deep'])
    gc.collect()
    now = [sys.getrefcount(x) for x in S]
    x = None
    check(now == base, 'element reference counts after the program differ by %s (program seed %s)', [a - b for a, b in zip(now, base)], p['seed'])
    # every vector gone -> elements die
    ws = [weakref.ref(s) for s in S]
    del S, bank
    gc.collect()
    check(all(w() is None for w in ws), 'elements survive all vectors')

@family
def mem_nodes(p):
    """No memory is retained by repeating the same program."""
    S = [W(i) for i in range(12)]
    tracemalloc.start()
    try:
        def once():
            script(random.Random(p['seed']), S, p['steps'], p['deep'])
            gc.collect()
        for _ in range(2):
            once()
        vals = []
        for _ in range(4):
            once()
            vals.append(tracemalloc.get_traced_memory()[0])
        grow = [b - a for a, b in zip(vals, vals[1:])]
        check(min(grow) < 220, 'each repetition of the program retains %s bytes (program seed %s)', grow, p['seed'])
    finally:
        tracemalloc.stop()

def cycle_case(rng, n, which):
    o = W('c')
    m = [None] * n
    i = rng.randrange(n)
    m[i] = o
    v = V.build(pvector, m, rng.randrange(5))
    extra = []
    if which == 0:
        o.ref = v
    elif which == 1:                      # two versions sharing nodes, both in the garbage
        o.ref = [v, v.set((i + 40) % n if n > 1 else 0, o), v.append(1)]
    elif which == 2:                      # evolver in the cycle
        e = v.evolver()
        e[(i + 33) % n] = o
        e.append(o)
        o.ref = e
    elif which == 3:                      # evolver and vectors sharing dirty nodes
        e = v.evolver()
        e[(i + 1) % n] = o
        p1 = e.persistent()
        e[(i + 2) % n] = o
        o.ref = [e, p1, v]
    elif which == 4:                      # iterator in the cycle
        o.ref = [iter(v), v.extend([o] * 40)]
    return weakref.ref(o)

@family
def gc_cycles(p):
    """Garbage cycles through vectors are collected; reachable structures are never cleared by the collector."""
    rng = random.Random(p['seed'])
    n = p['n']
    for which in range(5):
        w = cycle_case(rng, n, which)
        gc.collect()
        # nodes shared between versions are not traversed (safe, but such garbage is kept): only kind 0 must go
        check(which or w() is None, 'garbage cycle of kind %d through a vector of length %d is not collected', which, n)
    # live object shared with a garbage cycle must survive intact
    for rep in range(4):
        keep = [W(i) for i in range(3)]
        lists = [[k] for k in keep]
        m = [lists[i % 3] for i in range(n)]
        v = V.build(pvector, m, rng.randrange(5))
        j = rng.randrange(n)
        v2 = v.set(j, lists[0])
        v3 = v.append(lists[1])
        e = v.evolver()
        e[j] = lists[2]
        node = W('n')
        node.ref = [v, v2, v3, e, node]
        live = rng.choice([None, v, v2, v3, e])
        lm = dict(((id(v), m), (id(v2), m[:j] + [lists[0]] + m[j + 1:]), (id(v3), m + [lists[1]]), (id(e), m[:j] + [lists[2]] + m[j + 1:])))
        want = None if live is None else lm[id(live)]
        del v, v2, v3, e, node, m
        lm = None
        gc.collect()
        for l, k in zip(lists, keep):
            check(len(l) == 1 and l[0] is k, 'a reachable list was cleared by the garbage collector; n=%d', n)
        if live is not None:
            check(len(live) == len(want) and all(live[i] is want[i] for i in range(len(want))), 'a reachable vector was damaged by the garbage collector; n=%d', n)
        churn()
        live = want = None

@family
def reentrant(p):
    """Finalisers and comparison methods that use the same vectors and evolvers while an operation is under way."""
    rng = random.Random(p['seed'])
    n = p['n']
    m = [W(i) for i in range(n)]
    state = {}
    def hook():
        e = state.get('e')
        if e is not None:
            state['seen'] = [e[i] for i in range(0, len(e), 7)]
            e[0] = W('h')
        v = state.get('v')
        if v is not None:
            v.append(1).set(0, 2)
            list(v)
    v = V.build(pvector, m, rng.randrange(5))
    e = v.evolver()
    state['e'], state['v'] = e, v
    for i in [0, n - 1, n // 2, 0, n // 2] * 3:
        e[i] = DelHook(hook)
        e[i] = W('r')
        churn()
    state.clear()
    got = e.persistent()
    check(len(got) == n and all(x is not None for x in got), 'evolver contents')
    V.verify(v, m, 'vector changed by its evolver', deep=True)
    class Eq:
        def __eq__(self, o):
            state['tmp'] = [v.append(5), v.extend([1] * 40)]
            state.clear()
            churn()
            return False
        __hash__ = None
    q = Eq()
    check(q not in v and v.count(q) == 0, 'query')
    ok, ex = exc_name(lambda: v.index(q))
    check(not ok and ex is ValueError, 'index of an absent value')
    u = pvector([Eq()] * n)
    check(not (v == u) or n == 0, 'comparison')
    V.verify(v, m, 'vector after reentrant comparisons', deep=True)

@plan('C18')
def plan_mem(env):
    if env['impl'] != 'c':
        return
    q = env['tier'] == 'quick'
    deeps = [[0, 1, 33], [32, 64, 1], [1056, 1057], [1088, 31], [33, 2080], [1024, 1055], [32800, 5], [32801], [33824]]
    for r in range(70 if q else 1500):
        d = deeps[r % len(deeps)] if r % 3 == 0 else deeps[r % 6]
        yield 'mem_refs', dict(seed=env['seed'] * 7000 + r, steps=60, deep=d)
        if r % 4 == 0:
            yield 'mem_nodes', dict(seed=env['seed'] * 7000 + r, steps=40, deep=d if max(d) < 3000 else [1057])
    for r in range(3 if q else 40):
        for n in (1, 2, 5, 32, 33, 64, 65, 1056, 1057, 1089, 2081):
            yield 'gc_cycles', dict(seed=env['seed'] * 7000 + r, n=n)
            yield 'reentrant', dict(seed=env['seed'] * 7000 + r, n=n)
