from base import *
import pyrsistent
from pyrsistent import pvector, v as mkv, PVector
from pyrsistent._pvector import python_pvector

IMPLS = {'cur': pvector, 'pyv': python_pvector}

def build(ctor, items, how):
    items = list(items)
    if how == 0:
        return ctor(items)
    if how == 1:                                 # all appends
        x = ctor([])
        for e in items:
            x = x.append(e)
        return x
    if how == 2:                                 # generator, then appends for the last few
        k = max(0, len(items) - 3)
        x = ctor(iter(items[:k]))
        for e in items[k:]:
            x = x.append(e)
        return x
    if how == 3:                                 # evolver
        e = ctor(items[:len(items) // 2]).evolver()
        e.extend(items[len(items) // 2:])
        return e.persistent()
    if how == 4:                                 # append one, extend rest in two parts
        x = ctor([])
        if items:
            x = x.append(items[0])
        k = len(items) // 3
        x = x.extend(items[1:1 + k])
        return x.extend(tuple(items[1 + k:]))
    if how == 5:                                 # set() at every position from a dummy vector
        x = ctor([None] * len(items))
        if len(items) > 3000:
            x = x.mset(*[y for i, e in enumerate(items) for y in (i, e)])
        else:
            for i, e in enumerate(items):
                x = x.set(i, e)
        return x

def verify(vec, model, why, deep=True):
    n = len(model)
    check(len(vec) == n, '%s: len %s, expected %s', why, len(vec), n)
    if deep:
        got = list(vec)
        if not (len(got) == n and all(map(operator.is_, got, model))):
            for i in range(min(n, len(got))):
                if got[i] is not model[i]:
                    raise Violation('%s: iteration differs at %d: %s instead of %s (len %d)' % (why, i, short(got[i]), short(model[i]), n))
            raise Violation('%s: iteration gives %d elements, expected %d' % (why, len(got), n))
        got = vec.tolist()
        check(type(got) is list and len(got) == n and all(map(operator.is_, got, model)), '%s: tolist differs', why)
    idx = range(n) if n <= 80 else sorted(set(list(range(3)) + [31, 32, 33, n // 2, n - 34, n - 33, n - 32, n - 31, n - 2, n - 1]
                                               + [1023, 1024, 1055, 1056, 32767, 32768]))
    for i in idx:
        if 0 <= i < n:
            check(vec[i] is model[i], '%s: [%d] is %s, expected %s', why, i, short(vec[i]), short(model[i]))
            check(vec[i - n] is model[i], '%s: [%d] is wrong', why, i - n)
    for i in (n, n + 1, -n - 1, n + 32, -n - 33):
        ok, e = exc_name(lambda: vec[i])
        check(not ok and e is IndexError, '%s: [%d] on length %d gave %s', why, i, n, short(e))

def rindex(rng, n):
    r = rng.random()
    if r < .3:
        return rng.choice([0, n - 1, n, -1, -n, -n - 1, n + 1, (n - 1) // 32 * 32, (n - 1) // 32 * 32 - 1, 31, 32, n // 2])
    return rng.randrange(-n - 2, n + 3)

def rslice(rng, n):
    def b():
        r = rng.random()
        if r < .25:
            return None
        if r < .35:
            return rng.choice([10 ** 30, -10 ** 30, 2 ** 62, -2 ** 62])
        return rindex(rng, n)
    return slice(b(), b(), rng.choice([None, None, None, 1, 2, 3, -1, -2, -3, 7, -40]))

def list_set(l, i, x):
    n = len(l)
    if i < 0:
        i += n
    if i == n:
        return l + [x]
    if not 0 <= i < n:
        raise IndexError
    l = list(l)
    l[i] = x
    return l

def cmp_result(why, got, want):
    """got = (ok, vec|exc) want = (ok, list|exc)"""
    check(got[0] == want[0], '%s: %s, expected %s', why, short(got), short(want))
    if not want[0]:
        check(issubclass(got[1], want[1]), '%s: raised %s, expected %s', why, got[1].__name__, want[1].__name__)

def do_op(rng, vec, model, fresh, ctor, pool):
    """One random update; returns (name, got, want)."""
    n = len(model)
    op = rng.choice(['append', 'append', 'extend', 'extend', 'set', 'set', 'mset', 'delete', 'delslice', 'remove', 'slice', 'mul', 'add', 'evo', 'extvec'])
    if op == 'append':
        x = fresh()
        return op, exc_name(lambda: vec.append(x)), (True, model + [x])
    if op in ('extend', 'add'):
        k = rng.choice([0, 1, 2, 31, 32, 33, 64, 5, 32 - n % 32, 33 - n % 32])
        xs = [fresh() for _ in range(k)]
        form = rng.choice([list, tuple, iter, lambda q: (y for y in q), ctor])
        if op == 'extend':
            return '%s(%d)' % (op, k), exc_name(lambda: vec.extend(form(xs))), (True, model + xs)
        return '%s(%d)' % (op, k), exc_name(lambda: vec + form(xs)), (True, model + xs)
    if op == 'extvec':
        o, om = rng.choice(pool)
        if len(om) > 3000:
            o, om = vec, model
            if n > 3000:
                return 'noop', (True, vec), (True, model)
        return op, exc_name(lambda: vec.extend(o)), (True, model + om)
    if op == 'set':
        i, x = rindex(rng, n), fresh()
        return 'set(%d)' % i, exc_name(lambda: vec.set(i, x)), exc_name(lambda: list_set(model, i, x))
    if op == 'mset':
        k = rng.choice([0, 1, 2, 3, 5, 40])
        args = []
        for _ in range(k):
            args += [rindex(rng, n), fresh()]
        def w():
            m = model
            for j in range(0, len(args), 2):
                m = list_set(m, args[j], args[j + 1])
            return m
        return 'mset(%s)' % args[::2], exc_name(lambda: vec.mset(*args)), exc_name(w)
    if op == 'delete':
        i = rindex(rng, n)
        def w():
            m = list(model)
            del m[i]
            return m
        return 'delete(%d)' % i, exc_name(lambda: vec.delete(i)), exc_name(w)
    if op == 'delslice':
        i, j = rindex(rng, n), rindex(rng, n)
        m = list(model)
        del m[i:j]
        return 'delete(%d,%d)' % (i, j), exc_name(lambda: vec.delete(i, j)), (True, m)
    if op == 'remove':
        if n and rng.random() < .8:
            x = model[rng.randrange(n)] if n < 5000 else model[rng.randrange(60)]
        else:
            x = Obj('absent')
        def w():
            m = list(model)
            m.remove(x)
            return m
        return 'remove', exc_name(lambda: vec.remove(x)), exc_name(w)
    if op == 'slice':
        s = rslice(rng, n)
        return 'getitem(%s)' % (s,), exc_name(lambda: vec[s]), exc_name(lambda: model[s])
    if op == 'mul':
        k = rng.choice([-1, 0, 1, 2, 3, 33] if n < 200 else [-1, 0, 1, 2] if n < 3000 else [0, 1])
        return 'mul(%d)' % k, exc_name(lambda: (vec * k) if rng.random() < .5 else (k * vec)), (True, model * k)
    if op == 'evo':
        e = vec.evolver()
        m = list(model)
        for _ in range(rng.choice([1, 2, 3, 10])):
            r = rng.random()
            if r < .4 and m:
                i, x = rng.randrange(-len(m), len(m)), fresh()
                e[i] = x
                m[i] = x
            elif r < .8:
                x = fresh()
                e.append(x)
                m.append(x)
            elif m:
                i = rng.randrange(-len(m), len(m))
                del e[i]
                del m[i]
        return op, exc_name(lambda: e.persistent()), (True, m)

@family
def vec_ops(p):
    rng = random.Random(p['seed'])
    ctor = IMPLS[p.get('ctor', 'cur')]
    cnt = [0]
    def fresh():
        cnt[0] += 1
        return Obj(cnt[0]) if rng.random() < .7 else rng.choice(COMMON)
    COMMON = [Obj('c%d' % i) for i in range(4)]
    n0 = p['n']
    m0 = [fresh() for _ in range(n0)]
    v0 = build(ctor, m0, p['how'])
    verify(v0, m0, 'construction(how=%d,n=%d)' % (p['how'], n0))
    pool = [(v0, m0)]
    log = []
    for step in range(p['steps']):
        vec, model = pool[rng.randrange(len(pool))] if rng.random() < .4 else pool[-1]
        name, got, want = do_op(rng, vec, model, fresh, ctor, pool)
        log.append('len %d .%s' % (len(model), name))
        why = 'ctor=%s: %s' % (p.get('ctor', 'cur'), ' ; '.join(log[-4:]))
        cmp_result(why, got, want)
        if want[0]:
            check(isinstance(got[1], PVector), '%s: result is %s', why, type(got[1]))
            verify(got[1], want[1], why)
            if len(want[1]) < 100000:
                pool.append((got[1], want[1]))
        verify(vec, model, 'operand changed by ' + why)
        if len(pool) > 12:
            pool.pop(rng.randrange(len(pool) - 1))
    for o, m in pool:
        verify(o, m, 'older version changed after ' + ' ; '.join(log[-10:]))

@family
def vec_queries(p):
    """index/count/contains/compare/reversed against list."""
    rng = random.Random(p['seed'])
    ctor = IMPLS[p.get('ctor', 'cur')]
    n = p['n']
    model = [rng.randrange(max(2, n // 3 + 1)) for _ in range(n)]
    vec = build(ctor, model, p['how'])
    for _ in range(p.get('reps', 30)):
        x = rng.choice(model) if model and rng.random() < .8 else -5
        check(vec.count(x) == model.count(x), 'count(%r) is %r, expected %r; n=%d', x, vec.count(x), model.count(x), n)
        check((x in vec) == (x in model), 'contains(%r); n=%d', x, n)
        for args in ((x,), (x, rindex(rng, n)), (x, rindex(rng, n), rindex(rng, n))):
            g, w = exc_name(lambda: vec.index(*args)), exc_name(lambda: model.index(*args))
            check(g == w, 'index%r gave %s, expected %s; n=%d', args, g, w, n)
        s = rslice(rng, n)
        check(list(vec[s]) == model[s], 'slice %s of n=%d', s, n)
        check(list(reversed(vec)) == list(reversed(model)), 'reversed; n=%d', n)
    it = iter(vec)
    check(list(it) == model and list(it) == [], 'iterator; n=%d', n)
    for other in (model, model[:-1], model + [0], [x + (i == n // 2) for i, x in enumerate(model)], [x - (i == n - 1) for i, x in enumerate(model)], []):
        o = build(ctor, other, rng.randrange(5))
        for f in (operator.eq, operator.ne, operator.lt, operator.le, operator.gt, operator.ge):
            check(f(vec, o) is f(model, other), '%s of vectors of length %d and %d', f.__name__, n, len(other))
            check(f(o, vec) is f(other, model), '%s of vectors of length %d and %d', f.__name__, len(other), n)
    for bad in ('a', None, (1,)):
        ok, e = exc_name(lambda: vec[bad])
        check(not ok and e is TypeError, 'indexing with %r gave %s', bad, short(e))
    check(repr(vec) == 'pvector(%r)' % (model,), 'repr; n=%d', n)

@family
def vec_sweep(p):
    """Every op at every boundary index of one length."""
    n, ctor = p['n'], IMPLS[p.get('ctor', 'cur')]
    model = [Obj(i) for i in range(n)]
    for how in p['hows']:
        vec = build(ctor, model, how)
        verify(vec, model, 'build how=%d n=%d' % (how, n))
        x = Obj('x')
        pts = sorted({i for b in (0, 1, 31, 32, 33, 63, 64, 1023, 1024, 1025, 32767, 32768, n // 2, n - 1, n - 2, n - 31, n - 32, n - 33, n - 34, n - 64, n - 65, n - 1024, n - 1025, n - 1056, n - 1057) for i in (b, b - n) if -n <= i < n}) if n > 70 else range(-n, n)
        for i in pts:
            w = list(model); w[i] = x
            verify(vec.set(i, x), w, 'set(%d) n=%d how=%d' % (i, n, how), deep=n <= 3000)
            r = vec.set(i, x)
            j = i % n
            for q in pts:
                check(r[q] is w[q], 'set(%d) n=%d how=%d: [%d] wrong', i, n, how, q)
            if n <= 1100 or i in (0, n - 1):
                w = list(model); del w[i]
                verify(vec.delete(i), w, 'delete(%d) n=%d how=%d' % (i, n, how))
        y = vec
        wm = list(model)
        for k in range(p.get('app', 34)):
            o = Obj(('a', k))
            y = y.append(o)
            wm.append(o)
            check(len(y) == n + k + 1 and y[-1] is o and (n == 0 or y[n - 1] is model[-1]), 'append no %d on n=%d how=%d', k, n, how)
        verify(y, wm, 'appends on n=%d how=%d' % (n, how))
        for k in p.get('exts', (1, 31, 32, 33, 65)):
            xs = [Obj(('e', q)) for q in range(k)]
            r = vec.extend(xs)
            verify(r, model + xs, 'extend(%d) on n=%d how=%d' % (k, n, how))
            verify(r.append(x), model + xs + [x], 'extend(%d).append on n=%d how=%d' % (k, n, how))
            r2 = r.extend(xs)
            verify(r2, model + xs + xs, 'extend twice(%d) on n=%d how=%d' % (k, n, how))
            verify(r, model + xs, 'extend(%d) result changed by a later extend; n=%d how=%d' % (k, n, how))
        verify(vec, model, 'original changed by ops; n=%d how=%d' % (n, how))

@family
def vec_evolver(p):
    rng = random.Random(p['seed'])
    ctor = IMPLS[p.get('ctor', 'cur')]
    n = p['n']
    cnt = [0]
    def fresh():
        cnt[0] += 1
        return Obj(cnt[0])
    m0 = [fresh() for _ in range(n)]
    v0 = build(ctor, m0, p['how'])
    snaps = [(v0, m0)]
    evs = [(v0.evolver(), list(m0))]
    log = []
    check(evs[0][0].persistent() is v0, 'persistent() of an untouched evolver is not its vector; n=%d', n)
    for step in range(p['steps']):
        ei = rng.randrange(len(evs))
        e, m = evs[ei]
        op = rng.choice(['set', 'set', 'set', 'get', 'append', 'extend', 'del', 'pers', 'pers', 'setm', 'err', 'fork', 'len', 'same'])
        k = len(m)
        if op in ('set', 'setm'):
            for _ in range(1 if op == 'set' else 8):
                i, x = rng.choice([0, -1, 31, 32, k - 1, k - 32, k - 33, k // 2, -k, k] + [rng.randrange(-k, k + 1) for _ in range(6)]), fresh()
                if -k <= i < k:
                    if rng.random() < .5:
                        e[i] = x
                    else:
                        check(e.set(i, x) is e, 'set does not return the evolver')
                    m[i] = x
                elif i == k:
                    e[i] = x
                    m.append(x)
                k = len(m)
                log.append('e%d[%d]=' % (ei, i))
        elif op == 'append':
            x = fresh()
            check(e.append(x) is e, 'append does not return the evolver')
            m.append(x)
            log.append('e%d.append' % ei)
        elif op == 'extend':
            xs = [fresh() for _ in range(rng.choice([0, 1, 31, 32, 33, 40]))]
            src = rng.choice([list, tuple, iter])(xs)
            check(e.extend(src) is e, 'extend does not return the evolver')
            if isinstance(src, list):
                src.append(Obj('alias'))
            m.extend(xs)
            log.append('e%d.extend(%d)' % (ei, len(xs)))
        elif op == 'del' and k:
            i = rng.choice([0, -1, k - 1, rng.randrange(-k, k)])
            if rng.random() < .5:
                del e[i]
            else:
                check(e.delete(i) is e, 'delete does not return the evolver')
            del m[i]
            log.append('del e%d[%d]' % (ei, i))
        elif op == 'err':
            for i in (k + 1, -k - 1, k + 40):
                ok, ex = exc_name(lambda: e.__setitem__(i, fresh()))
                check(not ok and ex is IndexError, 'evolver set at %d of length %d gave %s', i, k, short(ex))
            for i in (k, -k - 1):
                ok, ex = exc_name(lambda: e[i])
                check(not ok and ex is IndexError, 'evolver get at %d of length %d gave %s', i, k, short(ex))
                ok, ex = exc_name(lambda: e.__delitem__(i))
                check(not ok and ex is IndexError, 'evolver delete at %d of length %d gave %s', i, k, short(ex))
            log.append('e%d err' % ei)
        elif op == 'pers' or op == 'same':
            r = e.persistent()
            verify(r, m, 'persistent after ' + ' '.join(log[-12:]))
            if op == 'same':
                check(e.persistent() is r, 'second persistent() without changes gives another object after %s', ' '.join(log[-12:]))
            snaps.append((r, list(m)))
            log.append('e%d.persistent' % ei)
        elif op == 'fork' and len(evs) < 3:
            s, sm = rng.choice(snaps)
            evs.append((s.evolver(), list(sm)))
            log.append('fork')
        e, m = evs[ei]
        k = len(m)
        why = 'n=%d how=%d: %s' % (n, p['how'], ' '.join(log[-12:]))
        check(len(e) == k, '%s: len(evolver) is %d, expected %d', why, len(e), k)
        for i in ([0, -1, k // 2, k - 1, k - 32, k - 33, 31, 32] + [rng.randrange(-k, k) for _ in range(5)] if k else []):
            if -k <= i < k:
                check(e[i] is m[i], '%s: evolver[%d] is %s, expected %s', why, i, short(e[i]), short(m[i]))
        if k <= 200:
            for i in range(k):
                check(e[i] is m[i], '%s: evolver[%d] is %s, expected %s', why, i, short(e[i]), short(m[i]))
        s, sm = snaps[rng.randrange(len(snaps))]
        verify(s, sm, 'snapshot changed after ' + why)
    for i, (e, m) in enumerate(evs):
        verify(e.persistent(), m, 'final persistent; n=%d: %s' % (n, ' '.join(log[-12:])))
    for s, sm in snaps:
        verify(s, sm, 'snapshot changed at end; n=%d: %s' % (n, ' '.join(log[-12:])))

def ctors(env):
    return ['cur', 'pyv'] if env['impl'] == 'c' else ['pyv']

@plan('C01', 'C02')
def plan_vec(env):
    q = env['tier'] == 'quick'
    ct = ['cur']
    for r in range(6 if q else 40):
        for n in BOUNDARY:
            for c in ct:
                yield 'vec_ops', dict(seed=env['seed'] * 1000 + r, n=n, how=(r + n) % 6, steps=22, ctor=c)
    for n in (BIG if not q else [32768, 32800, 33824]):
        for c in ct:
            yield 'vec_ops', dict(seed=env['seed'] * 1000, n=n, how=0, steps=8, ctor=c)

@plan('C02')
def plan_vec2(env):
    q = env['tier'] == 'quick'
    for c in ['cur']:
        for n in BOUNDARY:
            yield 'vec_sweep', dict(n=n, hows=[0, 1, 2, 3, 4] if n < 600 else [n % 5, (n + 2) % 5], ctor=c)
            yield 'vec_queries', dict(seed=env['seed'], n=n, how=n % 5, ctor=c, reps=20 if n < 300 else 4)
        for n in ([32767, 32768, 32799, 32800, 32801, 32832] if q else BIG):
            yield 'vec_sweep', dict(n=n, hows=[0], ctor=c, app=66, exts=(1, 33))
        for n in ([1048576, 1048608] if q else HUGE):
            yield 'vec_sweep', dict(n=n, hows=[0], ctor=c, app=66, exts=(33,))
        for r in range(3 if q else 40):
            for n in BOUNDARY:
                yield 'vec_queries', dict(seed=env['seed'] + 17 * r, n=n, how=(n + r) % 6, ctor=c, reps=5)

@plan('C03', 'C01')
def plan_vec3(env):
    q = env['tier'] == 'quick'
    for r in range(8 if q else 60):
        for n in BOUNDARY:
            yield 'vec_evolver', dict(seed=env['seed'] * 1000 + r, n=n, how=(r + n) % 6, steps=40)
    for n in ([32768, 32800, 33824] if q else BIG):
        yield 'vec_evolver', dict(seed=env['seed'], n=n, how=0, steps=12)
    for n in [1048608] if q else HUGE:
        yield 'vec_evolver', dict(seed=env['seed'], n=n, how=0, steps=4)
