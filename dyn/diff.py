"""C extension against the pure Python vector, same calls on both (C17)."""
from base import *
import vec as V, pickle, sys
from pyrsistent import pvector, PVector
from pyrsistent._pvector import python_pvector, PythonPVector
import collections.abc as cabc

class Raiser:
    """equality raises"""
    def __init__(self, n): self.n = n
    def __eq__(self, o): raise ZeroDivisionError('eq')
    __hash__ = None
class EqAll:
    def __eq__(self, o): return True
    def __hash__(self): return 7
class Idx:
    def __init__(self, i): self.i = i
    def __index__(self): return self.i

def outcome(f):
    ok, r = exc_name(f)
    return ok, r

def same(a, b, why, seen):
    """outcomes equal: exceptions of the same class; vectors elementwise identical; evolvers paired"""
    check(a[0] == b[0], '%s: C %s, Python %s', why, short(a), short(b))
    x, y = a[1], b[1]
    if not a[0]:
        check(x is y, '%s: C raises %s, Python raises %s', why, x.__name__, y.__name__)
        return
    if isinstance(x, PVector) or isinstance(y, PVector):
        check(isinstance(x, PVector) and isinstance(y, PVector), '%s: C %s, Python %s', why, short(x), short(y))
        xs, ys = list(x), list(y)
        check(len(x) == len(y) and len(xs) == len(ys) and all(map(operator.is_, xs, ys)), '%s: C %s, Python %s', why, short(xs), short(ys))
        check(all(x[i] is y[i] for i in range(0, len(x), max(1, len(x) // 60))), '%s: elements by index differ', why)
    elif type(x) in (list, tuple):
        check(type(x) is type(y) and len(x) == len(y) and all(map(operator.is_, x, y)), '%s: C %s, Python %s', why, short(x), short(y))
    elif type(x) in (bool, int, str, type(None), float):
        check(type(x) is type(y) and x == y, '%s: C %s, Python %s', why, short(x), short(y))
    elif x is NotImplemented or y is NotImplemented:
        check(x is y, '%s: C %s, Python %s', why, short(x), short(y))
    else:
        check(x is y, '%s: C %s, Python %s', why, short(x), short(y))

def tr(pair, k):
    """argument as seen by side k"""
    return pair[k] if isinstance(pair, Pair) else pair

class Pair(tuple):
    pass

def elems(rng, n, kind):
    if kind == 'obj':
        return [Obj(i) for i in range(n)]
    if kind == 'int':
        return [rng.randrange(5) for _ in range(n)]
    if kind == 'tup':
        return [(rng.randrange(3), 'x') for _ in range(n)]
    if kind == 'mixed':
        return [rng.choice([1, 1.0, True, 'a', None, (1,), EqAll(), 3, Obj('m')]) for _ in range(n)]
    return [rng.choice([1, 2, Raiser(1), 3, None]) for _ in range(n)]

def kgen(rng, n, kind):
    return elems(rng, 1, kind)[0]

def call(rng, n, kind, pool):
    """returns (description, function of (vector, side))"""
    el = lambda: kgen(rng, n, kind)
    i = V.rindex(rng, n)
    j = V.rindex(rng, n)
    bad = rng.choice(['a', None, (1,), [], Obj('i'), 2 ** 70, -2 ** 70, True, False])
    other = rng.choice(pool)
    ops = ['append', 'extend', 'set', 'mset', 'delete', 'delete2', 'remove', 'getitem', 'getslice', 'index', 'index2', 'count', 'contains',
           'cmp', 'cmpl', 'add', 'mul', 'rmul', 'len', 'iter', 'rev', 'repr', 'hash', 'tolist', 'bad', 'bool', 'isinst', 'setattr', 'self', 'pickle', 'transform', 'extbad', 'str']
    op = rng.choice(ops)
    e, e2 = el(), el()
    if op == 'append': return op, lambda v, s: v.append(e)
    if op == 'extend':
        xs = elems(rng, rng.choice([0, 1, 31, 32, 33, 5]), kind)
        form = rng.choice([list, tuple, iter, 'vec'])
        return op, lambda v, s: v.extend(tr(other, s) if form == 'vec' else form(xs))
    if op == 'extbad':
        def g():
            yield e
            raise KeyError('x')
        r = rng.random()
        return op, lambda v, s: v.extend(g() if r < .5 else 5)
    if op == 'set': return 'set(%d)' % i, lambda v, s: v.set(i, e)
    if op == 'mset':
        a = [i, e, j, e2] if rng.random() < .8 else [i, e, j]
        return 'mset(%s,%s)' % (i, j), lambda v, s: v.mset(*a)
    if op == 'delete': return 'delete(%d)' % i, lambda v, s: v.delete(i)
    if op == 'delete2': return 'delete(%d,%d)' % (i, j), lambda v, s: v.delete(i, j)
    if op == 'remove': return 'remove(%s)' % short(e), lambda v, s: v.remove(e)
    if op == 'getitem': return '[%d]' % i, lambda v, s: v[i]
    if op == 'getslice':
        sl = V.rslice(rng, n)
        return '[%s]' % sl, lambda v, s: v[sl]
    if op == 'index': return 'index(%s)' % short(e), lambda v, s: v.index(e)
    if op == 'index2': return 'index(%s,%d,%d)' % (short(e), i, j), lambda v, s: v.index(e, i, j)
    if op == 'count': return 'count', lambda v, s: v.count(e)
    if op == 'contains': return 'in', lambda v, s: e in v
    if op == 'cmp':
        f = rng.choice([operator.eq, operator.ne, operator.lt, operator.le, operator.gt, operator.ge])
        return f.__name__, lambda v, s: f(v, tr(other, s))
    if op == 'cmpl':
        f = rng.choice([operator.eq, operator.ne, operator.lt, operator.le, operator.gt, operator.ge])
        x = rng.choice([[1, 2], (), None, 5, 'ab'])
        return f.__name__ + ' with ' + repr(x), lambda v, s: f(v, x)
    if op == 'add':
        x = rng.choice([[e], (e, e2), other, 5, 'ab', None])
        return '+', lambda v, s: v + tr(x, s)
    if op in ('mul', 'rmul'):
        k = rng.choice([-1, 0, 1, 2, 3, 'a', None, True])
        return '* %r' % (k,), (lambda v, s: v * k) if op == 'mul' else (lambda v, s: k * v)
    if op == 'len': return op, lambda v, s: len(v)
    if op == 'iter': return op, lambda v, s: list(iter(v))
    if op == 'rev': return op, lambda v, s: list(reversed(v))
    if op == 'repr': return op, lambda v, s: repr(v)
    if op == 'str': return op, lambda v, s: str(v)
    if op == 'hash': return op, lambda v, s: hash(v)
    if op == 'tolist': return op, lambda v, s: v.tolist()
    if op == '_totuple': return op, lambda v, s: v._totuple()
    if op == 'bool': return op, lambda v, s: bool(v)
    if op == 'isinst': return op, lambda v, s: (isinstance(v, cabc.Sequence), isinstance(v, cabc.Hashable), isinstance(v, PVector))[0]
    if op == 'setattr':
        def f(v, s):
            v.foo = 1
        return op, f
    if op == 'self': return op, lambda v, s: (v.evolver().persistent() is v) and (v.extend([]) is v or len(v) >= 0) and v.mset() is v
    if op == 'pickle':
        if kind in ('int', 'tup'):
            return op, lambda v, s: repr(pickle.loads(pickle.dumps(v)))
        return op, lambda v, s: 0
    if op == 'transform':
        return op, lambda v, s: v.transform([lambda k: k % 2 == 0], e)
    m = rng.choice(['getitem', 'set', 'delete', 'mset', 'index'])
    if m == 'getitem' and bad is None and not n:
        m = 'set'
    if type(bad) is int and m != 'getitem' or bad is None and m == 'index':
        bad = 'z'        # indices beyond the machine word: OverflowError from the extension, not compared
    d = 'bad %s(%s)' % (m, short(bad))
    if m == 'getitem': return d, lambda v, s: v[bad]
    if m == 'set': return d, lambda v, s: v.set(bad, e)
    if m == 'delete': return d, lambda v, s: v.delete(bad)
    if m == 'mset': return d, lambda v, s: v.mset(bad, e)
    return d, lambda v, s: v.index(e, bad)

@family
def c_vs_py(p):
    rng = random.Random(p['seed'])
    kind = p['kind']
    xs = elems(rng, p['n'], kind)
    pool = [Pair((V.build(pvector, xs, p['how']), V.build(python_pvector, xs, p['how'])))]
    check(type(pool[0][0]) is not type(pool[0][1]), 'the extension is not in use')
    log = []
    for _ in range(p['steps']):
        cur = pool[-1] if rng.random() < .6 else rng.choice(pool)
        n = len(cur[0])
        d, f = call(rng, n, kind, pool)
        a, b = outcome(lambda: f(cur[0], 0)), outcome(lambda: f(cur[1], 1))
        log.append('len %d %s' % (n, d))
        same(a, b, '%s elements; %s' % (kind, ' ; '.join(log[-3:])), None)
        if a[0] and isinstance(a[1], PVector):
            if len(a[1]) < 5000:
                pool.append(Pair((a[1], b[1])))
        if len(pool) > 8:
            pool.pop(rng.randrange(len(pool) - 1))
    for q in pool:
        same((True, q[0]), (True, q[1]), 'older version; ' + ' ; '.join(log[-5:]), None)

@family
def evolver_c_vs_py(p):
    rng = random.Random(p['seed'])
    kind = p['kind']
    xs = elems(rng, p['n'], kind)
    a0, b0 = V.build(pvector, xs, p['how']), V.build(python_pvector, xs, p['how'])
    a, b = a0.evolver(), b0.evolver()
    snaps = []
    log = []
    err = False
    for _ in range(p['steps']):
        n = len(a)
        i = V.rindex(rng, n)
        e = kgen(rng, n, kind)
        op = rng.choice(['set', 'set', 'setm', 'append', 'extend', 'del', 'delm', 'get', 'len', 'pers', 'bad', 'extbad'])
        bad = rng.choice(['a', None, (1,), True])
        ys = elems(rng, rng.choice([0, 1, 32, 40]), kind)
        def f(ev):
            if op == 'set':
                ev[i] = e
            elif op == 'setm':
                return ev.set(i, e) is ev
            elif op == 'append':
                return ev.append(e) is ev
            elif op == 'extend':
                return ev.extend(ys) is ev
            elif op == 'extbad':
                ev.extend(5)
            elif op == 'del':
                del ev[i]
            elif op == 'delm':
                return ev.delete(i) is ev
            elif op == 'get':
                return ev[i]
            elif op == 'len':
                return len(ev)
            elif op == 'pers':
                return ev.persistent()
            else:
                return ev[bad] if not_set else ev.__setitem__(bad, e)
        not_set = rng.random() < .5
        if op == 'bad' and n == 0:
            continue
        log.append('%s(%s)' % (op, short(bad) if op == 'bad' else i))
        ra, rb = outcome(lambda: f(a)), outcome(lambda: f(b))
        why = 'evolver of %s elements; %s' % (kind, ' ; '.join(log[-5:]))
        same(ra, rb, why, None)
        err = err or not ra[0]
        if op == 'pers':
            snaps.append((ra[1], rb[1]))
            check(err or (ra[1] is a0) == (rb[1] is b0), '%s: identity of persistent()', why)
        check(len(a) == len(b), '%s: lengths %d and %d', why, len(a), len(b))
        check(all(a[q] is b[q] for q in range(0, len(a), max(1, len(a) // 40))), '%s: contents differ', why)
    same((True, a.persistent()), (True, b.persistent()), 'final; ' + ' ; '.join(log[-5:]), None)
    for q in snaps + [(a0, b0)]:
        same((True, q[0]), (True, q[1]), 'snapshot; ' + ' ; '.join(log[-5:]), None)

@plan('C17')
def plan_diff(env):
    if env['impl'] != 'c':
        return
    q = env['tier'] == 'quick'
    for r in range(40 if q else 800):
        for kind in ('obj', 'int', 'mixed', 'tup', 'raise'):
            n = BOUNDARY[(r * 7 + len(kind)) % len(BOUNDARY)] if r % 2 else r % 7
            yield 'c_vs_py', dict(seed=env['seed'] * 9000 + r, n=n, how=r % 5, steps=60, kind=kind)
            yield 'evolver_c_vs_py', dict(seed=env['seed'] * 9000 + r, n=n, how=r % 5, steps=40, kind=kind)
    for n in BIG[:3] if q else BIG:
        yield 'c_vs_py', dict(seed=env['seed'], n=n, how=0, steps=25, kind='obj')
        yield 'evolver_c_vs_py', dict(seed=env['seed'], n=n, how=0, steps=10, kind='obj')
