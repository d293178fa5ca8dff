from base import *
from vec import rindex, rslice
from collections import deque
from pyrsistent import plist, l as mkl, PList, pdeque, dq, PDeque
from pyrsistent._plist import _PListBase

def verify_list(pl, model, why):
    check(isinstance(pl, _PListBase), '%s: result is %s', why, type(pl))
    got = []
    for x in pl:
        got.append(x)
        check(len(got) <= len(model), '%s: longer than %d', why, len(model))
    check(len(got) == len(model) and all(map(operator.is_, got, model)), '%s: %s, expected %s', why, short(got), short(model))
    n = len(model)
    check(len(pl) == n and bool(pl) is bool(model), '%s: len/bool', why)
    if n:
        check(pl.first is model[0], '%s: first', why)
    else:
        ok, e = exc_name(lambda: pl.first)
        check(not ok and e is AttributeError, '%s: first of the empty list gave %s', why, short(e))
    cur, i = pl, 0
    while cur:
        check(cur.first is model[i], '%s: rest^%d.first', why, i)
        cur, i = cur.rest, i + 1
    check(i == n and cur.rest is cur, '%s: walking rest gives %d elements', why, i)
    for i in range(-n, n):
        check(pl[i] is model[i], '%s: [%d]', why, i)
    for i in (n, -n - 1, n + 5, -n - 7):
        ok, e = exc_name(lambda: pl[i])
        check(not ok and e is IndexError, '%s: [%d] of length %d gave %s', why, i, n, short(e))

@family
def list_ops(p):
    rng = random.Random(p['seed'])
    cnt = [0]
    def fresh():
        cnt[0] += 1
        return Obj(cnt[0]) if rng.random() < .6 else rng.choice(COMMON)
    COMMON = [Obj('c%d' % i) for i in range(3)] + [0, None, False]
    m0 = [fresh() for _ in range(p['n'])]
    pool = [(plist(m0), m0), (plist(), []), (plist(iter(m0), reverse=True), m0[::-1])]
    log = []
    for step in range(p['steps']):
        pl, m = rng.choice(pool) if rng.random() < .6 else pool[-1]
        n = len(m)
        op = rng.choice(['cons', 'mcons', 'reverse', 'split', 'slice', 'remove', 'ctor', 'query', 'drop', 'cmp', 'iter'])
        i = rindex(rng, n)
        why = '%s; len %d %s(%d)' % ('; '.join(log[-4:]), n, op, i)
        out = []
        if op == 'cons':
            x = fresh()
            out = [(exc_name(lambda: pl.cons(x)), [x] + m)]
        elif op == 'mcons':
            xs = [fresh() for _ in range(rng.choice([0, 1, 3]))]
            out = [(exc_name(lambda: pl.mcons(rng.choice([list, tuple, iter, plist])(xs))), xs[::-1] + m)]
        elif op == 'reverse':
            out = [(exc_name(lambda: pl.reverse() if rng.random() < .5 else reversed(pl)), m[::-1])]
        elif op == 'split':
            g = exc_name(lambda: pl.split(i))
            check(g[0] and len(g[1]) == 2, '%s gave %s', why, short(g))
            k = max(i, 0)
            out = [((True, g[1][0]), m[:k]), ((True, g[1][1]), m[k:])]
        elif op == 'slice':
            s = rslice(rng, n)
            if s.start is not None and s.start > n + 50:      # walking a list takes time proportional to the bound
                s = slice(n + 5, s.stop, s.step)
            why += str(s)
            out = [(exc_name(lambda: pl[s]), m[s])]
        elif op == 'drop':
            i = abs(i)
            out = [(exc_name(lambda: pl[i:]), m[i:]), (exc_name(lambda: pl.rest), m[1:])]
        elif op == 'remove':
            x = rng.choice(m) if m and rng.random() < .8 else Obj('absent')
            g = exc_name(lambda: pl.remove(x))
            if not any(x is y or x == y for y in m):
                check(not g[0] and g[1] is ValueError, '%s absent gave %s', why, short(g))
                continue
            w = list(m)
            w.remove(x)
            out = [(g, w)]
        elif op == 'ctor':
            r = rng.random() < .5
            f = rng.choice([list, tuple, iter])
            out = [(exc_name(lambda: plist(f(m), reverse=r)), m[::-1] if r else m), (exc_name(lambda: mkl(*m)), m)]
        elif op == 'query':
            x = rng.choice(m) if m and rng.random() < .8 else Obj('absent')
            check(pl.count(x) == m.count(x) and (x in pl) == (x in m), '%s: count/contains', why)
            check(exc_name(lambda: pl.index(x)) == exc_name(lambda: m.index(x)), '%s: index', why)
            continue
        elif op == 'cmp':
            a = [rng.randrange(2) for _ in range(rng.randrange(4))]
            b = rng.choice([a, [rng.randrange(2) for _ in range(rng.randrange(4))]])
            check((plist(a) == plist(b)) is (a == b) and (plist(a) < plist(b)) is (a < b) and (plist(a) != plist(b)) is (a != b), '%s: compare %s %s', why, a, b)
            continue
        elif op == 'iter':
            it = iter(pl)
            got = [x for x in it]
            check(all(map(operator.is_, got, m)) and len(got) == n, '%s: iter', why)
            continue
        log.append('%s(%d)' % (op, i))
        for g, w in out:
            check(g[0], '%s raised %s', why, short(g[1]))
            verify_list(g[1], w, why)
            pool.append((g[1], w))
        verify_list(pl, m, 'operand changed by ' + why)
        while len(pool) > 9:
            pool.pop(rng.randrange(len(pool) - 1))
    for o, w in pool:
        verify_list(o, w, 'older version changed after ' + '; '.join(log[-8:]))

def verify_deque(q, m, maxlen, why):
    check(isinstance(q, PDeque), '%s: result is %s', why, type(q))
    got = list(q)
    check(len(got) == len(m) and all(map(operator.is_, got, m)), '%s: %s, expected %s', why, short(got), short(m))
    n = len(m)
    check(len(q) == n, '%s: len %d, expected %d', why, len(q), n)
    check(q.maxlen == maxlen and (maxlen is None or n <= maxlen), '%s: maxlen %s, expected %s', why, q.maxlen, maxlen)
    if n:
        check(q.left is m[0] and q.right is m[-1], '%s: left/right', why)
        for i in range(-n, n):
            check(q[i] is m[i], '%s: [%d]', why, i)
    else:
        for f in (lambda: q.left, lambda: q.right):
            ok, e = exc_name(f)
            check(not ok and e is IndexError, '%s: tip of an empty deque gave %s', why, short(e))
    for i in (n, -n - 1, n + 5, -n - 7):
        ok, e = exc_name(lambda: q[i])
        check(not ok and e is IndexError, '%s: [%d] of length %d gave %s', why, i, n, short(e))
    check(list(q.reverse()) == m[::-1], '%s: reverse', why)

@family
def deque_ops(p):
    rng = random.Random(p['seed'])
    cnt = [0]
    def fresh():
        cnt[0] += 1
        return Obj(cnt[0]) if rng.random() < .6 else rng.choice(COMMON)
    COMMON = [Obj('c%d' % i) for i in range(3)] + [0, None]
    ml = p['maxlen']
    def tr(xs):                              # keep the rightmost
        xs = list(xs)
        return xs if ml is None else xs[max(len(xs) - ml, 0):]
    def tl(xs):                              # keep the leftmost
        xs = list(xs)
        return xs if ml is None else xs[:ml]
    m0 = [fresh() for _ in range(p['n'])]
    pool = [(pdeque(m0, ml), tr(m0)), (pdeque(maxlen=ml), [])]
    for q, m in pool:
        verify_deque(q, m, ml, 'construction')
    log = []
    for step in range(p['steps']):
        q, m = rng.choice(pool) if rng.random() < .5 else pool[-1]
        n = len(m)
        op = rng.choice(['append', 'append', 'appendleft', 'appendleft', 'pop', 'popleft', 'popk', 'popleftk', 'extend', 'extendleft', 'rotate', 'reverse', 'remove', 'slice', 'query', 'ctor', 'cmp'])
        i = rng.choice([rindex(rng, n), rng.randrange(-2 * n - 3, 2 * n + 4)])
        why = 'maxlen=%s: %s; %s.%s(%d)' % (ml, '; '.join(log[-4:]), short(m, 60), op, i)
        if op == 'append':
            x = fresh()
            g, w = exc_name(lambda: q.append(x)), tr(m + [x])
        elif op == 'appendleft':
            x = fresh()
            g, w = exc_name(lambda: q.appendleft(x)), tl([x] + m)
        elif op == 'pop':
            g, w = exc_name(lambda: q.pop()), m[:-1]
        elif op == 'popleft':
            g, w = exc_name(lambda: q.popleft()), m[1:]
        elif op in ('popk', 'popleftk'):
            k = i if op == 'popk' else -i
            g = exc_name(lambda: q.pop(i) if op == 'popk' else q.popleft(i))
            w = m[:max(n - k, 0)] if k >= 0 else m[-k:]
        elif op == 'extend':
            xs = [fresh() for _ in range(rng.choice([0, 1, 2, 5]))]
            g, w = exc_name(lambda: q.extend(rng.choice([list, tuple, iter])(xs))), tr(m + xs)
        elif op == 'extendleft':
            xs = [fresh() for _ in range(rng.choice([0, 1, 2, 5]))]
            g, w = exc_name(lambda: q.extendleft(rng.choice([list, tuple, iter])(xs))), tl(xs[::-1] + m)
        elif op == 'rotate':
            d = deque(m)
            d.rotate(i)
            g, w = exc_name(lambda: q.rotate(i)), list(d)
        elif op == 'reverse':
            g, w = exc_name(lambda: q.reverse() if rng.random() < .5 else reversed(q)), m[::-1]
        elif op == 'remove':
            x = rng.choice(m) if m and rng.random() < .85 else Obj('absent')
            g = exc_name(lambda: q.remove(x))
            if not any(x is y or x == y for y in m):
                check(not g[0] and g[1] is ValueError, '%s absent gave %s', why, short(g))
                continue
            w = list(m)
            w.remove(x)
        elif op == 'slice':
            s = rslice(rng, n)
            why += str(s)
            g, w = exc_name(lambda: q[s]), m[s]
        elif op == 'ctor':
            xs = [fresh() for _ in range(rng.choice([0, 1, 4, 9]))]
            g, w = exc_name(lambda: pdeque(rng.choice([list, tuple, iter])(xs), maxlen=ml)), tr(xs)
        elif op == 'query':
            x = rng.choice(m) if m and rng.random() < .8 else Obj('absent')
            check(q.count(x) == m.count(x) and (x in q) == (x in m), '%s: count/contains', why)
            check(exc_name(lambda: q.index(x)) == exc_name(lambda: m.index(x)), '%s: index', why)
            continue
        elif op == 'cmp':
            a = [rng.randrange(2) for _ in range(rng.randrange(4))]
            b = rng.choice([a, [rng.randrange(2) for _ in range(rng.randrange(4))]])
            pa, pb = pdeque(a), pdeque(b[:1]).extend(b[1:])
            check((pa == pb) is (a == b) and (pa < pb) is (a < b) and (pa != pb) is (a != b), '%s: compare %s %s', why, a, b)
            continue
        log.append('%s(%d)' % (op, i))
        check(g[0], '%s raised %s', why, short(g[1]))
        verify_deque(g[1], w, ml, why)
        verify_deque(q, m, ml, 'operand changed by ' + why)
        pool.append((g[1], w))
        while len(pool) > 8:
            pool.pop(rng.randrange(len(pool) - 1))
    for o, w in pool:
        verify_deque(o, w, ml, 'older version changed after ' + '; '.join(log[-8:]))

@family
def deque_ctor_errors(p):
    for bad, e in ((-1, ValueError), ('x', TypeError), (1.5, TypeError)):
        g = exc_name(lambda: pdeque([], maxlen=bad))
        check(not g[0] and issubclass(g[1], (e, TypeError)), 'pdeque([], maxlen=%r) gave %s', bad, short(g))

@plan('C08', 'C01')
def plan_list(env):
    q = env['tier'] == 'quick'
    for r in range(60 if q else 600):
        for n in (0, 1, 2, 3, 5, 9):
            yield 'list_ops', dict(seed=env['seed'] * 1000 + r, n=n, steps=25)

@plan('C09', 'C01')
def plan_deque(env):
    q = env['tier'] == 'quick'
    yield 'deque_ctor_errors', {}
    for r in range(30 if q else 400):
        for n in (0, 1, 2, 3, 5, 8):
            for ml in (None, None, 0, 1, 2, 3, 6):
                yield 'deque_ops', dict(seed=env['seed'] * 1000 + r, n=n, steps=22, maxlen=ml)
