"""C19: classes made by immutable() and get_in."""
import itertools
from base import *
import pyrsistent
from pyrsistent import immutable, get_in, freeze, m, v, pmap, pvector, PRecord, field

NAMES = ['x', 'y_', 'zed', 'id_', 'name', 'a1']
VALS = [0, None, '', False, (), [], 'x', 3.5]

@family
def immutables(p):
    rng = random.Random(p['seed'])
    for _ in range(p['steps']):
        members = rng.sample(NAMES, rng.randrange(0, 5))
        decl = rng.choice([lambda: list(members), lambda: tuple(members), lambda: ', '.join(members), lambda: ','.join(members), lambda: ' '.join(members)])()
        name = rng.choice(['Immutable', 'Thing'])
        C = immutable(decl) if name == 'Immutable' else immutable(decl, name=name)
        check(C.__name__ == name, 'name of %r', C)
        if rng.random() < .5:
            made = []
            class D(C):
                __slots__ = ()
                def __new__(cls, *a, **k):
                    made.append(1)
                    return super(D, cls).__new__(cls, *a, **k)
            C = D
        else:
            made = None
        vals = [rng.choice(VALS + [Obj(i)]) for i, _ in enumerate(members)]
        o = C(*vals) if rng.random() < .5 else C(**dict(zip(members, vals)))
        def same(x, want):
            check(type(x) is C, 'class of %s', short(x))
            check(len(x) == len(want) and all(getattr(x, n) is w for n, w in zip(members, want)) and all(a is b for a, b in zip(x, want)), '%s: members are not %s', short(x), short(want))
        same(o, vals)
        for a in members + ['other']:
            for f in (lambda: setattr(o, a, 1), lambda: delattr(o, a)):
                ok, e = exc_name(f)
                check(not ok and issubclass(e, (AttributeError, TypeError)), 'attribute %s of %s could be changed', a, members)
        pick = [n for n in members + ['other'] if rng.random() < (.4 if n != 'other' else .1)]
        new = {n: rng.choice(VALS + [Obj(9)]) for n in pick}
        bad = 'other' in pick or any(n.endswith('_') for n in pick)
        if made is not None: made.clear()
        ok, r = exc_name(lambda: o.set(**new))
        if bad:
            check(not ok and r is AttributeError, 'set(%s) on members %s gave %s', pick, members, short(r))
        else:
            check(ok, 'set(%s) on members %s raised %s', pick, members, r)
            same(r, [new.get(n, w) for n, w in zip(members, vals)])
            if not pick:
                check(r is o, 'set() of nothing made a new instance')
            elif made is not None:
                check(made, 'set() bypassed __new__ of the subclass')
        same(o, vals)

class Odd:
    """raises what it is told to"""
    def __init__(self, e): self.e = e
    def __getitem__(self, k): raise self.e()

class Rec(PRecord):
    name = field()

@family
def get_ins(p):
    rng = random.Random(p['seed'])
    def tree(d):
        k = rng.randrange(8) if d else 7
        if k < 2: return {n: tree(d - 1) for n in rng.sample(['a', 'b', 'c', 0, 1], 3)}
        if k < 4: return pmap({n: tree(d - 1) for n in rng.sample(['a', 'b', 'c', 0, 1], 3)})
        if k == 4: return [tree(d - 1) for _ in range(rng.randrange(3))]
        if k == 5: return pvector(tree(d - 1) for _ in range(rng.randrange(3)))
        if k == 6: return Rec(name=tree(d - 1))
        return rng.choice([None, 0, 'abc', Obj(1), Odd(KeyError), Odd(ValueError), Odd(IndexError), Odd(AttributeError), Odd(TypeError)])
    for _ in range(p['steps']):
        t = tree(4)
        path = [rng.choice(['a', 'b', 'c', 0, 1, -1, 'name']) for _ in range(rng.randrange(5))]
        want, err = t, None
        for k in path:
            try:
                want = want[k]
            except Exception as e:
                err = type(e)
                break
        d = rng.choice([None, 0, Obj(7)])
        for nd in (False, True):
            keys = rng.choice([list, tuple, iter, pvector])(path)
            if nd:
                ok, r = exc_name(lambda: get_in(keys, t, d, no_default=True))
            elif d is None:
                ok, r = exc_name(lambda: get_in(keys, t))
            else:
                ok, r = exc_name(lambda: get_in(keys, t, d))
            if err is None:
                check(ok and r is want, 'get_in(%s) gave %s instead of %s', path, short(r), short(want))
            elif not nd and issubclass(err, (KeyError, IndexError, TypeError)):
                check(ok and r is d, 'get_in(%s) gave %s instead of the default', path, short(r))
            else:
                check(not ok and r is err, 'get_in(%s) gave %s instead of raising %s', path, short(r), err)

@plan('C19')
def plan_misc(env):
    for r in range(40 if env['tier'] == 'quick' else 1000):
        yield 'immutables', dict(seed=env['seed'] * 7000 + r, steps=15)
        yield 'get_ins', dict(seed=env['seed'] * 7000 + r, steps=60)
