"""transform (C14), freeze/thaw/mutant (C15) against plain nested models."""
from base import *
import re, collections
from pyrsistent import *
from pyrsistent import pmap, pvector, pset, ny, rex, discard, inc, PMap, PVector, PSet, PRecord, PClass, field, PBag, pbag, pdeque, plist, thaw, freeze, mutant, CheckedPMap, CheckedPVector

class Same:
    'equal to every other Same but only identical to itself'
    def __eq__(self, o):
        return isinstance(o, Same)
    def __hash__(self):
        return 7
class TRec(PRecord):
    a = field()
    b = field()
    c = field()
class TCls(PClass):
    a = field()
    b = field()
    c = field()
class TMap(CheckedPMap):
    __key_type__ = str
class TVec(CheckedPVector):
    __type__ = object

# model: ('m', dict) ('v', list) ('r', dict) ('c', dict) or a leaf
class N:
    __slots__ = ('kind', 'd')
    def __init__(self, kind, d):
        self.kind, self.d = kind, d

def gen(rng, depth, leafs, kinds):
    if depth == 0 or rng.random() < .15:
        return rng.choice(leafs)
    k = rng.choice(kinds)
    if k in 'v':
        return N(k, [gen(rng, depth - 1, leafs, kinds) for _ in range(rng.choice([0, 1, 2, 3, 5, 33]) if depth > 1 else rng.choice([1, 2, 34]))])
    keys = rng.sample(['a', 'b', 'c'], rng.choice([1, 2, 3])) if k in 'rc' else rng.sample(['a', 'b', 'c', 'd1', 'd2', 'x', 'yy', 'zz'], rng.choice([0, 1, 3, 6]))
    if k == 'm' and rng.random() < .2:
        keys = keys + [0, 1, 7]
    return N(k, {q: gen(rng, depth - 1, leafs, kinds) for q in keys})

def real(n):
    """real structure and identity tree: (obj, {key: (obj, tree)})"""
    if not isinstance(n, N):
        return n
    if n.kind == 'v':
        return pvector([real(x) for x in n.d])
    d = {k: real(x) for k, x in n.d.items()}
    if n.kind == 'm':
        return pmap(d)
    if n.kind == 'r':
        return TRec(**d)
    return TCls(**d)

def items(n):
    if n.kind == 'v':
        return list(enumerate(n.d))
    return list(n.d.items())

class Bad(Exception):
    pass

def m_transform(n, path, cmd):
    """model of one (path, command) pair; returns the new model (same object when nothing changed)."""
    if not path:
        return cmd[1](n) if cmd[0] == 'f' else cmd[1]
    if not isinstance(n, N):
        raise Bad
    spec = path[0]
    if spec[0] == 'k':
        key = spec[1]
        if n.kind == 'v':
            if not isinstance(key, int):
                raise Bad
            if key < 0:
                raise Bad
            if key >= len(n.d):
                if key > len(n.d) or cmd[0] == 'd':
                    raise Bad
                kvs = [(key, None, False)]
            else:
                kvs = [(key, n.d[key], True)]
        elif n.kind in 'rc' and key not in ('a', 'b', 'c'):
            raise Bad
        elif n.kind == 'c' and key not in n.d:
            raise Bad       # getattr raises AttributeError; outside the property
        else:
            kvs = [(key, n.d[key], True)] if key in n.d else [(key, None, False)]
    else:
        if n.kind == 'c':
            raise Bad       # PClass has no items()
        kvs = [(k, x, True) for k, x in items(n) if spec[1](k, x)]
    if len(path) == 1 and cmd[0] == 'd':
        gone = {k for k, _, p in kvs if p}
        if not gone:
            return n
        if n.kind == 'v':
            return N('v', [x for i, x in enumerate(n.d) if i not in gone])
        return N(n.kind, {k: x for k, x in n.d.items() if k not in gone})
    new = None
    for k, x, present in kvs:
        if not present:
            if cmd[0] == 'd':
                continue
            x = N('m', {})
        r = m_transform(x, path[1:], cmd)
        if r is not x or not present:
            if new is None:
                new = list(n.d) if n.kind == 'v' else dict(n.d)
            if n.kind == 'v' and k == len(new):
                new.append(r)
            else:
                new[k] = r
    return n if new is None else N(n.kind, new)

def compare(obj, n, old, oldn, why):
    """obj equals model n; where the model node is the identical old model node, the object must be the old object."""
    if n is oldn:
        check(obj is old, '%s: an untouched part was rebuilt: %s', why, short(obj))
        return
    if not isinstance(n, N):
        check(obj is n, '%s: leaf is %s, expected %s', why, short(obj), short(n))
        return
    kinds = dict(v=PVector, m=PMap, r=TRec, c=TCls)
    check(isinstance(obj, kinds[n.kind]) and (n.kind != 'm' or type(obj) is PMap), '%s: %s instead of kind %s', why, type(obj), n.kind)
    sub = isinstance(oldn, N) and oldn.kind == n.kind
    if n.kind == 'v':
        check(len(obj) == len(n.d), '%s: vector of length %d, expected %d', why, len(obj), len(n.d))
        for i, x in enumerate(n.d):
            if sub and i < len(oldn.d) and len(n.d) == len(oldn.d):
                compare(obj[i], x, old[i], oldn.d[i], why)
            else:
                compare(obj[i], x, None, None, why)
    else:
        get = (lambda k: getattr(obj, k)) if n.kind == 'c' else (lambda k: obj[k])
        if n.kind == 'c':
            check({k for k in 'abc' if hasattr(obj, k)} == set(n.d), '%s: fields differ', why)
        else:
            check(set(obj) == set(n.d) and len(obj) == len(n.d), '%s: keys %s, expected %s', why, short(set(obj)), short(set(n.d)))
        oget = (lambda k: getattr(old, k)) if n.kind == 'c' else (lambda k: old[k])
        for k, x in n.d.items():
            if sub and k in oldn.d:
                compare(get(k), x, oget(k), oldn.d[k], why)
            else:
                compare(get(k), x, None, None, why)

def model_of(obj, memo):
    """model whose leaf identity maps the real objects (for callable commands that receive structures)"""
    return obj

def rand_path(rng, n):
    path, desc = [], []
    cur = [n]
    depth = rng.choice([1, 1, 2, 2, 3, 4])
    for _ in range(depth):
        c = rng.choice(cur) if cur else None
        r = rng.random()
        if isinstance(c, N) and c.kind == 'v':
            if r < .55:
                k = rng.randrange(len(c.d)) if c.d and rng.random() < .9 else len(c.d)
                path.append((('k', k), k)); desc.append(k)
            elif r < .7:
                path.append((('p', lambda k, x: True), ny)); desc.append('ny')
            elif r < .85:
                m = rng.randrange(3)
                path.append((('p', lambda k, x, m=m: isinstance(k, int) and k % 3 == m), lambda k, m=m: isinstance(k, int) and k % 3 == m)); desc.append('i%%3==%d' % m)
            else:
                path.append((('p', lambda k, x: not isinstance(x, N)), rng.choice([lambda k, v: not isinstance(v, (PVector, PMap, TCls)), lambda k, v, *a, **kw: not isinstance(v, (PVector, PMap, TCls)), lambda k, v, d=0: not isinstance(v, (PVector, PMap, TCls))]))); desc.append('k,v: leaf')
        else:
            if r < .6:
                ks = list(c.d) if isinstance(c, N) else []
                k = rng.choice(ks) if ks and rng.random() < .8 else rng.choice(['a', 'b', 'c', 'new', 'd1'])
                path.append((('k', k), k)); desc.append(k)
            elif r < .7:
                path.append((('p', lambda k, x: True), ny)); desc.append('ny')
            elif r < .8:
                path.append((('p', lambda k, x: isinstance(k, str) and re.match('[ad]', k)), rex('[ad]'))); desc.append('rex')
            elif r < .9:
                path.append((('p', lambda k, x: k in ('b', 'x', 1)), rng.choice([lambda k, dflt=0: k in ('b', 'x', 1), lambda k, *a: k in ('b', 'x', 1) and not a, lambda k, **kw: k in ('b', 'x', 1), lambda k, *, d=1: k in ('b', 'x', 1)]))); desc.append('k in bx1')
            else:
                path.append((('p', lambda k, x: not isinstance(x, N)), rng.choice([lambda k, v: not isinstance(v, (PVector, PMap, TCls)), lambda k, v, *a, **kw: not isinstance(v, (PVector, PMap, TCls)), lambda k, v, d=0: not isinstance(v, (PVector, PMap, TCls))]))); desc.append('k,v: leaf')
        spec = path[-1][0]
        nxt = []
        for c in cur:
            if isinstance(c, N):
                for k, x in items(c):
                    if spec[0] == 'k' and k == spec[1] and type(k) is type(spec[1]) or spec[0] == 'p' and spec[1](k, x):
                        nxt.append(x)
        cur = nxt
    return path, desc

@family
def transform_ops(p):
    rng = random.Random(p['seed'])
    leafs = [Obj(i) for i in range(5)] + [1, 2, None, 'txt', Same(), Same()]
    for rnd in range(p['steps']):
        n = gen(rng, 3, leafs, p['kinds'])
        if not isinstance(n, N):
            continue
        o = real(n)
        snapshot = n
        k = rng.choice([1, 1, 1, 2, 3])
        args, model, descs = [], n, []
        bad = False
        mix = []
        for _ in range(k):
            path, desc = rand_path(rng, model)
            mark = rng.choice([Obj, Obj, lambda _: Same()])('mark')
            c = rng.random()
            if c < .35:
                cmd, rc = ('v', mark), mark
            elif c < .5:
                cmd, rc = ('d',), discard
            elif c < .75:
                # replace leafs only
                cmd = ('f', lambda x, mark=mark: x if isinstance(x, N) else mark)
                rc = lambda x, mark=mark: x if isinstance(x, (PVector, PMap, TCls)) else mark
            else:
                cmd, rc = ('f', lambda x: x), (lambda x: x)
            try:
                if not path and cmd[0] == 'd':
                    raise Bad
                model = m_transform(model, [q[0] for q in path], cmd)
            except Bad:
                bad = True
                break
            pv = [q[1] for q in path]
            args += [rng.choice([list, tuple, pvector])(pv), rc]
            descs.append('%s %s' % (desc, cmd[0]))
            if not isinstance(model, N):
                break
        if bad or not args:
            continue
        why = 'transform(%s)' % '; '.join(descs)
        try:
            r = o.transform(*args)
        except Exception as e:
            raise Violation('%s on %s raised %s: %s' % (why, short(o), type(e).__name__, e))
        compare(r, model, o, n, why + ' on ' + short(o))
        compare(o, N(n.kind, n.d), None, None, 'receiver changed by ' + why)

@plan('C14', 'C01')
def plan_tr(env):
    q = env['tier'] == 'quick'
    for r in range(60 if q else 1500):
        yield 'transform_ops', dict(seed=env['seed'] * 5000 + r, steps=40, kinds=['mv', 'mvrc', 'mmvr', 'mvc'][r % 4])

# ------------------------------------------------------------------ freeze / thaw
def gen_plain(rng, depth, leafs):
    if depth == 0 or rng.random() < .15:
        return rng.choice(leafs)
    k = rng.choice(['list', 'dict', 'tuple', 'set', 'dd', 'pv', 'pm', 'ps', 'other'])
    n = rng.choice([0, 1, 2, 3, 33] if depth < 2 else [0, 1, 2, 3])
    if k == 'list':
        return [gen_plain(rng, depth - 1, leafs) for _ in range(n)]
    if k == 'tuple':
        return tuple(gen_plain(rng, depth - 1, leafs) for _ in range(n))
    if k == 'dict':
        return {i if i % 2 else (i,): gen_plain(rng, depth - 1, leafs) for i in range(n)}
    if k == 'dd':
        d = collections.defaultdict(list)
        d.update({i: gen_plain(rng, depth - 1, leafs) for i in range(n)})
        return d
    if k == 'set':
        return {i for i in range(n)} | {(1, 2)}
    if k == 'pv':
        return pvector([gen_plain(rng, depth - 1, leafs) for _ in range(n)])
    if k == 'pm':
        return pmap({str(i): gen_plain(rng, depth - 1, leafs) for i in range(n)})
    if k == 'ps':
        return pset(range(n))
    return rng.choice([collections.OrderedDict(a=[1]), pbag([1, 1]), pdeque([1, 2]), plist([1]), frozenset([1]), MyList([1, 2]), MyDict(a=1)])

class MyList(list):
    __hash__ = object.__hash__
class MyDict(dict):
    pass

def c_freeze(x, strict, got, why):
    t = type(x)
    if t in (dict, collections.defaultdict) or strict and isinstance(x, PMap):
        check(type(got) is PMap and len(got) == len(x), '%s: %s froze to %s', why, short(x), short(got))
        for k in x:
            check(k in got and any(k is j for j in got), '%s: key %r lost', why, k)
            c_freeze(x[k], strict, got[k], why)
    elif t is list or strict and isinstance(x, PVector):
        check(isinstance(got, PVector) and len(got) == len(x), '%s: %s froze to %s', why, short(x), short(got))
        for a, b in zip(x, got):
            c_freeze(a, strict, b, why)
    elif t is tuple:
        check(type(got) is tuple and len(got) == len(x), '%s: %s froze to %s', why, short(x), short(got))
        for a, b in zip(x, got):
            c_freeze(a, strict, b, why)
    elif t is set:
        check(type(got) is PSet and len(got) == len(x) and all(e in got for e in x), '%s: %s froze to %s', why, short(x), short(got))
    else:
        check(got is x, '%s: %s was not passed through', why, short(x))

def c_thaw(x, strict, got, why):
    t = type(x)
    if isinstance(x, PVector) or strict and t is list:
        check(type(got) is list and len(got) == len(x), '%s: %s thawed to %s', why, short(x), short(got))
        check(got is not x, '%s: thaw returned the list it was given', why)
        for a, b in zip(x, got):
            c_thaw(a, strict, b, why)
    elif isinstance(x, PMap) or strict and t is dict:
        check(type(got) is dict and len(got) == len(x) and got is not x, '%s: %s thawed to %s', why, short(x), short(got))
        for k in x:
            check(k in got, '%s: key %r lost', why, k)
            c_thaw(x[k], strict, got[k], why)
    elif t is tuple:
        check(type(got) is tuple and len(got) == len(x), '%s: %s thawed to %s', why, short(x), short(got))
        for a, b in zip(x, got):
            c_thaw(a, strict, b, why)
    elif isinstance(x, PSet):
        check(type(got) is set and got == set(x), '%s: %s thawed to %s', why, short(x), short(got))
    else:
        check(got is x, '%s: %s was not passed through', why, short(x))

def has_plain(x):
    """A plain mutable container reachable by the rules of strict freeze."""
    if type(x) in (list, dict, set, collections.defaultdict):
        return True
    if type(x) is tuple or isinstance(x, PVector):
        return any(has_plain(y) for y in x)
    if isinstance(x, PMap):
        return any(has_plain(y) for y in x.values())
    return False

def pure(rng, depth):
    """plain list/dict/set/tuple data"""
    if depth == 0 or rng.random() < .2:
        return rng.choice([1, 2.5, 'a', None, True])
    k = rng.choice('ldst')
    n = rng.choice([0, 1, 2, 3])
    if k == 'l':
        return [pure(rng, depth - 1) for _ in range(n)]
    if k == 't':
        return tuple(pure(rng, depth - 1) for _ in range(n))
    if k == 'd':
        return {'k%d' % i: pure(rng, depth - 1) for i in range(n)}
    return set(range(n))

def deep_eq(a, b):
    if type(a) is not type(b):
        return False
    if type(a) in (list, tuple):
        return len(a) == len(b) and all(map(deep_eq, a, b))
    if type(a) is dict:
        return a.keys() == b.keys() and all(deep_eq(a[k], b[k]) for k in a)
    return a == b

@family
def freeze_thaw(p):
    rng = random.Random(p['seed'])
    leafs = [Obj(i) for i in range(4)] + [1, 'a', None, 2.5]
    for _ in range(p['steps']):
        x = gen_plain(rng, 4, leafs)
        for strict in (True, False):
            why = 'freeze(strict=%s)' % strict
            f = freeze(x, strict) if not strict or rng.random() < .5 else freeze(x)
            c_freeze(x, strict, f, why)
            if strict:
                check(not has_plain(f), '%s of %s still contains a mutable container: %s', why, short(x), short(f))
            t = thaw(x, strict) if not strict or rng.random() < .5 else thaw(x)
            c_thaw(x, strict, t, 'thaw(strict=%s)' % strict)
        y = pure(rng, 4)
        z = thaw(freeze(y))
        check(deep_eq(z, y), 'thaw(freeze(%s)) is %s', short(y), short(z))
        y = pure(rng, 3)
        keep = freeze(y)
        got = []
        @mutant
        def f(*a, **k):
            got.append((a, k))
            return y
        r = f(y, q=y)
        c_freeze(y, True, r, 'mutant result')
        c_freeze(y, True, got[0][0][0], 'mutant positional argument')
        c_freeze(y, True, got[0][1]['q'], 'mutant keyword argument')
        check(len(got[0][0]) == 1 and set(got[0][1]) == {'q'}, 'mutant arguments')

@plan('C15')
def plan_fz(env):
    for r in range(60 if env['tier'] == 'quick' else 2000):
        yield 'freeze_thaw', dict(seed=env['seed'] * 5000 + r, steps=30)
