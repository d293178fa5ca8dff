from base import *
import maps, vec
from maps import keypool
import pickle, copy
from collections import Counter, defaultdict
from pyrsistent import *
from pyrsistent import CheckedPVector, CheckedPMap, CheckedPSet, PRecord, PClass, field, InvariantException, PTypeError, CheckedKeyTypeError, CheckedValueTypeError, optional, pvector_field, pset_field, pmap_field
from pyrsistent._pvector import PythonPVector

def PythonPVector_of(xs):
    from pyrsistent._pvector import python_pvector
    return python_pvector(xs)

# ------------------------------------------------------------------ checked collections
class VPos(CheckedPVector):
    __type__ = (int, float)
    __invariant__ = lambda n: (n >= 0, 'neg')
class VPosEven(VPos):
    __invariant__ = lambda n: (n % 2 == 0, 'odd')
class VDeep(VPosEven):
    pass
class VDeep2(VDeep):
    __invariant__ = lambda n: (n != 8, 'eight')
class VMulti(CheckedPVector):
    __type__ = optional(int)
    __invariant__ = lambda n: ((n is None or n < 100, 'big'), (n is None or n > -100, 'small'))
class VStrT(CheckedPVector):
    __type__ = 'builtins.int'
class VMixA(CheckedPVector):
    __invariant__ = lambda n: (n != 13, 'thirteen')
class VMix(VMixA, VPos):
    pass
class SPos(CheckedPSet):
    __type__ = (int, float)
    __invariant__ = lambda n: (n >= 0, 'neg')
class SPosEven(SPos):
    __invariant__ = lambda n: (n % 2 == 0, 'odd')
class SDeep(SPosEven):
    __invariant__ = lambda n: (n != 8, 'eight')
class MChk(CheckedPMap):
    __key_type__ = int
    __value_type__ = (int, str)
    __invariant__ = lambda k, v: (k != v, 'same')
class MChk2(MChk):
    __invariant__ = lambda k, v: (k < 50, 'bigkey')
class MChk3(MChk2):
    pass
class MOpen(CheckedPMap):
    pass

ELEM = {   # class -> (type ok, [(invariant, code)])
    VPos: (lambda x: isinstance(x, (int, float)), [(lambda n: n >= 0, 'neg')]),
    VPosEven: (lambda x: isinstance(x, (int, float)), [(lambda n: n % 2 == 0, 'odd'), (lambda n: n >= 0, 'neg')]),
    VDeep: (lambda x: isinstance(x, (int, float)), [(lambda n: n % 2 == 0, 'odd'), (lambda n: n >= 0, 'neg')]),
    VDeep2: (lambda x: isinstance(x, (int, float)), [(lambda n: n != 8, 'eight'), (lambda n: n % 2 == 0, 'odd'), (lambda n: n >= 0, 'neg')]),
    SDeep: (lambda x: isinstance(x, (int, float)), [(lambda n: n != 8, 'eight'), (lambda n: n % 2 == 0, 'odd'), (lambda n: n >= 0, 'neg')]),
    VMulti: (lambda x: x is None or isinstance(x, int), [(lambda n: n is None or -100 < n < 100, None)]),
    VStrT: (lambda x: isinstance(x, int), []),
    VMix: (lambda x: isinstance(x, (int, float)), [(lambda n: n != 13, 'thirteen'), (lambda n: n >= 0, 'neg')]),
    SPos: (lambda x: isinstance(x, (int, float)), [(lambda n: n >= 0, 'neg')]),
    SPosEven: (lambda x: isinstance(x, (int, float)), [(lambda n: n % 2 == 0, 'odd'), (lambda n: n >= 0, 'neg')]),
}
POOLVALS = [0, 1, 2, 3, 4, 6, 8, 10, 12, 13, 20, 50, 99, -1, -2, 2.5, 100, 'a', None, -200, True, (1,)]

def verdict(cls, xs):
    tok, invs = ELEM[cls]
    if not all(tok(x) for x in xs):
        return CheckedValueTypeError
    if not all(f(x) for x in xs for f, _ in invs):
        return InvariantException
    return None

def codes(cls, xs):
    return Counter(c for x in xs for f, c in ELEM[cls][1] if not f(x))

class VOpen(CheckedPVector):
    pass
class SOpen(CheckedPSet):
    pass
SOURCES = [lambda xs: xs, iter, tuple, pvector, PythonPVector_of, plist, pdeque, VOpen, lambda xs: pvector(xs).evolver().persistent(), lambda xs: VOpen(xs).evolver().persistent()]
SETSOURCES = [set, frozenset, pset, lambda xs: pmap({x: i for i, x in enumerate(xs)}), lambda xs: dict.fromkeys(xs), lambda xs: pmap(dict.fromkeys(xs, True)), lambda xs: pmap(dict.fromkeys(xs)).keys(), SOpen, pbag]

@family
def checked_elems(p):
    rng = random.Random(p['seed'])
    cls = {c.__name__: c for c in ELEM}[p['cls']]
    isvec = issubclass(cls, CheckedPVector)
    good = [x for x in POOLVALS if verdict(cls, [x]) is None]
    def val():
        return rng.choice(good) if rng.random() < .7 else rng.choice(POOLVALS)
    def vals(k):
        return [val() for _ in range(k)]
    def ver(o, m, why):
        check(type(o) is cls, '%s: result is %s', why, type(o))
        if isvec:
            check(list(o) == m and [type(x) for x in o] == [type(x) for x in m] and len(o) == len(m), '%s: %s, expected %s', why, short(list(o)), short(m))
        else:
            check(set(o) == set(m) and len(o) == len(m), '%s: %s, expected %s', why, short(list(o)), short(m))
        check(verdict(cls, list(o)) is None, '%s: instance %s breaks its declaration', why, short(list(o)))
    empty = [] if isvec else set()
    pool = []
    log = []
    for step in range(p['steps']):
        op = rng.choice(['new', 'append', 'append', 'extend', 'set', 'evo', 'evo', 'create', 'discard'])
        if not pool:
            op = 'new'
        o, m = rng.choice(pool) if pool else (None, empty)
        if op in ('new', 'create'):
            xs = vals(rng.choice([0, 1, 2, 4, 33]))
            if rng.random() < .6:
                xs = [x if verdict(cls, [x]) is None else rng.choice(good) for x in xs]
            added = xs
            w = list(xs) if isvec else set(xs)
            src = rng.choice(SOURCES + (SETSOURCES if not isvec else []))(xs)
            added = list(xs if hasattr(src, '__next__') else src)      # sets keep one of equal elements
            f = (lambda: cls(src)) if op == 'new' else (lambda: cls.create(src))
        elif op == 'append':
            x = val()
            added = [x]
            w = m + [x] if isvec else m | {x}
            f = (lambda: o.append(x)) if isvec else (lambda: o.add(x))
        elif op == 'extend':
            xs = vals(rng.choice([0, 1, 3]))
            added = xs
            w = m + xs if isvec else m | set(xs)
            f = (lambda: o.extend(iter(xs))) if isvec else (lambda: o.update(iter(xs)))
        elif op == 'set' and isvec and m:
            i, x = rng.randrange(-len(m), len(m)), val()
            added = [x]
            w = list(m)
            w[i] = x
            f = rng.choice([lambda: o.set(i, x), lambda: o.mset(i, x), lambda: o.mset(i, good[0], i, x)])
        elif op == 'discard' and not isvec:
            x = rng.choice(list(m)) if m else 5
            added = []
            w = m - {x}
            f = lambda: o.discard(x)
        elif op == 'evo':
            e = o.evolver()
            w = list(m) if isvec else set(m)
            bad = False
            for _ in range(rng.choice([1, 2, 5])):
                x = val()
                kind = rng.choice(['append', 'set', 'del', 'pers'])
                if kind == 'append' or (kind == 'set' and not (isvec and w)):
                    g = exc_name(lambda: e.append(x) if isvec else e.add(x))
                    vd = verdict(cls, [x])
                    if vd is CheckedValueTypeError:
                        check(not g[0] and g[1] is vd, '%s evolver accepted %r: %s', cls.__name__, x, short(g))
                        continue
                    bad = bad or vd is not None
                    (w.append if isvec else w.add)(x)
                elif kind == 'set':
                    i = rng.randrange(-len(w), len(w))
                    g = exc_name(lambda: e.__setitem__(i, x))
                    vd = verdict(cls, [x])
                    if vd is CheckedValueTypeError:
                        check(not g[0] and g[1] is vd, '%s evolver accepted %r: %s', cls.__name__, x, short(g))
                        continue
                    bad = bad or vd is not None
                    w[i] = x
                elif kind == 'del' and w:
                    if isvec:
                        i = rng.randrange(-len(w), len(w))
                        del e[i]
                        del w[i]
                    else:
                        x = rng.choice(list(w))
                        e.remove(x)
                        w.remove(x)
                elif kind == 'pers':
                    g = exc_name(e.persistent)
                    if bad:
                        check(not g[0] and g[1] is InvariantException, '%s evolver.persistent() with an invalid element gave %s', cls.__name__, short(g))
                    else:
                        check(g[0], '%s evolver.persistent() raised %s', cls.__name__, short(g))
                        ver(g[1], w, 'intermediate persistent')
            g = exc_name(e.persistent)
            if bad:
                check(not g[0] and g[1] is InvariantException, '%s evolver.persistent() with an invalid element gave %s', cls.__name__, short(g))
                for _ in range(2):
                    g = exc_name(e.persistent)
                    check(not g[0] or verdict(cls, list(g[1])) is None, '%s evolver.persistent() called again after it raised gave %s', cls.__name__, short(g))
            else:
                check(g[0], '%s evolver.persistent() raised %s after %s', cls.__name__, short(g), short(w))
                ver(g[1], w, 'evolver persistent')
                pool.append((g[1], w))
            continue
        else:
            continue
        why = '%s.%s of %s adding %s' % (cls.__name__, op, short(m), short(added))
        vd = verdict(cls, added)
        try:
            r = f()
            got = None
        except InvariantException as ex:
            got = InvariantException
            if vd is InvariantException and cls is not VMulti and op != 'set':
                check(Counter(ex.invariant_errors) == codes(cls, added) and not ex.missing_fields, '%s: errors %s, expected %s', why, ex.invariant_errors, codes(cls, added))
        except CheckedValueTypeError as ex:
            got = CheckedValueTypeError
            check(ex.source_class is cls, '%s: source class %s', why, ex.source_class)
        check(got is vd or (got is CheckedValueTypeError and not all(ELEM[cls][0](x) for x in added)), '%s: %s, expected %s', why, got, vd)
        if got is None:
            ver(r, w, why)
            pool.append((r, w))
        if o is not None:
            ver(o, m, 'operand changed by ' + why)
        if len(pool) > 8:
            pool.pop(rng.randrange(len(pool)))

@family
def checked_map(p):
    rng = random.Random(p['seed'])
    cls = {'MChk': MChk, 'MChk2': MChk2, 'MChk3': MChk3, 'MOpen': MOpen}[p['cls']]
    KS = [0, 1, 2, 3, 7, 49, 50, 51, 60, -1, 8, 16, 24, 'k', 2.5, None]
    VS = [0, 1, 2, 3, 'a', 'b', 7, 50, 2.5, None]
    def kv():
        return rng.choice(KS[:9] if rng.random() < .7 else KS), rng.choice(VS[:7] if rng.random() < .7 else VS)
    def vd(k, v):
        if cls is MOpen:
            return None
        if not isinstance(k, int):
            return CheckedKeyTypeError
        if not isinstance(v, (int, str)):
            return CheckedValueTypeError
        if k == v or (cls in (MChk2, MChk3) and not k < 50):
            return InvariantException
        return None
    def worst(items):
        for k, v in items:
            x = vd(k, v)
            if x not in (None, InvariantException):
                return x
        return InvariantException if any(vd(k, v) for k, v in items) else None
    def ver(o, m, why):
        check(type(o) is cls, '%s: result is %s', why, type(o))
        check(dict(o) == m and len(o) == len(m), '%s: %s, expected %s', why, short(dict(o)), short(m))
        check(all(vd(k, v) is None for k, v in o.items()), '%s: instance breaks its declaration: %s', why, short(dict(o)))
    pool = [(cls(), {})]
    for step in range(p['steps']):
        o, m = rng.choice(pool)
        op = rng.choice(['new', 'set', 'set', 'update', 'remove', 'evo', 'create'])
        w = dict(m)
        if op in ('new', 'create'):
            d = dict(kv() for _ in range(rng.choice([0, 1, 3, 9])))
            if rng.random() < .6:
                d = {k: v for k, v in d.items() if vd(k, v) is None}
            items, w = list(d.items()), d
            src = rng.choice([lambda: d, lambda: pmap(d), lambda: MOpen(d), lambda: pmap().update(d)])()
            items = list(src.items())
            f = (lambda: cls(src)) if op == 'new' else (lambda: cls.create(src))
        elif op == 'set':
            k, v = kv()
            items = [(k, v)]
            w[k] = v
            f = lambda: o.set(k, v)
        elif op == 'update':
            d = dict(kv() for _ in range(rng.choice([0, 1, 3])))
            items = list(d.items())
            w.update(d)
            f = lambda: o.update(d)
        elif op == 'remove':
            if not m:
                continue
            k = rng.choice(list(m))
            items = []
            del w[k]
            f = lambda: o.remove(k)
        else:
            e = o.evolver()
            items = []
            for _ in range(rng.choice([1, 3, 12])):
                k, v = kv()
                if rng.random() < .7:
                    g = exc_name(lambda: e.set(k, v))
                    x = vd(k, v)
                    if x in (CheckedKeyTypeError, CheckedValueTypeError):
                        check(not g[0] and g[1] is x, '%s evolver accepted %r:%r (%s)', cls.__name__, k, v, short(g))
                    else:
                        items.append((k, v))
                        w[k] = v
                elif k in w:
                    del e[k]
                    del w[k]
                elif not worst(items) and rng.random() < .3:
                    ver(e.persistent(), w, 'intermediate persistent')
            f = e.persistent
        why = '%s.%s of %s with %s' % (cls.__name__, op, short(m), short(items))
        want = worst(items)
        try:
            r = f()
            got = None
        except (InvariantException, CheckedKeyTypeError, CheckedValueTypeError) as ex:
            got = type(ex)
        check(got is want, '%s: %s, expected %s', why, got, want)
        if got is not None and op == 'evo':
            for _ in range(3):
                g = exc_name(e.persistent)
                check(not g[0] or all(vd(k, v) is None for k, v in g[1].items()), '%s: persistent() called again after it raised gave %s', why, short(g))
                if rng.random() < .5:
                    exc_name(lambda: e.remove(rng.choice(KS)))
        if got is None:
            ver(r, w, why)
            if op == 'evo':
                check(e.persistent() is r, '%s: persistent() twice', why)
            pool.append((r, w))
        ver(o, m, 'operand changed by ' + why)
        if len(pool) > 8:
            pool.pop(rng.randrange(len(pool)))

@plan('C11', 'C01')
def plan_checked(env):
    q = env['tier'] == 'quick'
    for r in range(25 if q else 300):
        for c in ELEM:
            yield 'checked_elems', dict(seed=env['seed'] * 1000 + r, cls=c.__name__, steps=25)
        for c in ('MChk', 'MChk2', 'MChk3', 'MOpen'):
            yield 'checked_map', dict(seed=env['seed'] * 1000 + r, cls=c, steps=30)

# ------------------------------------------------------------------ records and classes
def up(x):
    return x.upper() if isinstance(x, str) else x
SPEC = dict(
    x=dict(type=int, invariant=lambda v: (v >= 0, 'x neg')),
    y=dict(type=(int, str), mandatory=True),
    z=dict(initial=17),
    w=dict(factory=up, type=str, invariant=lambda v: (not v.startswith('BAD'), 'w bad')),
    i=dict(initial=lambda: 5, type=int, mandatory=True),
)
def glob(get):
    x, z = get('x'), get('z')
    return (x is None or z is None or x != z, 'x eq z')
class PR(PRecord):
    x = field(**SPEC['x']); y = field(**SPEC['y']); z = field(**SPEC['z']); w = field(**SPEC['w']); i = field(**SPEC['i'])
    __invariant__ = lambda r: glob(lambda k: r.get(k))
class PC(PClass):
    x = field(**SPEC['x']); y = field(**SPEC['y']); z = field(**SPEC['z']); w = field(**SPEC['w']); i = field(**SPEC['i'])
    __invariant__ = lambda r: glob(lambda k: getattr(r, k, None))
class PR2(PR):
    extra = field(type=bool)
    __invariant__ = lambda r: (r.get('extra') is not True or r.y != 'no', 'extra')
class PC2(PC):
    extra = field(type=bool)
    __invariant__ = lambda r: (getattr(r, 'extra', None) is not True or r.y != 'no', 'extra')
FIELDS = ['x', 'y', 'z', 'w', 'i']
VALS = dict(x=[0, 1, 5, 17, -1, -3, 'bad', None], y=[1, 'a', 'no', 2.5, None], z=[0, 5, 'q', None], w=['ab', 'bad', 'c', 3], i=[1, 5, 'n'], extra=[True, False, 'n'], unknown=[1])

def model(cls, cur, new):
    """cur: stored values; new: values to convert and store. Returns (set of acceptable exception classes, inv codes, missing, result)."""
    exc, inv, miss = set(), [], []
    r = dict(cur)
    fields = FIELDS + (['extra'] if cls in (PR2, PC2) else [])
    for k, v in new.items():
        if k not in fields:
            exc.add(AttributeError)
            continue
        s = SPEC.get(k, dict(type=bool))
        if 'factory' in s:
            v = s['factory'](v)
        t = s.get('type')
        if t and not isinstance(v, t):
            exc.add(PTypeError)
            continue
        if 'invariant' in s and not s['invariant'](v)[0]:
            inv.append(s['invariant'](v)[1])
            exc.add(InvariantException)
        r[k] = v
    for k in ('y', 'i'):
        if k not in r:
            miss.append('%s.%s' % (cls.__name__, k))
            exc.add(InvariantException)
    if not exc:
        if not glob(r.get)[0]:
            inv.append('x eq z')
            exc.add(InvariantException)
        if cls in (PR2, PC2) and r.get('extra') is True and r['y'] == 'no':
            inv.append('extra')
            exc.add(InvariantException)
    return exc, inv, miss, r

def initials(new):
    d = {'z': 17, 'i': 5}
    d.update(new)
    return d

@family
def rec_ops(p):
    rng = random.Random(p['seed'])
    cls = {'PR': PR, 'PC': PC, 'PR2': PR2, 'PC2': PC2}[p['cls']]
    isrec = issubclass(cls, PRecord)
    names = FIELDS + (['extra'] if cls in (PR2, PC2) else [])
    def kw(k):
        d = {}
        for _ in range(k):
            n = rng.choice(names) if rng.random() < .96 else 'unknown'
            vs = VALS[n]
            d[n] = rng.choice(vs[:max(1, len(vs) // 2)]) if rng.random() < .8 else rng.choice(vs)
        return d
    def ver(o, m, why):
        check(type(o) is cls, '%s: result is %s', why, type(o))
        if isrec:
            check(dict(o) == m and len(o) == len(m), '%s: %s, expected %s', why, short(dict(o)), short(m))
        for n in names:
            g = exc_name(lambda: getattr(o, n))
            if n in m:
                check(g[0] and g[1] == m[n] and type(g[1]) is type(m[n]), '%s: field %s is %s, expected %r', why, n, short(g), m[n])
                if isrec:
                    check(o[n] == m[n] and n in o, '%s: [%s]', why, n)
            else:
                check(not g[0] and g[1] is AttributeError, '%s: absent field %s gave %s', why, n, short(g))
    def attempt(why, f, want, o=None, m=None):
        exc, inv, miss, r = want
        try:
            res = f()
            got = None
        except InvariantException as ex:
            got = InvariantException
            if exc == {InvariantException}:
                check(set(ex.invariant_errors) == set(inv) and set(ex.missing_fields) == set(miss), '%s: errors %s missing %s, expected %s %s', why, ex.invariant_errors, ex.missing_fields, inv, miss)
        except (PTypeError, AttributeError) as ex:
            got = type(ex)
        check((got is None and not exc) or got in exc, '%s: %s, expected %s', why, got and got.__name__, [e.__name__ for e in exc] or 'success')
        if got is None:
            ver(res, r, why)
            pool.append((res, r))
        if o is not None:
            ver(o, m, 'operand changed by ' + why)
    pool = []
    for step in range(p['steps']):
        op = rng.choice(['new', 'set', 'set', 'setkw', 'remove', 'evo', 'evo', 'create', 'immut', 'update', 'same'])
        if not pool:
            op = 'new'
        if op in ('new', 'create'):
            d = kw(rng.choice([1, 3, 5]))
            if rng.random() < .9:
                d['y'] = rng.choice([1, 'a', 'no'])
            why = '%s %s(%s)' % (cls.__name__, op, d)
            if op == 'new':
                attempt(why, lambda: cls(**d), model(cls, {}, initials(d)))
            elif rng.random() < .5:
                attempt(why, lambda: cls.create(d), model(cls, {}, initials(d)))
            else:
                dd = {k: v for k, v in d.items() if k != 'unknown'}
                attempt(why + ' ignore_extra', lambda: cls.create(dict(d, foo=1), ignore_extra=True), model(cls, {}, initials(dd)))
            continue
        o, m = rng.choice(pool)
        if op == 'set':
            d = kw(1)
            (k, v), = d.items()
            attempt('%s%s.set(%r, %r)' % (cls.__name__, m, k, v), lambda: o.set(k, v), model(cls, m, d), o, m)
        elif op == 'setkw':
            d = kw(rng.choice([1, 2, 3]))
            attempt('%s%s.set(**%r)' % (cls.__name__, m, d), lambda: o.set(**d), model(cls, m, d), o, m)
        elif op == 'update' and isrec:
            d = kw(rng.choice([1, 2, 3]))
            attempt('%s%s.update(%r)' % (cls.__name__, m, d), lambda: o.update(d), model(cls, m, d), o, m)
        elif op == 'remove':
            k = rng.choice(names)
            if k in m:
                w = {a: b for a, b in m.items() if a != k}
                if isrec or k not in ('z', 'i'):
                    attempt('%s%s.remove(%r)' % (cls.__name__, m, k), lambda: o.remove(k), model(cls, w, {}), o, m)
            else:
                g = exc_name(lambda: o.remove(k))
                check(not g[0] and g[1] is (KeyError if isrec else AttributeError), 'remove of an absent field gave %s', short(g))
        elif op == 'evo':
            e = o.evolver()
            d = {}
            removed = set()
            fail = False
            for _ in range(rng.choice([0, 1, 3])):
                dd = kw(1)
                (k, v), = dd.items()
                if isrec and model(cls, dict(y=1, i=1), {k: v})[0]:
                    continue                       # invalid values through evolvers are covered by set()
                if not isrec and k == 'unknown':
                    continue
                how = rng.randrange(3)
                if how == 0:
                    e[k] = v
                elif how == 1:
                    e.set(k, v)
                elif not isrec:
                    setattr(e, k, v)
                else:
                    e[k] = v
                d[k] = v
            why = '%s%s evolver %s' % (cls.__name__, m, d)
            if not isrec:                          # identical values are not converted again
                d = {k: v for k, v in d.items() if not (k in m and m[k] is v)} if len(d) == 1 else d
                if any(k in m and m[k] is v for k, v in d.items()):
                    continue
            attempt(why, e.persistent, model(cls, m, d), o, m)
            if not d:
                check(o.evolver().persistent() is o, '%s: persistent() of an untouched evolver', why)
        elif op == 'immut' and not isrec:
            for f in (lambda: setattr(o, rng.choice(names), 1), lambda: delattr(o, rng.choice(names)), lambda: setattr(o, 'newattr', 1)):
                g = exc_name(f)
                check(not g[0] and g[1] is AttributeError, 'attribute write on an instance gave %s', short(g))
            ver(o, m, 'attribute write')
        elif op == 'same':
            check(cls.create(o) is o, 'create of an instance does not return it')
        if len(pool) > 8:
            pool.pop(rng.randrange(len(pool)))

@family
def rec_evo(p):
    'random set/remove sequences on record and class evolvers with valid values'
    rng = random.Random(p['seed'])
    isrec = p['cls'] == 'R'
    names = list('abcdefg')
    cls = type(PRecord)('EvoR', (PRecord,), {n: field(mandatory=n == 'a') for n in names}) if isrec else type(PClass)('EvoC', (PClass,), {n: field(mandatory=n == 'a') for n in names})
    cur = {n: rng.randrange(5) for n in names if n == 'a' or rng.random() < .6}
    o = cls(**cur)
    for rnd in range(p['steps']):
        e = o.evolver()
        w = dict(cur)
        log = []
        for _ in range(rng.choice([1, 2, 3, 4, 8])):
            k = rng.choice(names)
            if rng.random() < .55:
                v = rng.choice([0, 1, 2, 3, 4, True, False, 1.0, 2.0])
                how = rng.randrange(3)
                if how == 0:
                    e[k] = v
                elif how == 1 or isrec:
                    check(e.set(k, v) is e, 'evolver.set() does not return the evolver')
                else:
                    setattr(e, k, v)
                w[k] = v
                log.append('%s=%s' % (k, v))
            elif k in w:
                if rng.random() < .5:
                    del e[k]
                else:
                    e.remove(k)
                del w[k]
                log.append('del %s' % k)
            else:
                g = exc_name(lambda: e.remove(k))
                check(not g[0] and g[1] is (KeyError if isrec else AttributeError), 'evolver.remove of an absent field gave %s', short(g))
            check(k not in w or e[k] is w[k], 'evolver of %s after %s: [%s]', cur, log, k)
        why = '%s evolver of %s: %s' % (p['cls'], cur, ' '.join(log))
        g = exc_name(e.persistent)
        if 'a' not in w:
            check(not g[0] and g[1] is InvariantException, '%s: %s, expected a missing field', why, short(g))
            g = exc_name(e.persistent)
            check(not g[0] and g[1] is InvariantException, '%s: second persistent(): %s', why, short(g))
            continue
        check(g[0], '%s: %s', why, short(g))
        r = g[1]
        check(type(r) is cls and {n: getattr(r, n) for n in names if hasattr(r, n)} == w, '%s: %s, expected %s', why, r, w)
        check(all(getattr(r, n) is w[n] for n in w), '%s: %s, expected the values of %s', why, r, w)
        check({n: getattr(o, n) for n in names if hasattr(o, n)} == cur, '%s: original changed', why)
        check(e.persistent() == r, '%s: persistent() twice', why)
        o, cur = r, w

@family
def nested_rec(p):
    'nested records/classes given as plain dicts: errors of the inner one are reported by the outer one'
    rng = random.Random(p['seed'])
    for _ in range(p['steps']):
        inner_rec = rng.random() < .5
        B = PRecord if inner_rec else PClass
        In = type(B)('In', (B,), dict(x=field(mandatory=True, type=int, invariant=lambda v: (v >= 0, 'x neg')), y=field(type=int)))
        B = PRecord if rng.random() < .5 else PClass
        man = rng.random() < .5
        Out = type(B)('Out', (B,), dict(i=field(type=In, factory=In.create, mandatory=man), j=field(mandatory=True), k=field(invariant=lambda v: (v != 0, 'k zero'))))
        d = {}
        if rng.random() < .8:
            d['i'] = {}
            if rng.random() < .6:
                d['i']['x'] = rng.choice([1, 2, -1])
            if rng.random() < .5:
                d['i']['y'] = 3
        if rng.random() < .7:
            d['j'] = 1
        if rng.random() < .5:
            d['k'] = rng.choice([0, 1])
        inv, miss = [], []
        if 'i' in d:
            if 'x' not in d['i']:
                miss.append('In.x')
            elif d['i']['x'] < 0:
                inv.append('x neg')
        iok = not inv and not miss
        if d.get('k') == 0:
            inv.append('k zero')
        if 'j' not in d:
            miss.append('Out.j')
        if man and 'i' not in d:
            miss.append('Out.i')
        why = '%s(%s) with a nested %s' % (B.__name__, d, 'record' if inner_rec else 'class')
        try:
            r = Out(**d) if rng.random() < .5 else Out.create(d)
        except InvariantException as ex:
            check(inv or miss, '%s raised %s %s', why, ex.invariant_errors, ex.missing_fields)
            if B is PClass and not iok:
                check(ex.invariant_errors or ex.missing_fields, '%s: no errors reported', why)     # the exception of the inner one is passed on
                continue
            check(set(inv) <= set(ex.invariant_errors), '%s: errors %s, expected %s', why, ex.invariant_errors, inv)
            check(set(miss) <= set(ex.missing_fields) and set(ex.missing_fields) - set(miss) <= {'Out.i'}, '%s: missing %s, expected %s', why, ex.missing_fields, miss)
        else:
            check(not inv and not miss, '%s: accepted as %s, expected errors %s missing %s', why, r, inv, miss)
            check(('i' in d) == hasattr(r, 'i') and ('i' not in d or type(r.i) is In and r.i == In(**d['i'])), '%s: %s', why, r)
            g = exc_name(lambda: r.set('i', {}))
            check(not g[0] and g[1] is InvariantException, '%s: set(i={}) gave %s', why, short(g))

@plan('C12', 'C13')
def plan_recevo(env):
    q = env['tier'] == 'quick'
    for r in range(40 if q else 400):
        for c in 'RC':
            yield 'rec_evo', dict(seed=env['seed'] * 1000 + r, cls=c, steps=15)
        yield 'nested_rec', dict(seed=env['seed'] * 1000 + r, steps=15)
@plan('C12', 'C01')
def plan_rec(env):
    q = env['tier'] == 'quick'
    for r in range(80 if q else 800):
        for c in ('PR', 'PR2'):
            yield 'rec_ops', dict(seed=env['seed'] * 1000 + r, cls=c, steps=30)
@plan('C13', 'C01')
def plan_pc(env):
    q = env['tier'] == 'quick'
    for r in range(80 if q else 800):
        for c in ('PC', 'PC2'):
            yield 'rec_ops', dict(seed=env['seed'] * 1000 + r, cls=c, steps=30)

# ------------------------------------------------------------------ nested/serialisation/pickle
class VInner(CheckedPVector):
    __type__ = 'checked.RInner'
class RInner(PRecord):
    a = field(type=int, mandatory=True)
    b = field(type=(str, type(None)), initial=None, serializer=lambda fmt, v: v if fmt is None else (fmt, v))
class MInner(CheckedPMap):
    __key_type__ = str
    __value_type__ = RInner
class SInner(CheckedPSet):
    __type__ = int
class COuter(PClass):
    r = field(type=RInner)
    v = field(type=VInner)
    m = field(type=MInner)
    s = field(type=SInner)
    n = field(type=int, initial=0)
    opt = pvector_field(int, optional=True)
class ROuter(PRecord):
    r = field(type=RInner, mandatory=True)
    v = pvector_field(RInner)
    m = pmap_field(str, int)
    s = pset_field(int)
    c = field(type=(COuter, type(None)), initial=None)

def rinner(rng):
    return dict(a=rng.randrange(5), b=rng.choice([None, 'q', 's']))
def couter(rng):
    d = {}
    if rng.random() < .8:
        d['r'] = rinner(rng)
    if rng.random() < .8:
        d['v'] = [rinner(rng) for _ in range(rng.randrange(4))]
    if rng.random() < .8:
        d['m'] = {rng.choice('abc'): rinner(rng) for _ in range(rng.randrange(3))}
    if rng.random() < .8:
        d['s'] = {rng.randrange(9) for _ in range(rng.randrange(4))}
    if rng.random() < .8:
        d['n'] = rng.randrange(9)
    if rng.random() < .8:
        d['opt'] = rng.choice([None, [1, 2], []])
    return d
def router(rng):
    return dict(r=rinner(rng), v=[rinner(rng) for _ in range(rng.randrange(4))], m={rng.choice('abc'): rng.randrange(4) for _ in range(3)},
                s={rng.randrange(9) for _ in range(rng.randrange(4))})

@family
def serialize_rt(p):
    rng = random.Random(p['seed'])
    for _ in range(p['reps']):
        for cls, gen in ((RInner, rinner), (COuter, couter), (ROuter, router)):
            d = gen(rng)
            before = copy.deepcopy(d)
            x = cls.create(d)
            check(d == before, 'create() changed its argument')
            ser = x.serialize()
            exp = dict(d)
            if cls is COuter:
                exp.setdefault('n', 0)
                if 'opt' not in exp:
                    exp['opt'] = []
            check(ser == exp or (cls is ROuter and {k: v for k, v in ser.items() if k != 'c'} == exp), '%s.create(%s).serialize() is %s', cls.__name__, d, ser)
            y = cls.create(ser)
            check(type(y) is cls and y == x and x == y, '%s: create(serialize()) of %s is %s', cls.__name__, x, y)
            check(cls.create(y) is y, 'create of an instance')
            for attr, t in (('r', RInner), ('v', None), ('s', None), ('m', None)):
                if hasattr(x, attr) and cls is not RInner:
                    check(type(getattr(y, attr)) is type(getattr(x, attr)), '%s.%s: type lost in create(serialize())', cls.__name__, attr)
                    if attr == 'v':
                        check(all(type(q) is RInner for q in x.v), 'nested create')
            f = x.serialize(format='F')
            if cls is RInner:
                check(f == dict(a=d['a'], b=('F', d['b'])), 'serializer/format not applied: %s', f)
            elif cls is COuter and 'r' in d:
                check(f['r'] == dict(a=d['r']['a'], b=('F', d['r']['b'])), 'nested serializer/format not applied: %s', f)
            z = cls.create(dict(d, nope=1), ignore_extra=True)
            check(z == x, 'ignore_extra')
            g = exc_name(lambda: cls.create(dict(d, nope=1)))
            check(not g[0] and g[1] is AttributeError, 'extra key accepted: %s', short(g))
        xs = [rng.randrange(100) for _ in range(rng.choice([0, 1, 33, 40]))]
        check(VPos.create(VPos(xs).serialize()) == VPos(xs) and VPos(xs).serialize() == xs, 'vector serialize')
        check(SPos(xs).serialize() == set(xs) and SPos.create(SPos(xs).serialize()) == SPos(xs), 'set serialize')
        d = {k: 'v' for k in xs}
        check(MChk(d).serialize() == d and MChk.create(MChk(d).serialize()) == MChk(d), 'map serialize')
        dd = {k: rinner(rng) for k in 'abcd'}
        mi = MInner.create(dd)
        check(all(type(v) is RInner for v in mi.values()) and mi.serialize() == dd and MInner.create(mi.serialize()) == mi, 'nested map serialize')

class XRec(PRecord):
    a = field()
class XCls(PClass):
    a = field()
class XMapR(CheckedPMap):
    __key_type__ = str
    __value_type__ = XRec
class XVecR(CheckedPVector):
    __type__ = XRec
class XVecC(CheckedPVector):
    __type__ = XCls
class XVecV(CheckedPVector):
    __type__ = XVecR
class XMapV(CheckedPMap):
    __key_type__ = str
    __value_type__ = XVecC
def xfields():
    return dict(r=field(type=XRec), c=field(type=XCls), m=field(type=XMapR), v=field(type=XVecR), w=field(type=XVecC), vv=field(type=XVecV), mv=field(type=XMapV), pv=pvector_field(XRec), ps=pset_field(XRec),
                pm=pmap_field(str, XCls), opv=pvector_field(XCls, optional=True), opm=pmap_field(str, XRec, optional=True), plain=field())
class XOutR(PRecord):
    locals().update(xfields())
class XOutC(PClass):
    locals().update(xfields())

@family
def ignore_extra_nested(p):
    'create(..., ignore_extra=True) drops undeclared names at every level, and only those; without it they are an error'
    rng = random.Random(p['seed'])
    def leaf(ex):
        d = dict(a=rng.randrange(4))
        if rng.random() < .6:
            d['zz%d' % rng.randrange(3)] = 1
            ex.append(1)
        return d
    def clean(x):
        if isinstance(x, dict):
            return {k: clean(v) for k, v in x.items() if not k.startswith('zz')}
        return [clean(v) for v in x] if isinstance(x, list) else x
    for _ in range(p['reps']):
        for cls in (XOutR, XOutC):
            ex, d = [], {}
            L = lambda: [leaf(ex) for _ in range(rng.randrange(3))]
            M = lambda: {k: leaf(ex) for k in 'ab'[:rng.randrange(3)]}
            gens = dict(r=lambda: leaf(ex), c=lambda: leaf(ex), m=M, v=L, w=L, vv=lambda: [L() for _ in range(rng.randrange(3))], mv=lambda: {k: L() for k in 'ab'[:rng.randrange(3)]}, pv=L, ps=L, pm=M,
                        opv=lambda: rng.choice([None, L()]), opm=lambda: M() if rng.random() < .7 else None, plain=lambda: rng.randrange(5))
            for k in rng.sample(sorted(gens), rng.randrange(1, 5)):
                d[k] = gens[k]()
            if rng.random() < .3:
                d['zz'] = 7
            c = clean(d)
            why = '%s.create(%s, ignore_extra=True)' % (cls.__name__, d)
            g = exc_name(lambda: cls.create(d, ignore_extra=True))
            check(g[0], '%s raised %s', why, g[1])
            check(g[1] == cls.create(c) and type(g[1]) is cls, '%s is %s, expected %s', why, g[1], cls.create(c))
            if c != d:
                g = exc_name(lambda: cls.create(d))
                check(not g[0] and g[1] is AttributeError, '%s without ignore_extra gave %s', why, short(g))

@family
def pickle_rt(p):
    rng = random.Random(p['seed'])
    n = p['n']
    xs = [rng.choice([i, 's%d' % i, (i, 'x'), None, 1.5]) for i in range(n)]
    ints = list(range(n))
    objs = [pvector(xs), pmap({x: i for i, x in enumerate(xs)}), pset(xs), pbag(xs + xs[:2]), plist(xs), pdeque(xs), pdeque(xs, maxlen=5), pdeque([], 0),
            VPos(ints), SPos(ints), MChk({i: 'v' for i in ints}), VStrT(ints), PR(y=1, w='abc'), PR2(y=1, extra=True), PC(y='k', x=3), PC2(y=2),
            COuter.create(couter(rng)), ROuter.create(router(rng)), RInner(a=1), pvector([pmap({'a': pvector([1])})]),
            pvector(xs).evolver().persistent(), pvector([VPos(ints)]), MInner.create({'a': rinner(rng)})]
    for o in objs:
        for how in ['copy', 'deepcopy'] + list(range(2, pickle.HIGHEST_PROTOCOL + 1)):
            if how == 'copy':
                r = copy.copy(o)
            elif how == 'deepcopy':
                r = copy.deepcopy(o)
            else:
                r = pickle.loads(pickle.dumps(o, how))
            why = '%s of %s (n=%d)' % (how, type(o).__name__, n)
            check(type(r) is type(o), '%s: type %s', why, type(r))
            check(r == o and o == r, '%s: %s is not equal to %s', why, short(r), short(o))
            check(hash(r) == hash(o), '%s: hash changed', why)
            if not isinstance(o, PClass):
                check(len(r) == len(o), '%s: len', why)
            if isinstance(o, (PVector, PList, PDeque)):
                check(list(r) == list(o), '%s: elements', why)
            if isinstance(o, PDeque):
                check(r.maxlen == o.maxlen, '%s: maxlen %s became %s', why, o.maxlen, r.maxlen)
    class_fields = [f for f in ('x', 'y', 'z', 'w', 'i')]
    o = PC(y='k', x=3)
    r = pickle.loads(pickle.dumps(o))
    check({f: getattr(r, f, None) for f in class_fields} == {f: getattr(o, f, None) for f in class_fields}, 'class fields after pickling')
    w = PR(y=1, w='abc')
    check(pickle.loads(pickle.dumps(w)).w == 'ABC', 'record field after pickling')

@plan('C16')
def plan_ser(env):
    q = env['tier'] == 'quick'
    for r in range(40 if q else 400):
        yield 'serialize_rt', dict(seed=env['seed'] * 1000 + r, reps=6)
        yield 'ignore_extra_nested', dict(seed=env['seed'] * 1000 + r, reps=10)
    for r in range(2 if q else 10):
        for n in (0, 1, 2, 5, 31, 32, 33, 64, 65, 1024, 1025, 1056, 1057):
            yield 'pickle_rt', dict(seed=env['seed'] * 1000 + r, n=n)

@family
def kf_item_invariant(p):
    """Known finding: item invariants of sequence fields are cached per item type."""
    class KfMarker(int):
        pass
    class A(PRecord):
        x = pvector_field(KfMarker)
    class B(PRecord):
        y = pvector_field(KfMarker, item_invariant=lambda n: (n > 0, 'not positive'))
    ok, e = exc_name(lambda: B(y=[KfMarker(-1)]))
    check(not ok and issubclass(e, InvariantException), 'B(y=[-1]) is accepted although the field declares a positive item invariant')

@family
def kf_record_removed_initial(p):
    """Known finding: unpickling a record fills in the initial value of a field that had been removed."""
    import pickle
    r = KfInitial(y=2).remove('x')
    check(pickle.loads(pickle.dumps(r)) == r, 'a record whose field with an initial value was removed comes back with that value')

class KfInitial(PRecord):
    x = field(initial=7)
    y = field()
