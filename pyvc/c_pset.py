"""Contracts of the persistent set and its evolver (_pset.py, with the mixin methods of collections.abc.Set as shipped): C06 (and parts of C01, C10, C16).
The backing map by its contract (C04, C05)."""
import core, rt, z3
from rt import *
from common import *
from amap import *

def prepare(env):
    env.replace['_pset'] = {'pmap': apmap}

def setup(env):
    m = env.pm = env.get('_pset')
    env.S, env.Ev = m.PSet, m.PSet._Evolver
    env.H.filters = True
    rt.DictType.hook = dict_hook(lambda x: x.fm if isinstance(x, AMap) else None, precise=True)
    def mk(frozen):
        def f(*a):
            if not a:
                return ASet(fm_empty(), frozen)
            s = seq_of(a[0])
            if isinstance(s, Enum) and s.part == 'keys':
                return ASet(s.fm, frozen)
            return ASet(fm_of_elements(s), frozen)
        return f
    rt.FrozensetType.hook, rt.SetType.hook = mk(True), mk(False)
    env.H.providers[:] = [acc_loop]

def newset(env, name='s', K=None):
    """arbitrary set: any map behind it"""
    fm = FM.fresh(name)
    return setof(env, fm, K=K), fm
def setof(env, fm, what='an existing set', K=None):
    c = cur()
    p = object.__new__(K or env.S)
    p._map = AMap(fm)
    c.frozen[id(p)] = (what, ())
    c.keep.append(p)
    return p

def other(env, w, p=None, fm=None):
    """another operand: (value, has)"""
    c = cur()
    if w == 'pset':
        o, f = newset(env, 'o')
        return o, f
    if w == 'same':
        return p, fm
    if w in ('set', 'frozenset'):
        f = FM.fresh('o')
        return ASet(f, w == 'frozenset'), f
    s = fresh_seq('its')
    f = fm_of_elements(s)
    return (VList(s, frozen='the argument') if w == 'list' else VIter(s)), f

def check_set(env, r, has, name):
    """the set has exactly the elements described by has"""
    c = cur()
    if not isinstance(r, env.S) or not isinstance(r._map, AMap):
        c.prove(False, name + ': result is a set', 'result is %s' % type(r).__name__)
        return
    q = c.int('q')
    regc(q.t)
    c.prove(r._map.fm.has(q.t) == has(q.t), name)

class AccLoop:
    """loop over elements that adds each to one map evolver.  Invariant: after t elements the keys are those of before and the first t elements"""
    def __init__(self, L, ev, step):
        self.L, self.ev, self.step = L, ev, step
    def first(self, loc, st):
        c = cur()
        self.L.mode = 'prov'
        c.havocs += 1
        it, ev = self.L.it, self.ev
        self.st0 = list(st)
        base, s, d0 = ev.fm, it.rest(), ev.dirty
        self.fm0, self.d0, self.orig0 = base, d0, ev.orig
        if c.choose(2) == 0:
            t = self.t = c.int('t')
            c.assume(z3.And(t.t >= 0, t.t < iz(s.n)))
            self.p0 = it.pos
            it.pos = mkint(iz(it.pos) + t.t)
            self.el = s.get(t)
            self.step_state(FM.fresh('acc', kind=base.kind))
        else:
            it.pos = it.s.n
            self.step_state(fm_of_elements(s, base))
        return [UNBOUND if n in self.L.targets else v for n, v in zip(self.L.names, st)]
    def step_state(self, fm):
        """invariant: a clean evolver still has its first contents"""
        c, ev = cur(), self.ev
        ev.fm = self.fm = fm
        if ev.dirty is not True:
            b = c.bool('dirty')
            ev.dirty = SymBool(b)
            if self.d0 is not False:
                c.assume_raw(z3.Implies(tz(self.d0), b))
            c.forall(lambda q: z3.Or(b, fm.has(q) == self.fm0.has(q)), 'c')
            c.assume_raw(z3.Or(b, iz(fm.n) == iz(self.fm0.n)))
    def again(self, loc, st):
        c, ev = cur(), self.ev
        if c.quiet:
            raise Stop()
        if not c.implied(iz(self.L.it.pos) == iz(self.p0) + self.t.t + 1):
            raise Unsupported('iterator advanced irregularly')
        for n, a, b in zip(self.L.names, self.st0, st):
            if n not in self.L.targets and a is not b and a is not UNBOUND:
                raise Unsupported('loop changes %s' % n)
        if ev.orig is not self.orig0:
            raise Unsupported('persistent() within the loop')
        q = c.int('q')
        regc(q.t)
        k = cls(self.el)
        c.prove(ev.fm.has(q.t) == z3.Or(q.t == k, self.fm.has(q.t)), 'loop: the element is added and nothing else changes', soft=True)
        if ev.dirty is not True:
            d = tz(ev.dirty) if not isinstance(ev.dirty, bool) else z3.BoolVal(ev.dirty)
            c.prove(z3.Or(d, ev.fm.has(q.t) == self.fm0.has(q.t)), 'loop: changed contents are marked', soft=True)
        raise Stop()
def acc_loop(L, loc):
    if not isinstance(L.it, VIter) or isinstance(L.it.rest().n, int):
        return None
    reachable(loc)
    evs = [x for x in cur().keep[-1] if isinstance(x, AMapEv)]
    if len(evs) == 1:
        return AccLoop(L, evs[0], None)
    return None

# ------------------------------------------------------------------ construction
@harness('C06', 'pset()', variants=['pset', 'list', 'iter', 'set', 'none'], also=('C01',))
def h_pset(env, w):
    c = cur()
    if w == 'none':
        check_set(env, expect_ok(lambda: env.pm.pset(), 'pset()'), lambda q: z3.BoolVal(False), 'pset() is empty')
        check_set(env, expect_ok(lambda: env.pm.s(), 's()'), lambda q: z3.BoolVal(False), 's() is empty')
        return
    x, f = other(env, w)
    if c.choose(2):
        pre = c.int('pre_size')
        r = expect_ok(lambda: env.pm.pset(x, pre), 'pset(iterable, pre_size)')
    elif w == 'list' and c.choose(2):
        r = expect_ok(lambda: raw_vararg(env.pm.s, VTuple(x.s)), 's(*elements)')
    else:
        r = expect_ok(lambda: env.pm.pset(x), 'pset(iterable)')
    check_set(env, r, f.has, 'pset(iterable) has exactly the elements of the iterable')

@harness('C06', 'PSet.__contains__ __len__ __iter__ copy')
def h_basic(env):
    c = cur()
    p, fm = newset(env)
    x = c.val('x')
    o = c.choose(4)
    if o == 0:
        prove_bool(env.H.contains(p, x), mkbool(fm.has(cls(x))), 'x in s')
    elif o == 1:
        n = env.H.b_len(p)
        c.prove(iz(n) == iz(fm.n), 'len(s)')
        prove_bool(truth(p), mkbool(iz(fm.n) > 0), 'bool(s)')
    elif o == 2:
        s = seq_of(env.H.b_iter(p))
        c.prove(iz(s.n) == iz(fm.n), 'iteration: as many elements as the set has')
        i, j = c.int('i'), c.int('j')
        c.assume(z3.And(i.t >= 0, i.t < iz(s.n), j.t >= 0, j.t < iz(s.n), i.t != j.t))
        a, b = s.get(i), s.get(j)
        c.prove(fm.has(cls(a)), 'iteration: only elements of the set')
        c.prove(cls(a) != cls(b), 'iteration: each element once')
    else:
        c.prove(p.copy() is p, 'copy() is the set itself')

# ------------------------------------------------------------------ single elements
@harness('C06', 'PSet.add remove discard', also=('C01',))
def h_single(env):
    c = cur()
    p, fm = newset(env)
    x = c.val('x')
    k = cls(x)
    regc(k)
    o = c.choose(3)
    if o == 0:
        r = expect_ok(lambda: p.add(x), 'add(x)')
        check_set(env, r, lambda q: z3.Or(q == k, fm.has(q)), 'add(x): the elements and x')
    elif o == 1:
        if c.branch(fm.has(k)):
            r = expect_ok(lambda: p.remove(x), 'remove(x) of an element')
            check_set(env, r, lambda q: z3.And(q != k, fm.has(q)), 'remove(x): the other elements')
        else:
            expect_raise(lambda: p.remove(x), KeyError, 'remove(x) of something else raises KeyError')
    else:
        r = expect_ok(lambda: p.discard(x), 'discard(x)')
        check_set(env, r, lambda q: z3.And(q != k, fm.has(q)), 'discard(x): the other elements')
        if not c.branch(fm.has(k)):
            c.prove(r is p, 'discard(x) of something else is the set itself')

@harness('C06', 'PSet.update', variants=['pset', 'list', 'iter', 'set'], also=('C01',))
def h_update(env, w):
    p, fm = newset(env)
    x, f = other(env, w)
    r = expect_ok(lambda: p.update(x), 'update(iterable)')
    check_set(env, r, lambda q: z3.Or(fm.has(q), f.has(q)), 'update(iterable): the elements of both')

# ------------------------------------------------------------------ evolver
def newev(env, dirty=None):
    c = cur()
    p, fm0 = newset(env, 's0')
    e = object.__new__(env.Ev)
    e._original_pset = p
    if dirty or dirty is None and c.choose(2):
        fm = FM.fresh('cur')
        e._pmap_evolver = AMapEv(p._map, fm, True)
        return e, fm, p, True
    e._pmap_evolver = AMapEv(p._map)
    return e, fm0, p, False
def check_ev(env, e, has, name):
    c = cur()
    me = e._pmap_evolver
    if not isinstance(me, AMapEv) or not isinstance(e._original_pset, env.S):
        raise Unsupported('evolver representation')
    q = c.int('q')
    regc(q.t)
    c.prove(me.fm.has(q.t) == has(q.t), name)
    if me.dirty is not True:
        d = tz(me.dirty) if not isinstance(me.dirty, bool) else z3.BoolVal(me.dirty)
        c.prove(z3.Or(d, e._original_pset._map.fm.has(q.t) == has(q.t)), name + ': a clean evolver has the contents of its set')

@harness('C06', 'PSet._Evolver', also=('C01',))
def h_ev(env):
    c = cur()
    e, fm, p, dirty = newev(env)
    x = c.val('x')
    k = cls(x)
    regc(k)
    o = c.choose(5)
    if o == 0:
        r = expect_ok(lambda: e.add(x), 'evolver.add(x)')
        c.prove(r is e, 'evolver.add returns the evolver')
        check_ev(env, e, lambda q: z3.Or(q == k, fm.has(q)), 'evolver.add(x): the elements and x')
    elif o == 1:
        if c.branch(fm.has(k)):
            r = expect_ok(lambda: e.remove(x), 'evolver.remove(x)')
            c.prove(r is e, 'evolver.remove returns the evolver')
            check_ev(env, e, lambda q: z3.And(q != k, fm.has(q)), 'evolver.remove(x): the other elements')
        else:
            expect_raise(lambda: e.remove(x), KeyError, 'evolver.remove(x) of something else raises KeyError')
            check_ev(env, e, fm.has, 'evolver.remove(x) that raises changes nothing')
    elif o == 2:
        r = expect_ok(lambda: e.persistent(), 'evolver.persistent()')
        check_set(env, r, fm.has, 'persistent(): the elements of the evolver')
        if not dirty:
            c.prove(r is p, 'persistent() with nothing changed is the set itself')
        check_ev(env, e, fm.has, 'persistent() leaves the contents of the evolver')
        c.prove(e.persistent() is r, 'persistent() again is the same set')
        c.frozen[id(r)] = ('a set the evolver returned', ())
        e.add(x)
        check_set(env, r, fm.has, 'a set that was returned does not change')
    elif o == 3:
        prove_bool(e.is_dirty(), dirty, 'is_dirty()')
    else:
        c.prove(iz(env.H.b_len(e)) == iz(fm.n), 'len(evolver)')

@harness('C06', 'PSet.evolver')
def h_evolver(env):
    p, fm = newset(env)
    e = expect_ok(lambda: p.evolver(), 'evolver()')
    if not isinstance(e, env.Ev):
        raise Unsupported('evolver of another class')
    check_ev(env, e, fm.has, 'evolver() has the elements of the set')
    cur().prove(e._original_pset is p, 'evolver() is based on the set', soft=True)

# ------------------------------------------------------------------ algebra
OPS = {'and': (lambda a, b: a & b, 'intersection', lambda p, q: z3.And(p, q)),
       'or': (lambda a, b: a | b, 'union', lambda p, q: z3.Or(p, q)),
       'sub': (lambda a, b: a - b, 'difference', lambda p, q: z3.And(p, z3.Not(q))),
       'xor': (lambda a, b: a ^ b, 'symmetric_difference', lambda p, q: z3.Xor(p, q))}
def refl_ok(env, x):
    return not isinstance(x, env.S)
@harness('C06', 'PSet algebra', variants=[o + ' ' + w for o in ('and', 'or', 'sub', 'xor') for w in ('pset', 'set', 'list')], also=('C01',))
def h_alg(env, v):
    c = cur()
    op, w = v.split()
    f, meth, spec = OPS[op]
    p, fm = newset(env)
    x, g = other(env, w)
    o = c.choose(3)
    if o == 0:
        r = expect_ok(lambda: f(p, x), 's %s other' % op)
    elif o == 1:
        r = expect_ok(lambda: getattr(p, meth)(x), 's.%s(other)' % meth)
    else:
        if w == 'pset':
            raise Stop()
        r = expect_ok(lambda: getattr(env.S, '__r%s__' % op)(p, x), 'other %s s' % op)
        check_set(env, r, lambda q: spec(g.has(q), fm.has(q)), 'other %s s: the elements of the Python set' % op)
        return
    check_set(env, r, lambda q: spec(fm.has(q), g.has(q)), 's %s other: the elements of the Python set' % op)

@harness('C06', 'PSet algebra with a non-iterable')
def h_alg2(env):
    c = cur()
    p, fm = newset(env)
    op = list(OPS)[c.choose(4)]
    r = getattr(env.S, '__%s__' % op)(p, 42)
    c.prove(r is NotImplemented, 's %s 42 is not implemented' % op)

@harness('C06', 'PSet comparison', variants=[o + ' ' + w for o in ('le', 'lt', 'ge', 'gt', 'eq', 'ne', 'isdisjoint') for w in ('pset', 'set')], also=('C10',))
def h_cmp(env, v):
    c = cur()
    op, w = v.split()
    p, fm = newset(env, K=sub(env, env.S))
    x, g = newset(env, 'o', K=sub(env, env.S)) if w == 'pset' else other(env, w)
    le, ge = subset(fm, g), subset(g, fm)
    want = {'le': le, 'ge': ge, 'lt': z3.And(le, z3.Not(ge)), 'gt': z3.And(ge, z3.Not(le)), 'eq': z3.And(le, ge), 'ne': z3.Not(z3.And(le, ge))}.get(op)
    if op == 'isdisjoint':
        wt = c.int('w')
        d = c.bool('disjoint')
        c.forall(lambda q: z3.Implies(d, z3.Not(z3.And(fm.has(q), g.has(q)))), 'c')
        c.assume_raw(z3.Or(d, z3.And(fm.has(wt.t), g.has(wt.t))))
        regc(wt.t)
        r = expect_ok(lambda: p.isdisjoint(x), 's.isdisjoint(other)')
        want = d
    elif op in ('le', 'ge') and c.choose(2):
        r = expect_ok(lambda: (p.issubset if op == 'le' else p.issuperset)(x), 's.issubset / issuperset(other)')
    else:
        import operator
        r = expect_ok(lambda: getattr(type(p), '__%s__' % op)(p, x), 's %s other' % op)
    prove_bool(r, SymBool(want), 's %s other: as for Python sets' % op)

@harness('C06', 'PSet comparison with other kinds', also=('C10',))
def h_cmp2(env):
    c = cur()
    p, fm = newset(env)
    op = ['le', 'lt', 'ge', 'gt', 'eq'][c.choose(5)]
    x = [42, None, VList(fresh_seq('l')), 'abc'][c.choose(4)]
    c.prove(getattr(env.S, '__%s__' % op)(p, x) is NotImplemented, 's %s something that is no set is not implemented' % op)

# ------------------------------------------------------------------ hash, reduce
@harness('C10', 'PSet.__hash__')
def h_hash(env):
    c = cur()
    p, fm = newset(env, K=sub(env, env.S))
    if c.choose(2):
        x, g = newset(env, 'o', K=sub(env, env.S))
    else:
        g = FM.fresh('o')
        x = ASet(g, True)
    e = set_eq(fm, g)
    a, b = env.H.b_hash(p), env.H.b_hash(x)
    if not (isint(a) and isint(b)):
        raise Unsupported('hash of another kind')
    c.prove(z3.Implies(e, iz(a) == iz(b)), 'equal sets have equal hashes, and that of the equal frozenset')
    c.prove(iz(env.H.b_hash(p)) == iz(a), 'the hash does not change')

@harness('C16', 'PSet.__reduce__')
def h_reduce(env):
    p, fm = newset(env)
    r = expect_ok(lambda: p.__reduce__(), '__reduce__')
    if not (isinstance(r, tuple) and len(r) == 2 and callable(r[0])):
        raise Unsupported('reduce value of another shape')
    args = r[1]
    q = expect_ok(lambda: r[0](*args), 'rebuilding from __reduce__')
    check_set(env, q, fm.has, 'restored set has the same elements')
