"""Contracts of the persistent bag (_pbag.py): C07 (and parts of C01, C10).  The map of counts by its contract (C04, C05)."""
import core, rt, z3
from rt import *
from common import *
from amap import *

def prepare(env):
    env.replace['_pbag'] = {'pmap': lambda *a, **k: apmap(*a, kind='int', **k)}

def setup(env):
    m = env.pm = env.get('_pbag')
    env.B = m.PBag
    env.H.filters = True
    env.spec = None
    rt.DictType.hook = dict_hook(lambda x: x.fm if isinstance(x, AMap) else None, precise=True)
    def sumh(s):
        return sumvals(s.fm) if isinstance(s, Enum) and s.part == 'values' and s.fm.kind == 'int' else None
    env.H.sum_hook = sumh
    env.H.providers[:] = [lambda L, loc: loops(env, L, loc)]

def newbag(env, name='b'):
    """arbitrary bag: the counts are positive"""
    c = cur()
    fm = FM.fresh(name, kind='int')
    c.forall(lambda q: z3.Implies(fm.has(q), fm.val(q) >= 1), 'c')
    p = object.__new__(env.B)
    p._counts = AMap(fm)
    c.frozen[id(p)] = ('an existing bag', ())
    c.keep.append(p)
    return p, fm

def check_bag(env, r, count, name):
    c = cur()
    if not isinstance(r, env.B) or not isinstance(r._counts, AMap):
        c.prove(False, name + ': result is a bag', 'result is %s' % type(r).__name__)
        return
    fm = r._counts.fm
    if fm.kind != 'int':
        raise Unsupported('counts of another kind')
    q = c.int('q')
    regc(q.t)
    c.prove(cnt(fm)(q.t) == count(q.t), name)
    c.prove(z3.Implies(fm.has(q.t), fm.val(q.t) >= 1), name + ': only elements that occur are stored')

class CountLoop:
    """loop that accumulates counts in a map or in one map evolver.
    Over elements: after t of them the counts are those of before and the occurrences among the first t.
    Over the items of a map of counts: the counts of the visited keys are final (given by the harness), the others as before."""
    def __init__(self, env, L, ev=None, slot=None, out=None):
        self.env, self.L, self.ev, self.slot = env, L, ev, slot
    def get(self, st):
        return self.ev.fm if self.ev is not None else st[self.L.names.index(self.slot)].fm
    def first(self, loc, st):
        c = cur()
        self.L.mode = 'prov'
        c.havocs += 1
        it, s = self.L.it, self.L.it.rest()
        self.st0 = list(st)
        self.fm0 = self.get(st)
        c0 = cnt(self.fm0)
        self.items = isinstance(s, Enum)
        if self.items and self.env.spec is None:
            raise Unsupported('loop over counts without a specification')
        step = c.choose(2) == 0
        if step:
            t = self.t = c.int('t')
            c.assume(z3.And(t.t >= 0, t.t < iz(s.n)))
            self.p0 = it.pos
            it.pos = mkint(iz(it.pos) + t.t)
            self.el = s.get(t)
        else:
            it.pos = it.s.n
        if self.items:
            W, e = self.env.spec, s
            self.inv = lambda q, t: z3.If(z3.And(e.fm.has(q), e.ei(q) < t), W(q), c0(q))
            want = (lambda q: self.inv(q, t.t)) if step else (lambda q: z3.If(e.fm.has(q), W(q), c0(q)))
        elif step:
            want = None
        else:
            o = occ(s)
            want = lambda q: c0(q) + o(q)
        fm = self.fm = FM.fresh('acc', kind='int')
        c.forall(lambda q: z3.Implies(fm.has(q), fm.val(q) >= 1), 'c')
        if want is not None:
            c.forall(lambda q: cnt(fm)(q) == want(q), 'c')
        if self.ev is not None:
            ev = self.ev
            self.orig0 = ev.orig
            ev.fm = fm
            if ev.dirty is not True:
                d0, b = ev.dirty, c.bool('dirty')
                ev.dirty = SymBool(b)
                if d0 is not False:
                    c.assume_raw(z3.Implies(tz(d0), b))
                c.forall(lambda q: z3.Or(b, cnt(fm)(q) == c0(q)), 'c')
        else:
            st = list(st)
            st[self.L.names.index(self.slot)] = AMap(fm)
        return [UNBOUND if n in self.L.targets or self.temp(n, v) else v for n, v in zip(self.L.names, st)]
    def temp(self, n, v):
        return n != self.slot and isint(v)          # assigned in the loop: only usable if assigned before use
    def again(self, loc, st):
        c = cur()
        if c.quiet:
            raise Stop()
        if not c.implied(iz(self.L.it.pos) == iz(self.p0) + self.t.t + 1):
            raise Unsupported('iterator advanced irregularly')
        for n, a, b in zip(self.L.names, self.st0, st):
            if n not in self.L.targets and n != self.slot and a is not b and a is not UNBOUND and not self.temp(n, a):
                raise Unsupported('loop changes %s' % n)
        if self.slot is not None and not isinstance(st[self.L.names.index(self.slot)], AMap):
            raise Unsupported('accumulator changes its kind')
        new = self.get(st)
        q = c.int('q')
        regc(q.t)
        if self.items:
            want = self.inv(q.t, self.t.t + 1)
        else:
            k = cls(self.el)
            want = cnt(self.fm)(q.t) + z3.If(q.t == k, 1, 0)
        c.prove(cnt(new)(q.t) == want, 'loop: counts after one more element', soft=True)
        c.prove(z3.Implies(new.has(q.t), new.val(q.t) >= 1), 'loop: only positive counts', soft=True)
        if self.ev is not None:
            if self.ev.orig is not self.orig0:
                raise Unsupported('persistent() within the loop')
            if self.ev.dirty is not True:
                d = tz(self.ev.dirty) if not isinstance(self.ev.dirty, bool) else z3.BoolVal(self.ev.dirty)
                c.prove(z3.Or(d, cnt(new)(q.t) == cnt(self.fm0)(q.t)), 'loop: changed counts are marked', soft=True)
        raise Stop()

class ExpandLoop:
    """loop over the items of a map of counts that yields each key as often as it counts"""
    def __init__(self, L, out):
        self.L, self.out = L, out
    def first(self, loc, st):
        c = cur()
        self.L.mode = 'prov'
        c.havocs += 1
        it, s = self.L.it, self.L.it.rest()
        self.e = s
        if c.choose(2) == 0:
            t = self.t = c.int('t')
            c.assume(z3.And(t.t >= 0, t.t < iz(s.n)))
            it.pos = t
            self.hv = self.out.s = fresh_seq('out')
        else:
            it.pos = it.s.n
            self.out.s = self.out.s + Expand(s.fm)
        return [UNBOUND] * len(st)
    def again(self, loc, st):
        c = cur()
        if c.quiet:
            raise Stop()
        if not c.implied(iz(self.L.it.pos) == self.t.t + 1):
            raise Unsupported('iterator advanced irregularly')
        s = self.out.s
        k, n = self.e.ek(self.t.t), self.e.ev(self.t.t)
        if s is self.hv:
            c.prove(n <= 0, 'loop: every key as often as it counts', soft=True)
            raise Stop()
        if not (isinstance(s, Concat) and getattr(s.a, 'fun', None) is not None and s.a.fun.eq(self.hv.fun)):
            raise Unsupported('loop over counts not understood')
        d = s.b
        c.prove(iz(d.n) == z3.If(n > 0, n, 0), 'loop: every key as often as it counts', soft=True)
        i = c.int('i')
        c.assume(z3.And(i.t >= 0, i.t < iz(d.n)))
        prove_same(d.get(i), SymVal(k), 'loop: the key itself', soft=True)
        raise Stop()

def loops(env, L, loc):
    if not isinstance(L.it, VIter) or isinstance(L.it.rest().n, int):
        return None
    s = L.it.rest()
    if isinstance(s, Enum) and s.part == 'items' and '_out' in loc and isinstance(loc['_out'], VList):
        return ExpandLoop(L, loc['_out'])
    reachable(loc)
    evs = [x for x in cur().keep[-1] if isinstance(x, AMapEv)]
    if len(evs) == 1:
        return CountLoop(env, L, ev=evs[0])
    slots = [n for n in L.names if isinstance(loc.get(n), AMap)]
    if len(slots) == 1:
        return CountLoop(env, L, slot=slots[0])
    return None

def elements(env, w):
    c = cur()
    if w == 'bag':
        o, f = newbag(env, 'o')
        return o, cnt(f)
    s = fresh_seq('its')
    return (VList(s, frozen='the argument') if w == 'list' else VIter(s)), occ(s)

@harness('C07', 'pbag() b()', variants=['list', 'iter', 'bag', 'none'], also=('C01',))
def h_pbag(env, w):
    c = cur()
    if w == 'none':
        check_bag(env, expect_ok(lambda: env.pm.b(), 'b()'), lambda q: z3.IntVal(0), 'b() is empty')
        check_bag(env, expect_ok(lambda: env.pm.pbag(VList(EMPTY)), 'pbag([])'), lambda q: z3.IntVal(0), 'pbag([]) is empty')
        return
    x, o = elements(env, w)
    if w == 'list' and c.choose(2):
        r = expect_ok(lambda: raw_vararg(env.pm.b, VTuple(x.s)), 'b(*elements)')
    else:
        r = expect_ok(lambda: env.pm.pbag(x), 'pbag(elements)')
    if w == 'list':         # nothing in an empty sequence
        q0 = c.forall(lambda q: z3.Implies(iz(x.s.n) == 0, o(q) == 0), 'c')
    check_bag(env, r, o, 'pbag(elements): every element as often as it occurs')

@harness('C07', 'PBag.update', variants=['list', 'iter', 'bag'], also=('C01',))
def h_update(env, w):
    c = cur()
    p, fm = newbag(env)
    x, o = elements(env, w)
    r = expect_ok(lambda: p.update(x), 'update(iterable)')
    if w == 'list':
        c.forall(lambda q: z3.Implies(iz(x.s.n) == 0, o(q) == 0), 'c')
    check_bag(env, r, lambda q: cnt(fm)(q) + o(q), 'update(iterable): multiplicities add')

@harness('C07', 'PBag.add remove count __contains__ __len__ __iter__', also=('C01',))
def h_basic(env):
    c = cur()
    p, fm = newbag(env)
    x = c.val('x')
    k = cls(x)
    regc(k)
    n = cnt(fm)
    o = c.choose(6)
    if o == 0:
        r = expect_ok(lambda: p.add(x), 'add(x)')
        check_bag(env, r, lambda q: n(q) + z3.If(q == k, 1, 0), 'add(x): one more x')
    elif o == 1:
        if c.branch(n(k) > 0):
            r = expect_ok(lambda: p.remove(x), 'remove(x) of an element')
            check_bag(env, r, lambda q: n(q) - z3.If(q == k, 1, 0), 'remove(x): one x less')
        else:
            expect_raise(lambda: p.remove(x), KeyError, 'remove(x) of something else raises KeyError')
    elif o == 2:
        r = expect_ok(lambda: p.count(x), 'count(x)')
        c.prove(iz(r) == n(k) if isint(r) else False, 'count(x)')
    elif o == 3:
        prove_bool(env.H.contains(p, x), mkbool(n(k) > 0), 'x in b')
    elif o == 4:
        r = env.H.b_len(p)
        c.prove(iz(r) == iz(sumvals(fm)) if isint(r) else False, 'len(b) is the sum of the multiplicities')
    else:
        s = seq_of(env.H.b_iter(p))
        f = occ(s)
        q = c.int('q')
        regc(q.t)
        if not isinstance(s, Expand):
            raise Unsupported('iteration of another form')
        c.prove(f(q.t) == n(q.t), 'iteration: every element as often as it is in the bag')
        c.prove(iz(s.n) == iz(sumvals(fm)), 'iteration: nothing else')

OPS = {'add': (lambda a, b: a + b, lambda x, y: x + y), 'sub': (lambda a, b: a - b, lambda x, y: z3.If(x > y, x - y, 0)),
       'or': (lambda a, b: a | b, lambda x, y: z3.If(x > y, x, y)), 'and': (lambda a, b: a & b, lambda x, y: z3.If(x < y, x, y))}
@harness('C07', 'PBag algebra', variants=['add', 'sub', 'or', 'and'], also=('C01',))
def h_alg(env, op):
    c = cur()
    p, fm = newbag(env)
    x, g = (p, fm) if c.choose(2) else newbag(env, 'o')
    f, spec = OPS[op]
    env.spec = W = lambda q: spec(cnt(fm)(q), cnt(g)(q))
    r = expect_ok(lambda: f(p, x), 'a %s b' % op)
    check_bag(env, r, W, 'a %s b: the multiset result' % op)

@harness('C07', 'PBag algebra with other kinds')
def h_alg2(env):
    c = cur()
    p, fm = newbag(env)
    op = ['add', 'sub', 'or', 'and'][c.choose(4)]
    x = [42, None, VList(fresh_seq('l'))][c.choose(3)]
    c.prove(getattr(env.B, '__%s__' % op)(p, x) is NotImplemented, 'b %s something that is no bag is not implemented' % op)
    expect_raise(lambda: [p < p, p <= p, p > p, p >= p][0], TypeError, 'bags are not ordered')

@harness('C07', 'PBag.__eq__ __hash__', also=('C10',))
def h_eq(env):
    c = cur()
    p, fm = newbag(env)
    if c.choose(2):
        x = [42, None, VList(fresh_seq('l'))][c.choose(3)]
        expect_raise(lambda: p == x, TypeError, 'comparison with something that is no bag raises TypeError')
        return
    x, g = newbag(env, 'o')
    e, w = c.bool('bageq'), c.int('w')
    c.forall(lambda q: z3.Implies(e, cnt(fm)(q) == cnt(g)(q)), 'c')
    c.assume_raw(z3.Or(e, cnt(fm)(w.t) != cnt(g)(w.t)))
    regc(w.t)
    ne = c.choose(2)
    r = expect_ok(lambda: (p != x) if ne else (p == x), 'a == b')
    prove_bool(r, mkbool(z3.Not(e)) if ne else SymBool(e), 'a == b exactly when all multiplicities agree')
    if not ne:
        a, b = env.H.b_hash(p), env.H.b_hash(x)
        if not (isint(a) and isint(b)):
            raise Unsupported('hash of another kind')
        c.prove(z3.Implies(tz(r) if isinstance(r, SymBool) else z3.BoolVal(r), iz(a) == iz(b)), 'equal bags have equal hashes')
