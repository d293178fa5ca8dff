"""Contracts of transform() and its helpers (_transformations.py): C14.  Maps, vectors and their evolvers by their contracts (C02-C05);
the recursive call by the contract of _do_to_path itself (structural induction over the path)."""
import core, rt, z3, functools
from rt import *
from common import *
from amap import *
import fields
from fields import SymFn

EMPTYMAP = z3.Const('emptymap!', VS)

def prepare(env):
    env.replace['_pmap'] = {'pmap': lambda *a, **k: SymVal(EMPTYMAP)}
def setup(env):
    env.tm = env.get('_transformations')
    env.H.filters = 'pairs'
    env.H.providers[:] = [lambda L, loc: trans_loop(env, L, loc)]

# ------------------------------------------------------------------ loops over the matched positions
def where(s):
    """(source sequence, matched(position), index in s of a position) of a sequence of matched items"""
    if isinstance(s, Rev):
        r = where(s.a)
        return r and (r[0], r[1], lambda p: iz(s.n) - 1 - r[2](p))
    if isinstance(s, FiltG):
        return s.a, s.P, lambda p: s.to(p)
    if isinstance(s, (Enum, Fn)) and not s.isv:
        return s, lambda p: z3.BoolVal(True), lambda p: p
    return None

class MapLoop:
    """invariant: the positions handled so far have their new contents (env.goal), the others the old ones; nothing is marked while nothing changed"""
    def __init__(self, env, L, ev):
        self.env, self.L, self.ev = env, L, ev
    def at(self, t):
        """map after t items"""
        base, goal = self.base, self.env.goal
        src, M, idx = self.w
        done = lambda q: z3.And(base.has(q), M(src.ei(q)), idx(src.ei(q)) < t)
        n = cur().int('n_t') if goal.drops else base.n
        return FM(lambda q: z3.If(done(q), goal.has(q), base.has(q)), lambda q: z3.If(done(q), goal.val(q), base.val(q)), n)
    def first(self, loc, st):
        c, L, ev = cur(), self.L, self.ev
        L.mode = 'prov'
        c.havocs += 1
        s = L.it.rest()
        self.w, self.base, self.orig0, self.st0 = where(s), ev.fm, ev.orig, list(st)
        if self.w is None or not isinstance(self.w[0], Enum) or not isinstance(L.it.pos, int) or L.it.pos or ev.dirty is not False:
            raise Unsupported('loop over something else than the matched items')
        if c.choose(2) == 0:
            t = self.t = c.int('t')
            c.assume(z3.And(t.t >= 0, t.t < iz(s.n)))
            L.it.pos = t
            self.el = s.get(t)
            regc(cls(self.el[0]))
            self.state(t.t)
        else:
            L.it.pos = s.n
            self.state(iz(s.n))
        return [UNBOUND if n in L.targets else v for n, v in zip(L.names, st)]
    def state(self, t):
        c, ev = cur(), self.ev
        fm = ev.fm = self.fm = self.at(t)
        b = c.bool('dirty')
        ev.dirty = SymBool(b)
        c.forall(lambda q: z3.Or(b, z3.And(fm.has(q) == self.base.has(q), z3.Implies(fm.has(q), fm.val(q) == self.base.val(q)))), 'c')
        c.assume_raw(z3.Or(b, iz(fm.n) == iz(self.base.n)))
        c.assume_raw(z3.Implies(self.env.goal.nochange, z3.Not(b)))
    def again(self, loc, st):
        c, ev, L = cur(), self.ev, self.L
        if c.quiet:
            raise Stop()
        if not c.implied(iz(L.it.pos) == self.t.t + 1) or ev.orig is not self.orig0:
            raise Unsupported('iterator advanced irregularly')
        for n, a, b in zip(L.names, self.st0, st):
            if n not in L.targets and a is not b and a is not UNBOUND:
                raise Unsupported('loop changes %s' % n)
        q = c.int('q')
        regc(q.t)
        want = self.at(self.t.t + 1)
        c.prove(ev.fm.has(q.t) == want.has(q.t), 'loop: keys after one more matched item', soft=True)
        c.prove(z3.Implies(want.has(q.t), ev.fm.val(q.t) == want.val(q.t)), 'loop: values after one more matched item', soft=True)
        d = tz(ev.dirty) if not isinstance(ev.dirty, bool) else z3.BoolVal(ev.dirty)
        c.prove(z3.Implies(self.env.goal.nochange, z3.Not(d)), 'loop: nothing is marked while nothing changes', soft=True)
        c.prove(z3.Or(d, z3.And(ev.fm.has(q.t) == self.base.has(q.t), z3.Implies(ev.fm.has(q.t), ev.fm.val(q.t) == self.base.val(q.t)))), 'loop: changes are marked', soft=True)
        raise Stop()

class VecLoop(MapLoop):
    def at(self, t):
        base, goal = self.base, self.env.goal
        src, M, idx = self.w
        if not goal.drops:
            return Fn(base.n, tf=lambda j: z3.If(z3.And(M(j), idx(j) < t), goal.val(j), base.term(j)))
        # t items removed from the end: positions below the last one handled are as before, the rest is what is not matched
        f = self.L.it.s.a if isinstance(self.L.it.s, Rev) else None
        if isinstance(f, FiltG):
            m, keep = iz(f.n), goal.keep
            goal.filt = f
            x = z3.If(t == 0, iz(base.n), f.src(m - t))
            return Fn(mkint(iz(base.n) - t), tf=lambda j: z3.If(j < x, base.term(j), keep(j - (m - t))))
        if f is not None:      # everything is matched
            return Slice(base, 0, mkint(iz(base.n) - t))
        raise Unsupported('removal in another order')
    def first(self, loc, st):
        c, L, ev = cur(), self.L, self.ev
        L.mode = 'prov'
        c.havocs += 1
        s = L.it.rest()
        self.w, self.base, self.orig0, self.st0 = where(s), ev.s, ev.orig, list(st)
        if self.w is None or not isinstance(L.it.pos, int) or L.it.pos or ev.dirty is not False:
            raise Unsupported('loop over something else than the matched items')
        if c.choose(2) == 0:
            t = self.t = c.int('t')
            c.assume(z3.And(t.t >= 0, t.t < iz(s.n)))
            L.it.pos = t
            self.el = s.get(t)
            c.reg(self.el[0])
            c.reg(iz(s.n) - t.t)
            c.reg(iz(s.n) - t.t - 1)
            self.state(t.t)
        else:
            L.it.pos = s.n
            self.state(iz(s.n))
        return [UNBOUND if n in L.targets else v for n, v in zip(L.names, st)]
    def state(self, t):
        c, ev = cur(), self.ev
        s = ev.s = self.at(t)
        b = c.bool('dirty')
        ev.dirty = SymBool(b)
        c.assume_raw(z3.Or(b, iz(s.n) == iz(self.base.n)))
        c.forall(lambda j: z3.Implies(z3.And(j >= 0, j < iz(s.n)), z3.Or(b, s.term(j) == self.base.term(j))))
        c.assume_raw(z3.Implies(self.env.goal.nochange, z3.Not(b)))
    def again(self, loc, st):
        c, ev, L = cur(), self.ev, self.L
        if c.quiet:
            raise Stop()
        if not c.implied(iz(L.it.pos) == self.t.t + 1) or ev.orig is not self.orig0:
            raise Unsupported('iterator advanced irregularly')
        for n, a, b in zip(L.names, self.st0, st):
            if n not in L.targets and a is not b and a is not UNBOUND:
                raise Unsupported('loop changes %s' % n)
        want = self.at(self.t.t + 1)
        d = tz(ev.dirty) if not isinstance(ev.dirty, bool) else z3.BoolVal(ev.dirty)
        c.prove(iz(ev.s.n) == iz(want.n), 'loop: length after one more matched item', soft=True)
        j = c.int('j')
        c.reg(j)
        c.reg(j.t + 1)
        rng = z3.And(j.t >= 0, j.t < iz(want.n))
        g = self.env.goal.filt
        if g is not None:
            u = g.n.t - self.t.t
            for p in (j.t, j.t + 1):
                c.assume_raw(self.env.goal.between(g, p, u))
        c.prove(z3.Implies(rng, ev.s.term(j.t) == want.term(j.t)), 'loop: elements after one more matched item', soft=True)
        c.prove(z3.Implies(self.env.goal.nochange, z3.Not(d)), 'loop: nothing is marked while nothing changes', soft=True)
        c.prove(z3.Implies(rng, z3.Or(d, ev.s.term(j.t) == self.base.term(j.t))), 'loop: changes are marked', soft=True)
        raise Stop()

def trans_loop(env, L, loc):
    if not isinstance(L.it, VIter) or isinstance(L.it.rest().n, int) or getattr(env, 'goal', None) is None:
        return None
    reachable(loc)
    evs = [x for x in cur().keep[-1] if isinstance(x, (AMapEv, AVecEv))]
    if len(evs) == 1:
        return (MapLoop if isinstance(evs[0], AMapEv) else VecLoop)(env, L, evs[0])
    return None

class Goal:
    def __init__(self, has=None, val=None, drops=False, nochange=None, keep=None):
        self.filt = self.between = None
        self.has, self.val, self.drops, self.nochange, self.keep = has, val, drops, nochange, keep

# ------------------------------------------------------------------ the recursive call by contract
def recursion(env, rest, command, R):
    """_do_to_path below the first level: for the rest of the path and the same command, R(value)"""
    c = cur()
    st = [0]
    def ic(orig, structure, path, cmd):
        if st[0] == 0:
            st[0] = 1
            return orig(structure, path, cmd)
        c.prove(cmd is command, 'the command is passed down unchanged', soft=True)
        prove_same_seq(seq_of(path), rest, 'the rest of the path is passed down unchanged', soft=True)
        v = vterm(structure)
        if v is None:
            raise Unsupported('recursive call on %s' % type(structure).__name__)
        return SymVal(R(v))
    env.H.intercepts['_transformations:_do_to_path'] = ic

class Pred:
    """an arbitrary matcher of one or two arguments"""
    def __init__(self, arity, kint):
        c = cur()
        ks = z3.IntSort() if kint else VS
        self.arity = arity
        P = c.fun('match', *([ks] + [VS] * (arity - 1) + [z3.BoolSort()]))
        kt = (lambda k: iz(k)) if kint else vterm
        if arity == 1:
            self.fn = lambda k: mkbool(P(kt(k)))
            self.P = lambda k, v: P(k)
        else:
            self.fn = lambda k, v: mkbool(P(kt(k), vterm(v)))
            self.P = P

def mkpath(spec, n):
    """[spec] + rest: as a list or tuple with a rest of any length"""
    c = cur()
    rest = fresh_seq('rest') if n is None else Lit([c.val('key%d' % i) for i in range(n)])
    return VList(Lit([spec]) + rest, frozen='the path'), rest

@harness('C14', 'transform: end of the path', also=('C01',))
def h_base(env):
    c = cur()
    x = c.val('structure')
    p = [VList(EMPTY), (), VTuple(EMPTY)][c.choose(3)]
    if c.choose(2):
        F = c.fun('cmd', VS, VS)
        fn = SymFn(lambda v: SymVal(F(vterm(v))), 'command')
        r = expect_ok(lambda: env.tm.transform(x, (p, fn)), 'transform(x, [], function)')
        prove_same(r, SymVal(F(x.t)), 'the command function is applied to the structure')
        c.prove(len(fn.calls) == 1, 'the command function is called once')
    else:
        v = c.val('command')
        r = expect_ok(lambda: env.tm.transform(x, (p, v)), 'transform(x, [], value)')
        prove_same(r, v, 'a command that is not callable is the new value')

def command_of(env, kind):
    c = cur()
    return {'discard': lambda: env.tm.discard, 'value': lambda: c.val('cmd'), 'function': lambda: SymFn(lambda *a: None, 'command')}[kind]()

COMMANDS = ['value', 'function', 'discard']
@harness('C14', 'transform of a map: one key', variants=COMMANDS, also=('C01',))
def h_map_key(env, kind):
    c = cur()
    env.goal = None
    m = AMap(FM.fresh('m'))
    k = c.val('k')
    q = cls(k)
    regc(q)
    cmd = command_of(env, kind)
    path, rest = mkpath(k, 0 if c.choose(2) else None)
    R = c.fun('R', VS, VS)
    recursion(env, rest, cmd, R)
    r = expect_ok(lambda: env.tm.transform(m, (path, cmd)), 'transform(map, [key, ...], command)')
    if not isinstance(r, AMap):
        c.prove(False, 'the result is a map', type(r).__name__)
        return
    leaf = c.branch(iz(rest.n) == 0)
    if kind == 'discard' and leaf:
        same_fm(r.fm, m.fm.remove(k), 'discard removes the key and nothing else')
        if not c.branch(m.fm.has(q)):
            c.prove(r is m, 'discarding a missing key gives the very same map')
        return
    if c.branch(m.fm.has(q)):
        old = m.fm.val(q)
        same_fm(r.fm, m.fm.set(k, SymVal(R(old))), 'exactly the value at the key is replaced')
        if c.branch(R(old) == old):
            c.prove(r is m, 'the very same map when the value stays')
    elif kind == 'discard':
        c.prove(r is m, 'discarding below a missing key changes nothing')
    else:
        same_fm(r.fm, m.fm.set(k, SymVal(R(EMPTYMAP))), 'a missing key on the path is created as a map')

@harness('C14', 'transform of a vector: one index', variants=COMMANDS, also=('C01',))
def h_vec_key(env, kind):
    c = cur()
    env.goal = None
    s = fresh_seq('v')
    m = AVec(s)
    k = c.int('k')
    cmd = command_of(env, kind)
    path, rest = mkpath(k, 0 if c.choose(2) else None)
    R = c.fun('R', VS, VS)
    recursion(env, rest, cmd, R)
    leaf = c.branch(iz(rest.n) == 0)
    inr = c.branch(z3.And(k.t >= -iz(s.n), k.t < iz(s.n)))
    f = lambda: env.tm.transform(m, (path, cmd))
    if kind == 'discard' and leaf and not inr:
        return
    if not inr and kind != 'discard' and not c.branch(k.t == iz(s.n)):
        expect_raise(f, IndexError, 'a value outside the vector raises IndexError')
        return
    r = expect_ok(f, 'transform(vector, [index, ...], command)')
    if not isinstance(r, AVec):
        c.prove(False, 'the result is a vector', type(r).__name__)
        return
    p = z3.If(k.t < 0, k.t + iz(s.n), k.t)
    c.reg(p)
    if not inr:
        if kind == 'discard':
            c.prove(r is m, 'discarding below a missing index changes nothing')
        else:
            prove_same_seq(r.s, s + Lit([SymVal(R(EMPTYMAP))]), 'at the length: appended')
        return
    if kind == 'discard' and leaf:
        prove_same_seq(r.s, Removed(s, mkint(p)), 'discard removes the element and nothing else')
        return
    old = s.term(p)
    prove_same_seq(r.s, Upd(s, mkint(p), SymVal(R(old))), 'exactly the element at the index is replaced')
    if c.branch(R(old) == old):
        c.prove(r is m, 'the very same vector when the element stays')

@harness('C14', 'transform of a map: matcher', variants=[(k, a) for k in COMMANDS for a in (1, 2)], also=('C01',))
def h_map_pred(env, v):
    c = cur()
    kind, ar = v
    fm = FM.fresh('m')
    m = AMap(fm)
    en = fm.enum
    pr = Pred(ar, False)
    cmd = command_of(env, kind)
    path, rest = mkpath(pr.fn, 0 if c.choose(2) else None)
    R = c.fun('R', VS, VS)
    recursion(env, rest, cmd, R)
    leaf = c.branch(iz(rest.n) == 0)
    M = lambda q: z3.And(fm.has(q), pr.P(en.ek(en.ei(q)), fm.val(q)))
    N = c.bool('nochange')
    drop = kind == 'discard' and leaf
    # N: nothing that is matched changes
    c.forall(lambda q: z3.Implies(z3.And(N, M(q)), z3.BoolVal(False) if drop else R(fm.val(q)) == fm.val(q)), 'c')
    env.goal = Goal(has=lambda q: z3.BoolVal(not drop), val=(lambda q: fm.val(q)) if drop else (lambda q: R(fm.val(q))), drops=drop, nochange=N)
    r = expect_ok(lambda: env.tm.transform(m, (path, cmd)), 'transform(map, [matcher, ...], command)')
    if not isinstance(r, AMap):
        c.prove(False, 'the result is a map', type(r).__name__)
        return
    q = c.int('q')
    regc(q.t)
    if drop:
        c.prove(r.fm.has(q.t) == z3.And(fm.has(q.t), z3.Not(M(q.t))), 'exactly the matched keys are removed')
        c.prove(z3.Implies(r.fm.has(q.t), r.fm.val(q.t) == fm.val(q.t)), 'the other values are the identical objects')
    else:
        c.prove(r.fm.has(q.t) == fm.has(q.t), 'the keys stay')
        c.prove(z3.Implies(fm.has(q.t), r.fm.val(q.t) == z3.If(M(q.t), R(fm.val(q.t)), fm.val(q.t))), 'exactly the matched values are replaced')
    if c.branch(N):
        c.prove(r is m, 'the very same map when nothing changes')

@harness('C14', 'transform of a vector: matcher', variants=[(k, a) for k in COMMANDS for a in (1, 2)], also=('C01',))
def h_vec_pred(env, v):
    c = cur()
    kind, ar = v
    s = fresh_seq('v')
    n = iz(s.n)
    m = AVec(s)
    pr = Pred(ar, True)
    cmd = command_of(env, kind)
    path, rest = mkpath(pr.fn, 0 if c.choose(2) else None)
    R = c.fun('R', VS, VS)
    recursion(env, rest, cmd, R)
    leaf = c.branch(iz(rest.n) == 0)
    M = lambda j: pr.P(j, s.term(j))
    N = c.bool('nochange')
    drop = kind == 'discard' and leaf
    c.forall(lambda j: z3.Implies(z3.And(N, j >= 0, j < n, M(j)), z3.BoolVal(False) if drop else R(s.term(j)) == s.term(j)))
    keepf = c.fun('kept', z3.IntSort(), VS)
    def between(f, p, u):
        """the elements that are not matched, in order: a position with u matched ones below it has rank p - u"""
        lo, hi = z3.If(u == 0, -1, f.src(u - 1)), z3.If(u == f.n.t, n, f.src(u))
        return z3.And(f.gap(p, u), z3.Implies(z3.And(u >= 0, u <= f.n.t, lo < p, p < hi), keepf(p - u) == s.term(p)))
    env.goal = Goal(val=lambda j: R(s.term(j)), drops=drop, nochange=N, keep=lambda j: keepf(j))
    env.goal.between = between
    r = expect_ok(lambda: env.tm.transform(m, (path, cmd)), 'transform(vector, [matcher, ...], command)')
    if not isinstance(r, AVec):
        c.prove(False, 'the result is a vector', type(r).__name__)
        return
    if drop:
        j = c.int('j')
        c.reg(j)
        g = env.goal.filt
        if g is None:       # decided without a loop: all or none
            c.prove(z3.Or(r is m, iz(r.s.n) == 0), 'as many elements as are not matched')
            i = c.int('i')
            c.prove(z3.Implies(z3.And(i.t >= 0, i.t < n), M(i.t) != z3.BoolVal(r is m)), 'the elements that are not matched, in order, by identity')
            return
        c.assume_raw(between(g, j.t, z3.IntVal(0)))
        c.prove(iz(r.s.n) == n - g.n.t, 'as many elements as are not matched')
        c.prove(M(j.t) == g.P(j.t), 'exactly the matched positions are dropped')
        c.prove(z3.Implies(z3.And(j.t >= 0, j.t < iz(r.s.n)), r.s.term(j.t) == keepf(j.t)), 'the elements that are not matched, in order, by identity')
    else:
        prove_same_seq(r.s, Fn(s.n, tf=lambda j: z3.If(M(j), R(s.term(j)), s.term(j))), 'exactly the matched elements are replaced')
    if c.branch(N):
        c.prove(r is m, 'the very same vector when nothing changes')

class AObj:
    """instance of a persistent class by its contract (C13)"""
    def __init__(self, d):
        self.__dict__.update(d=d)
    def vsetattr(self, a, v): frame_violation('an instance')
    def __getattr__(self, n):
        if n in self.d:
            return self.d[n]
        raise AttributeError(n)
    def evolver(self): return AObjEv(self)
class AObjEv:
    def __init__(self, o):
        self.o, self.d, self.dirty = o, dict(o.d), False
    def __setitem__(self, k, v):
        self.d[k], self.dirty = v, True
    def set(self, k, v):
        self[k] = v
        return self
    def __delitem__(self, k):
        if k not in self.d:
            raise HRaised(AttributeError(k))
        del self.d[k]
        self.dirty = True
    def persistent(self):
        return AObj(self.d) if self.dirty else self.o

@harness('C14', 'transform of a class instance', variants=COMMANDS, also=('C01',))
def h_obj(env, kind):
    c = cur()
    env.goal = None
    a, b = c.val('a'), c.val('b')
    m = AObj(dict(a=a, b=b))
    cmd = command_of(env, kind)
    path, rest = mkpath('a', 0 if c.choose(2) else None)
    R = c.fun('R', VS, VS)
    recursion(env, rest, cmd, R)
    leaf = c.branch(iz(rest.n) == 0)
    r = expect_ok(lambda: env.tm.transform(m, (path, cmd)), 'transform(instance, [name, ...], command)')
    if not isinstance(r, AObj):
        c.prove(False, 'the result is an instance', type(r).__name__)
        return
    if kind == 'discard' and leaf:
        c.prove(sorted(r.d) == ['b'] and r.d['b'] is b, 'discard removes the field and nothing else')
        return
    c.prove(sorted(r.d) == ['a', 'b'] and r.d['b'] is b, 'the other field stays')
    prove_same(r.d['a'], SymVal(R(a.t)), 'exactly the named field is replaced')
    if c.branch(R(a.t) == a.t):
        c.prove(r is m, 'the very same instance when the value stays')

@harness('C14', 'transform: pairs in order', variants=[0, 1, 2, 3])
def h_transform(env, n):
    c = cur()
    x = c.val('structure')
    D = c.fun('do', VS, VS, VS, VS)
    pairs = [(c.val('path%d' % i), c.val('command%d' % i)) for i in range(n)]
    env.H.intercepts['_transformations:_do_to_path'] = lambda orig, s, p, cmd: SymVal(D(vterm(s), vterm(p), vterm(cmd)))
    flat = tuple(y for p in pairs for y in p)
    r = expect_ok(lambda: env.tm.transform(x, flat if c.choose(2) else VTuple(Lit(flat))), 'transform(structure, pairs)')
    t = x.t
    for p, cmd in pairs:
        t = D(t, p.t, cmd.t)
    prove_same(r, SymVal(t), 'the pairs are applied in order, each to the result of the one before')

@harness('C14', 'transform methods')
def h_methods(env):
    c = cur()
    got = []
    rv = c.val('result')
    env.H.intercepts['_transformations:transform'] = lambda orig, s, t: (got.append((s, t)), rv)[1]
    mods = [('_pmap', 'PMap'), ('_pvector', 'PythonPVector'), ('_pclass', 'PClass'), ('_precord', 'PRecord')]
    m, k = mods[c.choose(len(mods))]
    K = getattr(env.get(m), k)
    x = object.__new__(type('X', (K,), {'__module__': 'pyrsistent.user'}) if k in ('PClass', 'PRecord') else K)
    a = [c.val('a%d' % i) for i in range(4)]
    r = expect_ok(lambda: x.transform(*a), k + '.transform(*pairs)')
    c.prove(r is rv and len(got) == 1 and got[0][0] is x, 'transform() of this instance')
    prove_same_seq(seq_of(got[0][1]), Lit(a), 'all pairs are passed on in order')

@harness('C14', '_get_arity')
def h_arity(env):
    class K1:
        def __call__(self, k): pass
        def two(self, k, v): pass
    import functools
    for f, n in [(lambda k: 0, 1), (lambda k, v: 0, 2), (lambda k, v=None: 0, 1), (lambda k, *a: 0, 1), (lambda k, **kw: 0, 1), (lambda k, *, x=1: 0, 1), (K1(), 1), (K1().two, 2), (functools.partial(lambda a, b, d: 0, 1), 2), (lambda: 0, 0), (lambda a, b, d: 0, 3)]:
        cur().prove(env.tm._get_arity(f) == n, 'number of required positional arguments', 'got %r' % env.tm._get_arity(f), soft=True)

@harness('C14', 'matchers with optional arguments')
def h_optarity(env):
    """arguments a matcher can do without do not count: it is called with the key, or with key and value"""
    c = cur()
    import functools
    calls = []
    def see(*a):
        calls.append(a)
        return False
    class K1:
        def __call__(self, k): return see(k)
        def two(self, k, v): return see(k, v)
    fs = [(lambda k: see(k), 1), (lambda k, v: see(k, v), 2), (lambda k, v=None: see(k), 1), (lambda k, *a: see(k, *a), 1), (lambda k, **kw: see(k), 1), (lambda k, *, x=1: see(k), 1), (lambda k, v, *a: see(k, v, *a), 2), (lambda k, v, **kw: see(k, v), 2),
          (lambda k, v, w=3, *, x=1: see(k, v), 2), (K1(), 1), (K1().two, 2), (functools.partial(lambda a, k, v: see(k, v), 1), 2)]
    f, n = fs[c.choose(len(fs))]
    vs = [c.val('v0'), c.val('v1')]
    x = AVec(Lit(vs))
    r = expect_ok(lambda: env.tm.transform(x, (VList(Lit([f])), c.val('cmd'))), 'a matcher with optional arguments is accepted')
    c.prove(r is x, 'nothing matched: the very same structure')
    c.prove(len(calls) == 2 and all(len(a) == n for a in calls), 'a matcher is called once per item, with its required arguments', '%r' % ([len(a) for a in calls],))
    for i, a in enumerate(calls[:2]):
        c.prove(iz(a[0]) == i, 'a matcher is given the key')
        if n == 2 and len(a) > 1:
            prove_same(a[1], vs[i], 'a matcher of two arguments is given the value too')

@harness('C14', 'matchers of other arities')
def h_badarity(env):
    c = cur()
    fm = FM.fresh('m')
    x = [AMap(fm), AVec(fresh_seq('v'))][c.choose(2)]
    f = [lambda: True, lambda a, b, d: True][c.choose(2)]
    expect_raise(lambda: env.tm.transform(x, (VList(Lit([f])), c.val('cmd'))), ValueError, 'a matcher with another number of arguments raises ValueError')

@harness('C14', 'discard inc dec ny')
def h_small(env):
    c = cur()
    i = c.int('i')
    o = c.choose(5)
    if o == 0:
        c.prove(iz(env.tm.inc(i)) == i.t + 1, 'inc')
        c.prove(iz(env.tm.dec(i)) == i.t - 1, 'dec')
        c.prove(env.tm.ny(c.val('k')) is True, 'ny matches everything')
    elif o == 1:
        fm = FM.fresh('m')
        e = AMapEv(AMap(fm))
        k = c.val('k')
        expect_ok(lambda: env.tm.discard(e, k), 'discard(evolver, key)')
        same_fm(e.fm, fm.remove(k), 'discard removes the key if it is there')
    elif o == 2:
        rx = env.tm.rex('a[0-9]+')
        for k, w in [('a1', True), ('a1x', True), ('xa1', False), ('', False), (b'a1', False), (1, False), (None, False), (('a1',), False)]:
            c.prove(bool(rx(k)) == w, 'rex matches strings from their start')
