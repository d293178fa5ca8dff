"""Contracts of the checked collections (_checked_types.py with the classes of _pvector.py, _pset.py, _pmap.py they extend): C11 (and parts of C01, C16).
Elements, lengths, types, invariants and error codes arbitrary.  The tries and tables behind them by their contracts (C02-C06); the classes,
metaclasses, evolvers and inherited methods run as they are.  Declarations: up to 2 types, up to 2 invariants, own or inherited over up to two levels."""
import core, rt, z3, itertools
from rt import *
from common import *
from amap import *
from fields import T1, T2, SymFn, isa, vt, SomeType, checked_type, ischecked
import fields, ftok

def prepare(env):
    env.replace['_pset'] = {'pmap': apmap}

# ------------------------------------------------------------------ vectors: representation as tokens of their contents
class Rep:
    def __init__(self, D):
        c = cur()
        self.D = D
        t = c.int('taillen')
        c.assume_raw(z3.And(t.t >= 0, t.t <= 32, t.t <= iz(D.n)))
        self.root, self.tail = RootTok(self), TailTok(self, t)
class RootTok:
    def __init__(self, rep): self.rep = rep
    def vsetattr(self, a, v): frame_violation('a node')
class TailTok:
    def __init__(self, rep, n): self.rep, self.n = rep, n
    def vsetattr(self, a, v): frame_violation('a node')
    def vlen(self): return self.n
def content(v):
    r, t = v._root, v._tail
    if not (isinstance(r, RootTok) and isinstance(t, TailTok) and r.rep is t.rep):
        raise Unsupported('representation of a vector')
    if not same_int(v._count, r.rep.D.n):
        raise Unsupported('length of a vector')
    return r.rep.D
def same_int(a, b):
    e = iz(a) == iz(b)
    return cur().implied(e)
def put(o, D):
    r = Rep(D)
    o._count, o._shift, o._root, o._tail = D.n, 5, r.root, r.tail
    o._tail_offset = mkint(iz(D.n) - r.tail.n.t)
def mkv(env, D, cls=None, what=None):
    c = cur()
    o = object.__new__(cls or env.P)
    put(o, D)
    if what:
        c.frozen[id(o)] = (what, ())
    c.keep.append(o)
    return o
def install_vec(env):
    P = '_pvector:PythonPVector.'
    ic = env.H.intercepts
    def elems(x):
        return content(x) if isinstance(x, env.P) else seq_of(x)
    ic[P + 'tolist'] = lambda f, self: VList(content(self))
    ic[P + 'append'] = lambda f, self, x: mkv(env, content(self) + Lit([x]))
    def extend(f, self, obj):
        s = elems(obj)
        if isinstance(obj, VIter):
            obj.pos = obj.s.n
        if not truth(mkbool(iz(s.n) > 0)):
            return self
        return mkv(env, content(self) + s)
    ic[P + 'extend'] = extend
    def norm(i, n):
        if not isint(i):
            raise Unsupported('index')
        return mkint(z3.If(iz(i) < 0, iz(i) + iz(n), iz(i)))
    def getitem(f, self, i):
        if isinstance(i, VSlice):
            return f(self, i)
        D = content(self)
        j = norm(i, D.n)
        if mkbool(z3.And(iz(j) >= 0, iz(j) < iz(D.n))):
            return D.get(j)
        raise HRaised(IndexError('Index out of range'))
    ic[P + '__getitem__'] = getitem
    def evget(f, self, i):
        D = content(self)
        E = D + self._extra_tail._seq()
        j = norm(i, E.n)
        if mkbool(z3.And(iz(j) >= 0, iz(j) < iz(E.n))):
            return E.get(j)
        raise HRaised(IndexError('Index out of range'))
    ic[P + 'Evolver.__getitem__'] = evget
    def evset(f, self, i, v):
        D = content(self)
        j = norm(i, D.n + self._extra_tail.vlen())
        if mkbool(z3.And(iz(j) >= 0, iz(j) < iz(D.n))):
            cur().mutlog.append(self)
            off = self._tail_offset
            put(self, Upd(D, j, v))
            self._dirty_nodes[next(SERIAL)] = True
            return None
        return f(self, i, v)
    ic[P + 'Evolver.__setitem__'] = evset

# ------------------------------------------------------------------ setup
def setup(env):
    env.ct, env.pv, env.ps = env.get('_checked_types'), env.get('_pvector'), env.get('_pset')
    env.P = env.pv.PythonPVector
    fields.install(env)
    H = env.H
    H.filters = True
    ftok.install(env)
    install_vec(env)
    put(env.pv._EMPTY_PVECTOR, EMPTY)
    rt.DictType.hook = dict_hook(lambda x: x.fm if isinstance(x, AMap) else x._buckets.fm if isinstance(x, env.pm.PMap) else None, precise=True)
    def comp(kind, s, f, cond):
        if kind != 'list' or isinstance(s.n, int) or cond is not None:
            return NotImplemented
        c = cur()
        k = c.int('lk')
        m0 = len(c.mutlog)
        cases = c.summarize(lambda: f(s.get(k)))
        if not cases or not all(isinstance(r, VList) and isinstance(r.s, Lit) and all(vterm(x) is not None for x in r.s.xs) for g, r in cases):
            return NotImplemented
        return VList(Lists(s, k.t, [(g, [vterm(x) for x in r.s.xs]) for g, r in cases]))
    H.comp_hook = comp
    def mkset(*a):
        if not a:
            return VSet([])
        s = seq_of(a[0])
        if isinstance(s, Lit):
            return VSet(list(s.xs))
        if isinstance(a[0], VIter):
            a[0].pos = s.n
        g = cur().__dict__.get('setof')
        r = g(s) if g else None
        return ASet(fm_of_elements(s)) if r is None else r
    rt.SetType.hook = mkset
    H.sum_hook = lambda s: VList(Flat(s)) if isinstance(s, Lists) else None
    H.providers[:] = [check_loop]

class Lists(Seq):
    """one short list per element of s: cases [(guard, terms)] at the generic index k"""
    isv = False
    def __init__(self, s, k, cases):
        self.s, self.k, self.cases, self.n = s, k, cases, s.n
    def at(self, i):
        return [(z3.substitute(g, (self.k, i)), [z3.substitute(t, (self.k, i)) for t in ts]) for g, ts in self.cases]
    def len(self, i):
        r = z3.IntVal(0)
        for g, ts in self.at(i):
            r = z3.If(g, len(ts), r)
        return r
    def get(self, i):
        raise Unsupported('list of codes of one element')
class Flat(Seq):
    """the lists one after the other"""
    isv = True
    def __init__(self, ls):
        c = cur()
        self.ls = ls
        self.n = n = c.int('flat_n')
        w, src, f = c.int('w'), c.fun('src', I, I), c.fun('flat', I, VS)
        N = iz(ls.n)
        self.f = f
        c.assume_raw(z3.And(n.t >= 0, z3.Implies(n.t > 0, z3.And(w.t >= 0, w.t < N, ls.len(w.t) > 0))))
        c.reg(w)
        c.forall(lambda i: z3.Implies(z3.And(i >= 0, i < N), ls.len(i) <= n.t))
        c.forall(lambda t: z3.Implies(z3.And(t >= 0, t < n.t), z3.And(src(t) >= 0, src(t) < N, z3.Or(*[z3.And(g, f(t) == x) for g, ts in ls.at(src(t)) for x in ts]))))
    def term(self, t): return self.f(t)
    def get(self, i):
        cur().reg(i)
        return SymVal(self.f(iz(i)))

# ------------------------------------------------------------------ declarations
class Decl:
    """w = (number of types, number of invariants, levels of inheritance below the declaration)"""
    def __init__(self, env, kind, w, checked=None, make=None):
        c = cur()
        self.env, self.kind = env, kind
        nt, ni, levels = w
        base = {'vec': env.ct.CheckedPVector, 'set': env.ct.CheckedPSet, 'map': env.ct.CheckedPMap}[kind]
        self.base = base
        M = type(base)
        ar = 2 if kind == 'map' else 1
        self.inv = [(c.fun('ok%d' % i, *([VS] * ar + [B])), c.fun('code%d' % i, *([VS] * ar + [VS]))) for i in range(ni)]
        def fn(p):
            ok, code = p
            return lambda *a: (mkbool(ok(*map(vt, a))), SymVal(code(*map(vt, a))))
        ts = [[], [T1], [T1, T2]][nt]
        if checked is not None:
            ts = checked
        self.types = ts
        self.ktypes = [type('TK', (), {}) if make is not None else T2] if kind == 'map' and nt else []
        probe = c.val('probe')
        for t in ts + self.ktypes:
            isa(env, probe, t)
        self.merged = False
        if make is not None:
            self.cls = make(self, [fn(p) for p in self.inv])
            return
        dicts = [dict(__module__='pyrsistent.user') for _ in range(levels + 1)]     # base-most first
        tn = '__value_type__' if kind == 'map' else '__type__'
        if len(ts) == 1:
            dicts[0][tn] = ts[0]
        elif ts:
            if levels:
                dicts[0][tn], dicts[-1][tn] = ts[0], ts[1]
            else:
                dicts[0][tn] = tuple(ts)
        if self.ktypes:
            dicts[0]['__key_type__'] = self.ktypes[0]
        if ni:
            dicts[0]['__invariant__'] = fn(self.inv[0])
        if ni > 1:
            if levels:
                dicts[-1]['__invariant__'] = fn(self.inv[1])
            else:       # two results of one invariant
                f, g = fn(self.inv[0]), fn(self.inv[1])
                dicts[0]['__invariant__'] = lambda *a: (f(*a), g(*a))
        self.merged = ni > 1 and not levels
        b = base
        for i, d in enumerate(dicts):
            b = M('A' if i == levels else 'Base%d' % i, (b,), d)
        self.cls = b
    def typeok(self, x):
        return z3.Or(*[tz(isa(self.env, x, t)) for t in self.types]) if self.types else z3.BoolVal(True)
    def keyok(self, x):
        return z3.Or(*[tz(isa(self.env, x, t)) for t in self.ktypes]) if self.ktypes else z3.BoolVal(True)
    def alltypes(self, e):
        return z3.And(self.keyok(e[0]), self.typeok(e[1])) if self.kind == 'map' else self.typeok(e)
    def args(self, e):
        return [vt(x) for x in e] if self.kind == 'map' else [vt(e)]
    def codes(self, e):
        """[(fails, code term)] of an element"""
        a = self.args(e)
        return [(z3.Not(ok(*a)), code(*a)) for ok, code in self.inv]
    def good(self, e):
        return z3.Not(z3.Or(*[f for f, _ in self.codes(e)])) if self.inv else z3.BoolVal(True)
    def valid(self, e):
        return z3.And(self.alltypes(e), self.good(e))
    def lists(self, s):
        c = cur()
        k = c.int('sk')
        e = merge_cases(c.summarize(lambda: s.get(k)))
        cs = self.codes(e)
        cases = []
        for bits in itertools.product([0, 1], repeat=len(cs)):
            cases.append((z3.And(*[f if b else z3.Not(f) for b, (f, _) in zip(bits, cs)]), [t for b, (_, t) in zip(bits, cs) if b]))
        return Lists(s, k.t, cases)
    def forall(self, s, pred, hi=None):
        """fact: pred of all (first hi) elements"""
        n = iz(s.n) if hi is None else iz(hi)
        cur().forall(lambda t: z3.Implies(z3.And(t >= 0, t < n), pred(elem(s, t))))
def elem(s, t):
    if s.isv:
        return SymVal(s.term(t))
    if isinstance(s, Enum):
        return (SymVal(s.ek(t)), s.fm.wrap(s.ev(t)))
    return s.get(mkint(t))
B, I = z3.BoolSort(), z3.IntSort()

# ------------------------------------------------------------------ loops that add elements one by one
def check_loop(L, loc):
    if not isinstance(L.it, VIter) or isinstance(L.it.rest().n, int):
        return None
    D = cur().__dict__.get('decl')
    if D is None or D.kind == 'vec':
        return None
    reachable(loc)
    E = D.base.Evolver
    evs = {id(x): x for x in cur().keep[-1] if isinstance(x, E)}
    own = {id(x): x for x in loc.values() if isinstance(x, E)}
    if len(own) == 1:
        evs = own
    if len(evs) != 1:
        return None
    X = next(iter(evs.values()))
    return CheckLoop(L, D, X)
def slots_of(x):
    out = {}
    for k in type(x).__mro__:
        for a in getattr(k, '__slots__', ()) or ():
            try:
                out[a] = object.__getattribute__(x, a)
            except AttributeError:
                pass
    return out
class CheckLoop:
    """Invariant: the first t elements have the declared types, the list of errors has gained exactly the codes of their failing invariants,
    and the pending contents are those of before and the first t elements"""
    def __init__(self, L, D, X):
        self.L, self.D, self.X = L, D, X
    def parts(self):
        ls = [(a, v) for a, v in slots_of(self.X).items() if isinstance(v, VList)]
        ms = [v for v in slots_of(self.X).values() if isinstance(v, (AMapEv, ftok.FTokEv))]
        if len(ls) != 1 or len(ms) != 1:
            raise Unsupported('state of the evolver in a loop')
        return ls[0][1], ms[0]
    def first(self, loc, st):
        c = cur()
        self.L.mode = 'prov'
        c.havocs += 1
        it, D = self.L.it, self.D
        self.st0 = list(st)
        errs, ev = self.parts()
        if errs.frozen:
            raise Unsupported('list of errors')
        s = it.rest()
        self.fm0, self.d0, self.orig0 = ev.fm, ev.dirty, ev.orig
        E0 = errs._seq()
        if c.choose(2) == 0:
            t = self.t = c.int('t')
            c.assume(z3.And(t.t >= 0, t.t < iz(s.n)))
            self.p0 = it.pos
            it.pos = mkint(iz(it.pos) + t.t)
            self.el = s.get(t)
            D.forall(s, D.alltypes, t)
            errs.s = self.errs = fresh_seq('errs')
            self.state(ev, FM.fresh('acc'))
        else:
            it.pos = it.s.n
            D.forall(s, D.alltypes)
            fl = Flat(D.lists(s))
            errs.s = E0 + fl
            self.state(ev, self.union(ev.fm, s))
        self.mut0 = len(c.mutlog)
        self.serial0 = next(SERIAL)
        return [UNBOUND if n in self.L.targets else v for n, v in zip(self.L.names, st)]
    def union(self, fm, s):
        if self.D.kind == 'set':
            return fm_of_elements(s, fm)
        if not (isinstance(s, Enum) and s.part == 'items'):
            raise Unsupported('items of another kind')
        n = cur().int('union_n')
        cur().assume_raw(z3.And(n.t >= iz(fm.n), n.t >= iz(s.fm.n), n.t <= iz(fm.n) + iz(s.fm.n)))
        return FM(lambda q: z3.Or(fm.has(q), s.fm.has(q)), lambda q: z3.If(s.fm.has(q), s.fm.val(q), fm.val(q)), n)
    def state(self, ev, fm):
        c = cur()
        ev.fm = self.fm = fm
        if self.D.kind == 'map':
            self.X._size = fm.n
        if ev.dirty is not True:
            b = c.bool('dirty')
            ev.dirty = SymBool(b)
            if self.d0 is not False:
                c.assume_raw(z3.Implies(tz(self.d0), b))
            f0 = self.fm0
            c.forall(lambda q: z3.Or(b, z3.And(fm.has(q) == f0.has(q), z3.Implies(f0.has(q), fm.val(q) == f0.val(q)) if self.D.kind == 'map' else z3.BoolVal(True))), 'c')
            c.assume_raw(z3.Or(b, iz(fm.n) == iz(f0.n)))
    def again(self, loc, st):
        c, D = cur(), self.D
        if c.quiet:
            raise Stop()
        if not c.implied(iz(self.L.it.pos) == iz(self.p0) + self.t.t + 1):
            raise Unsupported('iterator advanced irregularly')
        for n, a, b in zip(self.L.names, self.st0, st):
            if n not in self.L.targets and a is not b and a is not UNBOUND:
                raise Unsupported('loop changes %s' % n)
        errs, ev = self.parts()
        ok = {id(errs), id(ev), id(self.X)}
        for o in c.mutlog[self.mut0:]:
            if id(o) not in ok and not (isinstance(o, VList) and o.serial > self.serial0):
                raise Unsupported('loop changes another object (%s)' % type(o).__name__)
        if ev.orig is not self.orig0:
            raise Unsupported('persistent() within the loop')
        soft = dict(soft=True)
        c.prove(D.alltypes(self.el), 'loop: an element of a wrong type does not get in', **soft)
        want = Lit([SymVal(t) for f, t in D.codes(self.el) if c.branch(f)])
        g = errs._seq()
        if isinstance(g, Concat) and g.a is self.errs and isinstance(g.b, Lit) and g.b.n == want.n and want.n > 1:
            fields.prove_codes(list(g.b.xs), list(want.xs), 'loop: exactly the failed invariants are noted')
        else:
            prove_same_seq(g, self.errs + want, 'loop: exactly the failed invariants are noted', True)
        q = c.int('q')
        regc(q.t)
        k = cls(self.el[0] if D.kind == 'map' else self.el)
        c.prove(ev.fm.has(q.t) == z3.Or(q.t == k, self.fm.has(q.t)), 'loop: the element is added and nothing else changes', **soft)
        if D.kind == 'map':
            c.prove(z3.Implies(ev.fm.has(q.t), ev.fm.val(q.t) == z3.If(q.t == k, vt(self.el[1]), self.fm.val(q.t))), 'loop: the value is the new one, others stay', **soft)
            c.prove(iz(self.X._size) == iz(ev.fm.n), 'loop: size', **soft)
        if ev.dirty is not True:
            d = tz(ev.dirty) if not isinstance(ev.dirty, bool) else z3.BoolVal(ev.dirty)
            c.prove(z3.Or(d, ev.fm.has(q.t) == self.fm0.has(q.t)), 'loop: changed contents are marked', **soft)
        raise Stop()

# ------------------------------------------------------------------ outcomes
def codes_match(D, got, want, name):
    """want: list of element sequences whose failing codes are to be reported"""
    c = cur()
    if c.quiet:
        raise Stop()
    g = got if isinstance(got, Seq) else seq_of(got)
    w = EMPTY
    for s in want:
        if isinstance(s, Lit):
            w = w + Lit([SymVal(t) for e in s.xs for f, t in D.codes(e) if c.branch(f)])
        else:
            w = w + Flat(D.lists(s))
    if isinstance(g, Lit) and isinstance(w, Lit):
        gs = []
        for x in g.xs:      # an invariant with several results reports a tuple
            gs += list(x) if isinstance(x, tuple) else as_native(x) if isinstance(x, VTuple) else [x]
        fields.prove_codes(gs, list(w.xs), name)
        return
    def flat_pair(a, b):
        pairs = not a.ls.s.isv and not b.ls.s.isv and iz(a.ls.n).eq(iz(b.ls.n))      # compared element by element below
        if a.ls.s is not b.ls.s and not pairs and not seqs_equal(a.ls.s, b.ls.s):
            raise Unsupported('codes of another sequence')
        i = c.int('i')
        c.reg(i)
        c.assume(z3.And(i.t >= 0, i.t < iz(a.ls.n)))
        for g1, t1 in a.ls.at(i.t):
            for g2, t2 in b.ls.at(i.t):
                alts = [z3.And(*[x == y for x, y in zip(t1, p)]) for p in itertools.permutations(t2)] if len(t1) == len(t2) else []
                c.prove(z3.Not(z3.And(g1, g2, z3.Not(z3.Or(*alts)))), name)
    def flatten(s):
        return flatten(s.a) + flatten(s.b) if isinstance(s, Concat) else [s]
    gp, wp = flatten(g), flatten(w)
    if len(gp) == len(wp):
        for a, b in zip(gp, wp):
            if isinstance(a, Flat) and isinstance(b, Flat):
                side(lambda: flat_pair(a, b))
            elif isinstance(a, Lit) and isinstance(b, Lit):
                fields.prove_codes(list(a.xs), list(b.xs), name)
            else:
                raise Unsupported('reported codes')
        return
    if isinstance(g, Lit):
        c.prove(iz(w.n) == g.n, name)
        return
    raise Unsupported('reported codes')

def desc(e):
    try:
        return 'raised %s: %s' % (type(e).__name__, Exception.__str__(e))
    except BaseException:
        return 'raised %s' % type(e).__name__
def run(D, added, f, name, ok=None, missing=None):
    """added: sequences of elements the operation adds, in order.  Runs f.  Returns the result, or None after the documented error.
    missing: condition under which the operation itself fails (with exception class ok)."""
    c = cur()
    ct = D.env.ct
    try:
        r = f()
    except Exception as e:
        classify(e)
        if ok is not None and isinstance(e, ok) and not isinstance(e, (ct.CheckedTypeError, ct.InvariantException)):
            c.prove(missing, name + ': fails only where the unchecked operation does', desc(e))
            return None
        if isinstance(e, ct.CheckedTypeError):
            x = e.actual_value
            key = isinstance(e, ct.CheckedKeyTypeError)
            if vterm(x) is None:
                raise Unsupported('value in the error')
            c.prove(z3.Not(D.keyok(x) if key else D.typeok(x)), name + ': a type error only for a value of another type')
            c.prove(e.source_class is D.cls, name + ': the type error names the class')
            among = []
            for s in added:
                if isinstance(s, Lit):
                    among += [vt(y[0] if key else y[1]) == vt(x) if D.kind == 'map' else vt(y) == vt(x) for y in s.xs]
                else:
                    i = None
                    among = None
                    break
            if among is not None:
                c.prove(z3.Or(*among) if among else False, name + ': the type error names the value')
            return None
        if isinstance(e, ct.InvariantException):
            codes_match(D, e.invariant_errors, added, name + ': the error lists exactly the failed invariants')
            c.prove(bad(D, added), name + ': an invariant error only if an invariant fails')
            for s in added:
                allgood(D, s, D.alltypes, name + ': types are checked first')
            return None
        if missing is not None:
            c.prove(False, name + ': the documented error', desc(e))
        else:
            c.prove(False, name + ': the documented error', desc(e))
        raise Stop()
    if missing is not None:
        c.prove(z3.Not(missing), name + ': fails where the unchecked operation does')
    for s in added:
        allgood(D, s, D.alltypes, name + ': every element added is of a declared type')
        allgood(D, s, D.good, name + ': every element added satisfies the invariants')
    return r
def bad(D, added):
    c = cur()
    out = []
    for s in added:
        if isinstance(s, Lit):
            out += [f for e in s.xs for f, _ in D.codes(e)]
        else:
            out.append(iz(Flat(D.lists(s)).n) > 0)
    return z3.Or(*out) if out else z3.BoolVal(False)
def allgood(D, s, pred, name):
    c = cur()
    if isinstance(s, Lit):
        for e in s.xs:
            c.prove(pred(e), name)
        return
    i = c.int('i')
    c.reg(i)
    if isinstance(s, Enum):
        regc(Cls(s.ek(i.t)))
    c.prove(z3.Implies(z3.And(i.t >= 0, i.t < iz(s.n)), pred(elem(s, i.t))), name)

# ------------------------------------------------------------------ vectors
VAR = [(0, 0, 0), (0, 1, 0), (1, 0, 2), (1, 1, 0), (2, 1, 1), (1, 2, 2)]
VAR1 = VAR + [(1, 2, 0), (2, 0, 0)]
def begin(env, kind, w, **k):
    c = cur()
    put(env.pv._EMPTY_PVECTOR, EMPTY)
    c.frozen[id(env.pv._EMPTY_PVECTOR)] = ('the empty vector', ())
    D = Decl(env, kind, w, **k)
    c.decl = D
    return D
def vec_of(D, name='D'):
    s = fresh_seq(name)
    D.forall(s, D.valid)
    return mkv(D.env, s, D.cls, 'an existing checked vector'), s
def is_vec(D, r, W, name):
    c = cur()
    c.prove(type(r) is D.cls, name + ': result is of the class', 'result is %s' % type(r).__name__)
    if type(r) is not D.cls:
        raise Stop()
    prove_same_seq(content(r), W, name + ': contents')
def source(D, w, s):
    env = D.env
    if w == 0:
        return VList(s, frozen='the argument')
    if w == 1:
        return VIter(s)
    if w == 2:
        return mkv(env, s, None, 'an existing vector')
    return VTuple(s)

@harness('C11', 'CheckedPVector()', ['C01'], variants=VAR)
def h_vnew(env, w):
    D = begin(env, 'vec', w)
    c = cur()
    how = c.choose(3)
    if how == 0:
        r = run(D, [], lambda: D.cls(), 'empty checked vector')
        if r is not None:
            is_vec(D, r, EMPTY, 'empty checked vector')
        return
    s = fresh_seq('init')
    x = source(D, c.choose(3), s)
    r = run(D, [s], (lambda: D.cls(x)) if how == 1 else (lambda: D.cls.create(x)), 'construction' if how == 1 else 'create')
    if r is not None:
        is_vec(D, r, s, 'construction' if how == 1 else 'create')
    if how == 2 and w[1] == 0 and c.choose(2):
        v, E = vec_of(D)
        c.prove(D.cls.create(v) is v, 'create() of an instance returns it')

@harness('C11', 'CheckedPVector.append set extend mset +', ['C01'], variants=VAR1)
def h_vupd(env, w):
    D = begin(env, 'vec', w)
    c = cur()
    v, E = vec_of(D)
    x = c.val('x')
    op = c.choose(6)
    if D.merged and op in (1, 2):
        raise Stop()
    if op == 0:
        r = run(D, [Lit([x])], lambda: v.append(x), 'append')
        W = E + Lit([x])
    elif op == 1:
        s = fresh_seq('more')
        y = source(D, c.choose(3), s)
        r = run(D, [s], lambda: v.extend(y), 'extend')
        W = E + s
    elif op == 2:
        s = fresh_seq('more')
        y = source(D, c.choose(3), s)
        r = run(D, [s], lambda: v + y, 'addition')
        W = E + s
    elif op == 5:
        r = expect_ok(lambda: v * 1, 'v * 1')
        W = E
    else:
        i = c.int('i')
        j = mkint(z3.If(i.t < 0, i.t + iz(E.n), i.t))
        f = (lambda: v.set(i, x)) if op == 3 else (lambda: v.mset(i, x))
        out = z3.Not(z3.And(iz(j) >= 0, iz(j) <= iz(E.n)))
        r = run(D, [Lit([x])], f, 'set' if op == 3 else 'mset', IndexError, out)
        if r is None:
            return
        if mkbool(iz(j) == iz(E.n)):
            W = E + Lit([x])
        else:
            W = Upd(E, j, x)
    if r is not None:
        is_vec(D, r, W, ['append', 'extend', 'addition', 'set', 'mset', 'product'][op])

def errors_of(e, other=()):
    ls = [v for a, v in slots_of(e).items() if isinstance(v, VList) and a not in other]
    if len(ls) != 1:
        raise Unsupported('state of a checked evolver')
    return ls[0]
def pending(e, other=()):
    """arbitrary list of failed invariants noted so far"""
    l = errors_of(e, other)
    l.s = E = fresh_seq('errs') if cur().choose(2) else EMPTY
    if E is not EMPTY:
        cur().assume(iz(E.n) > 0)
    return E
def codes_after(D, got, E, added, name):
    """the codes noted before, then those of the elements added"""
    c = cur()
    if c.quiet:
        raise Stop()
    g = seq_of(got)
    def flatten(s):
        return flatten(s.a) + flatten(s.b) if isinstance(s, Concat) else [s]
    if E is not EMPTY:
        gp = flatten(g)
        if gp[0] is not E:
            c.prove(iz(g.n) >= iz(E.n), name)
            i = c.int('i')
            c.reg(i)
            c.prove(z3.Implies(z3.And(i.t >= 0, i.t < iz(E.n)), vt(g.get(i)) == E.term(i.t)), name)
            return
        g = EMPTY
        for x in gp[1:]:
            g = g + x
    codes_match(D, g, added, name)
def finish(D, e, E, added, f, W, check, name, ok=None, missing=None):
    """an operation f on evolver e with noted errors E, then persistent(); W: contents expected; check(result, W)"""
    c = cur()
    ct = D.env.ct
    try:
        f()
    except Exception as x:
        classify(x)
        if ok is not None and isinstance(x, ok) and not isinstance(x, (ct.CheckedTypeError, ct.InvariantException)):
            c.prove(missing, name + ': fails only where the unchecked operation does', desc(x))
            return
        c.prove(isinstance(x, ct.CheckedTypeError), name + ': the documented error', desc(x))
        if isinstance(x, ct.CheckedTypeError):
            v = x.actual_value
            if vterm(v) is None:
                raise Unsupported('value in the error')
            c.prove(z3.Not(D.keyok(v) if isinstance(x, ct.CheckedKeyTypeError) else D.typeok(v)), name + ': a type error only for a value of another type')
        return
    if missing is not None:
        c.prove(z3.Not(missing), name + ': fails where the unchecked operation does')
    for s in added:
        allgood(D, s, D.alltypes, name + ': every element added is of a declared type')
    for again in range(2):
        try:
            r = e.persistent()
        except Exception as x:
            classify(x)
            c.prove(isinstance(x, ct.InvariantException), name + ': the documented error', desc(x))
            if isinstance(x, ct.InvariantException):
                if E is EMPTY:
                    c.prove(bad(D, added), name + ': an invariant error only if an invariant fails')
                if not again:
                    codes_after(D, x.invariant_errors, E, added, name + ': the error lists exactly the failed invariants')
            continue
        c.prove(E is EMPTY, name + ': no instance while failed invariants are pending')
        for s in added:
            allgood(D, s, D.good, name + ': every element added satisfies the invariants')
        check(r, W() if callable(W) else W)

def vec_ev(D):
    """arbitrary evolver of a checked vector"""
    c = cur()
    env = D.env
    v, C0 = vec_of(D)
    e = expect_ok(lambda: v.evolver(), 'evolver()')
    c.prove(isinstance(e, env.ct.CheckedPVector.Evolver), 'evolver() of a checked vector checks', 'is %s' % type(e).__name__)
    E = pending(e, ('_extra_tail',))
    if c.choose(2):
        T = fresh_seq('T', C0.n)
        c.assume(iz(C0.n) > 0)
        put(e, T)
        e._dirty_nodes = VDict({0: True})
    else:
        T = content(e)
    X = fresh_seq('X') if c.choose(2) else EMPTY
    e._extra_tail = VList(X)
    W = T + X
    D.forall(W, D.alltypes)
    if E is EMPTY:
        D.forall(W, D.good)
    return v, e, E, W

EVAR = [(0, 1, 0), (1, 0, 0), (1, 1, 0)]
@harness('C11', 'CheckedPVector.Evolver', ['C01'], variants=[(o,) + v for o in range(5) for v in EVAR])
def h_vev(env, w):
    op, w = w[0], w[1:]
    D = begin(env, 'vec', w)
    c = cur()
    v, e, E, W = vec_ev(D)
    x = c.val('x')
    chk = lambda r, W: is_vec(D, r, W, 'evolver')
    if op == 0:
        finish(D, e, E, [Lit([x])], lambda: e.append(x), W + Lit([x]), chk, 'append')
    elif op == 1:
        s = fresh_seq('more')
        y = source(D, c.choose(2), s)
        finish(D, e, E, [s], lambda: e.extend(y), W + s, chk, 'extend')
    elif op == 2:
        i = c.int('i')
        j = mkint(z3.If(i.t < 0, i.t + iz(W.n), i.t))
        finish(D, e, E, [Lit([x])], (lambda: env.H.setitem(e, i, x)) if c.choose(2) else (lambda: e.set(i, x)), lambda: W + Lit([x]) if mkbool(iz(j) == iz(W.n)) else Upd(W, j, x), chk, 'set', IndexError, z3.Not(z3.And(iz(j) >= 0, iz(j) <= iz(W.n))))
    elif op == 3:
        i = c.int('i')
        j = mkint(z3.If(i.t < 0, i.t + iz(W.n), i.t))
        finish(D, e, E, [], (lambda: env.H.delitem(e, i)) if c.choose(2) else (lambda: e.delete(i)), lambda: Removed(W, j), chk, 'delete', IndexError, z3.Not(z3.And(iz(j) >= 0, iz(j) < iz(W.n))))
    else:
        finish(D, e, E, [], lambda: None, W, chk, 'persistent')

# ------------------------------------------------------------------ sets
def set_of(D, name='s'):
    c = cur()
    fm = FM.fresh(name)
    p = object.__new__(D.cls)
    p._map = AMap(fm)
    c.frozen[id(p)] = ('an existing checked set', ())
    c.keep.append(p)
    return p, fm
def is_set(D, r, has, name):
    c = cur()
    c.prove(type(r) is D.cls, name + ': result is of the class', 'result is %s' % type(r).__name__)
    if type(r) is not D.cls:
        raise Stop()
    if not isinstance(r._map, AMap):
        raise Unsupported('map behind a set')
    q = c.int('q')
    regc(q.t)
    c.prove(r._map.fm.has(q.t) == has(q.t), name + ': elements')
def elements(D, w):
    """(argument, sequence of its elements in the order iterated, has)"""
    c = cur()
    if w < 2:
        s = fresh_seq('its')
        return source(D, w, s), s
    fm = FM.fresh('o')
    if w == 2:
        p = object.__new__(D.env.ps.PSet)
        p._map = AMap(fm)
        return p, fm.enum.keys()
    return ASet(fm, w == 4), fm.enum.keys()

@harness('C11', 'CheckedPSet()', ['C01'], variants=VAR)
def h_snew(env, w):
    D = begin(env, 'set', w)
    c = cur()
    how = c.choose(3)
    if how == 0:
        r = run(D, [], lambda: D.cls(), 'empty checked set')
        if r is not None:
            is_set(D, r, lambda q: z3.BoolVal(False), 'empty checked set')
        return
    x, s = elements(D, c.choose(4))
    r = run(D, [s], (lambda: D.cls(x)) if how == 1 else (lambda: D.cls.create(x)), 'construction' if how == 1 else 'create')
    if r is not None:
        is_set(D, r, fm_of_elements(s).has, 'construction' if how == 1 else 'create')

@harness('C11', 'CheckedPSet.add update remove discard', ['C01'], variants=VAR1)
def h_supd(env, w):
    D = begin(env, 'set', w)
    c = cur()
    p, fm = set_of(D)
    x = c.val('x')
    q0 = cls(x)
    regc(q0)
    op = c.choose(4)
    if D.merged and op == 1:
        raise Stop()
    if op == 0:
        r = run(D, [Lit([x])], lambda: p.add(x), 'add')
        has = lambda q: z3.Or(q == q0, fm.has(q))
    elif op == 1:
        y, s = elements(D, c.choose(4))
        r = run(D, [s], lambda: p.update(y), 'update')
        f2 = fm_of_elements(s)
        has = lambda q: z3.Or(fm.has(q), f2.has(q))
    elif op == 2:
        r = run(D, [], lambda: p.remove(x), 'remove', KeyError, z3.Not(fm.has(q0)))
        has = lambda q: z3.And(q != q0, fm.has(q))
    else:
        r = run(D, [], lambda: p.discard(x), 'discard')
        has = lambda q: z3.And(q != q0, fm.has(q))
    if r is not None:
        is_set(D, r, has, ['add', 'update', 'remove', 'discard'][op])

@harness('C11', 'CheckedPSet.Evolver', ['C01'], variants=EVAR)
def h_sev(env, w):
    D = begin(env, 'set', w)
    c = cur()
    p, f0 = set_of(D)
    e = expect_ok(lambda: p.evolver(), 'evolver()')
    c.prove(isinstance(e, env.ct.CheckedPSet.Evolver), 'evolver() of a checked set checks', 'is %s' % type(e).__name__)
    E = pending(e)
    fm = f0
    if c.choose(2):
        evs = [v for v in slots_of(e).values() if isinstance(v, AMapEv)]
        if len(evs) != 1:
            raise Unsupported('state of a checked evolver')
        fm = evs[0].fm = FM.fresh('cur')
        evs[0].dirty = True
    x = c.val('x')
    q0 = cls(x)
    regc(q0)
    chk = lambda r, has: is_set(D, r, has[0], 'evolver')
    op = c.choose(3)
    if op == 0:
        finish(D, e, E, [Lit([x])], lambda: e.add(x), [lambda q: z3.Or(q == q0, fm.has(q))], chk, 'add')
    elif op == 1:
        finish(D, e, E, [], lambda: e.remove(x), [lambda q: z3.And(q != q0, fm.has(q))], chk, 'remove', KeyError, z3.Not(fm.has(q0)))
    else:
        finish(D, e, E, [], lambda: None, [fm.has], chk, 'persistent')

# ------------------------------------------------------------------ maps
def map_of(D, name='m'):
    c = cur()
    fm = FM.fresh(name)
    p = ftok.newmap(D.env, fm, D.cls)
    c.frozen[id(p)] = ('an existing checked map', ('_cached_hash',))
    c.keep.append(p)
    return p, fm
def is_map(D, r, W, name):
    c = cur()
    c.prove(type(r) is D.cls, name + ': result is of the class', 'result is %s' % type(r).__name__)
    if type(r) is not D.cls:
        raise Stop()
    b = object.__getattribute__(r, '_buckets')
    if not isinstance(b, ftok.FTok):
        raise Unsupported('table of a map')
    c.prove(iz(r._size) == iz(b.fm.n), name + ': length', soft=True)
    same_fm(b.fm, W, name + ': contents', n=False)
def items(D, w):
    fm = FM.fresh('o')
    if w == 0:
        return ADict(fm, frozen='the argument'), fm
    if w == 1:
        return ftok.newmap(D.env, fm), fm
    return AMapping(fm), fm
def union(fm, o):
    return FM(lambda q: z3.Or(fm.has(q), o.has(q)), lambda q: z3.If(o.has(q), o.val(q), fm.val(q)), cur().int('union_n'))

@harness('C11', 'CheckedPMap()', ['C01'], variants=VAR)
def h_mnew(env, w):
    D = begin(env, 'map', w)
    c = cur()
    how = c.choose(3)
    if how == 0:
        r = run(D, [], lambda: D.cls(), 'empty checked map')
        if r is not None:
            is_map(D, r, fm_empty(), 'empty checked map')
        return
    x, fm = items(D, c.choose(3))
    r = run(D, [fm.enum], (lambda: D.cls(x)) if how == 1 else (lambda: D.cls.create(x)), 'construction' if how == 1 else 'create')
    if r is not None:
        is_map(D, r, fm, 'construction' if how == 1 else 'create')

@harness('C11', 'CheckedPMap.set remove discard update', ['C01'], variants=VAR1)
def h_mupd(env, w):
    D = begin(env, 'map', w)
    c = cur()
    p, fm = map_of(D)
    k, x = c.val('k'), c.val('x')
    q0 = cls(k)
    regc(q0)
    op = c.choose(4)
    if D.merged and op == 1:
        raise Stop()
    if op == 0:
        r = run(D, [Lit([(k, x)])], lambda: p.set(k, x), 'set')
        W = lambda: fm.set(k, x)
    elif op == 1:
        y, o = items(D, c.choose(3))
        r = run(D, [o.enum], lambda: p.update(y), 'update')
        W = lambda: union(fm, o)
    elif op == 2:
        r = run(D, [], lambda: p.remove(k), 'remove', KeyError, z3.Not(fm.has(q0)))
        W = lambda: fm.remove(k)
    else:
        r = run(D, [], lambda: p.discard(k), 'discard')
        W = lambda: fm.remove(k)
    if r is not None:
        is_map(D, r, W(), ['set', 'update', 'remove', 'discard'][op])

@harness('C11', 'CheckedPMap.Evolver', ['C01'], variants=EVAR)
def h_mev(env, w):
    D = begin(env, 'map', w)
    c = cur()
    p, f0 = map_of(D)
    e = expect_ok(lambda: p.evolver(), 'evolver()')
    c.prove(isinstance(e, env.ct.CheckedPMap.Evolver), 'evolver() of a checked map checks', 'is %s' % type(e).__name__)
    E = pending(e)
    fm = f0
    if c.choose(2):
        evs = [v for v in slots_of(e).values() if isinstance(v, ftok.FTokEv)]
        if len(evs) != 1:
            raise Unsupported('state of a checked evolver')
        fm = evs[0].fm = FM.fresh('cur')
        evs[0].dirty = True
        e._size = fm.n
    k, x = c.val('k'), c.val('x')
    q0 = cls(k)
    regc(q0)
    chk = lambda r, W: is_map(D, r, W[0], 'evolver')
    op = c.choose(3)
    if op == 0:
        finish(D, e, E, [Lit([(k, x)])], (lambda: e.set(k, x)) if c.choose(2) else (lambda: env.H.setitem(e, k, x)), [fm.set(k, x)], chk, 'set')
    elif op == 1:
        finish(D, e, E, [], (lambda: e.remove(k)) if c.choose(2) else (lambda: env.H.delitem(e, k)), [fm.remove(k)], chk, 'remove', KeyError, z3.Not(fm.has(q0)))
    else:
        finish(D, e, E, [], lambda: None, [fm], chk, 'persistent')

# ------------------------------------------------------------------ elements that are checked themselves; restoring; serializing
def nested(env, kind, w):
    CT = checked_type(env)
    cur().__dict__.setdefault('isa', {})
    D = begin(env, kind, w[:3], checked=[[CT], [T1, CT]][w[3]])
    D.CT = CT
    return D
NVAR = [(1, 0, 0, 0), (1, 1, 0, 1), (1, 1, 1, 0)]
def conv(D, t):
    """the value stored for a given one"""
    x = SymVal(t)
    return z3.If(D.typeok(x), t, D.CT.Cr(t))

@harness('C11', 'create() of checked collections of checked elements', ['C16'], variants=[(k,) + w for k in ('vec', 'set', 'map') for w in NVAR])
def h_nested(env, w):
    kind = w[0]
    D = nested(env, kind, w[1:])
    c = cur()
    extra = bool(c.choose(2))
    def passed_on():
        c.prove(all(bool(v) is extra for v in D.CT.made), 'ignore_extra is passed on to the elements')
    if kind == 'map':
        x, fm = items(D, c.choose(3))
        W = FM(fm.has, lambda q: conv(D, fm.val(q)), fm.n)
        W.enum0 = fm.enum
        s = Fn(fm.n, gf=lambda i: (SymVal(fm.enum.ek(iz(i))), SymVal(conv(D, fm.enum.ev(iz(i))))))
        r = run(D, [s], (lambda: D.cls.create(x, ignore_extra=True)) if extra else lambda: D.cls.create(x), 'create')
        passed_on()
        if r is not None:
            is_map(D, r, W, 'create')
        return
    src = fresh_seq('data')
    s = Fn(src.n, tf=lambda j: conv(D, src.term(j)))
    x = source(D, c.choose(3) if kind == 'vec' else c.choose(2), src)
    r = run(D, [s], (lambda: D.cls.create(x, ignore_extra=True)) if extra else lambda: D.cls.create(x), 'create')
    passed_on()
    if r is not None:
        is_vec(D, r, s, 'create') if kind == 'vec' else is_set(D, r, fm_of_elements(s).has, 'create')

def instance(D):
    """an arbitrary instance: (it, contents)"""
    if D.kind == 'vec':
        return vec_of(D)
    x, fm = set_of(D) if D.kind == 'set' else map_of(D)
    en = fm.enum
    cur().forall(lambda t: z3.Implies(z3.And(t >= 0, t < iz(fm.n)), D.valid(elem(en.keys() if D.kind == 'set' else en, t))))
    return x, fm
def same_contents(D, r, cont, name):
    if D.kind == 'vec':
        is_vec(D, r, cont, name)
    elif D.kind == 'set':
        is_set(D, r, cont.has, name)
    else:
        is_map(D, r, cont, name)

@harness('C16', 'pickling of checked collections', ['C11'], variants=[(k,) + w for k in ('vec', 'set', 'map') for w in VAR])
def h_reduce(env, w):
    D = begin(env, w[0], w[1:])
    c = cur()
    x, cont = instance(D)
    f, args = expect_ok(lambda: x.__reduce__(), '__reduce__')
    c.prove(not isinstance(args, SymVal) and not any(a is x for a in as_native(args)), 'what is pickled is not the instance itself')
    try:
        r = f(*as_native(args))
    except Exception as e:
        classify(e)
        c.prove(False, 'restoring a pickled instance succeeds', desc(e))
        return
    same_contents(D, r, cont, 'restored instance')

@harness('C16', 'pickling of checked collections of checked elements', ['C11'], variants=[(k,) + w for k in ('vec', 'set', 'map') for w in NVAR])
def h_reduce2(env, w):
    D = nested(env, w[0], w[1:])
    c = cur()
    x, cont = instance(D)
    f, args = expect_ok(lambda: x.__reduce__(), '__reduce__')
    try:
        r = f(*as_native(args))
    except Exception as e:
        classify(e)
        c.prove(False, 'restoring a pickled instance succeeds', desc(e))
        return
    same_contents(D, r, cont, 'restored instance')

@harness('C16', 'serialize() of checked collections', variants=[(k, m) + w for k in ('vec', 'set', 'map') for m in ('default', 'custom') for w in NVAR])
def h_serialize(env, w):
    kind, mode = w[:2]
    D = nested(env, kind, w[2:])
    c = cur()
    CT = D.CT
    fmt = c.val('format')
    given = bool(c.choose(2))
    if mode == 'custom':
        Ser = c.fun('ser', *([VS] * (3 if kind != 'map' else 4)))
        SK = c.fun('serk', VS, VS)
        base, want = D.cls, Ser
        def fn(self, f, *a):
            ft = vt(f) if f is not None else NONE
            if kind == 'map':
                return a[0], SymVal(Ser(ft, vt(a[0]), vt(a[1])))
            return SymVal(Ser(ft, vt(a[0])))
        D.cls = type(base)('B', (base,), dict(__module__='pyrsistent.user', __serializer__=fn))
        F = lambda *a: Ser(fmt.t if given else NONE, *a)
    else:
        F = lambda *a: z3.If(ischecked(env, SymVal(a[-1])), CT.Se(a[-1]), a[-1])
    x, cont = instance(D)
    plain = kind == 'map' and bool(c.choose(2))
    if plain:
        c.forall(lambda i: z3.Implies(z3.And(i >= 0, i < iz(cont.n)), z3.Not(ischecked(env, SymVal(cont.enum.ek(i))))))
    r = expect_ok(lambda: x.serialize(fmt) if given else x.serialize(), 'serialize()')
    if kind == 'vec':
        if not isinstance(r, VList):
            c.prove(False, 'serialize() of a vector is a list', type(r).__name__)
            return
        prove_same_seq(r._seq(), Fn(cont.n, tf=lambda j: F(cont.term(j))), 'every element serialized, in order')
    elif kind == 'set':
        if not isinstance(r, ASet):
            c.prove(False, 'serialize() of a set is a set', type(r).__name__)
            return
        q = c.int('q')
        regc(q.t)
        s = cont.enum.keys()
        c.prove(r.fm.has(q.t) == fm_of_elements(Fn(s.n, tf=lambda j: F(s.term(j)))).has(q.t), 'the serialized elements')
    else:
        if not isinstance(r, ADict):
            c.prove(False, 'serialize() of a map is a dict', type(r).__name__)
            return
        e = cont.enum
        t = c.int('t')
        c.reg(t)
        regc(Cls(e.ek(t.t)))
        inr = z3.And(t.t >= 0, t.t < iz(cont.n))
        k = e.ek(t.t)
        ks = k if mode == 'custom' else z3.If(ischecked(env, SymVal(k)), CT.Se(k), k)
        regc(Cls(ks))
        c.prove(z3.Implies(inr, r.fm.has(Cls(ks))), 'every key serialized')
        q = c.int('q')
        regc(q.t)
        if plain or mode == 'custom':
            c.prove(z3.Implies(inr, r.fm.val(Cls(ks)) == F(k, e.ev(t.t))), 'every value serialized')
            c.prove(z3.Implies(r.fm.has(q.t), cont.has(q.t)), 'no other keys')

@harness('C16', 'create(serialize(x)) of checked collections: induction step', variants=[(k,) + w for k in ('vec', 'set', 'map') for w in NVAR if k != 'set' or not w[3]])
def h_roundtrip(env, w):
    """for the elements: create(serialize(e)) is e (induction hypothesis), equal data give equal instances, and plain data is not itself of a declared checked type"""
    kind = w[0]
    D = nested(env, kind, w[1:])
    c = cur()
    CT = D.CT
    x, cont = instance(D)
    s = cont if kind == 'vec' else cont.enum.keys()
    CC = c.fun('created_class', I, I)
    def hyp(t):
        e = SymVal(t)
        regc(Cls(CT.Se(t)))
        return z3.And(CC(Cls(CT.Se(t))) == Cls(t), z3.Implies(tz(isa(env, e, CT)), z3.And(CT.Cr(CT.Se(t)) == t, z3.Not(D.typeok(SymVal(CT.Se(t)))))), z3.Implies(z3.Not(tz(isa(env, e, CT))), z3.Not(ischecked(env, e))))
    if kind == 'map':
        CT.plain.append(cont.enum.ek)
        c.forall(lambda i: z3.Implies(z3.And(i >= 0, i < iz(cont.n)), hyp(cont.enum.ev(i))))
    else:
        c.forall(lambda i: z3.Implies(z3.And(i >= 0, i < iz(s.n)), hyp(s.term(i))))
    def setof(u):
        """the set of the serialized elements: by the hypothesis each of them once"""
        if kind != 'set' or not u.isv or not iz(u.n).eq(iz(s.n)):
            return None
        i = c.int('si')
        c.reg(i)
        if not c.implied(z3.Implies(z3.And(i.t >= 0, i.t < iz(s.n)), u.term(i.t) == CT.Se(s.term(i.t)))):
            return None
        en = cont.enum
        at = lambda q: en.ei(CC(q))
        def has(q):
            regc(CC(q))
            return z3.And(cont.has(CC(q)), Cls(CT.Se(en.ek(at(q)))) == q)
        fm = FM(has, lambda q: NONE, cont.n)
        e = Enum(fm, base=en)
        e.ek, e.ei = (lambda t: CT.Se(en.ek(t))), at
        fm._e = (c, e)
        return ASet(fm)
    c.setof = setof
    try:
        r = D.cls.create(x.serialize())
    except Exception as e:
        classify(e)
        c.prove(False, 'create(serialize(x)) succeeds', desc(e))
        return
    same_contents(D, r, cont, 'create(serialize(x))')

@harness('C16', 'pvector_field pset_field pmap_field', ['C11', 'C12', 'C13'], variants=[(k, n, o) for k in ('vec', 'set', 'map') for n in (0, 1) for o in (0, 1)])
def h_seqfield(env, w):
    """the generated collection type, factory, initial value, pickling"""
    kind, checked, optional = w
    c = cur()
    env.fc = env.get('_field_common')
    CT = checked_type(env)
    T = CT if checked else type('T', (), {})
    box = []
    inv = bool(c.choose(2)) and kind != 'map'
    def make(D, fns):
        kw = {}
        if optional or c.choose(2):
            kw['optional'] = bool(optional)
        if fns:
            kw['item_invariant'] = fns[0]
        if kind == 'map':
            f = expect_ok(lambda: env.fc.pmap_field(D.ktypes[0], T, **kw), 'pmap_field')
        else:
            f = expect_ok(lambda: getattr(env.fc, 'pvector_field' if kind == 'vec' else 'pset_field')(T, **kw), 'field')
        box.append(f)
        ts = [t for t in as_native(f.type) if t is not type(None)]
        c.prove(len(ts) == 1 and (len(as_native(f.type)) == 2) == bool(optional), 'the field takes the collection, and None if optional', '%s' % (f.type,))
        return ts[0]
    D = begin(env, kind, (1, 1 if inv else 0, 0), checked=[T], make=make)
    D.CT = CT
    f = box[0]
    c.prove(issubclass(D.cls, D.base), 'the type of the field is a checked collection')
    c.prove(f.mandatory is True, 'the field is mandatory')
    how = c.choose(4)
    if how == 0:
        r = f.initial() if callable(f.initial) else f.initial
        same_contents(D, r, EMPTY if kind == 'vec' else fm_empty(), 'initial value')
    elif how == 1:
        x, cont = instance(D)
        c.prove(f.factory(x) is x, 'an instance of the type is kept')
        g, args = expect_ok(lambda: x.__reduce__(), '__reduce__')
        try:
            r = g(*as_native(args))
        except Exception as e:
            classify(e)
            c.prove(False, 'restoring a pickled instance succeeds', desc(e))
            return
        same_contents(D, r, cont, 'restored instance')
    elif how == 2:
        if optional:
            c.prove(f.factory(None) is None, 'None is kept')
    else:
        extra = bool(c.choose(2))
        fac = (lambda x: f.factory(x, ignore_extra=True)) if extra else f.factory
        cv = (lambda t: conv(D, t)) if checked else (lambda t: t)
        if kind == 'map':
            x, fm = items(D, c.choose(3))
            W = FM(fm.has, lambda q: cv(fm.val(q)), fm.n)
            s = Fn(fm.n, gf=lambda i: (SymVal(fm.enum.ek(iz(i))), SymVal(cv(fm.enum.ev(iz(i))))))
            r = run(D, [s], lambda: fac(x), 'factory')
        else:
            src = fresh_seq('data')
            s = Fn(src.n, tf=lambda j: cv(src.term(j)))
            x = source(D, c.choose(2), src)
            r = run(D, [s], lambda: fac(x), 'factory')
            W = s if kind == 'vec' else fm_of_elements(s)
        c.prove(all(bool(v) is extra for v in CT.made), 'ignore_extra is passed on to the elements')
        if r is not None:
            same_contents(D, r, W, 'factory')
