"""Finite maps over equality classes, bucket tables, and the contracts of vectors, dicts and maps used in place of them."""
import core, rt, z3
from rt import *

I, B = z3.IntSort(), z3.BoolSort()
def cls(x):
    """equality class of an element"""
    t = vterm(x)
    if t is None:
        raise Unsupported('key that is not an element: %s' % type(x).__name__)
    return Cls(t)
def regc(q):
    cur().reg(q, 'c')
def modt(q, n):
    """index of the bucket of class q in a table of n buckets: exactly the term of hash(k) % n"""
    return iz(SymInt(Hsh(q)) % n)

class FM:
    """finite map: has: class -> Bool, val: class -> V term (or Int term: kind 'int'), n: number of keys"""
    def __init__(self, has, val, n, kind='V'):
        self.has, self.val, self.n, self.kind = has, val, n, kind
        self._e = self._h = self.keyt = None     # keyt: class -> term of the key that is kept
        c = cur()
        c.assume_raw(iz(n) >= 0)
        c.forall(lambda q: z3.Implies(has(q), iz(n) >= 1), 'c')
        self._some()
    def _some(self):
        """n > 0: there is a key"""
        w = cur().int('somekey')
        self.w = w
        cur().assume_raw(z3.Implies(iz(self.n) >= 1, self.has(w.t)))
        regc(w.t)
    def wrap(self, t):
        """value of the code for a value term"""
        return SymVal(z3.simplify(t)) if self.kind == 'V' else mkint(t)
    def unwrap(self, v):
        t = vterm(v) if self.kind == 'V' else iz(v) if isint(v) and not isinstance(v, bool) else None
        if t is None:
            raise Unsupported('value of another kind in a map')
        return t
    def at(self, q):
        return self.wrap(self.val(q))
    def eqv(self, a, b):
        return Cls(a) == Cls(b) if self.kind == 'V' else a == b
    @staticmethod
    def fresh(name='m', n=None, kind='V'):
        c = cur()
        h, v = c.fun(name + '_has', I, B), c.fun(name + '_val', I, VS if kind == 'V' else I)
        if n is None:
            n = c.int(name + '_n')
            c.assume(n >= 0)
        return FM(lambda q: h(q), lambda q: v(q), n, kind)
    @property
    def enum(self):
        if self._e is None or self._e[0] is not cur():
            self._e = (cur(), Enum(self))
        return self._e[1]
    @property
    def h(self):
        """hash of frozenset(items): a function of the contents"""
        if self._h is None or self._h[0] is not cur():
            self._h = (cur(), cur().int('fmhash'))
        return self._h[1]
    def set(self, k, v):
        q0 = cls(k)
        t = self.unwrap(v)
        regc(q0)
        return FM(lambda q: z3.Or(q == q0, self.has(q)), lambda q: z3.If(q == q0, t, self.val(q)), mkint(iz(self.n) + z3.If(self.has(q0), 0, 1)), self.kind)
    def remove(self, k):
        q0 = cls(k)
        regc(q0)
        return FM(lambda q: z3.And(q != q0, self.has(q)), self.val, mkint(iz(self.n) - z3.If(self.has(q0), 1, 0)), self.kind)
def fm_empty(kind='V'):
    return FM(lambda q: z3.BoolVal(False), lambda q: NONE if kind == 'V' else z3.IntVal(0), 0, kind)

class Enum(Seq):
    """the items of a finite map in some order, each key once"""
    def __init__(self, fm, part='items', base=None):
        c = cur()
        self.fm, self.n, self.part = fm, fm.n, part
        self.isv = part == 'keys' or part == 'values' and fm.kind == 'V'
        if base is not None:
            self.ek, self.ev, self.ei = base.ek, base.ev, base.ei
            return
        ek, ev, ei = self.ek, self.ev, self.ei = c.fun('ek', I, VS), c.fun('ev', I, VS if fm.kind == 'V' else I), c.fun('ei', I, I)
        n = iz(fm.n)
        c.__dict__.setdefault('enums', {})[ek.name()] = self
        c.forall(lambda t: z3.Implies(z3.And(t >= 0, t < n), z3.And(fm.has(Cls(ek(t))), ev(t) == fm.val(Cls(ek(t))), ei(Cls(ek(t))) == t)))
        def q(q):
            c.reg(ei(q))
            return z3.Implies(fm.has(q), z3.And(ei(q) >= 0, ei(q) < n, Cls(ek(ei(q))) == q, ev(ei(q)) == fm.val(q)))
        c.forall(q, 'c')
        if fm.keyt is not None:
            c.forall(lambda t: z3.Implies(z3.And(t >= 0, t < n), ek(t) == fm.keyt(Cls(ek(t)))))
    def keys(self): return Enum(self.fm, 'keys', self)
    def values(self): return Enum(self.fm, 'values', self)
    def term(self, t):
        if not self.isv:
            raise Unsupported('items as terms')
        return (self.ek if self.part == 'keys' else self.ev)(t)
    def get(self, i):
        cur().reg(i)
        t = iz(i)
        regc(Cls(self.ek(t)))
        k, v = SymVal(z3.simplify(self.ek(t))), self.fm.wrap(self.ev(t))
        return (k, v) if self.part == 'items' else k if self.part == 'keys' else v

def fm_eq(a, b):
    """a == b: same keys, equal values; Boolean with its meaning in both directions"""
    c = cur()
    if a is b:
        return True
    e, w = c.bool('mapeq'), c.int('w')
    ok = lambda q: z3.And(a.has(q) == b.has(q), z3.Implies(a.has(q), a.eqv(a.val(q), b.val(q))))
    c.assume_raw(z3.Implies(e, z3.And(iz(a.n) == iz(b.n), iz(a.h) == iz(b.h))))
    c.forall(lambda q: z3.Implies(e, ok(q)), 'c')
    c.assume_raw(z3.Implies(z3.Not(e), z3.Not(ok(w.t))))
    regc(w.t)
    return SymBool(e)

def same_fm(a, b, name, soft=False, n=True):
    """obligation: the two finite maps agree at an arbitrary class"""
    c = cur()
    if c.quiet:
        return
    if n:
        c.prove(iz(a.n) == iz(b.n), name + ': number of keys', soft=soft)
    q = c.int('q')
    regc(q.t)
    c.prove(a.has(q.t) == b.has(q.t), name + ': keys', soft=soft)
    c.prove(z3.Implies(b.has(q.t), a.val(q.t) == b.val(q.t)), name + ': values', soft=soft)

# ------------------------------------------------------------------ bucket tables
class BTab(Seq):
    """table of n buckets that represents fm: every key once, in the bucket its hash selects"""
    isv = False
    def __init__(self, n, fm, label='a bucket of an existing map', frozen=True):
        c = cur()
        self.n, self.fm, self.label = n, fm, label if frozen else None
        self.bl, self.bn, self.bk, self.bv, self.pos = c.fun('bl', I, I), c.fun('bnone', I, B), c.fun('bk', I, I, VS), c.fun('bv', I, I, VS), c.fun('pos', I, I)
        self.kids, self.known = [], []
        c.assume_raw(iz(n) > 0)
        c.__dict__.setdefault('tabs', []).append(self)
        c.forall(self.clsfact, 'c')
    def clsfact(self, q):
        c = cur()
        j, p = modt(q, self.n), self.pos(q)
        c.reg(p)
        c.assume_raw(self.entry(j, p))
        return z3.And(self.fm.has(q) == z3.And(p >= 0, p < self.bl(j), Cls(self.bk(j, p)) == q), z3.Implies(self.fm.has(q), self.bv(j, p) == self.fm.val(q)))
    def entry(self, j, i):
        k = Cls(self.bk(j, i))
        return z3.And(self.bl(j) >= 0, self.bl(j) <= iz(self.fm.n), z3.Implies(self.bn(j), self.bl(j) == 0),
                      z3.Implies(z3.And(i >= 0, i < self.bl(j), j >= 0, j < iz(self.n)), z3.And(modt(k, self.n) == j, self.pos(k) == i, self.fm.has(k), self.fm.val(k) == self.bv(j, i))))
    def bucket(self, j):
        """facts about bucket j"""
        if not any(j.eq(x) for x in self.known):
            self.known.append(j)
            cur().forall(lambda i: self.entry(j, i))
            cur().assume_raw(z3.And(self.bl(j) >= 0, z3.Implies(self.bn(j), self.bl(j) == 0)))
    def get(self, i):
        c = cur()
        j = z3.simplify(iz(i))
        for k, b in self.kids:
            if k.eq(j) or c.branch(k == j):
                return b
        self.bucket(j)
        if c.branch(self.bn(j)):
            return None
        b = VList(Fn(mkint(self.bl(j)), gf=lambda t: (SymVal(self.bk(j, iz(t))), SymVal(self.bv(j, iz(t))))), frozen=self.label)
        b.s.bucket_of = (self, j)
        if self.label is None:
            self.kids.append((j, b))
        return b
    @property
    def enum(self):
        return self.fm.enum

def blen(s, j):
    """number of entries of bucket j"""
    if isinstance(s, BTab):
        s.bucket(j)
        t = s.bl(j)
        for k, b in s.kids:
            t = z3.If(k == j, iz(b.s.n), t)
        return t
    if isinstance(s, Upd):
        return z3.If(j == iz(s.i), blen1(s.v), blen(s.a, j))
    if isinstance(s, Cyc) and isinstance(s.a, Lit) and all(x is None for x in s.a.xs):
        return z3.IntVal(0)
    if isinstance(s, Lit):
        t = z3.IntVal(0)
        for k in range(s.n):
            t = z3.If(j == k, blen1(s.xs[k]), t)
        return t
    raise Unsupported('bucket table of kind %s' % type(s).__name__)
def blen1(v):
    if v is None:
        return z3.IntVal(0)
    if isinstance(v, VList):
        return iz(v.s.n)
    raise Unsupported('bucket of kind %s' % type(v).__name__)
def total(s):
    """number of entries of the table (sum over the buckets)"""
    if isinstance(s, BTab):
        t = iz(s.fm.n)
        for k, b in s.kids:
            t = t - s.bl(k) + iz(b.s.n)
        return t
    if isinstance(s, Upd):
        return total(s.a) - blen(s.a, iz(s.i)) + blen1(s.v)
    if isinstance(s, Cyc) and isinstance(s.a, Lit) and all(x is None for x in s.a.xs):
        return z3.IntVal(0)
    if isinstance(s, Lit):
        return sum([blen1(x) for x in s.xs], z3.IntVal(0))
    raise Unsupported('bucket table of kind %s' % type(s).__name__)

def entry_of(b, p, name, soft):
    e = b.s.get(mkint(p))
    if not (isinstance(e, tuple) and len(e) == 2 and all(vterm(x) is not None for x in e)):
        cur().prove(False, name + ': buckets hold pairs', 'entry %r' % (e,), soft=soft)
        raise Stop()
    return e

def check_table(s, fm, name, soft=False):
    """obligations: s is a well-formed bucket table for fm"""
    c = cur()
    if c.quiet:
        return
    soft = soft or c.soft
    n = s.n
    c.prove(iz(n) > 0, name + ': there is a bucket', soft=soft)
    c.prove(total(s) == iz(fm.n), name + ': number of entries', soft=soft)
    def bucket(j):
        b = s.get(mkint(j))
        if b is not None and not isinstance(b, VList):
            c.prove(False, name + ': a bucket is a list or None', soft=soft)
            raise Stop()
        return b
    def entries():
        j, p = c.int('j'), c.int('p')
        c.assume(z3.And(j.t >= 0, j.t < iz(n)))
        c.reg(p)
        b = bucket(j.t)
        if b is None:
            raise Stop()
        c.assume(z3.And(p.t >= 0, p.t < iz(b.s.n)))
        k, v = entry_of(b, p.t, name, soft)
        q = cls(k)
        regc(q)
        c.prove(modt(q, n) == j.t, name + ': every entry is in the bucket of its hash', soft=soft)
        c.prove(fm.has(q), name + ': no other keys', soft=soft)
        c.prove(vterm(v) == fm.val(q), name + ': values', soft=soft)
        r = c.int('r')
        c.reg(r)
        c.assume(z3.And(r.t >= 0, r.t < iz(b.s.n), r.t != p.t))
        k2, _ = entry_of(b, r.t, name, soft)
        c.prove(cls(k2) != q, name + ': each key once', soft=soft)
    side(entries)
    def keys():
        q = c.int('q')
        regc(q.t)
        c.assume(fm.has(q.t))
        b = bucket(modt(q.t, n))
        if b is None:
            c.prove(False, name + ': every key is found', soft=soft)
            raise Stop()
        cand = [z3.IntVal(0), iz(b.s.n) - 1]
        for t in c.__dict__.get('tabs', []):
            p = t.pos(q.t)
            cand += [p, p + 1, p - 1]
        found = []
        for p in cand:
            k = summ_key(b, p)
            found.append(z3.And(p >= 0, p < iz(b.s.n), k == q.t))
        c.prove(z3.Or(*found), name + ': every key is found', soft=soft)
    side(keys)
def summ_key(b, p):
    cases = cur().summarize(lambda: b.s.get(mkint(p)))
    e = merge_cases(cases)
    return cls(e[0])

# ------------------------------------------------------------------ contract of the vector, as used for buckets
class AVec:
    """persistent vector by its contract (C02)"""
    def __init__(self, s):
        self.s = s
    def vsetattr(self, a, v):
        frame_violation('a vector')
    def _vc_seq(self): return self.s
    def vlen(self): return self.s.n
    def vtruth(self): return self.s.n > 0
    def __getitem__(self, i):
        if isinstance(i, VSlice):
            return AVec(seq_slice(self.s, i))
        return seq_index(self.s, i)
    def extend(self, it):
        s = seq_of(it)
        if isinstance(s.n, int) and s.n == 0:
            return self
        return AVec(self.s + s)
    def append(self, x): return AVec(self.s + Lit([x]))
    def set(self, i, v):
        e = self.evolver()
        e[i] = v
        return e.persistent()
    def tolist(self): return VList(self.s)
    def evolver(self): return AVecEv(self)
    def __eq__(self, o):
        if not isinstance(o, AVec):
            return NotImplemented
        if o is self:
            return True
        if isinstance(self.s, BTab) and isinstance(o.s, BTab):
            return tab_eq(self.s, o.s)
        if all(isinstance(x.s, Lit) and all(y is None for y in x.s.xs) for x in (self, o)):
            return self.s.n == o.s.n
        return SymBool(cur().bool('veceq'))
    __hash__ = None

class AVecEv:
    """vector evolver by its contract (C03)"""
    def __init__(self, v, s=None, dirty=False):
        self.orig, self.s, self.dirty = v, v.s if s is None else s, dirty
    def vsetattr(self, a, v):
        raise Unsupported('attribute of a vector evolver')
    def _vc_seq(self): return self.s
    def vlen(self): return self.s.n
    def vtruth(self): return self.s.n > 0
    def __getitem__(self, i): return seq_index(self.s, i)
    def __setitem__(self, i, v):
        cur().mutlog.append(self)
        if not isint(i):
            raise HRaised(TypeError('index'))
        if mkbool(iz(i) < 0):
            i = i + self.s.n
        if mkbool(z3.And(iz(i) >= 0, iz(i) < iz(self.s.n))):
            self.s = Upd(self.s, i, v)
        elif mkbool(iz(i) == iz(self.s.n)):
            self.s = self.s + Lit([v])
        else:
            raise HRaised(IndexError('Index out of range'))
        self.dirty = True
    def set(self, i, v):
        self[i] = v
        return self
    def append(self, x):
        cur().mutlog.append(self)
        self.s, self.dirty = self.s + Lit([x]), True
        return self
    def extend(self, it):
        s = seq_of(it)
        cur().mutlog.append(self)
        self.s = self.s + s
        d = iz(s.n) > 0
        self.dirty = True if self.dirty is True else mkbool(z3.Or(tz(self.dirty), d) if self.dirty is not False else d)
        return self
    def __delitem__(self, i):
        cur().mutlog.append(self)
        if not isint(i):
            raise HRaised(TypeError('index'))
        if mkbool(iz(i) < 0):
            i = i + self.s.n
        if not mkbool(z3.And(iz(i) >= 0, iz(i) < iz(self.s.n))):
            raise HRaised(IndexError('Index out of range'))
        self.s, self.dirty = Removed(self.s, i), True
    def delete(self, i):
        del self[i]
        return self
    def is_dirty(self): return self.dirty
    def persistent(self):
        if truth(self.dirty):
            cur().mutlog.append(self)
            self.orig, self.dirty = AVec(self.s), False
        return self.orig

def tab_eq(a, b):
    """buckets equal one by one: what follows when it is true (nothing follows when it is false)"""
    c = cur()
    e = c.bool('tabeq')
    def f(q):
        j = modt(q, a.n)
        out = [iz(a.n) == iz(b.n), a.bl(j) == b.bl(j)]
        for p in (a.pos(q), b.pos(q)):
            c.assume_raw(a.entry(j, p))
            c.assume_raw(z3.Implies(iz(a.n) == iz(b.n), b.entry(j, p)))
            regc(Cls(a.bk(j, p))) if False else None
            out.append(z3.Implies(z3.And(p >= 0, p < a.bl(j)), z3.And(Cls(a.bk(j, p)) == Cls(b.bk(j, p)), Cls(a.bv(j, p)) == Cls(b.bv(j, p)))))
        return z3.Implies(e, z3.And(*out))
    c.forall(f, 'c')
    return SymBool(e)

def apvector(initial=()):
    return AVec(seq_of(initial))

# ------------------------------------------------------------------ dicts
class ADict(VDict):
    """builtin dict known by the finite map it represents"""
    def __init__(self, fm, frozen=None):
        self.fm, self.frozen = fm, frozen
    def _vc_seq(self): return self.fm.enum.keys()
    def items(self): return VTuple(self.fm.enum)
    def keys(self): return VTuple(self.fm.enum.keys())
    def values(self): return VTuple(self.fm.enum.values())
    def vlen(self): return self.fm.n
    def vtruth(self): return mkbool(iz(self.fm.n) > 0)
    def vcontains(self, k):
        regc(cls(k))
        return mkbool(self.fm.has(cls(k)))
    def get(self, k, default=None):
        regc(cls(k))
        if mkbool(self.fm.has(cls(k))):
            return self.fm.at(cls(k))
        return default
    def __getitem__(self, k):
        regc(cls(k))
        if mkbool(self.fm.has(cls(k))):
            return self.fm.at(cls(k))
        raise HRaised(KeyError(k))
    def _w(self):
        cur().mutlog.append(self)
        if self.frozen:
            frame_violation(self.frozen)
    def __setitem__(self, k, v):
        self._w()
        self.fm = self.fm.set(k, v)
    def __delitem__(self, k):
        self._w()
        regc(cls(k))
        if not mkbool(self.fm.has(cls(k))):
            raise HRaised(KeyError(k))
        self.fm = self.fm.remove(k)
    def __iter__(self):
        raise Unsupported('native iteration over a dict')
    def update(self, *a, **k):
        raise Unsupported('dict.update')
    pop = update
    def copy(self): return ADict(self.fm)
    def __eq__(self, o):
        if isinstance(o, ADict):
            return fm_eq(self.fm, o.fm)
        return NotImplemented
    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else H_not(r)
    __hash__ = None

class AFrozenset:
    """frozenset of the items of a map / of classes"""
    def __init__(self, fm, of):
        self.fm, self.of = fm, of
    def vhash(self): return self.fm.h if self.of == 'items' else keyhash(self.fm)
def keyhash(fm):
    """hash of frozenset(keys): a function of the set of keys"""
    c = cur()
    tab = c.__dict__.setdefault('keyhashes', [])
    for f, h in tab:
        if f is fm:
            return h
    h = c.int('keyhash')
    for f, g in tab:
        w = c.int('w')
        c.assume_raw(z3.Or(f.has(w.t) != fm.has(w.t), iz(h) == iz(g)))
        regc(w.t)
    tab.append((fm, h))
    return h
def subset(a, b):
    """a is a subset of b: Boolean with its meaning in both directions, and what follows for the sizes of finite sets
    (Finset.card_le_card, Finset.eq_of_subset_of_card_le)"""
    c = cur()
    e, w = c.bool('subset'), c.int('w')
    c.assume_raw(z3.Implies(z3.Not(e), z3.And(a.has(w.t), z3.Not(b.has(w.t)))))
    c.forall(lambda q: z3.Implies(e, z3.And(z3.Implies(a.has(q), b.has(q)), z3.Implies(iz(a.n) >= iz(b.n), a.has(q) == b.has(q)))), 'c')
    c.assume_raw(z3.Implies(e, iz(a.n) <= iz(b.n)))
    regc(w.t)
    return e
def set_eq(a, b):
    c = cur()
    e, w = c.bool('seteq'), c.int('w')
    c.assume_raw(z3.Implies(z3.Not(e), a.has(w.t) != b.has(w.t)))
    c.forall(lambda q: z3.Implies(e, a.has(q) == b.has(q)), 'c')
    c.assume_raw(z3.Implies(e, iz(a.n) == iz(b.n)))
    regc(w.t)
    return e

class AMapping:
    """some Mapping that is neither a dict nor one of ours"""
    def __init__(self, fm):
        self.fm = fm
    def visabc(self, name): return name in ('Mapping', 'Iterable', 'Collection', 'Sized', 'Container')
    def _vc_seq(self): return self.fm.enum.keys()
    def items(self): return VTuple(self.fm.enum)
    def keys(self): return VTuple(self.fm.enum.keys())
    def vlen(self): return self.fm.n
    def vtruth(self): return mkbool(iz(self.fm.n) > 0)
    def __getitem__(self, k):
        return ADict(self.fm)[k]
    def vcontains(self, k): return ADict(self.fm).vcontains(k)
    __hash__ = None

def dict_hook(fm_of, precise=False):
    """dict(x): for an enumeration of a finite map (keys distinct) or a mapping, that map; for other pairs an unknown finite map (last one wins)"""
    def hook(*a, **k):
        if not a or k:
            return NotImplemented
        x = a[0]
        if isinstance(x, ADict):
            return ADict(x.fm)
        fm = fm_of(x)
        if fm is not None:
            return ADict(fm)
        if isinstance(x, (AMapping,)):
            return ADict(x.fm)
        if isinstance(x, (VDict, dict, list, tuple)):
            return NotImplemented
        s = seq_of(x)
        if isinstance(s, Enum) and s.part == 'items':
            if isinstance(x, VIter):
                x.pos = s.n
            return ADict(s.fm)
        tab = cur().__dict__.setdefault('dictof', [])
        for t, d in tab:
            if t is s:
                return ADict(d)
        fm = fm_of_pairs(s) if precise else FM.fresh('dictof')
        tab.append((s, fm))
        return ADict(fm)
    return hook

def fm_of_pairs(s):
    """dict(pairs): the last pair of every key wins"""
    c = cur()
    if isinstance(s, Lit):
        r = fm_empty()
        for k, v in s.xs:
            r = r.set(k, v)
        return r
    n, last = c.int('dict_n'), c.fun('last', I, I)
    pi = c.int('pi')
    e0 = pair_terms(s, pi)
    kt = z3.simplify(e0[0])
    en = c.__dict__.get('enums', {}).get(kt.decl().name()) if z3.is_app(kt) and kt.num_args() == 1 and kt.arg(0).eq(pi.t) else None
    if en is not None and iz(en.n).eq(iz(s.n)):      # the keys of a finite map, each once: values mapped
        at = lambda t: z3.substitute(e0[1], (pi.t, t))
        fm = FM(en.fm.has, lambda q: at(en.ei(q)), en.fm.n, e0[2])
        e = Enum(fm, base=en)
        e.ev = at
        fm._e = (c, e)
        def onkeys(q):
            c.reg(en.ei(q))
            return z3.BoolVal(True)
        c.forall(onkeys, 'c')
        return fm
    keys = s.keyseq if hasattr(s, 'keyseq') else Fn(s.n, tf=lambda i: z3.substitute(e0[0], (pi.t, i)))
    if e0[2] == 'V' and pi.t.decl().name() not in consts(e0[1]):
        return fm_of_elements(keys, val=e0[1])
    ks = fm_of_elements(keys)
    vf = c.fun('dict_val', I, VS if e0[2] == 'V' else I)
    fm = FM(ks.has, lambda q: vf(q), ks.n, e0[2])
    fm.keyt = ks.keyt
    if keys.isv:
        at = lambda t: z3.substitute(e0[1], (pi.t, t))
        c.forall(lambda t: z3.Implies(z3.And(t >= 0, t < iz(s.n)), last(Cls(keys.term(t))) >= t))
        def q(q):
            c.reg(last(q))
            return z3.Implies(ks.has(q), z3.And(last(q) >= 0, last(q) < iz(s.n), Cls(keys.term(last(q))) == q, vf(q) == at(last(q))))
        c.forall(q, 'c')
    return fm
def pair_terms(s, i):
    """(key term, value term, kind) of pair i"""
    e = merge_cases(cur().summarize(lambda: s.get(i)))
    if not (isinstance(e, tuple) and len(e) == 2 and vterm(e[0]) is not None):
        raise Unsupported('dict() of something that is not a sequence of pairs')
    if vterm(e[1]) is not None:
        return vterm(e[0]), vterm(e[1]), 'V'
    if isint(e[1]) and not isinstance(e[1], bool):
        return vterm(e[0]), iz(e[1]), 'int'
    raise Unsupported('dict() with structured values')

def fm_of_elements(s, base=None, val=None):
    """set of the elements of s (and of base), as a map; val: the value term of the elements of s, or None: not known"""
    c = cur()
    if base is not None and not isinstance(s, (Enum, Lit, Concat, Filt)):
        a, vf0 = fm_of_elements(s), c.fun('elem_val', I, VS)
        return FM(lambda q: z3.Or(base.has(q), a.has(q)), lambda q: vf0(q), c.int('elem_n'))
    if base is None:        # one finite set per sequence
        tab = c.__dict__.setdefault('elems', [])
        for t, f in tab:
            if t is s:
                return f
        f = fm_of_elements(s, fm_empty(), val) if isinstance(s, (Enum, Lit, Concat, Filt)) else fm_elements(s, None, val)
        tab.append((s, f))
        return f
    return fm_elements(s, base, val)
def fm_elements(s, base, val):
    c = cur()
    if isinstance(s, Concat):
        return fm_of_elements(s.b, fm_of_elements(s.a, base, val), val)
    if isinstance(s, Filt) and s.clsp is not None:
        a = fm_of_elements(s.a)
        b0 = base.has if base is not None else (lambda q: z3.BoolVal(False))
        vf0 = c.fun('elem_val', I, VS)
        return FM(lambda q: z3.Or(b0(q), z3.And(a.has(q), s.clsp(q))), lambda q: vf0(q), c.int('elem_n'))
    b = base.has if base is not None else (lambda q: z3.BoolVal(False))
    n = c.int('elem_n')
    vf = c.fun('elem_val', I, VS)
    v = (lambda q: vf(q)) if val is None else (lambda q: val) if base is None else (lambda q: z3.If(b(q), base.val(q), val)) if False else (lambda q: vf(q))
    if isinstance(s, Enum) and s.part == 'keys':
        return FM(lambda q: z3.Or(b(q), s.fm.has(q)), v, n)
    if isinstance(s, Lit):
        ks = [cls(x) for x in s.xs]
        for k in ks:
            regc(k)
        return FM(lambda q: z3.Or(b(q), *[q == k for k in ks]), v, n)
    if not s.isv:
        raise Unsupported('set of structured elements')
    h, at = c.fun('elem_has', I, B), c.fun('elem_at', I, I)
    def pos(t):
        regc(Cls(s.term(t)))
        return z3.Implies(z3.And(t >= 0, t < iz(s.n)), h(Cls(s.term(t))))
    def q(q):
        c.reg(at(q))
        return z3.And(z3.Implies(b(q), h(q)), z3.Implies(z3.And(h(q), z3.Not(b(q))), z3.And(at(q) >= 0, at(q) < iz(s.n), Cls(s.term(at(q))) == q)))
    fm = FM(lambda q: h(q), v, n)
    if base is None:
        fm.keyt = lambda q: s.term(at(q))
    c.forall(pos)
    c.forall(q, 'c')
    return fm

def cnt(fm):
    """multiplicity of a class in a map of counts"""
    return lambda q: z3.If(fm.has(q), fm.val(q), 0)
def occ(s):
    """number of occurrences of a class in a sequence"""
    c = cur()
    if hasattr(s, 'occf'):
        return s.occf
    if isinstance(s, Concat):
        a, b = occ(s.a), occ(s.b)
        return lambda q: a(q) + b(q)
    if isinstance(s, Lit):
        ks = [cls(x) for x in s.xs]
        return lambda q: z3.Sum([z3.IntVal(0)] + [z3.If(q == k, 1, 0) for k in ks])
    tab = c.__dict__.setdefault('occs', [])
    for t, f in tab:
        if t is s:
            return f
    o = c.fun('occ', I, I)
    c.forall(lambda q: z3.And(o(q) >= 0, o(q) <= iz(s.n)), 'c')
    f = lambda q: o(q)
    tab.append((s, f))
    return f
class Expand(Seq):
    """every key of a map of counts as often as it counts"""
    isv = True
    def __init__(self, fm):
        self.fm, self.n = fm, sumvals(fm)
        self.occf = cnt(fm)
        self.f = cur().fun('expand', I, VS)
        cur().forall(lambda t: z3.Implies(z3.And(t >= 0, t < iz(self.n)), fm.has(Cls(self.f(t)))))
    def term(self, t): return self.f(t)
    def get(self, i):
        cur().reg(i)
        regc(Cls(self.f(iz(i))))
        return SymVal(self.f(iz(i)))
def sumvals(fm):
    """sum of the counts of a map of positive counts"""
    c = cur()
    tab = c.__dict__.setdefault('sums', [])
    for f, t in tab:
        if f is fm:
            return t
    t = c.int('total')
    c.assume_raw(z3.And(t.t >= iz(fm.n), (t.t == 0) == (iz(fm.n) == 0)))
    tab.append((fm, t))
    return t

class ASet:
    """builtin set or frozenset of elements"""
    def __init__(self, fm, frozen=False):
        self.fm, self.isfrozen = fm, frozen
    def vsetattr(self, a, v): frame_violation('a set of the caller')
    def visabc(self, name): return name in ('Set', 'Iterable', 'Sized', 'Container', 'Collection') or name == 'Hashable' and self.isfrozen
    def _vc_seq(self): return self.fm.enum.keys()
    def vlen(self): return self.fm.n
    def vtruth(self): return mkbool(iz(self.fm.n) > 0)
    def vcontains(self, k):
        regc(cls(k))
        return mkbool(self.fm.has(cls(k)))
    def vhash(self): return keyhash(self.fm)
    def __eq__(self, o):
        if isinstance(o, ASet):
            return mkbool(set_eq(self.fm, o.fm))
        return NotImplemented
    __hash__ = None

# ------------------------------------------------------------------ contract of the persistent map and its evolver (C04, C05)
class AMap:
    def __init__(self, fm):
        self.fm = fm
    def vsetattr(self, a, v): frame_violation('a map')
    def visabc(self, name): return name in ('Mapping', 'Hashable', 'Iterable', 'Sized', 'Container', 'Collection')
    def _vc_seq(self): return self.fm.enum.keys()
    def vlen(self): return self.fm.n
    def vtruth(self): return mkbool(iz(self.fm.n) > 0)
    def vcontains(self, k): return ADict(self.fm).vcontains(k)
    def __getitem__(self, k): return ADict(self.fm)[k]
    def get(self, k, default=None): return ADict(self.fm).get(k, default)
    def iterkeys(self): return VIter(self.fm.enum.keys())
    def itervalues(self): return VIter(self.fm.enum.values())
    def iteritems(self): return VIter(self.fm.enum)
    def items(self): return VTuple(self.fm.enum)
    def values(self): return VTuple(self.fm.enum.values())
    def set(self, k, v):
        e = self.evolver()
        e.set(k, v)
        return e.persistent()
    def remove(self, k):
        e = self.evolver()
        e.remove(k)
        return e.persistent()
    def discard(self, k):
        regc(cls(k))
        if mkbool(self.fm.has(cls(k))):
            return self.remove(k)
        return self
    def evolver(self): return AMapEv(self)
    def copy(self): return self
    def __eq__(self, o):
        if isinstance(o, (AMap, ADict, AMapping)):
            return fm_eq(self.fm, o.fm)
        return NotImplemented
    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else H_not(r)
    __hash__ = None
    def vhash(self): return self.fm.h

class AMapEv:
    def __init__(self, m, fm=None, dirty=False):
        self.orig, self.fm, self.dirty = m, m.fm if fm is None else fm, dirty
    def vsetattr(self, a, v): raise Unsupported('attribute of a map evolver')
    def vlen(self): return self.fm.n
    def vcontains(self, k): return ADict(self.fm).vcontains(k)
    def __getitem__(self, k): return ADict(self.fm)[k]
    def set(self, k, v):
        c = cur()
        c.mutlog.append(self)
        q = cls(k)
        regc(q)
        if self.dirty is not True:
            # an assignment that changes nothing may leave the evolver as it is
            b = c.bool('dirty')
            c.assume_raw(z3.Or(b, z3.And(self.fm.has(q), self.fm.val(q) == self.fm.unwrap(v))))
            self.dirty = mkbool(z3.Or(tz(self.dirty) if not isinstance(self.dirty, bool) else z3.BoolVal(self.dirty), b))
        self.fm = self.fm.set(k, v)
        return self
    def __setitem__(self, k, v): self.set(k, v)
    def remove(self, k):
        cur().mutlog.append(self)
        regc(cls(k))
        if not mkbool(self.fm.has(cls(k))):
            raise HRaised(KeyError(k))
        self.fm, self.dirty = self.fm.remove(k), True
        return self
    def __delitem__(self, k): self.remove(k)
    def is_dirty(self): return self.dirty
    def persistent(self):
        if truth(self.dirty):
            cur().mutlog.append(self)
            self.orig, self.dirty = AMap(self.fm), False
        return self.orig

def apmap(initial=None, pre_size=0, kind='V'):
    """pmap() by its contract"""
    if initial is None or isinstance(initial, dict) and not initial or type(initial) is VDict and not initial.d:
        return AMap(fm_empty(kind))
    if isinstance(initial, AMap):
        return AMap(initial.fm)
    if isinstance(initial, (ADict, AMapping)):
        return AMap(initial.fm)
    return AMap(rt.DictType(initial).fm)
