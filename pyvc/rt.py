"""Run-time of the transformed code: sequences of symbolic length, loops with cut points, shimmed builtins."""
import z3, itertools, collections, functools, types, builtins, operator as _op
import collections.abc as cabc, numbers
import core
from core import *

def cur():
    return core.C

class Frame(Exception):
    pass

# ------------------------------------------------------------------ mathematical sequences (immutable)
class Seq:
    """n: int|SymInt;  get(i) -> element (may fork);  term(i) -> V term when isv"""
    isv = False
    def get(self, i):
        if self.isv:
            t = self.term(iz(i))
            return SymVal(z3.simplify(t))
        raise NotImplementedError
    def term(self, t):
        raise Unsupported('sequence of structured elements used as terms')
    def __add__(self, o):
        if isinstance(o, Seq):
            if isinstance(o.n, int) and o.n == 0:
                return self
            if isinstance(self.n, int) and self.n == 0:
                return o
            if isinstance(self, Lit) and isinstance(o, Lit):
                return Lit(self.xs + o.xs)
            return Concat(self, o)
        return NotImplemented

class Lit(Seq):
    def __init__(self, xs):
        self.xs = list(xs)
        self.n = len(self.xs)
        self.isv = all(vterm(x) is not None for x in self.xs)
    def term(self, t):
        if not self.xs:
            return NONE
        r = vterm(self.xs[-1])
        for k in range(self.n - 2, -1, -1):
            r = z3.If(t == k, vterm(self.xs[k]), r)
        return r
    def get(self, i):
        if isinstance(i, int):
            return self.xs[i]
        if self.xs and all(x is self.xs[0] for x in self.xs):
            return self.xs[0]
        if self.isv:
            return SymVal(z3.simplify(self.term(iz(i))))
        for k in range(self.n - 1):
            if cur().branch(iz(i) == k):
                return self.xs[k]
        return self.xs[-1]
EMPTY = Lit([])

class Fn(Seq):
    """n elements given by a function of the index: tf: z3 term -> V term, or gf: int-like -> value"""
    def __init__(self, n, tf=None, gf=None):
        self.n, self.tf, self.gf = n, tf, gf
        self.isv = tf is not None
    def term(self, t):
        if self.tf is None:
            raise Unsupported('structured sequence')
        return self.tf(t)
    def get(self, i):
        cur().reg(i)
        if self.tf is not None:
            return SymVal(z3.simplify(self.tf(iz(i))))
        return self.gf(i)

class Concat(Seq):
    def __init__(self, a, b):
        self.a, self.b = a, b
        self.n = a.n + b.n
        self.isv = a.isv and b.isv
    def term(self, t):
        return z3.If(t < iz(self.a.n), self.a.term(t), self.b.term(z3.simplify(t - iz(self.a.n))))
    def get(self, i):
        if self.isv:
            return SymVal(z3.simplify(self.term(iz(i))))
        if mkbool(iz(i) < iz(self.a.n)):
            return self.a.get(i)
        return self.b.get(i - self.a.n)

class Slice(Seq):
    """elements lo .. lo+n-1 of a"""
    def __init__(self, a, lo, n):
        while isinstance(a, Slice):
            a, lo = a.a, a.lo + lo
        self.a, self.lo, self.n = a, lo, n
        self.isv = a.isv
    def term(self, t):
        return self.a.term(z3.simplify(t + iz(self.lo)))
    def get(self, i):
        return self.a.get(i + self.lo)

class Rev(Seq):
    def __init__(self, a):
        self.a, self.n, self.isv = a, a.n, a.isv
    def term(self, t):
        return self.a.term(z3.simplify(iz(self.n) - 1 - t))
    def get(self, i):
        return self.a.get(self.n - 1 - i)

class Upd(Seq):
    def __init__(self, a, i, v):
        self.a, self.i, self.v, self.n = a, i, v, a.n
        self.isv = a.isv and vterm(v) is not None
    def term(self, t):
        return z3.If(t == iz(self.i), vterm(self.v), self.a.term(t))
    def get(self, i):
        if isinstance(i, int) and isinstance(self.i, int):
            return self.v if i == self.i else self.a.get(i)
        if self.isv:
            return SymVal(z3.simplify(self.term(iz(i))))
        if mkbool(iz(i) == iz(self.i)):
            return self.v
        return self.a.get(i)

class Step(Seq):
    """elements start, start+step, ... (n of them) of a"""
    def __init__(self, a, start, step, n):
        self.a, self.start, self.step, self.n = a, start, step, n
        self.isv = a.isv
    def term(self, t):
        return self.a.term(z3.simplify(iz(self.start) + t * iz(self.step)))
    def get(self, i):
        return self.a.get(self.start + i * self.step)

class Cyc(Seq):
    """a repeated; only its identity matters (a, times)"""
    def __init__(self, a, times):
        self.a, self.times = a, times
        self.n = mkint(iz(a.n) * iz(times))
        self.isv = a.isv
    def term(self, t):
        return self.a.term(PyMod(t, iz(self.a.n)))
    def get(self, i):
        if isinstance(self.a.n, int) and self.a.n == 1:
            return self.a.get(0)
        if self.isv:
            return SymVal(self.term(iz(i)))
        raise Unsupported('repeated structured sequence')

class Removed(Seq):
    """a without the element at index p"""
    def __init__(self, a, p):
        self.a, self.p, self.n, self.isv = a, p, a.n - 1, a.isv
    def term(self, t):
        return self.a.term(z3.simplify(z3.If(t < iz(self.p), t, t + 1)))
    def get(self, i):
        if self.isv:
            return SymVal(z3.simplify(self.term(iz(i))))
        return self.a.get(i) if mkbool(iz(i) < iz(self.p)) else self.a.get(i + 1)

class Filt(Seq):
    """the elements of a (at index k) that satisfy pred, in order"""
    isv = True
    def __init__(self, a, k, pred):
        c = cur()
        I = z3.IntSort()
        self.a = a
        q = c.int('fq').t
        p2 = z3.substitute(z3.substitute(pred, (z3.simplify(Cls(a.term(k))), q)), (Cls(a.term(k)), q))
        # the predicate depends on the equality class of the element only: as a function of the class
        self.clsp = (lambda x: z3.substitute(p2, (q, x))) if k.decl().name() not in consts(p2) else None
        self.lazy = (k, pred)
        self.n = c.int('filt_n')
        self.src, self.to = c.fun('filt_src', I, I), c.fun('filt_to', I, I)
        c.assume_raw(z3.And(self.n.t >= 0, self.n.t <= iz(a.n)))
        if self.clsp is None:
            self.facts()
    def facts(self):
        if self.lazy is None or cur().insumm:
            return
        (k, pred), self.lazy = self.lazy, None
        c, a, n = cur(), self.a, self.n
        src, to = self.src, self.to
        P = lambda t: z3.substitute(pred, (k, t))
        def out(t):
            c.reg(src(t))
            return z3.Implies(z3.And(t >= 0, t < n.t), z3.And(src(t) >= 0, src(t) < iz(a.n), P(src(t)), to(src(t)) == t))
        def inn(t):
            c.reg(to(t))
            return z3.Implies(z3.And(t >= 0, t < iz(a.n), P(t)), z3.And(to(t) >= 0, to(t) < n.t, src(to(t)) == t))
        c.forall(out)
        c.forall(inn)
    def term(self, t):
        self.facts()
        cur().reg(t)
        return self.a.term(self.src(t))
    def get(self, i):
        self.facts()
        cur().reg(i)
        return SymVal(z3.simplify(self.term(iz(i))))

class FiltG(Seq):
    """the elements (of any kind) of a (at index k) that satisfy pred, in order"""
    isv = False
    def __init__(self, a, k, pred):
        c = cur()
        I = z3.IntSort()
        self.a, self.n = a, c.int('filt_n')
        self.P = lambda t: z3.substitute(pred, (k, t))
        src, to = self.src, self.to = c.fun('filt_src', I, I), c.fun('filt_to', I, I)
        n, m = self.n.t, iz(a.n)
        c.assume_raw(z3.And(n >= 0, n <= m))
        def out(t):
            c.reg(src(t))
            return z3.Implies(z3.And(t >= 0, t < n), z3.And(src(t) >= t, src(t) <= m - (n - t), self.P(src(t)), to(src(t)) == t))
        def inn(t):
            c.reg(to(t))
            return z3.Implies(z3.And(t >= 0, t < m, self.P(t)), z3.And(to(t) >= 0, to(t) < n, src(to(t)) == t))
        c.forall(out)
        c.forall(inn)
    def gap(self, p, u):
        """true of every filter: a position strictly between two consecutive matched ones is not matched, and u are matched below it"""
        n, m, src = self.n.t, iz(self.a.n), self.src
        lo, hi = z3.If(u == 0, -1, src(u - 1)), z3.If(u == n, m, src(u))
        return z3.Implies(z3.And(u >= 0, u <= n), z3.And(lo < hi, z3.Implies(z3.And(lo < p, p < hi), z3.Not(self.P(p)))))
    def get(self, i):
        cur().reg(i)
        return self.a.get(mkint(self.src(iz(i))))

class Opq(Seq):
    """Result of an operation kept symbolic: name(args); equal to another Opq of the same name with equal arguments."""
    def __init__(self, name, args, n, isv=True):
        self.name, self.args, self.n, self.isv = name, args, n, isv
        self.f = cur().fun('opq_' + name, z3.IntSort(), VS)
    def term(self, t):
        return self.f(t)

def opq(name, args, isv=True):
    """name(args) as an uninterpreted sequence; congruence: provably equal arguments give the same sequence"""
    c = cur()
    tab = c.__dict__.setdefault('opqs', [])
    for o in tab:
        if o.name == name and len(o.args) == len(args) and all(arg_equal(x, y) for x, y in zip(o.args, args)):
            return o
    n = c.int('n_' + name)
    c.assume(n >= 0)
    o = Opq(name, args, n, isv)
    tab.append(o)
    return o
def arg_equal(x, y):
    if x is y:
        return True
    if isinstance(x, Seq) and isinstance(y, Seq):
        return seqs_equal(x, y)
    if isinstance(x, Seq) or isinstance(y, Seq):
        return False
    if (x is None) != (y is None):
        return False
    e = same(x, y)
    return e if isinstance(e, bool) else cur().implied(e)
def seqs_equal(x, y):
    """provable elementwise identity (no fork)"""
    c = cur()
    if not (x.isv and y.isv):
        return False
    if not c.implied(iz(x.n) == iz(y.n)):
        return False
    i = c.int('q')
    c.reg(i)
    return c.implied(z3.Implies(z3.And(i.t >= 0, i.t < iz(x.n)), x.term(i.t) == y.term(i.t)))

def fresh_seq(name, n=None, nonneg=True):
    c = cur()
    f = c.fun(name, z3.IntSort(), VS)
    if n is None:
        n = c.int('len_' + name)
        c.assume(n >= 0)
    s = Fn(n, tf=lambda t: f(t))
    s.fun = f
    return s

def as_seq(x):
    """Mathematical sequence of an iterable value."""
    if isinstance(x, Seq):
        return x
    if isinstance(x, (Coll, VIter)):
        return x.s if not isinstance(x, VIter) else x.rest()
    if isinstance(x, (list, tuple)):
        return Lit(x)
    if isinstance(x, (VDict, VSet)):
        return Lit(list(x.d))
    if isinstance(x, types.GeneratorType):
        return Lit(list(x))
    if hasattr(type(x), '_vc_seq'):
        return x._vc_seq()
    if hasattr(type(x), '__iter__') and (getattr(type(x), '__module__', '') or '').startswith('pyrsistent'):
        return as_seq(type(x).__iter__(x))
    if isinstance(x, (range, dict, set, frozenset, collections.deque, type({}.items()), type({}.keys()), type({}.values()))) or hasattr(type(x), '__next__'):
        return Lit(list(x))
    raise NotIterable()

class NotIterable(Exception):
    pass

def seq_of(x):
    try:
        return as_seq(x)
    except NotIterable:
        if isinstance(x, (SymVal, SymInt)):
            raise Unsupported('iteration over an opaque value')
        raise HRaised(TypeError('object is not iterable'))

def HRaised(e):
    e._vc_raised = True
    return e

class _SM(type):
    def __instancecheck__(cls, x):
        return type(x) in (slice, VSlice)
class VSlice(metaclass=_SM):
    """slice object whose bounds may be symbolic"""
    def __init__(self, *a):
        self.start, self.stop, self.step = (None, a[0], None) if len(a) == 1 else (tuple(a) + (None, None))[:3]
    def indices(self, n):
        return norm_slice(self, n)
    def __eq__(self, o):
        raise Unsupported('comparison of slices')
    __hash__ = None

def norm_slice(sl, n):
    """(start, stop, step) of slice over length n, like slice.indices; a symbolic step is split into 0, 1, other."""
    step = 1 if sl.step is None else sl.step
    if isinstance(step, SymInt):
        if mkbool(step.t == 0):
            step = 0
        elif mkbool(step.t == 1):
            step = 1
        else:
            return sl.start, sl.stop, step
    if not isinstance(step, int):
        raise HRaised(TypeError('slice indices must be integers or None'))
    if step == 0:
        raise HRaised(ValueError('slice step cannot be zero'))
    for b in (sl.start, sl.stop):
        if b is not None and not isint(b):
            raise HRaised(TypeError('slice indices must be integers or None'))
    def cl(b, d, lo, hi):
        if b is None:
            return d
        t = iz(b)
        nn = iz(n)
        t = z3.If(t < 0, t + nn, t)
        t = z3.If(t < lo, lo, z3.If(t > hi, hi, t))
        return mkint(t)
    nn = iz(n)
    if step > 0:
        start = cl(sl.start, 0, z3.IntVal(0), nn)
        stop = cl(sl.stop, n, z3.IntVal(0), nn)
    else:
        start = cl(sl.start, n - 1, z3.IntVal(-1), nn - 1)
        stop = cl(sl.stop, -1, z3.IntVal(-1), nn - 1)
    return start, stop, step

def seq_slice(s, sl):
    start, stop, step = norm_slice(sl, s.n)
    if isinstance(step, SymInt):
        return opq('slice', (s, start, stop, step), s.isv)
    if step == 1:
        ln = mkint(z3.If(iz(stop) > iz(start), iz(stop) - iz(start), 0))
        if isinstance(start, int) and start == 0 and (stop is s.n or isinstance(stop, SymInt) and isinstance(s.n, SymInt) and stop.t.eq(s.n.t)):
            return s
        if isinstance(ln, int) and ln == 0:
            return EMPTY
        if isinstance(s, Lit) and isinstance(start, int) and isinstance(stop, int):
            return Lit(s.xs[start:stop])
        return Slice(s, start, ln)
    if step > 0:
        ln = mkint(z3.If(iz(stop) > iz(start), (iz(stop) - iz(start) - 1) / step + 1, 0))
    else:
        ln = mkint(z3.If(iz(stop) < iz(start), (iz(start) - iz(stop) - 1) / (-step) + 1, 0))
    return Step(s, start, step, ln)

def seq_index(s, i):
    """element at i with list semantics"""
    if isinstance(i, bool) or not isint(i):
        if isinstance(i, bool):
            i = int(i)
        else:
            raise HRaised(TypeError('list indices must be integers or slices'))
    if mkbool(iz(i) < 0):
        i = i + s.n
    if mkbool(z3.And(iz(i) >= 0, iz(i) < iz(s.n))):
        return s.get(i)
    raise HRaised(IndexError('list index out of range'))

def find_first(s, x, lo=None, hi=None):
    """index of the first element == x in [lo, hi) or None (forks)"""
    c = cur()
    lo = 0 if lo is None else lo
    hi = s.n if hi is None else hi
    if not s.isv:
        raise Unsupported('search in a structured sequence')
    p = c.int('first')
    tx = Cls(vterm(x)) if vterm(x) is not None else None
    if tx is None:
        raise Unsupported('search for a structured value')
    found = c.bool('found')
    if c.branch(found):
        c.assume(z3.And(p.t >= iz(lo), p.t < iz(hi), Cls(s.term(p.t)) == tx))
        forall_elem(s, iz(lo), p.t, lambda e: Cls(e) != tx)
        reg_deep(s, p.t)
        return p
    forall_elem(s, iz(lo), iz(hi), lambda e: Cls(e) != tx)
    return None

def forall_elem(s, lo, hi, pred):
    """pred holds of the elements of s at lo <= i < hi; stated on the underlying sequences so that their indices instantiate it"""
    c = cur()
    n = iz(s.n)
    if isinstance(s, Concat):
        na = iz(s.a.n)
        forall_elem(s.a, lo, z3.If(hi < na, hi, na), pred)
        forall_elem(s.b, z3.If(lo > na, lo - na, z3.IntVal(0)), hi - na, pred)
    elif isinstance(s, Rev):
        forall_elem(s.a, n - hi, n - lo, pred)
    elif isinstance(s, Slice):
        forall_elem(s.a, lo + iz(s.lo), hi + iz(s.lo), pred)
    else:
        lo, hi = z3.simplify(lo), z3.simplify(hi)
        c.forall(lambda t: z3.Implies(z3.And(t >= lo, t < hi), pred(s.term(t))))
def reg_deep(s, i):
    c = cur()
    i = z3.simplify(iz(i))
    c.reg(mkint(i))
    if isinstance(s, Concat):
        reg_deep(s.a, i)
        reg_deep(s.b, i - iz(s.a.n))
    elif isinstance(s, Rev):
        reg_deep(s.a, iz(s.n) - 1 - i)
    elif isinstance(s, Slice):
        reg_deep(s.a, i + iz(s.lo))

CountF = {}
class CountOf:
    """number of elements of s equal to x: opaque; compared structurally"""
    def __init__(self, s, x):
        self.s, self.x = s, x
    def __add__(self, o):
        return Sum([self, o])
    def __radd__(self, o):
        if isinstance(o, int) and o == 0:
            return self
        return Sum([o, self])
class Sum:
    def __init__(self, parts):
        self.parts = parts
    def __add__(self, o):
        return Sum(self.parts + [o])

# ------------------------------------------------------------------ comparisons / hashes kept symbolic
class SeqEq:
    """a == b elementwise for sequences of elements"""
    @staticmethod
    def make(a, b):
        c = cur()
        if isinstance(a.n, int) and isinstance(b.n, int) and a.n != b.n:
            return False
        if not (a.isv and b.isv):
            raise Unsupported('equality of structured sequences')
        e = c.bool('seqeq')
        w = c.int('w')
        na, nb = iz(a.n), iz(b.n)
        c.assume_raw(z3.Implies(e, na == nb))
        c.forall(lambda t: z3.Implies(z3.And(e, t >= 0, t < na), Cls(a.term(t)) == Cls(b.term(t))))
        c.assume_raw(z3.Implies(z3.And(z3.Not(e), na == nb), z3.And(w.t >= 0, w.t < na, Cls(a.term(w.t)) != Cls(b.term(w.t)))))
        c.reg(w)
        return SymBool(e)

class OpCmp:
    """lexicographic comparison kept as operation + operands"""
    def __init__(self, op, a, b):
        self.op, self.a, self.b = op, a, b
    def __bool__(self):
        raise Unsupported('branch on an ordering of elements')

class OpHash:
    def __init__(self, kind, arg):
        self.kind, self.arg = kind, arg
    def __eq__(self, o):
        raise Unsupported('comparison of opaque hashes')
    __hash__ = None

# ------------------------------------------------------------------ mutable list / immutable tuple / iterator proxies
SERIAL = core.SERIAL

class Coll:
    def __iter__(self):
        n = self._seq().n
        if isinstance(n, int):
            return iter([self._seq().get(i) for i in range(n)])
        raise Unsupported('native iteration over a sequence of symbolic length')
    def _seq(self):
        return self.s
    def __len__(self):
        n = self._seq().n
        if isinstance(n, int):
            return n
        raise Unsupported('native len()')
    def vlen(self):
        return self._seq().n
    def vtruth(self):
        n = self._seq().n
        return n > 0
    def __bool__(self):
        return bool(self.vtruth())
    def __contains__(self, x):
        return find_first(self._seq(), x) is not None
    def index(self, x, *a):
        if a:
            lo, hi, _ = norm_slice(slice(a[0], a[1] if len(a) > 1 else None), self._seq().n)
            r = find_first(self._seq(), x, lo, hi)
        else:
            r = find_first(self._seq(), x)
        if r is None:
            raise HRaised(ValueError('not in list'))
        return r
    def count(self, x):
        return CountOf(self._seq(), x)
    def _cmp(self, op, o):
        if type(o) is not type(self):
            return NotImplemented
        return OpCmp(op, self._seq(), o._seq())
    def __lt__(self, o): return self._cmp('lt', o)
    def __le__(self, o): return self._cmp('le', o)
    def __gt__(self, o): return self._cmp('gt', o)
    def __ge__(self, o): return self._cmp('ge', o)
    def __eq__(self, o):
        if isinstance(o, (list, tuple)):
            o = (VTuple if isinstance(o, tuple) else VList)(Lit(o))
        if type(o) is not type(self):
            if isinstance(o, Coll) and (isinstance(o, VList) != isinstance(self, VList)):
                return False
            return NotImplemented
        return SeqEq.make(self._seq(), o._seq())
    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else H_not(r)
    def __getitem__(self, i):
        if isinstance(i, VSlice):
            return type(self)._of(seq_slice(self._seq(), i))
        return seq_index(self._seq(), i)
    def __add__(self, o):
        if isinstance(o, (list, tuple)):
            o = Lit(o)
        elif isinstance(o, Coll):
            o = o._seq()
        else:
            return NotImplemented
        return type(self)._of(self._seq() + o)
    def __radd__(self, o):
        if isinstance(o, tuple) and isinstance(self, VTuple) or isinstance(o, list) and isinstance(self, VList):
            return type(self)._of(Lit(o) + self._seq())
        return NotImplemented
    def __mul__(self, k):
        if not isint(k):
            return NotImplemented
        s = self._seq()
        if isinstance(k, int):
            if k <= 0:
                return type(self)._of(EMPTY)
            if k == 1:
                return type(self)._of(s)
            if isinstance(s, Lit):
                return type(self)._of(Lit(s.xs * k))
        else:
            if not mkbool(iz(k) > 0):
                return type(self)._of(EMPTY)
        return type(self)._of(Cyc(s, k))
    __rmul__ = __mul__
    @classmethod
    def _of(cls, s):
        return cls(s)
    def __repr__(self):
        return '<%s>' % type(self).__name__
    __str__ = __repr__
    def __format__(self, f):
        return '<seq>'

class VTuple(Coll):
    def __init__(self, s):
        self.s = s
    def __hash__(self):
        raise Unsupported('native hash')
    def vhash(self):
        return OpHash('tuple', self.s)

class VList(Coll):
    """list; owner=None: created in this execution (may be mutated); frozen: part of an instance that existed before"""
    __hash__ = None
    def __init__(self, s, frozen=None):
        self.s = s
        self.frozen = frozen
        self.serial = next(SERIAL)
    @classmethod
    def _of(cls, s):
        return VList(s)
    def touch(self):
        cur().mutlog.append(self)
        if self.frozen:
            frame_violation(self.frozen)
    def append(self, x):
        self.touch()
        self.s = self.s + Lit([x]) if not isinstance(self.s, Lit) else Lit(self.s.xs + [x])
    def extend(self, it):
        s = seq_of(it)
        self.touch()
        self.s = Lit(self.s.xs + s.xs) if isinstance(self.s, Lit) and isinstance(s, Lit) else self.s + s
    def reverse(self):
        self.touch()
        self.s = Lit(self.s.xs[::-1]) if isinstance(self.s, Lit) else (self.s.a if isinstance(self.s, Rev) else Rev(self.s))
    def pop(self, i=-1):
        self.touch()
        x = seq_index(self._seq(), i)
        delat(self, i)
        return x
    def insert(self, i, x):
        self.touch()
        s = self._seq()
        if not isinstance(i, int) or i != 0:
            raise Unsupported('insert')
        self.s = Lit([x]) + s
    def remove(self, x):
        self.touch()
        p = find_first(self._seq(), x)
        if p is None:
            raise HRaised(ValueError('list.remove(x): x not in list'))
        self.s = Removed(self._seq(), p)
    def copy(self):
        return VList(self._seq())
    def __setitem__(self, i, v):
        self.touch()
        s = self._seq()
        if isinstance(i, VSlice):
            start, stop, step = norm_slice(i, s.n)
            if step != 1:
                raise Unsupported('extended slice assignment')
            stop = mkint(z3.If(iz(stop) < iz(start), iz(start), iz(stop)))
            self.s = Slice(s, 0, start) + seq_of(v) + Slice(s, stop, s.n - stop)
            return
        if not isint(i):
            raise HRaised(TypeError('list indices must be integers or slices'))
        if mkbool(iz(i) < 0):
            i = i + s.n
        if not mkbool(z3.And(iz(i) >= 0, iz(i) < iz(s.n))):
            raise HRaised(IndexError('list assignment index out of range'))
        if isinstance(i, int) and isinstance(s, Lit):
            self.s = Lit(s.xs[:i] + [v] + s.xs[i + 1:])
        else:
            self.s = Upd(s, i, v)
    def __delitem__(self, i):
        self.touch()
        delat(self, i)
    def clear(self):
        self.touch()
        self.s = EMPTY
    def __iadd__(self, o):
        self.extend(o)
        return self

def delat(l, i):
    s = l._seq()
    if isinstance(i, VSlice):
        start, stop, step = norm_slice(i, s.n)
        if step != 1:
            l.s = opq('delslice', (s, i.start, i.stop, step), s.isv)
            return
        stop = mkint(z3.If(iz(stop) < iz(start), iz(start), iz(stop)))
        l.s = Slice(s, 0, start) + Slice(s, stop, s.n - stop)
        return
    if not isint(i):
        raise HRaised(TypeError('list indices must be integers or slices'))
    if mkbool(iz(i) < 0):
        i = i + s.n
    if not mkbool(z3.And(iz(i) >= 0, iz(i) < iz(s.n))):
        raise HRaised(IndexError('list assignment index out of range'))
    l.s = Removed(s, i)

class VIter:
    """iterator over a sequence; pos advances"""
    def __init__(self, s):
        self.s, self.pos = s, 0
    def rest(self):
        if isinstance(self.pos, int) and self.pos == 0:
            return self.s
        return Slice(self.s, self.pos, self.s.n - self.pos)
    def __iter__(self):
        n = self.rest().n
        if isinstance(n, int):
            r = self.rest()
            self.pos = self.s.n
            return iter([r.get(i) for i in range(n)])
        raise Unsupported('native iteration over a sequence of symbolic length')
    def step(self):
        if mkbool(iz(self.pos) < iz(self.s.n)):
            x = self.s.get(self.pos)
            self.pos = self.pos + 1
            return (x,)
        return None
    def __next__(self):
        r = self.step()
        if r is None:
            raise HRaised(StopIteration())
        return r[0]

class NatIter:
    """native iterator (concrete)"""
    def __init__(self, it):
        self.it = builtins.iter(it)
    def step(self):
        try:
            return (builtins.next(self.it),)
        except StopIteration:
            return None

def frame_violation(what):
    c = cur()
    c.prove(False, 'frame: nothing that existed before is written (%s)' % what, 'write to ' + str(what))
    raise Stop()

def H_not(r):
    if isinstance(r, SymBool):
        return mkbool(z3.Not(r.t))
    return not truth(r)

def truth(x):
    """Truth value as Python bool (forks)."""
    if x is None or isinstance(x, (bool, int, str)):
        return bool(x)
    if isinstance(x, (SymBool, SymInt)):
        return bool(x)
    if hasattr(type(x), 'vtruth'):
        return bool(x.vtruth())
    t = type(x)
    if hasattr(t, '__bool__'):
        r = t.__bool__(x)
        return r if isinstance(r, bool) else truth(r)
    if hasattr(t, '__len__'):
        n = t.__len__(x)
        return truth(n > 0)
    return True

class Unbound:
    pass
UNBOUND = Unbound()

# ------------------------------------------------------------------ loops
def value_kind(v):
    return type(v).__name__

class Loop:
    def __init__(self, rt, qual, line, names, loc, it=None):
        self.rt, self.qual, self.line, self.names, self.it = rt, qual, line, names, it
        self.arr = 0
        self.mode = None
        self.prov = None

def raw_vararg(f, *a):
    """call f with its *args bound to the last argument (which may be a sequence of symbolic length)"""
    o = f._vc_orig
    co = o.__code__
    g = types.FunctionType(co.replace(co_flags=co.co_flags & ~0x04, co_argcount=co.co_argcount + 1), o.__globals__, o.__name__, None, o.__closure__)
    return g(*a)

class RT:
    """The H object seen by the transformed code."""
    def __init__(self, repo='/repo'):
        self.repo = repo
        self.providers = []       # (predicate(qual), factory(loop, locals) -> provider or None)
        self.intercepts = {}      # qual -> function(orig, *args)
        self.called = {}          # functions executed: qual -> count
        self.unroll = 80
        self.isinst = []          # extra isinstance rules
        self.noauto = False
        self.loop_hints = []      # f(loop, locals, slots) -> {slot: closed form as a function of the iteration count} (re-checked as invariant)
    # ---- functions
    def fn(self, qual):
        def deco(f):
            rt = self
            @functools.wraps(f)
            def w(*a, **k):
                rt.called[qual] = rt.called.get(qual, 0) + 1
                ic = rt.intercepts.get(qual)
                if ic is not None:
                    return ic(f, *a, **k)
                return f(*a, **k)
            w._vc_orig = f
            return w
        return deco
    # ---- truth and identity
    truth = staticmethod(truth)
    def not_(self, x):
        if isinstance(x, SymBool):
            return mkbool(z3.Not(x.t))
        return not truth(x)
    def and_(self, a, f):
        return f() if truth(a) else a
    def or_(self, a, f):
        return a if truth(a) else f()
    def assert_(self, x):
        c = cur()
        if isinstance(x, SymBool):
            c.prove(x.t, 'assertion in the code')
        elif not truth(x):
            c.prove(False, 'assertion in the code')
            raise Stop()
    def is_(self, a, b):
        if a is UNBOUND or b is UNBOUND:
            raise Unsupported('local used before assignment in a loop')
        if hasattr(type(a), 'vis'):
            r = a.vis(b)
            if r is not NotImplemented:
                return r
        if hasattr(type(b), 'vis'):
            r = b.vis(a)
            if r is not NotImplemented:
                return r
        if isinstance(a, SymVal) or isinstance(b, SymVal):
            ta, tb = vterm(a), vterm(b)
            if ta is None or tb is None:
                return False
            return mkbool(ta == tb)
        if isinstance(a, SymInt) or isinstance(b, SymInt):
            if a is b:
                return True
            if not (isint(a) and isint(b)):
                return False
            raise Unsupported('identity of integers')
        if isinstance(a, SymBool) or isinstance(b, SymBool):
            raise Unsupported('identity of symbolic booleans')
        return a is b
    def isnot(self, a, b):
        return self.not_(self.is_(a, b))
    def contains(self, c, x):
        if hasattr(type(c), 'vcontains'):
            return c.vcontains(x)
        if isinstance(c, (tuple, list)):
            for e in c:
                if truth(self.or_(self.is_(e, x), lambda: e == x)):
                    return True
            return False
        if hasattr(type(c), '__contains__'):
            r = type(c).__contains__(c, x)
            return r if isinstance(r, SymBool) else truth(r)
        s = seq_of(c)
        return find_first(s, x) is not None
    def notcontains(self, c, x):
        return self.not_(self.contains(c, x))
    def raised(self, e):
        if isinstance(e, type):
            e = e()
        try:
            e._vc_raised = True
        except Exception:
            pass
        return e
    def callstar(self, f, args, star):
        """f(*args, *star)"""
        if isinstance(star, (Coll, VIter)):
            s = as_seq(star)
            if isinstance(s.n, int):
                star = [s.get(i) for i in range(s.n)]
            else:
                if hasattr(f, '__self__'):
                    args, f = (f.__self__,) + tuple(args), f.__func__
                o = getattr(f, '_vc_orig', None)
                if o is None or not o.__code__.co_flags & 4 or o.__code__.co_argcount != len(args):
                    raise Unsupported('call with an argument list of symbolic length')
                return raw_vararg(f, *args, VTuple(s))
        return f(*args, *star)
    # ---- displays
    def mklist(self, l):
        return VList(Lit(l))
    def mkdict(self, d):
        return VDict(d)
    def mkset(self, s):
        return SetType(list(s))
    def unpack(self, v, n):
        if isinstance(v, (tuple, list)):
            if len(v) != n:
                raise HRaised(ValueError('unpack'))
            return v
        if isinstance(v, (Coll, VIter)):
            s = as_seq(v)
            if isinstance(s.n, int):
                if s.n != n:
                    raise HRaised(ValueError('unpack'))
                return [s.get(i) for i in range(n)]
            if mkbool(iz(s.n) == n):
                return [s.get(i) for i in range(n)]
            raise HRaised(ValueError('unpack'))
        if isinstance(v, SymVal):
            raise Unsupported('unpacking an element')
        return list(v)
    def comp(self, kind, it, f, cond):
        s = self.iterseq(it)
        if isinstance(s.n, int):
            out = [f(x) for x in (s.get(i) for i in range(s.n)) if cond is None or cond(x)]
            if kind == 'list':
                return VList(Lit(out))
            if kind == 'gen':
                return VIter(Lit(out))
            if kind == 'dict':
                return self.mkdict_pairs(out)
            if kind == 'set':
                return SetType(out)
            raise Unsupported('comprehension')
        if isinstance(s, Concat) and kind in ('gen', 'list') and getattr(self, 'filters', False):
            x, y = seq_of(self.comp('gen', VIter(s.a), f, cond)), seq_of(self.comp('gen', VIter(s.b), f, cond))
            r = x + y
            if hasattr(x, 'keyseq') and hasattr(y, 'keyseq'):
                r.keyseq = x.keyseq + y.keyseq
            return VList(r) if kind == 'list' else VIter(r)
        r = self.symcomp(kind, s, f, cond)
        if r is NotImplemented:
            raise Unsupported('comprehension over a sequence of symbolic length')
        return r
    def comp2(self, kind, it, inner):
        """[.. for x in it for y in ..]: concatenation over an outer sequence of known length"""
        s = self.iterseq(it)
        if not isinstance(s.n, int):
            raise Unsupported('nested comprehension over a sequence of symbolic length')
        r = EMPTY
        for i in range(s.n):
            r = r + seq_of(inner(s.get(i)))
        return VList(r) if kind == 'list' else VIter(r)
    def symcomp(self, kind, s, f, cond):
        """map (no condition) over a sequence of symbolic length; filters only through the hook"""
        h = getattr(self, 'comp_hook', None)
        if h is not None:
            r = h(kind, s, f, cond)
            if r is not NotImplemented:
                return r
        c = cur()
        k = c.int('mapk')
        lim = next(c.cnt)
        def el():
            x = s.get(k)
            if cond is not None and not truth(cond(x)):
                return ('out',)
            return ('in', f(x))
        cases = c.summarize(el)
        def closed(v):
            if isinstance(v, tuple):
                return all(map(closed, v))
            t = v if isinstance(v, z3.ExprRef) else v.t if isinstance(v, (SymVal, SymInt)) else None
            return t is None or not any(num(n) > lim for n in consts(t))
        if not all(closed(g) and closed(r) for g, r in cases):
            return NotImplemented
        ins = [(g, r[1]) for g, r in cases if r[0] == 'in']
        outs = [g for g, r in cases if r[0] == 'out']
        if not ins:
            s2 = EMPTY
            return VList(s2) if kind == 'list' else VIter(s2) if kind == 'gen' else NotImplemented
        if outs:
            f2 = filter_seq(s, k.t, z3.Or(*outs) if len(outs) > 1 else outs[0])
            if f2 is None:
                if getattr(self, 'filters', False) == 'pairs' and not s.isv:
                    f2 = FiltG(s, k.t, z3.Not(z3.Or(*outs)))
                elif not getattr(self, 'filters', False) or not s.isv:
                    return NotImplemented
                else:
                    f2 = Filt(s, k.t, z3.Not(z3.Or(*outs)))
            if not all(seqsame(r, probe_el(s, k)) for g, r in ins):
                if f2 is not s:
                    return NotImplemented
            else:
                return VList(f2) if kind == 'list' else VIter(f2) if kind == 'gen' else NotImplemented
        try:
            val = merge_cases(ins)
        except Unsupported:
            return NotImplemented
        if kind == 'dict':
            h = getattr(self, 'dictcomp_hook', None)
            return NotImplemented if h is None or outs else h(s, k.t, val)
        if isinstance(val, int) and not isinstance(val, bool):
            ms = Fn(s.n, gf=lambda i: val)
            ms.const = val
        elif isinstance(val, (SymVal, SymInt)) and seqsame(val, probe_el(s, k)):
            ms = s
        elif isinstance(val, SymVal):
            t = val.t
            if isinstance(s, Filt):
                s.facts()
            ms = Fn(s.n, tf=lambda i: z3.substitute(t, (k.t, i)))
        elif isinstance(val, (tuple, SymInt)):
            ms = Fn(s.n, gf=lambda i: subst(val, k.t, iz(i)))
            if isinstance(val, tuple) and val and seqsame(val[0], probe_el(s, k)):
                ms.keyseq = s
            elif isinstance(s, Filt):
                s.facts()
        else:
            return NotImplemented
        return VList(ms) if kind == 'list' else VIter(ms) if kind == 'gen' else NotImplemented
    def mkdict_pairs(self, pairs):
        return DictType(list(pairs))
    def iterseq(self, it):
        return seq_of(it)
    # ---- generators
    def genlist(self):
        return VList(EMPTY)
    def yield_(self, out, x):
        out.append(x)
    def yieldfrom(self, out, it):
        out.extend(it)
    def genend(self, out):
        return VIter(out.s)
    # ---- stores
    def setattr(self, o, a, v):
        if id(o) in cur().frozen and not (cur().frozen[id(o)][1] and a in cur().frozen[id(o)][1]):
            frame_violation('%s.%s' % (cur().frozen[id(o)][0], a))
        cur().mutlog.append(o)
        if hasattr(type(o), 'vsetattr'):
            return o.vsetattr(a, v)
        setattr(o, a, v)
    def delattr(self, o, a):
        if id(o) in cur().frozen:
            frame_violation(cur().frozen[id(o)][0])
        delattr(o, a)
    def setitem(self, o, k, v):
        if isinstance(o, list):
            raise Unsupported('native list')
        o[k] = v
    def getitem(self, o, k):
        if isinstance(o, tuple) and isinstance(k, SymInt):
            return seq_index(Lit(o), k)
        if isinstance(o, (tuple, list)) and isinstance(k, VSlice):
            if any(isinstance(b, SymInt) for b in (k.start, k.stop, k.step)):
                return VTuple(Lit(o))[k]
            return o[slice(k.start, k.stop, k.step)]
        return o[k]
    def delitem(self, o, k):
        del o[k]
    # ---- loops
    def iter(self, x):
        if isinstance(x, VIter):
            return x
        if isinstance(x, (list, tuple, range, types.GeneratorType, dict, set, frozenset)):
            return NatIter(x)
        s = seq_of(x)
        return VIter(s)
    def next(self, it):
        return it.step()
    def loop(self, qual, line, names, loc, it=None, tnames=(), targets=()):
        L = Loop(self, qual, line, names, loc, it)
        L.targets = targets          # assigned from the iterator before anything else in every iteration
        L.tnames = tnames
        return L
    def leave(self, L, v):
        return v
    def left(self, L):
        pass
    def head(self, L, loc):
        c = cur()
        st = [loc.get(n, UNBOUND) for n in L.names]
        L.arr += 1
        if L.arr == 1:
            # concrete control: a concrete iterator, or no provider and no symbolic state
            if isinstance(L.it, NatIter) or (isinstance(L.it, VIter) and isinstance(L.it.rest().n, int)):
                L.mode = 'native'
                return st
            for f in self.providers:
                p = f(L, loc)
                if p is not None:
                    L.prov = p
                    break
            if L.prov is None and L.it is None and any(n in loc for n in L.tnames) and all(isinstance(loc[n], int) for n in L.tnames if n in loc):
                # a while loop: run it as it is as long as its test is decided by constants (see wtest)
                L.key = ('probe', L.qual, L.line, tuple(map(str, c.trail)))
                if L.key not in c.store.tables:
                    L.trail0 = list(c.trail)
                    L.mode = 'probe'
                    return st
            if L.prov is None:
                L.prov = Auto(self, L, loc)
            return L.prov.first(loc, st)
        if L.mode in ('native', 'probe'):
            if L.arr > self.unroll:
                raise Unsupported('loop at %s:%d not bounded' % (L.qual, L.line))
            return st
        return L.prov.again(loc, st)
    def wtest(self, L, f):
        c = cur()
        if L.mode != 'probe':
            return f()
        n = c.decisions
        r = f()
        if c.decisions == n:
            return r
        # the test depends on symbolic values: start over from the loop entry with a cut point
        c.store.tables[L.key] = True
        for w in (c.pending, c.store.work):     # paths recorded below the loop entry belong to the abandoned unrolling
            w[:] = [p for p in w if p[:len(L.trail0)] != L.trail0 or len(p) <= len(L.trail0)]
        c.pending.append(L.trail0)
        raise Stop()
    # ---- modules and builtins
    def import_module(self, name):
        return None
    def builtins(self):
        r = self
        return dict(len=r.b_len, isinstance=r.b_isinstance, issubclass=issubclass, list=VListType, tuple=VTupleType, hash=r.b_hash, sum=r.b_sum, range=r.b_range, max=r.b_max, min=r.b_min,
                    abs=r.b_abs, int=IntType, iter=r.b_iter, next=r.b_next, reversed=r.b_reversed, enumerate=r.b_enumerate, map=r.b_map, zip=r.b_zip, id=r.b_id, type=TypeShim, bool=BoolType,
                    hasattr=r.b_hasattr, slice=VSlice, dict=DictType, set=SetType, frozenset=FrozensetType, any=r.b_any, all=r.b_all, repr=r.b_repr, filter=r.b_filter, sorted=r.b_sorted, callable=r.b_callable, setattr=r.setattr, getattr=r.b_getattr)
    def b_sorted(self, *a, **k):
        raise Unsupported('sorted')
    def b_filter(self, *a):
        raise Unsupported('filter')
    def b_callable(self, x):
        if hasattr(type(x), 'vcallable'):
            return x.vcallable()
        return callable(x)
    def b_getattr(self, *a):
        return getattr(*a)
    def b_len(self, x):
        if hasattr(type(x), 'vlen'):
            return x.vlen()
        t = type(x)
        if (getattr(t, '__module__', '') or '').startswith('pyrsistent') and hasattr(t, '__len__'):
            return t.__len__(x)
        if isinstance(x, (SymVal,)):
            raise Unsupported('len of an element')
        try:
            return builtins.len(x)
        except TypeError as e:
            raise HRaised(e)
    def b_isinstance(self, x, t):
        if isinstance(t, VTuple):
            t = tuple(as_native(t))
        if isinstance(t, tuple):
            rs = [self.b_isinstance(x, q) for q in t]
            if any(r is True for r in rs):
                return True
            rs = [r.t for r in rs if isinstance(r, SymBool)]
            return mkbool(z3.Or(*rs)) if rs else False
        for rule in self.isinst:
            r = rule(x, t)
            if r is not None:
                return r
        if t is VListType or t is list:
            return isinstance(x, (VList, list))
        if t is VTupleType or t is tuple:
            return isinstance(x, (VTuple, tuple))
        if t is DictType or t is dict:
            return isinstance(x, (VDict, dict))
        if t is IntType:
            t = int
        if t is BoolType:
            return isinstance(x, (bool, SymBool))
        if t is SetType or t is set:
            return isinstance(x, (VSet, set))
        if t is FrozensetType:
            return isinstance(x, frozenset)
        if t is TypeShim:
            t = type
        if isinstance(x, SymInt):
            return t in (int, object) or (isinstance(t, type) and issubclass(int, t))
        if isinstance(x, SymBool):
            return t in (int, bool, object) or (isinstance(t, type) and issubclass(bool, t))
        if isinstance(x, SymVal):
            raise Unsupported('isinstance of an element')
        if isinstance(x, VList):
            return t in (object,) or issubclass(list, t)
        if isinstance(x, VTuple):
            return t in (object,) or issubclass(tuple, t)
        if isinstance(x, VDict):
            return t in (object,) or issubclass(dict, t)
        if isinstance(x, VSet):
            return t in (object,) or issubclass(set, t)
        return isinstance(x, t)
    def b_hash(self, x):
        if hasattr(type(x), 'vhash'):
            return x.vhash()
        t = type(x)
        if isinstance(x, tuple):
            return OpHash('tuple', Lit(x))
        if (getattr(t, '__module__', '') or '').startswith('pyrsistent'):
            return t.__hash__(x)
        return builtins.hash(x)
    def b_sum(self, it, start=0):
        s = self.iterseq(it)
        if isinstance(s.n, int):
            r = start
            for i in range(s.n):
                r = r + s.get(i)
            return r
        if isinstance(getattr(s, 'const', None), int):
            return mkint(iz(start) + iz(s.n) * s.const)
        h = getattr(self, 'sum_hook', None)
        if h is not None:
            r = h(s)
            if r is not None:
                return start + r
        raise Unsupported('sum of a sequence of symbolic length')
    def b_range(self, *a):
        if all(isinstance(x, int) for x in a):
            return range(*a)
        if len(a) == 1:
            lo, hi, st = 0, a[0], 1
        else:
            lo, hi, st = a[0], a[1], a[2] if len(a) > 2 else 1
        if not isinstance(st, int) or st == 0 or not all(map(isint, (lo, hi))):
            raise Unsupported('range with symbolic step')
        if st > 0:
            n = mkint(z3.If(iz(hi) > iz(lo), (iz(hi) - iz(lo) - 1) / st + 1, 0))
        else:
            n = mkint(z3.If(iz(hi) < iz(lo), (iz(lo) - iz(hi) - 1) / (-st) + 1, 0))
        return VRange(Fn(n, gf=lambda i: mkint(iz(lo) + iz(i) * st)))
    def b_max(self, *a, **k):
        return self._mm(a, k, lambda x, y: x >= y, builtins.max)
    def b_min(self, *a, **k):
        return self._mm(a, k, lambda x, y: x <= y, builtins.min)
    def _mm(self, a, k, c, nat):
        if k or len(a) < 2:
            if len(a) == 1 and isinstance(a[0], (Coll, VIter)):
                a = list(a[0])
            else:
                return nat(*a, **k)
        if not all(isint(x) for x in a):
            raise Unsupported('max/min of non-integers')
        r = a[0]
        for x in a[1:]:
            r = mkint(z3.If(tz(c(iz(r), iz(x))), iz(r), iz(x)))
        return r
    def b_abs(self, x):
        return abs(x)
    def b_iter(self, x, *a):
        if isinstance(x, VIter):
            return x
        return VIter(seq_of(x))
    def b_next(self, it, *d):
        r = it.step() if hasattr(it, 'step') else (builtins.next(it),)
        if r is None:
            if d:
                return d[0]
            raise HRaised(StopIteration())
        return r[0]
    def b_reversed(self, x):
        if hasattr(type(x), '__reversed__') and (getattr(type(x), '__module__', '') or '').startswith('pyrsistent'):
            return type(x).__reversed__(x)
        s = seq_of(x)
        return VIter(Lit(s.xs[::-1]) if isinstance(s, Lit) else Rev(s))
    def b_enumerate(self, x, start=0):
        s = seq_of(x)
        if isinstance(s.n, int):
            return VIter(Lit([(i + start, s.get(i)) for i in range(s.n)]))
        return VIter(Fn(s.n, gf=lambda i: (i + start, s.get(i))))
    def b_map(self, f, *its):
        if len(its) != 1:
            ss = [seq_of(i) for i in its]
            if not all(isinstance(s.n, int) for s in ss):
                raise Unsupported('map over several sequences')
            return VIter(Lit([f(*[s.get(i) for s in ss]) for i in range(builtins.min(s.n for s in ss))]))
        return self.comp('gen', its[0], f, None)
    def b_zip(self, *its):
        ss = [seq_of(i) for i in its]
        if all(isinstance(s.n, int) for s in ss):
            return VIter(Lit([tuple(s.get(i) for s in ss) for i in range(builtins.min(s.n for s in ss))]))
        if len(ss) == 2:
            n = self.b_min(ss[0].n, ss[1].n)
            return VIter(Fn(n, gf=lambda i: tuple(s.get(i) for s in ss)))
        raise Unsupported('zip')
    def b_id(self, x):
        if hasattr(type(x), 'vid'):
            return x.vid()
        return IdTok(x)
    def b_hasattr(self, o, n):
        if hasattr(type(o), 'vhasattr'):
            r = o.vhasattr(n)
            if r is not NotImplemented:
                return r
        if n == '__len__' and isinstance(o, Coll):
            return True
        if isinstance(o, SymVal):
            raise Unsupported('hasattr of an element')
        return hasattr(o, n)
    def b_any(self, it):
        s = seq_of(it)
        if isinstance(s.n, int):
            for i in range(s.n):
                if truth(s.get(i)):
                    return True
            return False
        raise Unsupported('any')
    def b_all(self, it):
        s = seq_of(it)
        if isinstance(s.n, int):
            for i in range(s.n):
                if not truth(s.get(i)):
                    return False
            return True
        raise Unsupported('all')
    def b_repr(self, x):
        return OpRepr(x)

class OpRepr(str):
    pass

class VRange(Coll):
    def __init__(self, s):
        self.s = s

class IdTok:
    """identity of an object; equality is object identity"""
    def __init__(self, o):
        self.o = o
    def __eq__(self, other):
        if isinstance(other, IdTok):
            return self.o is other.o
        return NotImplemented
    def __hash__(self):
        return builtins.id(self.o)

def ckey(k):
    """concrete key of a dict or element of a set"""
    if isinstance(k, (SymVal, SymInt, SymBool, Coll)):
        raise Unsupported('symbolic key in a concrete dict or set')
    if isinstance(k, tuple):
        for x in k:
            ckey(x)
    return k
class VDict:
    """dict with concrete (hashable) keys"""
    __hash__ = None
    def __init__(self, d=(), frozen=None):
        self.d = dict(d)
        for k in self.d:
            ckey(k)
        self.frozen = frozen
    def touch(self):
        cur().mutlog.append(self)
        if self.frozen:
            frame_violation(self.frozen)
    def get(self, k, default=None):
        return self.d.get(ckey(k), default)
    def __setitem__(self, k, v):
        self.touch()
        self.d[ckey(k)] = v
    def __getitem__(self, k):
        try:
            return self.d[ckey(k)]
        except KeyError as e:
            raise HRaised(e)
    def __delitem__(self, k):
        self.touch()
        try:
            del self.d[ckey(k)]
        except KeyError as e:
            raise HRaised(e)
    def vcontains(self, k):
        return ckey(k) in self.d
    __contains__ = vcontains
    def vtruth(self):
        return bool(self.d)
    __bool__ = vtruth
    def vlen(self):
        return len(self.d)
    __len__ = vlen
    def items(self):
        return list(self.d.items())
    def keys(self):
        return list(self.d)
    def values(self):
        return list(self.d.values())
    def copy(self):
        return VDict(self.d)
    def update(self, *a, **k):
        self.touch()
        for x in a:
            self.d.update(x.d if isinstance(x, VDict) else x if isinstance(x, dict) else DictType(x).d)
        self.d.update(k)
    def setdefault(self, k, v=None):
        self.touch()
        return self.d.setdefault(ckey(k), v)
    def pop(self, k, *a):
        self.touch()
        try:
            return self.d.pop(ckey(k), *a)
        except KeyError as e:
            raise HRaised(e)
    def __iter__(self):
        return iter(list(self.d))
    def __eq__(self, o):
        if not isinstance(o, (VDict, dict)):
            return NotImplemented
        o = o.d if isinstance(o, VDict) else o
        if set(self.d) != set(o):
            return False
        return all(truth(self.d[k] == o[k]) for k in self.d)

class VSet:
    """set with concrete elements (insertion order kept: iteration order of a set is not specified, so nothing may depend on it)"""
    __hash__ = None
    def __init__(self, it=(), frozen=None):
        self.d = {}
        for x in it:
            self.d[ckey(x)] = True
        self.frozen = frozen
    def touch(self):
        cur().mutlog.append(self)
        if self.frozen:
            frame_violation(self.frozen)
    def add(self, x):
        self.touch()
        self.d[ckey(x)] = True
    def discard(self, x):
        self.touch()
        self.d.pop(ckey(x), None)
    def remove(self, x):
        self.touch()
        try:
            del self.d[ckey(x)]
        except KeyError as e:
            raise HRaised(e)
    def update(self, *its):
        self.touch()
        for it in its:
            for x in as_native(it):
                self.d[ckey(x)] = True
    def copy(self):
        return VSet(self.d)
    def vcontains(self, k):
        return ckey(k) in self.d
    __contains__ = vcontains
    def vtruth(self):
        return bool(self.d)
    __bool__ = vtruth
    def vlen(self):
        return len(self.d)
    __len__ = vlen
    def __iter__(self):
        return iter(list(self.d))
    def __sub__(self, o):
        return VSet([x for x in self.d if x not in o.d]) if isinstance(o, VSet) else NotImplemented
    def difference(self, *its):
        bad = {x for it in its for x in as_native(it)}
        return VSet([x for x in self.d if x not in bad])
    def __or__(self, o):
        return VSet(list(self.d) + list(o.d)) if isinstance(o, VSet) else NotImplemented
    def union(self, *its):
        return VSet(list(self.d) + [x for it in its for x in as_native(it)])
    def __and__(self, o):
        return VSet([x for x in self.d if x in o.d]) if isinstance(o, VSet) else NotImplemented
    def issubset(self, o):
        o = list(as_native(o))
        return all(x in o for x in self.d)
    def __le__(self, o):
        return all(x in o.d for x in self.d) if isinstance(o, VSet) else NotImplemented
    def __eq__(self, o):
        return set(self.d) == set(o.d) if isinstance(o, VSet) else NotImplemented

def as_native(it):
    s = seq_of(it)
    if not isinstance(s.n, int):
        raise Unsupported('sequence of symbolic length where a concrete one is needed')
    return [s.get(i) for i in range(s.n)]

class _TM(type):
    def __instancecheck__(cls, x):
        return cls._inst(x)
class VListType(metaclass=_TM):
    _real = list
    _inst = staticmethod(lambda x: isinstance(x, (VList, list)))
    def __new__(cls, it=()):
        if isinstance(it, VList):
            it = it._seq()
        s = seq_of(it)
        if isinstance(it, VIter):
            it.pos = it.s.n
        return VList(s)
class VTupleType(metaclass=_TM):
    _real = tuple
    _inst = staticmethod(lambda x: isinstance(x, (VTuple, tuple)))
    def __new__(cls, it=()):
        if isinstance(it, tuple):
            return it
        s = seq_of(it)
        return VTuple(s)
class IntType(int):
    def __new__(cls, x=0, *a):
        if isinstance(x, Quot):
            return x.toint()
        if isinstance(x, SymInt):
            return x
        return builtins.int(x, *a)
class BoolType(metaclass=_TM):
    _inst = staticmethod(lambda x: isinstance(x, (bool, SymBool)))
    def __new__(cls, x=False):
        if isinstance(x, SymBool):
            return x
        return truth(x)
class DictType(metaclass=_TM):
    _real = dict
    _inst = staticmethod(lambda x: isinstance(x, (VDict, dict)))
    hook = None
    def __new__(cls, *a, **k):
        if DictType.hook is not None:
            r = DictType.hook(*a, **k)
            if r is not NotImplemented:
                return r
        d = {}
        for x in a:
            if isinstance(x, (VDict, dict)):
                d.update(x.d if isinstance(x, VDict) else x)
            elif hasattr(type(x), 'keys'):
                for q in as_native(x.keys()):
                    d[ckey(q)] = x[q]
            else:
                for e in as_native(x):
                    q, v = cur_rt_unpack(e)
                    d[ckey(q)] = v
        d.update(k)
        return VDict(d)
class SetType(metaclass=_TM):
    _inst = staticmethod(lambda x: isinstance(x, (set, VSet)))
    _real = set
    hook = None
    def __new__(cls, *a):
        if SetType.hook is not None:
            return SetType.hook(*a)
        return VSet(as_native(a[0]) if a else ())
class FrozensetType(metaclass=_TM):
    _inst = staticmethod(lambda x: isinstance(x, frozenset))
    hook = None
    def __new__(cls, *a):
        if FrozensetType.hook is not None:
            return FrozensetType.hook(*a)
        return NFrozen(as_native(a[0]) if a else ())
class NFrozen:
    """frozenset of finitely many pairs: only its hash, which does not depend on their order"""
    def __init__(self, xs):
        self.xs = tuple(xs)
        if not all(isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str) for x in self.xs):
            raise Unsupported('frozenset()')
        d = dict(self.xs)
        if len(d) != len(self.xs):
            raise Unsupported('frozenset()')
    def vhash(self):
        return OpHash('frozenset', Lit(tuple(sorted(self.xs, key=lambda x: x[0]))))
def cur_rt_unpack(e):
    if isinstance(e, (tuple, list)) and len(e) == 2:
        return e
    if isinstance(e, Coll) and e.vlen() == 2:
        return e[0], e[1]
    raise Unsupported('dict() of something else than pairs')
class _TSM(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.type) if cls is TypeShim else builtins.type.__instancecheck__(cls, x)
class TypeShim(type, metaclass=_TSM):
    """type(x) and type(name, bases, dict)"""
    hook = None
    def __new__(mcs, *a, **k):
        if len(a) == 1:
            x = a[0]
            if TypeShim.hook is not None:
                r = TypeShim.hook(x)
                if r is not None:
                    return r
            if isinstance(x, VList):
                return VListType
            if isinstance(x, VTuple):
                return VTupleType
            if isinstance(x, VDict):
                return DictType
            if isinstance(x, SymInt):
                return builtins.int
            if isinstance(x, SymVal):
                raise Unsupported('type of an element')
            if isinstance(x, tuple):
                return VTupleType
            if isinstance(x, VSet):
                return SetType
            return builtins.type(x)
        return builtins.type.__new__(builtins.type if mcs is TypeShim else mcs, *a, **k)

def probe_el(s, k):
    c = cur()
    r = c.summarize(lambda: s.get(k))
    return r[0][1] if len(r) == 1 else None
def seqsame(a, b):
    """syntactically the same value"""
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(map(seqsame, a, b))
    e = same(a, b)
    return e is True or (not isinstance(e, bool) and z3.is_true(z3.simplify(e)))
def merge_cases(cases):
    """value given by cases [(condition, value)] (exhaustive)"""
    v0 = cases[0][1]
    if all(seqsame(v, v0) for _, v in cases):
        return v0
    if all(isinstance(v, tuple) and len(v) == len(v0) for _, v in cases):
        return tuple(merge_cases([(g, v[i]) for g, v in cases]) for i in range(len(v0)))
    if all(vterm(v) is not None for _, v in cases):
        t = vterm(cases[-1][1])
        for g, v in reversed(cases[:-1]):
            t = z3.If(g, vterm(v), t)
        return SymVal(z3.simplify(t))
    if all(isint(v) and not isinstance(v, bool) for _, v in cases):
        t = iz(cases[-1][1])
        for g, v in reversed(cases[:-1]):
            t = z3.If(g, iz(v), t)
        return mkint(t)
    raise Unsupported('cases of different kinds')
def filter_seq(s, k, out):
    """the elements of s whose index does not satisfy out(k); decided when at most one element is dropped.  Candidates for its
    position are the index terms the contracts registered; that nothing else is dropped is an implication that is checked."""
    c = cur()
    o = c.int('f')
    c.reg(o)
    rng = z3.And(o.t >= 0, o.t < iz(s.n))
    at = lambda t: z3.substitute(out, (k, t))
    if c.implied(z3.Implies(rng, z3.Not(at(o.t)))):
        return s
    for p, d in list(c.idx):
        if d == 'i' and not p.eq(o.t) and c.implied(z3.Implies(z3.And(rng, at(o.t)), o.t == p)):
            if c.branch(z3.And(p >= 0, p < iz(s.n), at(p))):
                return Removed(s, mkint(p))
            return s
    return None

def subst(v, k, t):
    """v with the index constant k replaced by t"""
    if isinstance(v, SymVal):
        return SymVal(z3.simplify(z3.substitute(v.t, (k, t))))
    if isinstance(v, SymInt):
        return mkint(z3.substitute(v.t, (k, t)))
    if isinstance(v, tuple):
        return tuple(subst(x, k, t) for x in v)
    if v is None or isinstance(v, (bool, int, str)):
        return v
    raise Unsupported('value of kind %s in a loop-built sequence' % type(v).__name__)

# ------------------------------------------------------------------ automatic treatment of simple loops
HAVOC = {}     # value kind -> Recur handler (registered by contract files for their own proxies)

class Recur:
    """How one kind of local value evolves over the iterations of a loop."""
    def matches(self, v): return False
    def fresh(self, v): raise NotImplementedError          # arbitrary value of the kind
    def solve(self, v0, vf, v1, k): return None             # closed form: function of the iteration count, or None
RECUR = []

class RInt(Recur):
    def matches(self, v): return isint(v) and not isinstance(v, bool)
    def fresh(self, v):
        return cur().int('hv')
    def solve(self, v0, vf, v1, k):
        if not isint(v1) or not isint(vf):
            return None
        d = z3.simplify(iz(v1) - iz(vf))
        if z3.is_int_value(d):
            c = d.as_long()
            g = lambda n: mkint(iz(v0) + c * iz(n))
            g.step = c
            return g
        if str(k) in consts(d):                      # a step that changes from iteration to iteration: only a candidate sum can be the form
            def g(n): raise Unsupported('a step that changes from iteration to iteration')
            g.varying = True
            return g
        g = lambda n: mkint(iz(v0) + d * iz(n))      # a step that may not change from iteration to iteration (checked by the caller)
        g.terms = (SymInt(d),)
        return g
RECUR.append(RInt())

class MListAdapter:
    """mutable sequence slots of a loop: contents, in-place update, elements appended in one iteration"""
    def matches(self, v): return isinstance(v, VList) and not v.frozen
    def get(self, v): return v.s
    def set(self, v, s): v.s = s
    def delta(self, v, hv):
        s = v.s
        if s is hv:
            return []
        if isinstance(s, Concat) and s.a is hv and isinstance(s.b.n, int):
            return [s.b.get(i) for i in range(s.b.n)]
        if isinstance(hv, Lit) and isinstance(s, Lit) and s.n >= hv.n and all(a is b for a, b in zip(s.xs, hv.xs)):
            return s.xs[hv.n:]
        return None
    def owned(self, v): return [id(v)]
MLISTS = [MListAdapter()]
def mlist(v):
    for a in MLISTS:
        if a.matches(v):
            return a
    return None

class Auto:
    """Loop solved by recurrences: discovery runs of one generic iteration, then 'iteration' and 'exit' paths with the
    closed forms.  The closed forms are re-checked as an inductive invariant on every iteration path (obligation)."""
    ROUNDS = 3
    def __init__(self, rt, L, loc):
        self.rt, self.L = rt, L
        c = cur()
        self.key = (L.qual, L.line, tuple(map(str, c.trail)))
        new = self.key not in c.store.tables
        self.info = c.store.tables.setdefault(self.key, dict(forms={}, phi=[], solved=False, rounds={}, bad=None))
        if new:
            st = [loc.get(n, UNBOUND) for n in L.names]
            for h in rt.loop_hints:
                f = h(L, loc, dict(self.slots(loc, st)))
                if f:
                    self.info['forms'].update(f)
                    self.info['hinted'] = self.info.get('hinted', ()) + tuple(f)
    def slots(self, loc, st):
        """all evolving places: locals, generator output, iterator position"""
        out = []
        for n, v in zip(self.L.names, st):
            out.append((n, UNBOUND if n in self.L.targets else v))
        for n, v in loc.items():
            if n not in self.L.names and mlist(v) is not None:
                out.append((n, v))
        return out
    def first(self, loc, st):
        c = cur()
        L = self.L
        o = c.choose(self.ROUNDS + 2)
        self.o = o
        self.k = c.int('k')
        c.havocs += 1
        L.mode = 'auto'
        info = self.info
        self.pc0 = len(c.pc)
        slots = self.slots(loc, st)
        self.v0 = {}
        for n, v in slots:
            self.v0[n] = mlist(v).get(v) if mlist(v) else v
        if o < self.ROUNDS:
            if info['solved'] or info['bad']:
                raise Stop()
            c.quiet = True
            info['rounds'].setdefault(o, []).clear() if o not in info['rounds'] else None
            if o > 0:
                self.finish_round(o - 1)
                if info['solved'] or info['bad']:
                    raise Stop()
            c.assume(self.k >= 0)
            return self.set_state(loc, st, slots, self.k, discovery=True)
        if not info['solved'] and not info['bad']:
            self.finish_round(self.ROUNDS - 1)
        if info['bad'] or not info['solved']:
            raise Unsupported('loop at %s:%d has no closed form (%s)' % (L.qual, L.line, info['bad'] or 'no fixpoint'))
        c.assume(self.k >= 0)
        k = self.k
        if info['phi'] is not None:
            for alt in [info['phi']]:
                kk, conds = alt
                if conds is not None:
                    c.forall(lambda t: z3.Implies(z3.And(t >= 0, t < k.t), z3.substitute(conds, (kk, t))))
        c.reg(k - 1)
        if o == self.ROUNDS:
            self.iterating = True
            for n in info.get('hinted', ()):        # hinted forms hold on entry
                if n in self.v0 and not isinstance(self.v0[n], Unbound):
                    r = info['forms'][n](0)
                    if isinstance(r, tuple) and r and r[0] == 'list':
                        prove_same_seq(self.v0[n], r[2], 'loop %s: closed form of %s holds on entry' % (L.qual, n), True)
                    else:
                        self.prove_eq(n, self.v0[n], r, 'holds on entry')
            return self.set_state(loc, st, slots, self.k)
        self.iterating = False
        return self.set_state(loc, st, slots, self.k)
    def set_state(self, loc, st, slots, k, discovery=False):
        info = self.info
        new = {}
        self.fr = {}
        self.lists_k = {}
        self.pc1 = len(cur().pc)
        for n, v in slots:
            f = info['forms'].get(n)
            if isinstance(v, Unbound):
                new[n] = v
                continue
            if f is not None:
                r = f(k) if not discovery or True else None
                if isinstance(r, tuple) and r and r[0] == 'list':
                    mlist(v).set(v, r[2])
                    self.lists_k[n] = r[2]
                    new[n] = v
                else:
                    new[n] = r
                self.fr[n] = new[n]
                continue
            if n in info.get('dead', ()):      # assigned before use in every iteration
                new[n] = UNBOUND
                continue
            if mlist(v) is not None:
                self.lists_k[n] = fresh_seq('hl')
                mlist(v).set(v, self.lists_k[n])
                new[n] = self.fr[n] = v
                continue
            h = next((h for h in RECUR if h.matches(v)), None)
            if h is None:
                new[n] = v
                self.fr[n] = v
                continue
            new[n] = h.fresh(v)
            self.fr[n] = new[n]
        it = self.L.it
        if isinstance(it, VIter):
            self.it0 = getattr(self, 'it0', it.pos)
            it.pos = mkint(iz(self.it0) + k.t)
            cur().assume(iz(it.pos) <= iz(it.s.n)) if not isinstance(iz(it.pos) <= iz(it.s.n), bool) else None
            cur().reg(it.pos)
        self.reach = reachable(loc)
        self.mut0 = len(cur().mutlog)
        self.serial0 = next(SERIAL)
        self.slotlists = [i for n, v in slots if mlist(v) for i in mlist(v).owned(v)]
        self.state_k = new
        self.guard_i = len(cur().trail)
        return [new[n] for n in self.L.names]
    def again(self, loc, st):
        c = cur()
        slots = [(n, v) for n, v in self.slots(loc, st) if n in self.v0]
        for o in c.mutlog[self.mut0:]:
            if isinstance(o, VList):
                if o.serial < self.serial0 and id(o) not in self.slotlists:
                    raise Unsupported('loop at %s:%d mutates a structure that is not a local list' % (self.L.qual, self.L.line))
            elif id(o) in self.reach and id(o) not in self.slotlists:
                raise Unsupported('loop at %s:%d mutates an object that existed before it (%s)' % (self.L.qual, self.L.line, type(o).__name__))
        it = self.L.it
        if isinstance(it, VIter) and not c.implied(iz(it.pos) == iz(self.it0) + self.k.t + 1):
            raise Unsupported('iterator advanced irregularly')
        if self.o < self.ROUNDS:
            conds = c.pc[self.pc1:]
            after = {}
            for n, v in slots:
                after[n] = (v, mlist(v).delta(v, self.lists_k[n]) if mlist(v) and n in self.lists_k else None)
            self.info['rounds'].setdefault(self.o, []).append(dict(k=self.k.t, conds=list(conds), v0=self.v0, fr=dict(self.fr), frs=dict(self.lists_k), after=after))
            raise Stop()
        # inductive step of the closed forms
        for n, v in slots:
            f = self.info['forms'].get(n)
            if f is None:
                continue
            r = f(self.k + 1)
            if isinstance(r, tuple) and r and r[0] == 'list':
                prove_same_seq(mlist(v).get(v), r[2], 'loop %s: closed form of %s is inductive' % (self.L.qual, n), True)
            else:
                self.prove_eq(n, v, r)
        c.prove(True, 'loop %s: iteration' % self.L.qual)
        raise Stop()
    def prove_eq(self, n, v, r, what='is inductive'):
        c = cur()
        h = next((h for h in RECUR if h.matches(r)), None)
        if h is not None and hasattr(h, 'prove_eq'):
            h.prove_eq(v, r, 'loop %s: closed form of %s %s' % (self.L.qual, n, what))
            return
        e = same(v, r)
        c.prove(e, 'loop %s: closed form of %s %s' % (self.L.qual, n, what), soft=True)
    def finish_round(self, rnd):
        """Combine the discovery paths of a round."""
        info = self.info
        recs = info['rounds'].get(rnd) or []
        if info.get('fin', -1) >= rnd:
            return
        info['fin'] = rnd
        if not recs:
            # no iteration ever comes back to the head: the loop runs at most once
            info['phi'] = (z3.Int('unused'), z3.BoolVal(False))
            for n in self.v0:
                v0 = self.v0[n]
                if n not in info['forms'] and not isinstance(v0, Unbound):
                    info['forms'][n] = (lambda k, v0=v0: ('list', None, v0)) if isinstance(v0, Seq) else (lambda k, v0=v0: v0)
            info['solved'] = True
            return
        names = set(recs[0]['after'])
        progress = False
        unsolved = []
        dead = set(info.get('dead', ()))
        for n in names:
            if n in info['forms']:
                continue
            forms = []
            for r in recs:
                v, s = r['after'][n]
                f0 = r['fr'].get(n, UNBOUND)
                v0 = r['v0'].get(n)
                if isinstance(v0, Unbound):
                    forms.append('dead')
                    continue
                if mlist(f0) is not None:
                    if s == []:
                        forms.append(('same',))
                    elif s is not None and len(s) == 1:
                        forms.append(('app', s[0], r['k']))
                    else:
                        forms.append(None)
                    continue
                if v is f0:
                    forms.append(('const',))
                    continue
                h = next((h for h in RECUR if h.matches(v0)), None)
                if h is None:
                    # not a recurrence variable: loop target or temporary; must be dead on entry to the iteration
                    forms.append('dead')
                    continue
                forms.append(('h', h.solve(v0, f0, v, r['k'])))
            if all(f == 'dead' for f in forms):
                dead.add(n)
                continue
            if any(x is None for x in forms):
                unsolved.append(n)
                continue
            kinds = {x[0] if isinstance(x, tuple) else x for x in forms}
            # paths may differ in form only where the forms coincide (e.g. rest of the empty list is the empty list): take the
            # first moving one, the inductive step checks it against every path
            mv = [(x, r) for x, r in zip(forms, recs) if isinstance(x, tuple) and x[0] in ('app', 'h') and (x[0] == 'app' or x[1] is not None)]
            if any(getattr(x[1], 'varying', False) for x, _ in mv):
                if not getattr(self.rt, 'candidates', None):
                    unsolved.append(n)
                    continue
                info['forms'][n] = lambda k, v0=recs[0]['v0'][n], g=self.rt.candidates[0]: mkint(iz(v0) + g(iz(k)))
                progress = True
                continue
            if mv and kinds == {'h', 'const'} and getattr(self.rt, 'candidates', None) and all(hasattr(x[1], 'step') for x, _ in mv):
                info['forms'][n] = lambda k, v0=recs[0]['v0'][n], g=self.rt.candidates[0]: mkint(iz(v0) + g(iz(k)))
                progress = True
                continue
            if kinds == {'app'} and len(forms) > 1 and not any(depends_on_fresh(x[1], r, info, r['k']) for x, r in zip(forms, recs)):
                g = cond_form(forms, recs)
                if g is not None:
                    info['forms'][n] = lambda k, v0=recs[0]['v0'][n], g=g: ('list', None, v0 + Fn(k, gf=g))
                    progress = True
                    continue
            if mv and kinds <= {'app', 'same'} or mv and kinds <= {'h', 'const'}:
                good = [(x, r) for x, r in mv if not depends_on_fresh(x[1] if x[0] == 'app' else getattr(x[1], 'terms', ()), r, info, r['k'])]
                if not good:
                    unsolved.append(n)
                    continue
                forms, kinds = [good[0][0]], {good[0][0][0]}
            f = forms[0]
            if kinds == {'const'}:
                v0 = recs[0]['v0'][n]
                info['forms'][n] = lambda k, v0=v0: v0
                progress = True
            elif kinds == {'same'}:
                v0, l = recs[0]['v0'][n], None
                info['forms'][n] = lambda k, v0=v0: ('list', None, v0)
                progress = True
            elif kinds == {'app'} and len(forms) == 1:
                e, kk, v0 = f[1], f[2], recs[0]['v0'][n]
                if depends_on_fresh(e, recs[0], info, kk):
                    unsolved.append(n)
                    continue
                if isinstance(e, SymVal):
                    t = e.t
                    info['forms'][n] = lambda k, v0=v0, t=t, kk=kk: ('list', None, v0 + Fn(k, tf=lambda i: z3.substitute(t, (kk, i))))
                else:
                    info['forms'][n] = lambda k, v0=v0, e=e, kk=kk: ('list', None, v0 + Fn(k, gf=lambda i: subst(e, kk, iz(i))))
                progress = True
            elif kinds == {'h'} and all(x[1] is not None for x in forms):
                # all paths must agree; verified by the inductive step obligation
                if len({getattr(x[1], 'step', None) for x in forms}) > 1 and getattr(self.rt, 'candidates', None):
                    info['forms'][n] = lambda k, v0=recs[0]['v0'][n], g=self.rt.candidates[0]: mkint(iz(v0) + g(iz(k)))
                    progress = True
                    continue
                if len(forms) > 1 and not getattr(forms[0][1], 'uniform', False):
                    pass
                g = f[1]
                if depends_on_fresh(getattr(g, 'terms', ()), recs[0], info, recs[0]['k']):
                    unsolved.append(n)
                    continue
                info['forms'][n] = g
                progress = True
            else:
                unsolved.append(n)
        info['dead'] = dead
        if unsolved and not progress:
            info['bad'] = 'no recurrence for ' + ', '.join(unsolved)
            return
        if unsolved:
            return
        # exit facts: an iteration that continues satisfies the disjunction of its path conditions; only sound once the state is in closed form
        if progress and rnd < self.ROUNDS - 1 and any(n for n in names if n not in dead and not _trivial(info['forms'].get(n))):
            info['need_phi_round'] = rnd + 1
            return
        kk = recs[0]['k']
        dis = []
        for r in recs:
            cj = [z3.substitute(x, (r['k'], kk)) for x in r['conds'] if not mentions_fresh(x, r['k'], recs)]
            dis.append(z3.And(*cj) if cj else z3.BoolVal(True))
        phi = z3.simplify(z3.Or(*dis)) if len(dis) > 1 else z3.simplify(dis[0])
        info['phi'] = (kk, phi if not mentions_fresh(phi, kk, recs) else None)
        info['solved'] = True

def cond_form(forms, recs):
    """every path appends one element: the element of an iteration by its path condition"""
    def merge(c, a, b):
        if a is b:
            return a
        if isinstance(a, SymVal) and isinstance(b, SymVal) and type(a) is type(b):
            return SymVal(z3.If(c, a.t, b.t))
        if isint(a) and isint(b) and not isinstance(a, bool) and not isinstance(b, bool):
            return mkint(z3.If(c, iz(a), iz(b)))
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(merge(c, x, y) for x, y in zip(a, b))
        raise Unsupported('elements of different forms')
    kk = recs[0]['k']
    out = None
    try:
        for (_, e, k), r in reversed(list(zip(forms, recs))):
            e = subst(e, k, kk)
            if out is None:
                out = e
                continue
            cj = [z3.substitute(x, (k, kk)) for x in r['conds'] if not mentions_fresh(x, k, recs)]
            if not cj:
                return None
            out = merge(z3.And(*cj), e, out)
    except Unsupported:
        return None
    return lambda i: subst(out, kk, iz(i))

def reachable(loc):
    seen = set()
    todo = list(loc.values())
    keep = []
    while todo:
        x = todo.pop()
        if id(x) in seen or x is None or isinstance(x, (int, str, z3.ExprRef, SymInt, SymVal, SymBool, Seq, types.FunctionType, type, types.ModuleType)):
            continue
        seen.add(id(x))
        keep.append(x)
        if len(seen) > 3000:
            raise Unsupported('too many reachable objects')
        if isinstance(x, (tuple, list)):
            todo.extend(x)
        elif isinstance(x, dict):
            todo.extend(x.values())
        else:
            try:
                d = object.__getattribute__(x, '__dict__')
            except AttributeError:
                d = None
            if isinstance(d, dict):
                todo.extend(d.values())
            for k in type(x).__mro__:
                for a in getattr(k, '__slots__', ()) or ():
                    if a in ('__weakref__', '__dict__'):
                        continue
                    dsc = k.__dict__.get(a)
                    if isinstance(dsc, types.MemberDescriptorType):
                        try:
                            todo.append(dsc.__get__(x))
                        except AttributeError:
                            pass
    cur().keep.append(keep)
    return seen

def _trivial(f):
    return f is None

def consts(t, acc=None):
    acc = set() if acc is None else acc
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                acc.add(x.decl().name())
            stack.extend(x.children())
    return acc

def num(name):
    try:
        return int(name.rsplit('!', 1)[1])
    except Exception:
        return -1

def mentions_fresh(t, kk, recs):
    """symbols introduced after the loop head other than the iteration index"""
    k = num(str(kk))
    return any(num(n) > k for n in consts(t))

def depends_on_fresh(e, rec, info, kk):
    k = num(str(kk))
    def go(v):
        if isinstance(v, (SymVal, SymInt)):
            return any(num(n) > k for n in consts(v.t))
        if isinstance(v, (tuple, list)):
            return any(go(x) for x in v)
        if isinstance(v, z3.ExprRef):
            return any(num(n) > k for n in consts(v))
        return False
    return go(e)

def prove_same_seq(a, b, name, soft=False):
    """obligation: equal length and identical elements at an arbitrary index"""
    c = cur()
    if c.quiet:
        return
    if a is b:
        c.prove(True, name)
        return
    if isinstance(a, Opq) and isinstance(b, Opq) and a.name == b.name and len(a.args) == len(b.args):
        for x, y in zip(a.args, b.args):
            if isinstance(x, Seq):
                prove_same_seq(x, y, name, soft)
            else:
                c.prove(same(x, y), name, soft=soft)
        return
    if isinstance(a, Cyc) and isinstance(b, Cyc):
        c.prove(iz(a.times) == iz(b.times), name + ': factor', soft=soft)
        prove_same_seq(a.a, b.a, name, soft)
        return
    c.prove(iz(a.n) == iz(b.n), name + ': length', soft=soft)
    if isinstance(a.n, int) and isinstance(b.n, int):
        for i in range(a.n):
            prove_same(a.get(i), b.get(i), name + ': elements', soft)
        if a.n <= 40:
            return
    i = c.int('i')
    rng = z3.And(i.t >= 0, i.t < iz(a.n))
    if a.isv and b.isv:
        c.reg(i)
        reg_deep(a, i.t)
        reg_deep(b, i.t)
        c.prove(z3.Implies(rng, z3.simplify(a.term(i.t) == b.term(i.t))), name + ': elements', soft=soft)
        return
    def f():
        c.assume(rng)
        c.reg(i)
        prove_same(a.get(i), b.get(i), name + ': elements', soft)
    side(f)

def side(f):
    """obligations on a path of their own, so that the case distinctions they need do not multiply with what follows"""
    c = cur()
    if c.choose(2) == 0:
        f()
        raise Stop()

def prove_same(x, y, name, soft=False):
    c = cur()
    if hasattr(type(x), 'vsame'):
        return x.vsame(y, name)
    if hasattr(type(y), 'vsame'):
        return y.vsame(x, name)
    if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
        for p, q in zip(x, y):
            prove_same(p, q, name, soft)
        return
    c.prove(same(x, y), name, soft=soft)
