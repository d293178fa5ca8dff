"""The contract of PList as a class: what c_plist.py proves about the real class, used in place of it by its clients."""
import core, rt, z3
from rt import *

class APList:
    def __init__(self, s):
        self._s = s
    def vsetattr(self, a, v):
        frame_violation('cell of a list')
    def _vc_seq(self): return self._s
    def vlen(self): return self._s.n
    def vtruth(self): return self._s.n > 0
    @property
    def first(self):
        if mkbool(iz(self._s.n) > 0):
            return self._s.get(0)
        raise HRaised(AttributeError('Empty PList has no first'))
    @property
    def rest(self):
        if mkbool(iz(self._s.n) > 0):
            return APList(Slice(self._s, 1, self._s.n - 1))
        return self
    def cons(self, e): return APList(Lit([e]) + self._s)
    def mcons(self, it): return APList(Rev(seq_of(it)) + self._s)
    def reverse(self): return APList(Rev(self._s))
    def split(self, i):
        s = self._s
        k = mkint(z3.If(iz(i) < 0, 0, z3.If(iz(i) < iz(s.n), iz(i), iz(s.n))))
        return APList(Slice(s, 0, k)), APList(Slice(s, k, s.n - k))
    def __getitem__(self, i):
        if isinstance(i, VSlice):
            return APList(seq_slice(self._s, i))
        return seq_index(self._s, i)
    def remove(self, e):
        p = find_first(self._s, e)
        if p is None:
            raise HRaised(ValueError('not in list'))
        return APList(Removed(self._s, p))
    def count(self, e): return CountOf(self._s, e)
    def index(self, e, *a):
        lo, hi, _ = norm_slice(slice(*(a + (None,) * (2 - len(a)))), self._s.n)
        p = find_first(self._s, e, lo, hi)
        if p is None:
            raise HRaised(ValueError('not in list'))
        return p
    def vcontains(self, e): return find_first(self._s, e) is not None
    def __eq__(self, o):
        if not isinstance(o, APList):
            return NotImplemented
        return SeqEq.make(self._s, o._s)
    def __lt__(self, o):
        if not isinstance(o, APList):
            return NotImplemented
        return OpCmp('lt', self._s, o._s)
    __hash__ = None
    def vhash(self): return OpHash('tuple', self._s)

def aplist(iterable=(), reverse=False):
    s = seq_of(iterable)
    return APList(Rev(s) if truth(reverse) else s)

class RAPList(Recur):
    def matches(self, v): return isinstance(v, APList)
    def fresh(self, v): return APList(fresh_seq('hp'))
    def solve(self, v0, vf, v1, k):
        if not isinstance(v1, APList):
            return None
        s, f0, a0 = v1._s, vf._s, v0._s
        if isinstance(s, Concat) and isinstance(s.a, Lit) and s.a.n == 1 and s.b is f0 and isinstance(s.a.xs[0], SymVal):
            t = s.a.xs[0].t
            f = lambda n: APList(Rev(Fn(n, tf=lambda i: z3.substitute(t, (k, i)))) + a0)
            f.terms = [t]
            return f
        if isinstance(s, Slice) and s.a is f0 and isinstance(s.lo, int) and s.lo == 1:
            def f(n):
                d = mkint(z3.If(iz(n) < iz(a0.n), iz(n), iz(a0.n)))
                return APList(Slice(a0, d, a0.n - d))
            return f
        return None
    def prove_eq(self, v, r, name):
        if not isinstance(v, APList):
            cur().prove(False, name, soft=True)
            return
        prove_same_seq(v._s, r._s, name, True)

def two_list_pop(L, loc, slots):
    """loop over two lists P, S that takes elements off the deque P ++ reversed(S): state after k iterations"""
    names = [n for n in L.names if isinstance(slots.get(n), APList)]
    if len(names) != 2 or L.it is not None:
        return None
    P0, S0 = slots[names[0]]._s, slots[names[1]]._s
    D = P0 + Rev(S0)
    def p(k):
        if mkbool(z3.Or(iz(k) < iz(P0.n), iz(k) == 0)):
            return APList(Slice(P0, k, P0.n - k))
        r = mkint(z3.If(iz(k) < iz(D.n), iz(D.n) - iz(k), 0))
        return APList(Slice(D, k, r))
    def s(k):
        if mkbool(z3.Or(iz(k) < iz(P0.n), iz(k) == 0)):
            return APList(S0)
        return APList(EMPTY)
    return {names[0]: p, names[1]: s}
