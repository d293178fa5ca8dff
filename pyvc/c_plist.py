"""Contracts of _plist.py: C08 (and the parts of C01, C10, C16 that concern lists)."""
import core, rt, z3
from rt import *
from common import *

def setup(env):
    """load the module; give PList objects their abstraction function"""
    m = env.get('_plist')
    env.pl = m
    base, PList, EMPTYL = m._PListBase, m.PList, m._EMPTY_PLIST
    class SymPList(PList):
        """arbitrary non-empty list with mathematical contents _s"""
        __slots__ = ('_s', '_r')
        first = property(lambda self: self._s.get(0))
        @property
        def rest(self):
            if self._r is None:
                n = self._s.n - 1
                object.__setattr__(self, '_r', mk(Slice(self._s, 1, n)))
            return self._r
        def vsetattr(self, a, v):
            frame_violation('cell of an existing list')
    SymPList.__module__ = PList.__module__
    def mk(s):
        """list with contents s: the empty singleton or an arbitrary non-empty list"""
        if not mkbool(iz(s.n) > 0):
            return EMPTYL
        x = object.__new__(SymPList)
        object.__setattr__(x, '_s', s)
        object.__setattr__(x, '_r', None)
        return x
    def absl(x):
        """mathematical contents of a list (abstraction function)"""
        pre = []
        while True:
            if x is EMPTYL:
                return Lit(pre)
            if isinstance(x, SymPList):
                return Lit(pre) + x._s
            if isinstance(x, Seg):
                return Lit(pre) + x._pre + absl(x._cell)
            if not isinstance(x, base):
                raise NotAList()
            pre.append(x.first)
            x = x.rest
    class Seg(PList):
        """builder head: prefix _pre followed by the cell _cell"""
        __slots__ = ('_pre', '_cell')
        first = property(lambda self: self._pre.get(0))
        @property
        def rest(self):
            raise Unsupported('walking a list under construction')
    Seg.__module__ = PList.__module__
    env.mkl, env.absl, env.SymPList, env.Seg, env.EMPTYL = mk, absl, SymPList, Seg, EMPTYL
    base._vc_seq = lambda self: absl(self)
    class RPList(Recur):
        def matches(self, v): return isinstance(v, base)
        def fresh(self, v):
            return mk(fresh_seq('hp'))
        def solve(self, v0, vf, v1, k):
            if isinstance(v1, base) and not isinstance(v1, SymPList) and v1 is not EMPTYL and v1.rest is vf:
                e, a0 = v1.first, absl(v0)
                if not isinstance(e, SymVal):
                    return None
                t = e.t
                f = lambda n: mk(Rev(Fn(n, tf=lambda i: z3.substitute(t, (k, i)))) + a0)
                f.terms = [t]
                return f
            if isinstance(vf, base):
                a, b = absl(vf), absl(v1)
                if (isinstance(b, Slice) and b.a is a and isinstance(b.lo, int) and b.lo == 1) or (v1 is EMPTYL and isinstance(vf, SymPList)):
                    a0 = absl(v0)
                    def f(n):
                        d = mkint(z3.If(iz(n) < iz(a0.n), iz(n), iz(a0.n)))
                        return mk(Slice(a0, d, a0.n - d))
                    return f
                if v1 is EMPTYL and vf is EMPTYL:       # rest of the empty list
                    a0 = absl(v0)
                    def f(n):
                        d = mkint(z3.If(iz(n) < iz(a0.n), iz(n), iz(a0.n)))
                        return mk(Slice(a0, d, a0.n - d))
                    return f
            return None
        def prove_eq(self, v, r, name):
            prove_same_seq(absl(v), absl(r), name, True)
    rt.RECUR.insert(0, RPList())
    class ABuilder(MListAdapter):
        """list under construction: _head is the first cell, _tail the last one"""
        def matches(self, v): return isinstance(v, m._PListBuilder)
        def get(self, v): return absl(v._head)
        def set(self, v, s):
            if not mkbool(iz(s.n) > 0):
                v._head = v._tail = EMPTYL
                v_cell[id(v)] = EMPTYL
                return
            cell = object.__new__(PList)
            cell.first = s.get(s.n - 1)
            cell.rest = EMPTYL
            if mkbool(iz(s.n) == 1):
                v._head = cell
            else:
                v._head = seg = object.__new__(Seg)
                seg._pre = Slice(s, 0, s.n - 1)
                seg._cell = cell
            v._tail = cell
            v_cell[id(v)] = cell
            cur().keep.append((v, cell))
        def delta(self, v, hv):
            cell = v_cell[id(v)]
            x = v._head if cell is EMPTYL else cell.rest
            out = []
            while x is not EMPTYL:
                if not isinstance(x, PList) or isinstance(x, (SymPList, Seg)) or len(out) > 5:
                    return None
                out.append(x.first)
                last = x
                x = x.rest
            if out and v._tail is not last:
                return None
            return out
        def owned(self, v): return [id(v), id(v._tail)]
    v_cell = {}
    rt.MLISTS.append(ABuilder())

class NotAList(Exception):
    pass

# ---------------------------------------------------------------- harnesses
def newlist(env, name='L', frozen=True):
    s = fresh_seq(name)
    x = env.mkl(s)
    return x, env.absl(x)

def contents(env, x, s, name):
    c = cur()
    if not isinstance(x, env.pl._PListBase):
        c.prove(False, name + ': result is a list', 'result is %s' % type(x).__name__)
        return
    prove_same_seq(env.absl(x), s, name)

@harness('C08', 'PList.cons', ['C01'])
def h_cons(env):
    x, s = newlist(env)
    e = cur().val('e')
    contents(env, x.cons(e), Lit([e]) + s, 'cons(e) is [e] + contents')

@harness('C08', 'PList.mcons')
def h_mcons(env):
    x, s = newlist(env)
    it = fresh_seq('it')
    contents(env, x.mcons(VList(it, frozen='caller list')), Rev(it) + s, 'mcons(it) is reversed(it) + contents')

@harness('C08', 'PList.reverse')
def h_reverse(env):
    x, s = newlist(env)
    contents(env, x.reverse(), Rev(s), 'reverse() is the reversed contents')

@harness('C08', 'PList.__reversed__')
def h_reversed(env):
    x, s = newlist(env)
    r = env.H.b_reversed(x)
    contents(env, r, Rev(s), 'reversed() is the reversed contents')

@harness('C08', 'PList.split')
def h_split(env):
    x, s = newlist(env)
    i = cur().int('i')
    l, r = env.H.unpack(x.split(i), 2)
    k = mkint(z3.If(i.t < 0, 0, z3.If(i.t < iz(s.n), i.t, iz(s.n))))
    contents(env, l, Slice(s, 0, k), 'split(i) left part')
    contents(env, r, Slice(s, k, s.n - k), 'split(i) right part')

@harness('C08', 'PList.__iter__')
def h_iter(env):
    x, s = newlist(env)
    r = type(x).__iter__(x)
    prove_same_seq(as_seq(r), s, 'iteration gives the contents')

@harness('C08', 'PList.__len__')
def h_len(env):
    x, s = newlist(env)
    cur().prove(same(env.H.b_len(x), s.n), 'len() is the number of elements')

@harness('C08', 'PList.__bool__ first rest')
def h_first(env):
    x, s = newlist(env)
    c = cur()
    if mkbool(iz(s.n) > 0):
        c.prove(truth(x) is True, 'non-empty list is true')
        prove_same(x.first, s.get(0), 'first is element 0')
        contents(env, x.rest, Slice(s, 1, s.n - 1), 'rest is the contents without the first')
    else:
        c.prove(truth(x) is False, 'empty list is false')
        expect_raise(lambda: x.first, AttributeError, 'first of the empty list raises AttributeError')
        contents(env, x.rest, EMPTY, 'rest of the empty list is empty')

@harness('C08', 'PList.__getitem__ int')
def h_getitem(env):
    x, s = newlist(env)
    c = cur()
    i = c.int('i')
    j = mkint(z3.If(i.t < 0, i.t + iz(s.n), i.t))
    ok = mkbool(z3.And(iz(j) >= 0, iz(j) < iz(s.n)))
    if truth(ok):
        r = expect_ok(lambda: env.H.getitem(x, i), 'getitem in range returns')
        prove_same(r, s.get(j), 'getitem(i) is element i')
    else:
        expect_raise(lambda: env.H.getitem(x, i), IndexError, 'getitem out of range raises IndexError')

def slice_variants(c):
    """every shape of slice: each bound absent or any integer, step absent or any integer"""
    k = c.choose(8)
    a, b, s = c.int('a'), c.int('b'), c.int('step')
    return VSlice(a if k & 1 else None, b if k & 2 else None, s if k & 4 else None)

@harness('C08', 'PList.__getitem__ slice')
def h_slice(env):
    x, s = newlist(env)
    sl = slice_variants(cur())
    if sl.step is not None and mkbool(sl.step.t == 0):
        expect_raise(lambda: env.H.getitem(x, sl), ValueError, 'a zero step raises ValueError')
        return
    r = expect_ok(lambda: env.H.getitem(x, sl), 'slicing returns')
    contents(env, r, seq_slice(s, sl), 'slice is the slice of the contents')

@harness('C08', 'PList.remove')
def h_remove(env):
    x, s = newlist(env)
    c = cur()
    e = c.val('e')
    p = find_first(s, e)
    if p is None:
        expect_raise(lambda: x.remove(e), ValueError, 'remove of an absent element raises ValueError')
    else:
        r = expect_ok(lambda: x.remove(e), 'remove of a present element returns')
        contents(env, r, Removed(s, p), 'remove(e) drops exactly the first equal element')

@harness('C08', 'PList.__eq__', ['C10'])
def h_eq(env):
    x, s = newlist(env)
    y, t = newlist(env, 'M')
    want = SeqEq.make(s, t)
    r = type(x).__eq__(x, y)
    prove_bool(r, want, 'equality of lists is equality of contents')

@harness('C08', 'PList.__lt__')
def h_lt(env):
    x, s = newlist(env)
    y, t = newlist(env, 'M')
    r = type(x).__lt__(x, y)
    c = cur()
    c.prove(isinstance(r, OpCmp) and r.op == 'lt', 'ordering is the lexicographic one')
    if isinstance(r, OpCmp):
        prove_same_seq(r.a, s, 'ordering compares the contents')
        prove_same_seq(r.b, t, 'ordering compares the contents')

@harness('C08', 'PList comparison with other kinds')
def h_other(env):
    x, s = newlist(env)
    for o in (VList(fresh_seq('o')), 5, None):
        cur().prove(type(x).__eq__(x, o) is NotImplemented, '== with another kind is not decided by the list')
        cur().prove(type(x).__lt__(x, o) is NotImplemented, '< with another kind is not decided by the list')

@harness('C08', 'PList.__hash__', ['C10'])
def h_hash(env):
    x, s = newlist(env)
    r = env.H.b_hash(x)
    cur().prove(isinstance(r, OpHash) and r.kind == 'tuple', 'hash is that of the tuple of the contents')
    if isinstance(r, OpHash):
        prove_same_seq(r.arg, s, 'hash covers exactly the contents')

@harness('C08', 'PList.count index contains')
def h_count(env):
    x, s = newlist(env)
    c = cur()
    e = c.val('e')
    r = x.count(e)
    c.prove(isinstance(r, CountOf), 'count counts equal elements')
    if isinstance(r, CountOf):
        prove_same_seq(r.s, s, 'count looks at the contents')
        prove_same(r.x, e, 'count looks for the argument')
    p = find_first(s, e)
    if p is None:
        expect_raise(lambda: x.index(e), ValueError, 'index of an absent element raises ValueError')
    else:
        r = expect_ok(lambda: x.index(e), 'index returns')
        c.prove(iz(r) == p.t if isint(r) else False, 'index is the first position')

@harness('C08', 'plist()')
def h_plist(env):
    it = fresh_seq('it')
    rev = cur().choose(2)
    src = VList(it, frozen='caller list') if cur().choose(2) else VIter(it)
    r = env.pl.plist(src, reverse=bool(rev)) if rev else env.pl.plist(src)
    contents(env, r, Rev(it) if rev else it, 'plist(it) holds the elements of it')

@harness('C08', 'l()')
def h_l(env):
    c = cur()
    k = c.choose(4)
    xs = [c.val('x') for _ in range(k)]
    contents(env, env.pl.l(*xs), Lit(xs), 'l(...) holds its arguments (0 to 3 arguments)')

@harness('C16', 'PList.__reduce__')
def h_reduce(env):
    x, s = newlist(env)
    f, args = env.H.unpack(x.__reduce__(), 2)
    r = f(*env.H.unpack(args, len(args)))
    contents(env, r, s, 'the reduced form rebuilds the contents')
