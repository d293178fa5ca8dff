"""Contracts of _pdeque.py: C09 (and the parts of C01, C10, C16 that concern deques)."""
import core, rt, z3
from rt import *
from common import *
from aplist import *

def prepare(env):
    env.replace = {'_pdeque': dict(plist=aplist)}

def setup(env):
    env.dq = env.get('_pdeque')
    rt.RECUR.insert(0, RAPList())
    env.H.loop_hints.append(two_list_pop)

def newdq(env, name='D', bounded=None):
    """arbitrary well-formed deque; returns object, contents, maxlen"""
    c = cur()
    o = object.__new__(env.dq.PDeque)
    L, R = fresh_seq(name + 'l'), fresh_seq(name + 'r')
    o._left_list, o._right_list = APList(L), APList(R)
    o._length = L.n + R.n
    m = None
    if c.choose(2) if bounded is None else bounded:
        m = c.int('maxlen')
        c.assume(z3.And(m.t >= 0, iz(o._length) <= m.t))
    o._maxlen = m
    c.frozen[id(o)] = ('an existing deque', ())
    c.keep.append(o)
    return o, L + Rev(R), m

def contents(o):
    return o._left_list._s + Rev(o._right_list._s)

def result(env, r, want, maxlen, name):
    c = cur()
    if not isinstance(r, env.dq.PDeque) or not isinstance(r._left_list, APList) or not isinstance(r._right_list, APList):
        c.prove(False, name + ': result is a deque', 'result is %s' % type(r).__name__)
        return
    prove_same_seq(contents(r), want, name)
    n = r._left_list._s.n + r._right_list._s.n
    c.prove(iz(r._length) == iz(n) if isint(r._length) else False, name + ': stored length is the number of elements')
    if maxlen is None:
        c.prove(r._maxlen is None, name + ': still unbounded')
    else:
        c.prove(iz(r._maxlen) == iz(maxlen) if isint(r._maxlen) else False, name + ': bound kept')
        c.prove(iz(n) <= iz(maxlen), name + ': within the bound')

def keep_last(s, maxlen):
    """the last maxlen elements"""
    if maxlen is None:
        return s
    d = mkint(z3.If(iz(s.n) > iz(maxlen), iz(s.n) - iz(maxlen), 0))
    return Slice(s, d, s.n - d)
def keep_first(s, maxlen):
    if maxlen is None:
        return s
    return Slice(s, 0, mkint(z3.If(iz(s.n) > iz(maxlen), iz(maxlen), iz(s.n))))
def drop(s, k, left):
    k = mkint(z3.If(iz(k) < iz(s.n), iz(k), iz(s.n)))
    return Slice(s, k, s.n - k) if left else Slice(s, 0, s.n - k)

@harness('C09', 'PDeque.append appendleft', ['C01'])
def h_append(env):
    x, D, m = newdq(env)
    e = cur().val('e')
    if cur().choose(2):
        result(env, x.append(e), keep_last(D + Lit([e]), m), m, 'append(e) keeps the last maxlen of contents + [e]')
    else:
        result(env, x.appendleft(e), keep_first(Lit([e]) + D, m), m, 'appendleft(e) keeps the first maxlen of [e] + contents')

@harness('C09', 'PDeque.extend extendleft', ['C01'])
def h_extend(env):
    x, D, m = newdq(env)
    it = fresh_seq('it')
    src = VList(it, frozen='caller list') if cur().choose(2) else VIter(it)
    if cur().choose(2):
        result(env, x.extend(src), keep_last(D + it, m), m, 'extend(it) keeps the last maxlen of contents + it')
    else:
        result(env, x.extendleft(src), keep_first(Rev(it) + D, m), m, 'extendleft(it) keeps the first maxlen of reversed(it) + contents')

@harness('C09', 'PDeque.pop popleft', ['C01'])
def h_pop(env):
    x, D, m = newdq(env)
    c = cur()
    left = bool(c.choose(2))
    f = x.popleft if left else x.pop
    if c.choose(2):
        result(env, f(), drop(D, 1, left), m, 'pop()/popleft() drops one element')
        return
    k = c.int('count')
    r = f(k)
    if mkbool(k.t >= 0):
        result(env, r, drop(D, k, left), m, 'pop(k)/popleft(k) drops k elements')
    else:
        result(env, r, drop(D, -k, not left), m, 'a negative count pops from the other end')

@harness('C09', 'PDeque.left right')
def h_ends(env):
    x, D, m = newdq(env)
    if mkbool(iz(D.n) > 0):
        prove_same(expect_ok(lambda: x.left, 'left returns'), D.get(0), 'left is the first element')
        prove_same(expect_ok(lambda: x.right, 'right returns'), D.get(D.n - 1), 'right is the last element')
    else:
        expect_raise(lambda: x.left, IndexError, 'left of an empty deque raises IndexError')
        expect_raise(lambda: x.right, IndexError, 'right of an empty deque raises IndexError')

@harness('C09', 'PDeque.__len__ __iter__ __bool__ maxlen')
def h_len(env):
    x, D, m = newdq(env)
    c = cur()
    c.prove(same(env.H.b_len(x), D.n), 'len() is the number of elements')
    prove_same_seq(as_seq(type(x).__iter__(x)), D, 'iteration gives the contents')
    c.prove(same(x.maxlen, m), 'maxlen is the bound')
    prove_bool(truth(x), mkbool(iz(D.n) > 0), 'truth value is non-emptiness')

@harness('C09', 'PDeque.__getitem__ int')
def h_getitem(env):
    x, D, m = newdq(env)
    c = cur()
    i = c.int('i')
    j = mkint(z3.If(i.t < 0, i.t + iz(D.n), i.t))
    if mkbool(z3.And(iz(j) >= 0, iz(j) < iz(D.n))):
        prove_same(expect_ok(lambda: env.H.getitem(x, i), 'getitem in range returns'), D.get(j), 'getitem(i) is element i')
    else:
        expect_raise(lambda: env.H.getitem(x, i), IndexError, 'getitem out of range raises IndexError')

@harness('C09', 'PDeque.__getitem__ slice')
def h_slice(env):
    x, D, m = newdq(env)
    c = cur()
    k = c.choose(8)
    a, b, s = c.int('a'), c.int('b'), c.int('step')
    sl = VSlice(a if k & 1 else None, b if k & 2 else None, s if k & 4 else None)
    if k & 4 and mkbool(s.t == 0):
        expect_raise(lambda: env.H.getitem(x, sl), ValueError, 'a zero step raises ValueError')
        return
    r = expect_ok(lambda: env.H.getitem(x, sl), 'slicing returns')
    w = seq_slice(D, sl)
    if isinstance(w, Opq):
        c.assume(iz(w.n) <= iz(D.n))      # a slice is never longer than the sequence
    result(env, r, w, m, 'slice is the slice of the contents')

@harness('C09', 'PDeque.remove')
def h_remove(env):
    x, D, m = newdq(env)
    e = cur().val('e')
    p = find_first(D, e)
    if p is None:
        expect_raise(lambda: x.remove(e), ValueError, 'remove of an absent element raises ValueError')
    else:
        r = expect_ok(lambda: x.remove(e), 'remove of a present element returns')
        result(env, r, Removed(D, p), m, 'remove(e) drops exactly the first equal element')

@harness('C09', 'PDeque.reverse')
def h_reverse(env):
    x, D, m = newdq(env)
    r = x.reverse() if cur().choose(2) else env.H.b_reversed(x)
    result(env, r, Rev(D), m, 'reverse() is the reversed contents')

@harness('C09', 'PDeque.rotate')
def h_rotate(env):
    x, D, m = newdq(env)
    c = cur()
    k = c.int('steps')
    r = x.rotate(k)
    if mkbool(iz(D.n) == 0):
        result(env, r, EMPTY, m, 'rotating an empty deque')
        return
    q = k % D.n if isinstance(D.n, SymInt) else k % D.n
    result(env, r, Slice(D, D.n - q, q) + Slice(D, 0, D.n - q), m, 'rotate(k) moves the last k mod len elements to the front')

def same_multiset(got, pieces, name):
    """each CountOf in got covers one piece (or its reverse), or a single one covers their concatenation"""
    def eq(a, b):
        return seqs_equal(a, b) or seqs_equal(a, Rev(b))
    rest = list(pieces)
    if len(got) == 1 and len(pieces) == 2:
        cat = [pieces[0] + Rev(pieces[1]), pieces[0] + pieces[1], Rev(pieces[0]) + pieces[1]]
        return any(eq(got[0], w) for w in cat)
    for g in got:
        for q in rest:
            if eq(g, q):
                rest.remove(q)
                break
        else:
            return False
    return not rest

@harness('C09', 'PDeque.count index')
def h_count(env):
    x, D, m = newdq(env)
    c = cur()
    e = c.val('e')
    r = x.count(e)
    parts = [r] if isinstance(r, CountOf) else r.parts if isinstance(r, Sum) else None
    if parts is None or not all(isinstance(p, CountOf) for p in parts):
        raise Unsupported('count not expressed by counts of sequences')
    for p in parts:
        prove_same(p.x, e, 'count looks for the argument')
    c.prove(same_multiset([p.s for p in parts], [x._left_list._s, x._right_list._s], ''), 'count counts every element once')
    args = [c.int('a') for _ in range(c.choose(3))]
    lo, hi, _ = norm_slice(VSlice(*(args + [None, None])[:2], None), D.n)
    p = find_first(D, e, lo, hi)
    if p is None:
        expect_raise(lambda: x.index(e, *args), ValueError, 'index of an absent element raises ValueError')
    else:
        r = expect_ok(lambda: x.index(e, *args), 'index returns')
        c.prove(iz(r) == p.t if isint(r) else False, 'index is the first position in the range')

@harness('C09', 'PDeque.__eq__ __hash__ __lt__', ['C10'])
def h_eq(env):
    x, D, m = newdq(env)
    y, E, k = newdq(env, 'E')
    c = cur()
    w = c.choose(4)
    if w == 0:
        prove_bool(type(x).__eq__(x, y), SeqEq.make(D, E), 'equality of deques is equality of contents')
    elif w == 1:
        r = type(x).__lt__(x, y)
        c.prove(isinstance(r, OpCmp) and r.op == 'lt', 'ordering is the lexicographic one')
        if isinstance(r, OpCmp):
            prove_same_seq(r.a, D, 'ordering compares the contents')
            prove_same_seq(r.b, E, 'ordering compares the contents')
    elif w == 2:
        r = env.H.b_hash(x)
        c.prove(isinstance(r, OpHash) and r.kind == 'tuple', 'hash is that of the tuple of the contents')
        if isinstance(r, OpHash):
            prove_same_seq(r.arg, D, 'hash covers exactly the contents')
    else:
        for o in (VList(fresh_seq('o')), 5, None):
            c.prove(type(x).__eq__(x, o) is NotImplemented, '== with another kind is not decided by the deque')
            c.prove(type(x).__lt__(x, o) is NotImplemented, '< with another kind is not decided by the deque')

@harness('C09', 'pdeque() dq()')
def h_pdeque(env):
    c = cur()
    if c.choose(2):
        xs = [c.val('x') for _ in range(c.choose(4))]
        result(env, env.dq.dq(*xs), Lit(xs), None, 'dq(...) holds its arguments (0 to 3 arguments)')
        return
    it = fresh_seq('it')
    src = VList(it, frozen='caller list') if c.choose(2) else VIter(it)
    if c.choose(2):
        result(env, env.dq.pdeque(src), it, None, 'pdeque(it) holds the elements of it')
        return
    m = c.int('maxlen')
    if mkbool(m.t < 0):
        expect_raise(lambda: env.dq.pdeque(src, maxlen=m), ValueError, 'a negative bound raises ValueError')
        return
    r = env.dq.pdeque(src, maxlen=m) if c.choose(2) else env.dq.pdeque(src, m)
    result(env, r, keep_last(it, m), m, 'pdeque(it, maxlen) holds the last maxlen elements of it')

@harness('C16', 'PDeque.__reduce__')
def h_reduce(env):
    x, D, m = newdq(env)
    f, args = env.H.unpack(x.__reduce__(), 2)
    r = f(*env.H.unpack(args, len(args)))
    result(env, r, D, m, 'the reduced form rebuilds contents and bound')
