"""Contracts of the Python vector (_pvector.py): C02, C03 (and parts of C01, C10, C16)."""
import core, rt, z3, types
from rt import *
from common import *
from vtree import *

SHIFTS = shifts()

def setup(env):
    m = env.pv = env.get('_pvector')
    env.P = m.PythonPVector

def tolist_contract(env):
    """PythonPVector.tolist(): a new list with the contents"""
    def ic(f, self, *a):
        if a or not hasattr(self, '_vcD') and id(self) not in env.cont:
            return f(self, *a)
        return VList(env.cont[id(self)])
    env.H.intercepts['_pvector:PythonPVector.tolist'] = ic

def newvec(env, L=None, name='D', n=None):
    c = cur()
    D = fresh_seq(name, n)
    if L is None:
        v = object.__new__(env.P)
        v._count = D.n
        c.frozen[id(v)] = ('an existing vector', ())
        c.keep.append(v)
    else:
        v = mkvec(env.P, D, L)
    return v, D

def isvec(env, r, name):
    if isinstance(r, env.P):
        return True
    cur().prove(False, name + ': result is a vector', 'result is %s' % type(r).__name__)
    return False

# ------------------------------------------------------------- primitives on the trie
@harness('C02', 'PythonPVector.__getitem__ int', variants=SHIFTS)
def h_getitem(env, L):
    v, D = newvec(env, L)
    c = cur()
    i = c.int('i')
    j = mkint(z3.If(i.t < 0, i.t + iz(D.n), i.t))
    if mkbool(z3.And(iz(j) >= 0, iz(j) < iz(D.n))):
        prove_same(expect_ok(lambda: env.H.getitem(v, i), 'getitem in range returns'), D.get(j), 'getitem(i) is element i')
    else:
        expect_raise(lambda: env.H.getitem(v, i), IndexError, 'getitem out of range raises IndexError')

@harness('C02', 'PythonPVector.set', ['C01'], variants=SHIFTS)
def h_set(env, L):
    v, D = newvec(env, L)
    c = cur()
    i, x = c.int('i'), c.val('x')
    j = mkint(z3.If(i.t < 0, i.t + iz(D.n), i.t))
    if mkbool(z3.And(iz(j) >= 0, iz(j) < iz(D.n))):
        r = expect_ok(lambda: v.set(i, x), 'set in range returns')
        if isvec(env, r, 'set'):
            check_vec(r, Upd(D, j, x), 'set(i, x) replaces exactly element i')
    elif mkbool(iz(j) == iz(D.n)):
        r = expect_ok(lambda: v.set(i, x), 'set at the end returns')
        if isvec(env, r, 'set'):
            check_vec(r, D + Lit([x]), 'set(len, x) appends')
    else:
        expect_raise(lambda: v.set(i, x), IndexError, 'set out of range raises IndexError')

@harness('C02', 'PythonPVector.append', ['C01'], variants=SHIFTS)
def h_append(env, L):
    v, D = newvec(env, L)
    x = cur().val('x')
    r = v.append(x)
    if isvec(env, r, 'append'):
        check_vec(r, D + Lit([x]), 'append(x) is contents + [x]')
        cur().prove(isinstance(r._tail, VList) and not r._tail.frozen and not isinstance(r._tail, VNode) or r is v, 'append: the new vector does not share its tail list')

# ------------------------------------------------------------- contracts used for calls of public methods
def use_contracts(env, *names):
    """calls of these public methods are replaced by their contracts (each is proved by its own harness)"""
    P = '_pvector:PythonPVector.'
    def cont(v):
        return env.cont[id(v)] if id(v) in env.cont else content_of(v)
    def made(D, L=None):
        c = cur()
        r = mkvec(env.P, D, L, frozen=False) if L else object.__new__(env.P)
        if not L:
            r._count = D.n
        c.keep.append(r)
        env.cont[id(r)] = D
        return r
    env.made = made
    def tolist(f, self):
        return VList(cont(self))
    def extend(f, self, obj):
        if isinstance(obj, env.P):
            return made(cont(self) + cont(obj))
        return made(cont(self) + seq_of(obj))
    def append(f, self, x):
        return made(cont(self) + Lit([x]), env.L)
    d = dict(tolist=tolist, extend=extend, append=append)
    for n in names:
        env.H.intercepts[P + n] = d[n]
    env.contf = cont

def absvec(env, name='D', n=None, K=None):
    """vector known only by its contents"""
    c = cur()
    D = fresh_seq(name, n)
    v = object.__new__(K or env.P)
    v._count = D.n
    c.frozen[id(v)] = ('an existing vector', ())
    c.keep.append(v)
    env.cont[id(v)] = D
    return v, D

def start(env, *names):
    env.cont = {}
    env.H.intercepts.clear()
    env.H.loop_hints.clear()
    env.H.providers.clear()
    e = env.pv._EMPTY_PVECTOR
    e._root, e._tail = VList(EMPTY, frozen='empty vector'), VList(EMPTY, frozen='empty vector')
    cur().frozen[id(e)] = ('the empty vector', ())
    env.cont[id(e)] = EMPTY
    use_contracts(env, *names)

def isresult(env, r, W, name):
    c = cur()
    if not isinstance(r, env.P) :
        c.prove(False, name + ': result is a vector', 'result is %s' % type(r).__name__)
        return
    prove_same_seq(env.contf(r), W, name)

class MutExtend:
    """loop that moves a sequence into a fresh vector: contents at the head are those at entry + sequence[:offset]"""
    def __init__(self, env, L, loc, vec, off, seq):
        self.env, self.L, self.vec, self.off, self.seq = env, L, vec, off, seq
        self.A = env.cont[id(vec)]
    def first(self, loc, st):
        c = cur()
        self.check(st, 'entry')
        c.havocs += 1
        o = c.int('offset')
        c.assume(z3.And(o.t >= 0, o.t <= iz(self.seq.n)))
        v = self.vec
        D = self.A + Slice(self.seq, 0, o)
        tl = c.int('taillen')
        T = mkint(iz(D.n) - iz(tl))
        c.assume(z3.And(iz(tl) >= 0, iz(tl) <= 32, levels_of(T, self.env.L)))
        tr = Tree(D, T, 'inner node of the vector under construction')
        fill(v, D, self.env.L, T, tl, tr, None)
        v._tail_offset = c.int('stale')
        self.env.cont[id(v)] = None
        return [o if n == self.off else s for n, s in zip(self.L.names, st)]
    def check(self, st, what):
        c = cur()
        o = st[self.L.names.index(self.off)]
        c.soft = True
        nm = 'loop %s: contents are those before + the elements moved so far' % self.L.qual
        c.prove(z3.And(iz(o) >= 0, iz(o) <= iz(self.seq.n)) if isint(o) else False, nm + ' (offset)')
        if isint(o):
            check_vec(self.vec, self.A + Slice(self.seq, 0, o), nm, tail_offset=False)
            c.prove(not self.vec._tail.frozen and not isinstance(self.vec._tail, VNode), nm + ' (own tail)')
        c.soft = False
    def again(self, loc, st):
        self.check(st, 'iteration')
        raise Stop()

def mut_extend(env):
    def f(L, loc):
        vec = [v for v in loc.values() if isinstance(v, env.P) and id(v) not in cur().frozen and env.cont.get(id(v)) is not None]
        off = [n for n in L.names if isinstance(loc.get(n), int) and loc[n] == 0]
        seq = [v for v in loc.values() if isinstance(v, (VList, VTuple)) and not isinstance(v, VNode)]
        if L.it is None and len(vec) == 1 and len(off) == 1 and len(seq) == 1:
            return MutExtend(env, L, loc, vec[0], off[0], seq[0]._seq())
        return None
    return f

@harness('C02', 'PythonPVector.extend', ['C01'], variants=SHIFTS)
def h_extend(env, L):
    start(env, 'tolist', 'append')
    env.L = L
    env.H.providers.append(mut_extend(env))
    v, D = absvec(env)
    c = cur()
    it = fresh_seq('it')
    k = c.choose(4) if L == 5 else 0      # the kind of argument does not interact with the depth
    src, want = VList(it, frozen='caller list'), it
    if k == 1:
        src = VIter(it)
    elif k == 2:
        src, want = absvec(env, 'E')
    elif k == 3:
        src, want = v, D
    r = v.extend(src) if L > 5 or c.choose(2) else v + src
    nm = 'extend(it) is contents + it'
    if r is v:
        prove_same_seq(D, D + want, nm)
    elif isvec(env, r, nm):
        check_vec(r, D + want, nm) if env.cont.get(id(r)) is None else prove_same_seq(env.cont[id(r)], D + want, nm)

@harness('C02', 'PythonPVector._fill_list', ['C03', 'C10', 'C16', 'C01'], variants=[0] + SHIFTS)
def h_fill(env, l):
    """recursion of tolist, by induction on the depth"""
    start(env)
    c = cur()
    c.soft = True
    D = fresh_seq('D')
    T, m = c.int('T'), c.int('m')
    c.assume(z3.And(T.t >= 0, T.t <= iz(D.n), iz(digit(T.t)[1]) == 0, m.t >= 0, m.t * (1 << (l + 5)) < T.t))
    tr = Tree(D, T, 'node of an existing vector')
    v = object.__new__(env.P)
    c.frozen[id(v)] = ('an existing vector', ())
    def flat(node):
        w = 32 << node.level
        b = iz(node.m) * w
        e = z3.If(b + w < T.t, b + w, T.t)
        return Slice(D, mkint(b), mkint(z3.If(e > b, e - b, 0)))
    def contract(f, self, node, shift, out, *a, **k):
        if not isinstance(node, VNode) or node.level != shift or shift >= l or a or k or not isinstance(out, VList):
            raise Unsupported('recursive call outside the contract')
        out.extend(VTuple(flat(node)))
    def hint(L, loc, slots):
        node = getattr(getattr(L.it, 's', None), 'node', None)
        if node is None:
            return None
        w = 1 << node.level
        b = iz(node.m) * (32 * w)
        out = {}
        for n, x in slots.items():
            if isinstance(x, VList) and not isinstance(x, VNode):
                s0 = x.s
                out[n] = lambda k, s0=s0: ('list', None, s0 + Slice(D, mkint(b), mkint(z3.If(b + iz(k) * w < T.t, iz(k) * w, T.t - b))))
        return out
    env.H.loop_hints.append(hint)
    fl = env.P._fill_list._vc_orig
    env.H.intercepts['_pvector:PythonPVector._fill_list'] = contract
    node = VNode(tr, l, m)
    out = VList(fresh_seq('out0'))
    s0 = out.s
    fl(v, node, l, out)
    prove_same_seq(out.s, s0 + flat(node), '_fill_list appends the elements below the node')

@harness('C02', 'PythonPVector.tolist', ['C03', 'C10', 'C16', 'C01'], variants=SHIFTS)
def h_tolist(env, L):
    start(env)
    v, D = newvec(env, L)
    def contract(f, self, node, shift, out, *a, **k):
        if not isinstance(node, VNode) or node.level != shift or a or k or not isinstance(out, VList):
            raise Unsupported('call outside the contract')
        w = 32 << node.level
        b, T = iz(node.m) * w, iz(node.tree.T)
        e = z3.If(b + w < T, b + w, T)
        out.extend(VTuple(Slice(node.tree.D, mkint(b), mkint(z3.If(e > b, e - b, 0)))))
    env.H.intercepts['_pvector:PythonPVector._fill_list'] = contract
    k = cur().choose(3)
    r = v.tolist() if k == 0 else v._totuple() if k == 1 else type(v).__iter__(v)
    cur().prove(isinstance(r, (VList, VTuple, VIter)), 'tolist returns a list')
    prove_same_seq(as_seq(r), D, 'tolist()/iteration gives the contents')
    if isinstance(r, VList):
        cur().prove(not r.frozen, 'tolist returns a new list')

# ------------------------------------------------------------- methods that go through tolist/extend
@harness('C02', 'PythonPVector.__len__ __getitem__ slice')
def h_slice(env):
    start(env, 'tolist', 'extend')
    v, D = absvec(env)
    c = cur()
    c.prove(same(env.H.b_len(v), D.n), 'len() is the number of elements')
    k = c.choose(8)
    a, b, s = c.int('a'), c.int('b'), c.int('step')
    sl = VSlice(a if k & 1 else None, b if k & 2 else None, s if k & 4 else None)
    if k & 4 and mkbool(s.t == 0):
        expect_raise(lambda: env.H.getitem(v, sl), ValueError, 'a zero step raises ValueError')
        return
    isresult(env, expect_ok(lambda: env.H.getitem(v, sl), 'slicing returns'), seq_slice(D, sl), 'slice is the slice of the contents')

@harness('C02', 'PythonPVector.__mul__')
def h_mul(env):
    start(env, 'tolist', 'extend')
    v, D = absvec(env)
    k = cur().int('times')
    r = v * k if cur().choose(2) else k * v
    if mkbool(k.t <= 0):
        isresult(env, r, EMPTY, 'v * k is empty for k <= 0')
    elif mkbool(k.t == 1):
        isresult(env, r, D, 'v * 1')
    elif mkbool(iz(D.n) == 0):
        isresult(env, r, D, 'empty vector repeated') if not isinstance(env.contf(r), Cyc) else prove_same_seq(env.contf(r).a, D, 'empty vector repeated')
    else:
        isresult(env, r, Cyc(D, k), 'v * k repeats the contents')

@harness('C02', 'PythonPVector.delete remove')
def h_delete(env):
    start(env, 'tolist', 'extend')
    v, D = absvec(env)
    c = cur()
    k = c.choose(3)
    if k == 0:
        i = c.int('i')
        j = mkint(z3.If(i.t < 0, i.t + iz(D.n), i.t))
        if mkbool(z3.And(iz(j) >= 0, iz(j) < iz(D.n))):
            isresult(env, expect_ok(lambda: v.delete(i), 'delete in range returns'), Removed(D, j), 'delete(i) drops exactly element i')
        else:
            expect_raise(lambda: v.delete(i), IndexError, 'delete out of range raises IndexError')
    elif k == 1:
        a, b = c.int('a'), c.int('b')
        lo, hi, _ = norm_slice(VSlice(a, b, None), D.n)
        hi = mkint(z3.If(iz(hi) < iz(lo), iz(lo), iz(hi)))
        r = v.delete(a, b) if c.choose(2) else v.delete(a, stop=b)
        isresult(env, r, Slice(D, 0, lo) + Slice(D, hi, D.n - hi), 'delete(a, b) drops the range')
    else:
        e = c.val('e')
        p = find_first(D, e)
        if p is None:
            expect_raise(lambda: v.remove(e), ValueError, 'remove of an absent element raises ValueError')
        else:
            isresult(env, expect_ok(lambda: v.remove(e), 'remove of a present element returns'), Removed(D, p), 'remove(e) drops exactly the first equal element')

@harness('C02', 'PythonPVector.index count')
def h_index(env):
    start(env, 'tolist', 'extend')
    v, D = absvec(env)
    c = cur()
    e = c.val('e')
    r = v.count(e)
    c.prove(isinstance(r, CountOf), 'count counts equal elements')
    if isinstance(r, CountOf):
        prove_same_seq(r.s, D, 'count looks at the contents')
        prove_same(r.x, e, 'count looks for the argument')
    args = [c.int('a') for _ in range(c.choose(3))]
    lo, hi, _ = norm_slice(VSlice(*(args + [None, None])[:2], None), D.n)
    p = find_first(D, e, lo, hi)
    if p is None:
        expect_raise(lambda: v.index(e, *args), ValueError, 'index of an absent element raises ValueError')
    else:
        r = expect_ok(lambda: v.index(e, *args), 'index returns')
        c.prove(iz(r) == p.t if isint(r) else False, 'index is the first position in the range')

@harness('C10', 'PythonPVector.__eq__ __hash__ ordering', ['C02'])
def h_eq(env):
    start(env, 'tolist', 'extend')
    v, D = absvec(env, K=sub(env, env.P))
    c = cur()
    k = c.choose(4)
    if k == 0:
        o = c.choose(4)
        if o == 0:
            w, E = absvec(env, 'E', K=sub(env, env.P))
        elif o == 1:
            w, E = v, D
        elif o == 2:
            E = fresh_seq('E')
            w = VList(E, frozen='caller list')
        else:
            w = [None, 5][c.choose(2)]
            prove_bool(type(v).__eq__(v, w), False, '== with a non-sequence is False')
            prove_bool(type(v).__ne__(v, w), True, '!= with a non-sequence is True')
            return
        want = SeqEq.make(D, E)
        prove_bool(type(v).__eq__(v, w), want, 'equality is equality of contents')
        prove_bool(type(v).__ne__(v, w), mkbool(z3.Not(tz(want))), '!= is the negation of ==')
    elif k == 1:
        w, E = absvec(env, 'E')
        for op in ('lt', 'le', 'gt', 'ge'):
            r = getattr(type(v), '__%s__' % op)(v, w)
            c.prove(isinstance(r, OpCmp), 'ordering is the lexicographic one')
            if isinstance(r, OpCmp):
                flip = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}
                if r.op == op:
                    a, b = r.a, r.b
                else:
                    c.prove(r.op == flip[op], 'ordering is the lexicographic one')
                    a, b = r.b, r.a
                prove_same_seq(a, D, 'ordering compares the contents')
                prove_same_seq(b, E, 'ordering compares the contents')
    elif k == 2:
        r = env.H.b_hash(v)
        c.prove(isinstance(r, OpHash) and r.kind == 'tuple', 'hash is that of the tuple of the contents')
        if isinstance(r, OpHash):
            prove_same_seq(r.arg, D, 'hash covers exactly the contents')

@harness('C16', 'PythonPVector.__reduce__')
def h_reduce(env):
    start(env, 'tolist', 'extend')
    v, D = absvec(env)
    f, args = env.H.unpack(v.__reduce__(), 2)
    isresult(env, f(*env.H.unpack(args, len(args))), D, 'the reduced form rebuilds the contents')

@harness('C02', 'pvector() v()')
def h_pvector(env):
    start(env, 'tolist', 'extend')
    c = cur()
    it = fresh_seq('it')
    k = c.choose(3)
    if k == 0:
        isresult(env, env.pv.python_pvector(VList(it, frozen='caller list')), it, 'pvector(it) holds the elements of it')
    elif k == 1:
        isresult(env, env.pv.python_pvector(VIter(it)), it, 'pvector(it) holds the elements of it')
    else:
        isresult(env, raw_vararg(env.pv.v, VTuple(it)), it, 'v(...) holds its arguments')

# ------------------------------------------------------------- evolver (C03)
def newev(env, L):
    """arbitrary evolver state reachable after any history: contents D + X, any set of owned nodes"""
    c = cur()
    Ev = env.P.Evolver
    D, X = fresh_seq('D'), fresh_seq('X')
    tl = c.int('taillen')
    T = mkint(iz(D.n) - iz(tl))
    c.assume(z3.And(iz(tl) >= 0, iz(tl) <= 32, levels_of(T, L)))
    fs = {}
    def owned(level, m):
        if level not in fs:
            fs[level] = c.fun('owned%d' % level, z3.IntSort(), z3.BoolSort())
        return fs[level](m)
    tr = Tree(D, T, 'node shared with a persistent vector', owned)
    own = c.bool('tail_owned')
    anyd = c.bool('any_dirty')
    c.assume_raw(z3.Implies(own, anyd))
    e = object.__new__(Ev)
    e._count, e._shift, e._root, e._tail_offset = D.n, L, VNode(tr, L, 0), T
    e._tail = VTail(Slice(D, T, tl), own)
    e._dirty_nodes = OwnedSet(tr, e._tail, anyd)
    e._cached_leafs = LeafCache(tr, e._tail, anyd)
    e._extra_tail = VList(X)
    O = fresh_seq('O', D.n)
    o = object.__new__(env.P)
    o._count = D.n
    env.cont[id(o)] = O
    c.frozen[id(o)] = ('the original vector', ())
    c.keep += [o, e]
    e._orig_pvector = o
    c.forall(lambda t: z3.Implies(z3.And(z3.Not(anyd), t >= 0, t < iz(D.n)), D.term(t) == O.term(t)))
    return e, D, X

def check_ev(env, e, E, name, n=None):
    """well-formed evolver with contents E; n: expected number of elements kept in the trie (None: unchanged is not required)"""
    c = cur()
    if c.quiet:
        return
    X = e._extra_tail
    if not isinstance(X, VList) or isinstance(X, (VNode, VTail)) or X.frozen:
        c.prove(False, name + ': own list of appended elements')
        return
    c.prove(iz(e._count) + iz(X.s.n) == iz(E.n), name + ': length')
    W = Slice(E, 0, e._count)
    prove_same_seq(X.s, Slice(E, e._count, X.s.n), name + ': appended elements')
    check_vec(e, W, name)
    ds, cl = e._dirty_nodes, e._cached_leafs
    if isinstance(cl, LeafCache):
        for j, nd in cl.sets:
          def f(j=j, nd=nd):
            if nd is e._tail:
                c.prove(iz(j) == iz(digit(iz(e._tail_offset))[0]), name + ': cached leaf')
                c.prove(isinstance(nd, VTail) and nd.own or not isinstance(nd, VTail) and not nd.frozen, name + ': cached leaf is owned')
                return
            q = mkint(iz(j) * 32)
            if not isinstance(q, SymInt):
                q = SymInt(z3.IntVal(q))
            c.prove(z3.And(iz(j) >= 0, iz(q) < iz(e._tail_offset)), name + ': cached leaf')
            leaf = find_leaf(e, q)
            ok = env.H.is_(leaf, nd) if leaf is not None else False
            c.prove(tz(ok) if isinstance(ok, SymBool) else ok, name + ': cached leaf')
            c.prove(nd.is_owned() if isinstance(nd, VNode) else not nd.frozen, name + ': cached leaf is owned')
          side(f)
    elif not (isinstance(cl, VDict) and not cl.d):
        raise Unsupported('cache of leaves')
    if isinstance(ds, OwnedSet):
        # a marked node has a marked parent
        def f():
            q = c.int('q')
            c.assume(z3.And(q.t >= 0, q.t < iz(e._tail_offset)))
            node, l = e._root, e._shift
            while l:
                if isinstance(node, VNode) and not node.tree.writes:
                    return
                ch = node.s.get(digit(iz(shr(q, l)))[1])
                if isinstance(ch, VNode) and isinstance(node, VNode):
                    pass
                else:
                    c.prove(z3.Implies(ds._has(IdTok(ch)), ds._has(IdTok(node))), name + ': the parent of an owned node is owned', soft=True)
                node, l = ch, l - 5
        side(f)
    o = e._orig_pvector
    c.prove(isinstance(o, env.P) and iz(env.H.b_len(o)) == iz(e._count), name + ': original vector has the length of the trie part')
    # nothing marked as changed: contents are those of the original vector
    def f():
        if not truth(env.H.or_(ds.vtruth(), lambda: X.vtruth())):
            prove_same_seq(W, env.contf(o), name + ': unmarked evolver equals its original vector')
    side(f)

def find_leaf(e, q):
    node, l = e._root, e._shift
    while l:
        if not isinstance(node, VList):
            return None
        node = node.s.get(digit(iz(shr(q, l)))[1])
        l -= 5
    return node

@harness('C03', 'Evolver.__setitem__ set', ['C01'], variants=SHIFTS)
def h_evset(env, L):
    start(env, 'tolist', 'extend')
    e, D, X = newev(env, L)
    E = D + X
    c = cur()
    i, x = c.int('i'), c.val('x')
    j = mkint(z3.If(i.t < 0, i.t + iz(E.n), i.t))
    f = (lambda: e.__setitem__(i, x)) if L > 5 or c.choose(2) else (lambda: c.prove(e.set(i, x) is e, 'set returns the evolver'))
    if mkbool(z3.And(iz(j) >= 0, iz(j) < iz(E.n))):
        expect_ok(f, 'assignment in range returns')
        check_ev(env, e, Upd(E, j, x), 'e[i] = x replaces exactly element i')
    elif mkbool(iz(j) == iz(E.n)):
        expect_ok(f, 'assignment at the end returns')
        check_ev(env, e, E + Lit([x]), 'e[len] = x appends')
    else:
        expect_raise(f, IndexError, 'assignment out of range raises IndexError')
        check_ev(env, e, E, 'a failed assignment changes nothing')

@harness('C03', 'Evolver.__getitem__ __len__', variants=SHIFTS)
def h_evget(env, L):
    start(env, 'tolist', 'extend')
    e, D, X = newev(env, L)
    E = D + X
    c = cur()
    c.prove(iz(env.H.b_len(e)) == iz(E.n), 'len() is the number of elements')
    i = c.int('i')
    j = mkint(z3.If(i.t < 0, i.t + iz(E.n), i.t))
    if mkbool(z3.And(iz(j) >= 0, iz(j) < iz(E.n))):
        prove_same(expect_ok(lambda: env.H.getitem(e, i), 'getitem in range returns'), E.get(j), 'e[i] is element i')
    else:
        expect_raise(lambda: env.H.getitem(e, i), IndexError, 'getitem out of range raises IndexError')

@harness('C03', 'Evolver.append extend', ['C01'], variants=SHIFTS)
def h_evapp(env, L):
    start(env, 'tolist', 'extend')
    e, D, X = newev(env, L)
    c = cur()
    if c.choose(2):
        x = c.val('x')
        c.prove(e.append(x) is e, 'append returns the evolver')
        check_ev(env, e, D + X + Lit([x]), 'append(x) adds x at the end')
    else:
        it = fresh_seq('it')
        c.prove(e.extend(VList(it, frozen='caller list') if c.choose(2) else VIter(it)) is e, 'extend returns the evolver')
        check_ev(env, e, D + X + it, 'extend(it) adds the elements at the end')

@harness('C03', 'Evolver.__delitem__ delete', ['C01'], variants=[5, 10, 15])
def h_evdel(env, L):
    start(env, 'tolist', 'extend')
    e, D, X = newev(env, L)
    E = D + X
    c = cur()
    if c.choose(2):
        k = c.choose(4)
        a, b = c.int('a'), c.int('b')
        sl = VSlice(a if k & 1 else None, b if k & 2 else None, None)
        lo, hi, _ = norm_slice(sl, E.n)
        hi = mkint(z3.If(iz(hi) < iz(lo), iz(lo), iz(hi)))
        expect_ok(lambda: env.H.delitem(e, sl), 'deletion of a slice returns')
        check_ev(env, e, Slice(E, 0, lo) + Slice(E, hi, E.n - hi), 'del e[a:b] drops the range')
        return
    i = c.int('i')
    j = mkint(z3.If(i.t < 0, i.t + iz(E.n), i.t))
    f = (lambda: env.H.delitem(e, i)) if c.choose(2) else (lambda: c.prove(e.delete(i) is e, 'delete returns the evolver'))
    if mkbool(z3.And(iz(j) >= 0, iz(j) < iz(E.n))):
        expect_ok(f, 'deletion in range returns')
        check_ev(env, e, Removed(E, j), 'del e[i] drops exactly element i')
    else:
        expect_raise(f, IndexError, 'deletion out of range raises IndexError')
        check_ev(env, e, E, 'a failed deletion changes nothing')

@harness('C03', 'Evolver.persistent is_dirty', ['C01'], variants=SHIFTS)
def h_evpers(env, L):
    start(env, 'tolist')
    # contract of extend here: a vector of the same depth variant (its own correctness is proved above), sharing the trie of self
    def extend(f, self, obj):
        s = env.contf(self) + (env.contf(obj) if isinstance(obj, env.P) else seq_of(obj))
        r = env.made(s, L)
        return r
    env.H.intercepts['_pvector:PythonPVector.extend'] = extend
    e, D, X = newev(env, L)
    E = D + X
    c = cur()
    if c.choose(2):
        d = e.is_dirty()
        if not truth(d):
            prove_same_seq(env.contf(e._orig_pvector), E, 'an evolver that is not dirty equals its original vector')
        else:
            c.prove(True, 'dirty evolver')
        check_ev(env, e, E, 'is_dirty() changes nothing')
        return
    r = e.persistent()
    isresult(env, r, E, 'persistent() has the contents of the evolver')
    if r is e._orig_pvector:
        c.prove(not truth(e._dirty_nodes) and not truth(e._cached_leafs) if not isinstance(e._cached_leafs, LeafCache) else not truth(e._dirty_nodes), 'after persistent() the evolver owns no node of the result')
    if isinstance(e._cached_leafs, LeafCache):      # not reset: only when nothing was owned
        c.prove(not truth(e._dirty_nodes), 'after persistent() the evolver owns no node of the result')
    if isinstance(e._tail, VTail):
        c.prove(z3.Not(e._tail.own), 'after persistent() the evolver does not own the tail')
    # the evolver goes on from the same contents
    c.prove(iz(env.H.b_len(e)) == iz(E.n), 'after persistent() the evolver still has the contents: length')
    if isinstance(e._root, VNode) and isinstance(e._extra_tail, VList):
        prove_same_seq(content_of(e) + e._extra_tail.s, E, 'after persistent() the evolver still has the contents')
    c.prove(isinstance(e._extra_tail, VList) and not e._extra_tail.frozen, 'after persistent() the evolver has its own list of appended elements')
    c.prove(e._orig_pvector is r, 'after persistent() the result is the new original vector')

@harness('C03', 'PythonPVector.evolver', ['C01'], variants=SHIFTS)
def h_evnew(env, L):
    start(env, 'tolist', 'extend')
    v, D = newvec(env, L)
    env.cont[id(v)] = D
    e = v.evolver()
    cur().prove(isinstance(e, env.P.Evolver), 'evolver() returns an evolver')
    check_ev(env, e, D, 'a new evolver has the contents of the vector')
    cur().prove(not truth(e._dirty_nodes) and not truth(e._cached_leafs), 'a new evolver owns no node')

class LogEv:
    """evolver known by its contract; records the assignments made through it"""
    def __init__(self, base):
        self.base, self.log, self.inj = base, VList(EMPTY), False
    def __setitem__(self, i, x):
        cur().mutlog.append(self)
        if cur().choose(2):
            self.inj = True
            raise HRaised(IndexError('Index out of range'))
        self.log.append((i, x))
    def set(self, i, x):
        self[i] = x
        return self
    def persistent(self):
        return ('persistent', self)
class ALogEv(MListAdapter):
    def matches(self, v): return isinstance(v, LogEv)
    def get(self, v): return v.log.s
    def set(self, v, s): v.log.s = s
    def delta(self, v, hv): return MListAdapter.delta(self, v.log, hv)
    def owned(self, v): return [id(v), id(v.log)]

@harness('C02', 'PythonPVector.mset', ['C01'])
def h_mset(env):
    start(env, 'tolist', 'extend')
    rt.MLISTS.append(ALogEv()) if not any(isinstance(a, ALogEv) for a in rt.MLISTS) else None
    evs = []
    def evolver(f, self):
        evs.append(LogEv(self))
        return evs[-1]
    env.H.intercepts['_pvector:PythonPVector.evolver'] = evolver
    v, D = absvec(env)
    c = cur()
    n = c.int('n')
    ai, av = c.fun('argi', z3.IntSort(), z3.IntSort()), c.fun('argv', z3.IntSort(), VS)
    odd = c.choose(2)
    c.assume(n.t >= 0)
    def get(i):
        t = iz(i)
        if mkbool(t % 2 == 0):
            return mkint(ai(t))
        return SymVal(av(t))
    args = VTuple(Fn(mkint(2 * n.t + odd), gf=get))
    f = lambda: raw_vararg(type(v).mset, v, args)
    if odd:
        expect_raise(f, TypeError, 'an odd number of arguments raises TypeError')
        return
    try:
        r = f()
    except Exception as e:
        classify(e)
        c.prove(isinstance(e, IndexError) and any(x.inj for x in evs), 'only a failing assignment makes mset fail', 'raised %s: %s' % (type(e).__name__, e))
        return
    c.prove(not any(x.inj for x in evs), 'a failing assignment makes mset fail')
    ok = isinstance(r, tuple) and len(r) == 2 and r[0] == 'persistent' and r[1] in evs and r[1].base is v
    if not ok and not c.quiet:
        raise Unsupported('mset not expressed through one evolver')
    prove_same_seq(r[1].log.s, Fn(n, gf=lambda i: (mkint(ai(2 * iz(i))), SymVal(av(2 * iz(i) + 1)))), 'mset makes exactly the given assignments in order')
