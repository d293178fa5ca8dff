"""Contracts of the C vector (pvectorcmodule.c): C17 (and C02, C03 for that implementation), C18 (memory and reference counts)."""
import core, rt, z3, types
from rt import *
from common import *
from vtree import *
import capi, ctrans
from capi import *

SHIFTS = [5, 10, 15, 20, 25, 30]

class CAuto(rt.Auto):
    """as Auto; besides, an iteration gives away every reference to an object that it takes.  A local named by the hint as held
    comes with one reference at the head of the loop."""
    def held(self, loc, st):
        h = self.info['forms'].get('held!')
        return [v for n, v in zip(self.L.names, st) if h and n in h and v is not None and not isinstance(v, Unbound)]
    def first(self, loc, st):
        old = list(st)
        r = rt.Auto.first(self, loc, st)
        for v in self.held(loc, old):
            led().append(('one', v, -1))
        self.led0 = len(led())
        for v in self.held(loc, r):
            led().append(('one', v, 1))
        return r
    def again(self, loc, st):
        c = cur()
        for v in self.held(loc, st):
            led().append(('one', v, -1))
        net = {}
        u = None
        tot = z3.IntVal(0)
        for (k, t, d) in led()[self.led0:]:
            if k != 'one':
                raise Unsupported('effects of a loop iteration on reference counts')
            if isinstance(t, SymVal):
                u = c.val('u').t if u is None else u
                tot = tot + d * one(t, u)
            else:
                net.setdefault(id(t), [t, 0])[1] += d
        nm = 'loop %s: references taken in an iteration are given away in it' % self.L.qual
        if u is not None:
            c.prove(tot == 0, nm, soft=True)
        for t, d in net.values():
            if d and t is not None:
                c.prove(False, nm, 'net change %d of %r' % (d, t), soft=True)
        rt.Auto.again(self, loc, st)

def setup(env):
    H = env.H
    ns, src, bad = ctrans.load_c(env.repo, H, make_api(H))
    env.ns = ns
    env.csrc, env.cbad = src, bad
    def auto(L, loc):
        if L.it is not None or not L.qual.startswith('pvectorc:'):
            return None
        if any(n in loc for n in L.tnames) and all(isinstance(loc[n], int) for n in L.tnames if n in loc):
            c = cur()
            if ('probe', L.qual, L.line, tuple(map(str, c.trail))) not in c.store.tables:
                return None
        return CAuto(H, L, loc)
    ref_loops(H)
    H.providers.append(auto)
    env.prov0 = list(H.providers)
    H.cext = True

def F(env, name):
    f = env.ns.get(name)
    if f is None:
        raise Unsupported('no function ' + name)
    return f

def start(env, *contracts):
    H = env.H
    H.intercepts.clear()
    H.loop_hints.clear()
    H.providers[:] = env.prov0
    rt.MLISTS[:] = [MListAdapter(), ABVec()]
    H.candidates = []
    env.cont = {}
    THE.cont = lambda v: cont(env, v)
    led()
    ic = H.intercepts
    ic['pvectorc:allocNode'] = lambda f: alloc()
    ic['pvectorc:freeNode'] = lambda f, p: free(p)
    def release(f, level, node):
        if node is not None:
            led().append(('one', node, -1))
            if isinstance(node, NN):
                raise Unsupported('release of a new node')
    ic['pvectorc:releaseNode'] = release
    e = CVec()
    e.typ = env.ns['PVectorType']
    e.count, e.shift, e.in_weakreflist = 0, 5, None
    tr = Tree(EMPTY, 0, 'node of the empty vector')
    e.root, e.tail = CN(tr, 5, 0), TN(EMPTY, 'node of the empty vector')
    env.ns['EMPTY_VECTOR'] = e
    cur().frozen[id(e)] = ('the empty vector', ())
    cur().keep.append(e)
    env.cont[id(e)] = EMPTY
    for n in contracts:
        ic['pvectorc:' + n] = globals()['k_' + n](env)

def cont(env, v):
    if id(v) in env.cont:
        return env.cont[id(v)]
    raise Unsupported('contents of a vector')

def newcvec(env, L, name='D', label='an existing vector', frozen=True):
    c = cur()
    D = fresh_seq(name)
    tl = c.int('taillen')
    T = mkint(iz(D.n) - iz(tl))
    c.assume(z3.And(tl.t >= 0, tl.t <= 32, levels_of(T, L), z3.Implies(tl.t == 0, iz(D.n) == 0), iz(D.n) < 1 << 31))
    v = CVec()
    v.typ = env.ns['PVectorType']
    tr = Tree(D, T, 'node of ' + label)
    v.count, v.shift, v.root, v.tail, v.in_weakreflist = D.n, L, CN(tr, L, 0), TN(Slice(D, T, tl), 'node of ' + label), None
    if frozen:
        c.frozen[id(v)] = (label, ())
    c.keep.append(v)
    env.cont[id(v)] = D
    return v, D

def absvec(env, name='D', n=None):
    c = cur()
    D = fresh_seq(name, n)
    c.assume(iz(D.n) < 1 << 31) if not isinstance(D.n, int) else None
    v = CVec()
    v.typ = env.ns['PVectorType']
    v.count = D.n
    c.frozen[id(v)] = ('an existing vector', ())
    c.keep.append(v)
    env.cont[id(v)] = D
    return v, D

class VV:
    pass
def check_cvec(v, W, name):
    """v is well-formed (as the Python vectors, with a tail that is only empty when the vector is) and has contents W"""
    c = cur()
    if c.quiet:
        return
    if not isinstance(v, CVec) or not hasattr(v, 'tail'):
        c.prove(False, name + ': result is a vector', 'result is %r' % (v,))
        return
    w = VV()
    w._count, w._shift, w._root, w._tail, w._tail_offset = v.count, v.shift, v.root, v.tail, None
    for nd in (v.root, v.tail):
        if isinstance(nd, NN) and (nd.junk or nd.freed):
            c.prove(False, name + ': representation', 'freed or uninitialised node in a vector')
            return
    check_vec(w, W, name, tail_offset=False)
    if isinstance(v.tail, VList) and isint(v.count):
        c.prove(z3.Or(iz(v.tail.s.n) >= 1, iz(v.count) == 0), name + ': the tail of a non-empty vector is not empty')
    c.prove(getattr(v, 'in_weakreflist', UNSET) is None, name + ': no weak references yet')
    for n in c.newnodes:
        if not n.freed and isinstance(n, NN):
            c.prove(not n.junk and n.rc is not None, name + ': new nodes are initialised', soft=True)

def ok(env, r, name):
    """the function returned a value (no exception set)"""
    c = cur()
    led()
    c.prove(r is not None and c.err is None, name, 'result %r with exception %s' % (r, c.err))
    if r is None:
        raise Stop()
    return r
def fails(env, r, exc, name, bad=None):
    c = cur()
    led()
    c.prove(r is bad and c.err is not None and issubclass(c.err, exc), name, 'result %r with exception %s' % (r, c.err))

# ------------------------------------------------------------- balance of reference counts (C18)
def holds(v):
    return [x for x in (getattr(v, 'root', None), getattr(v, 'tail', None)) if x is not None]

def wt(n, x):
    """references to x held through n: a node, or (node, condition)"""
    if isinstance(n, tuple):
        return z3.If(n[1], one(n[0], x), z3.IntVal(0))
    return one(n, x)
def balance(env, name, result=None, after=(), before=(), values=(), objs=(), marked=False, trees0=()):
    """after/before: nodes referenced by vectors afterwards / before, (node, condition) for a reference counted on a condition only;
    values: sequences of elements referenced by other new objects (+) given as (seq, sign); objs: (object, expected net change);
    marked: new nodes carry the mark of the evolver; trees0: (tree, D before) of tries written in place"""
    c = cur()
    if c.quiet:
        return
    new = [n for n in c.newnodes if not n.freed]
    nm = name + ': reference counts'
    values = list(values)
    inplace = []
    for t, D0 in trees0:
        inplace += upd_diff(t.D, D0, values)
        for k, (l, m, i, v) in enumerate(t.writes):
            inplace.append((v, 1))
            old = CN(t, l - 5, mkint(iz(m) * 32 + iz(i)))
            for (l2, m2, i2, v2) in t.writes[:k]:
                if l2 == l and mkbool(z3.And(iz(m2) == iz(m), iz(i2) == iz(i))):
                    old = v2
            inplace.append((old, -1))
    after0, before0 = list(after), list(before)
    def refs(x):
        t = z3.IntVal(0)
        for n in new:
            t = t + occ(n.s, x)
        for n in after0:
            t = t + wt(n, x)
        for n in before0:
            t = t - wt(n, x)
        for v, d in inplace:
            t = t + d * one(v, x)
        return t
    for n in new:
        c.prove(n.rc is not None and z3.And(n.rc.dirty if marked else z3.Not(n.rc.dirty), n.rc.cnt + delta(n) == refs(n)), nm + ' of new nodes are the number of references to them')
    after, before = [n[0] if isinstance(n, tuple) else n for n in after], [n[0] if isinstance(n, tuple) else n for n in before]
    trees = {}
    def see(n):
        if isinstance(n, CN):
            trees[id(n.tree)] = n
        if isinstance(n, TN):
            trees[id(n)] = n
    for n in list(after) + list(before):
        see(n)
    for (k, t, d) in c.led:
        if k == 'one':
            see(t)
        elif hasattr(t, 'node'):
            see(t.node)
    for n in trees.values():
        if isinstance(n, TN):
            c.prove(delta(n) == refs(n), nm + ' of existing tails change by the references made')
        else:
            top = max([n.level] + [x.level for x in after if isinstance(x, CN)])
            for l in range(0, top + 1, 5):
                x = CN(n.tree, l, c.int('m'))
                c.prove(z3.Implies(z3.And(iz(x.m) >= 0, iz(x.m) * (1 << (l + 5)) < iz(n.tree.T) if l < top else iz(x.m) == 0), delta(x) == refs(x)), nm + ' of existing nodes change by the references made')
    u = c.val('u').t
    t = z3.IntVal(0)
    for e in c.led:
        t = t + effect(e, u)
    for n in new:
        t = t - occ(n.s, u)
    for (s, d) in values:
        t = t - d * occ(s, u)
    if isinstance(result, SymVal):
        t = t - one(result, u)
    c.prove(t == 0, nm + ' of the elements change by the references made')
    # objects
    seen = {}
    for (k, t, d) in c.led:
        if k == 'one' and not isinstance(t, (SymVal, CN, TN, NN)) and not isint(t):
            seen.setdefault(id(t), [t, 0])[1] += d
    for o in c.newobjs:
        seen.setdefault(id(o), [o, 0])[1] += 1
    if result is not None and not isinstance(result, SymVal) and not isint(result):
        seen.setdefault(id(result), [result, 0])[1] -= 1
    for o, d in objs:
        seen.setdefault(id(o), [o, 0])[1] -= d
    for o, d in seen.values():
        c.prove(d == 0, nm + ' of objects: every reference taken is handed on or given back', '%+d on %r' % (d, o))

def upd_diff(D, D0, values):
    """elements replaced in place"""
    while D is not D0:
        if not isinstance(D, Upd):
            raise Unsupported('in-place changes')
        values.append((Lit([D.v]), 1))
        values.append((Lit([D.a.get(D.i)]), -1))
        D = D.a
    return []

CP = ['C02', 'C18', 'C01']
@harness('C17', 'C _get_item get_item', CP, variants=SHIFTS)
def h_get(env, L):
    start(env)
    v, D = newcvec(env, L)
    c = cur()
    i = c.int('i')
    c.assume(z3.And(i.t >= -(1 << 31), i.t < 1 << 31))
    j = mkint(z3.If(i.t < 0, i.t + iz(D.n), i.t))
    r = F(env, 'PVector_get_item')(v, i)
    if mkbool(z3.And(iz(j) >= 0, iz(j) < iz(D.n))):
        ok(env, r, 'v[i] in range returns')
        prove_same(r, D.get(j), 'v[i] is element i')
        balance(env, 'v[i]', result=r)
    else:
        fails(env, r, IndexError, 'v[i] out of range raises IndexError')

@harness('C17', 'C append', CP, variants=SHIFTS)
def h_append(env, L):
    start(env)
    v, D = newcvec(env, L)
    c = cur()
    x = c.val('x')
    r = ok(env, F(env, 'PVector_append')(v, x), 'append returns')
    check_cvec(r, D + Lit([x]), 'append(x) is contents + [x]')
    balance(env, 'append', result=r, after=holds(r))

@harness('C17', 'C set', CP, variants=SHIFTS)
def h_set(env, L):
    start(env)
    v, D = newcvec(env, L)
    c = cur()
    i, x = c.int('i'), c.val('x')
    c.assume(z3.And(i.t >= -(1 << 31), i.t < 1 << 31))
    j = mkint(z3.If(i.t < 0, i.t + iz(D.n), i.t))
    r = F(env, 'PVector_set')(v, (i, x))
    if mkbool(z3.And(iz(j) >= 0, iz(j) < iz(D.n))):
        ok(env, r, 'set in range returns')
        check_cvec(r, Upd(D, j, x), 'set(i, x) replaces exactly element i')
        balance(env, 'set', result=r, after=holds(r))
    elif mkbool(iz(j) == iz(D.n)):
        ok(env, r, 'set at the end returns')
        check_cvec(r, D + Lit([x]), 'set(len, x) appends')
    else:
        fails(env, r, IndexError, 'set out of range raises IndexError')

# ------------------------------------------------------------- functions known by their contracts
def k__get_item(env):
    def f(fn, self, pos):
        D = cont(env, self)
        if mkbool(z3.And(iz(pos) >= 0, iz(pos) < iz(D.n))):
            cur().reg(pos if isinstance(pos, SymInt) else SymInt(iz(pos)))
            return D.get(pos)
        led()
        cur().err = IndexError
        return None
    return f
def k_PVector_get_item(env):
    g = k__get_item(env)
    def f(fn, self, pos):
        D = cont(env, self)
        if mkbool(iz(pos) < 0):
            pos = pos + D.n
        r = g(fn, self, pos)
        if r is not None:
            led().append(('one', r, 1))
        return r
    return f
class BVec(CVec):
    """a vector made by the call, known by its contents"""
    def __init__(self, env, s):
        self.env, self.typ, self.in_weakreflist, self.tracked = env, env.ns['PVectorType'], None, True
        env.cont[id(self)] = s
        cur().keep.append(self)
        led()
        cur().newobjs.append(self)
    @property
    def count(self): return self.env.cont[id(self)].n
class ABVec(MListAdapter):
    def matches(self, v): return isinstance(v, BVec)
    def get(self, v): return v.env.cont[id(v)]
    def set(self, v, s): v.env.cont[id(v)] = s
    def delta(self, v, hv):
        t = VList(v.env.cont[id(v)])
        return MListAdapter.delta(self, t, hv)
    def owned(self, v): return [id(v)]
def k_copyPVector(env):
    def f(fn, o):
        return BVec(env, cont(env, o))
    return f
def k_extendWithItem(env):
    def f(fn, v, item):
        if not isinstance(v, BVec):
            frame_violation('an existing vector')
        if item is None:
            bad('NULL stored in a vector')
        cur().mutlog.append(v)
        env.cont[id(v)] = env.cont[id(v)] + Lit([item])
        led().append(('one', item, -1))
    return f
def k_PVector_toList(env):
    def f(fn, v):
        l = VList(cont(env, v))
        led()
        cur().newobjs.append(l)
        return l
    return f
def itseq(env, x):
    return cont(env, x) if isinstance(x, CVec) else seq_of(x)
def k_PVector_extend(env):
    def f(fn, v, it):
        led()
        try:
            s = itseq(env, it)
        except (NotIterable, TypeError):
            cur().err = TypeError
            return None
        if getattr(it, 'outcome', None) is TypeError:
            cur().err = TypeError
            return None
        if mkbool(iz(s.n) == 0):
            led().append(('one', v, 1))
            return v
        d = cont(env, v)
        if isinstance(d.n, int) and d.n == 0:
            d = EMPTY
        return BVec(env, d + s if d is not EMPTY else s)
    return f

def isvec(env, r, W, name):
    """r: a new or existing vector with contents W, handed out with one reference"""
    c = cur()
    if c.quiet:
        return
    c.prove(isinstance(r, CVec) and id(r) in env.cont, name, 'result is %r with exception %s' % (r, c.err))
    c.prove(c.err is None, name, 'exception %s is set' % c.err)
    if isinstance(r, CVec):
        prove_same_seq(cont(env, r), W, name)
        balance(env, name, result=r)

ABS = ('_get_item', 'PVector_get_item', 'copyPVector', 'extendWithItem')

@harness('C17', 'C toList', CP + ['C10', 'C16'])
def h_tolist(env):
    start(env, '_get_item', 'PVector_get_item')
    v, D = absvec(env)
    r = ok(env, F(env, 'PVector_toList')(v), 'tolist returns')
    c = cur()
    c.prove(isinstance(r, VList), 'tolist returns a list')
    prove_same_seq(r.s, D, 'tolist() is the contents')
    balance(env, 'tolist', result=r)

@harness('C17', 'C len repr hash', CP + ['C10'])
def h_hash(env):
    start(env, 'PVector_toList')
    v, D = absvec(env)
    c = cur()
    k = c.choose(3)
    if k == 0:
        c.prove(iz(F(env, 'PVector_len')(v)) == iz(D.n), 'len() is the number of elements')
    elif k == 1:
        r = F(env, 'PVector_hash')(v)
        if c.err is not None:
            c.prove(r == -1, 'a failing hash reports failure')
        else:
            okk = isinstance(r, tuple) and r[0] == 'hash' and isinstance(r[1], VTuple)
            c.prove(okk, 'hash is that of the tuple of the contents', '%r' % (r,))
            if okk:
                prove_same_seq(r[1].s, D, 'hash is that of the tuple of the contents')
        balance(env, 'hash')
    else:
        r = F(env, 'PVector_repr')(v)
        if c.err is not None:
            c.prove(r is None, 'a failing repr reports failure')
            balance(env, 'repr')
        else:
            okk = isinstance(r, tuple) and r[0] == 'format' and [x if isinstance(x, str) else '' for x in r[1:]] == ['%s%U%s', 'pvector(', '', ')'] and isinstance(r[3], tuple) and r[3][0] == 'repr'
            c.prove(okk, "repr is 'pvector(' + repr of the list of contents + ')'", '%r' % (r,), soft=True)
            if okk:
                prove_same_seq(r[3][1].s, D, "repr is 'pvector(' + repr of the list of contents + ')'")
            balance(env, 'repr', result=r)

@harness('C17', 'C index count', CP)
def h_index(env):
    start(env, *ABS)
    env.H.candidates = []
    v, D = absvec(env)
    c = cur()
    c.eq_raises = bool(c.choose(2))
    c.eq_failed = False
    e = c.val('e')
    if c.choose(2):
        f = c.fun('count', z3.IntSort(), z3.IntSort())
        c.assume_raw(f(z3.IntVal(0)) == 0)
        c.forall(lambda t: z3.Implies(z3.And(t >= 0, t < iz(D.n)), f(t + 1) == f(t) + z3.If(Cls(D.term(t)) == Cls(e.t), 1, 0)))
        env.H.candidates = [f]
        r = F(env, 'PVector_count')(v, e)
        if c.eq_failed:
            fails(env, r, RuntimeError, 'an exception from == comes out of count')
            balance(env, 'count')
        else:
            ok(env, r, 'count returns')
            c.prove(iz(r.v) == f(iz(D.n)) if isinstance(r, PyLong) else False, 'count is the number of equal elements')
            balance(env, 'count', result=r)
        return
    args = [c.int('a') for _ in range(c.choose(3))]
    lo, hi, _ = norm_slice(VSlice(*(args + [None, None])[:2], None), D.n)
    p = find_first(D, e, lo, hi)
    if p is not None:
        c.reg(SymInt(p.t - iz(lo)))
    r = F(env, 'PVector_index')(v, (e,) + tuple(args))
    if c.eq_failed:
        fails(env, r, RuntimeError, 'an exception from == comes out of index')
        balance(env, 'index')
    elif p is None:
        fails(env, r, ValueError, 'index of an absent element raises ValueError')
        balance(env, 'index')
    else:
        ok(env, r, 'index returns')
        c.prove(iz(r.v) == p.t if isinstance(r, PyLong) else False, 'index is the first position in the range')
        balance(env, 'index', result=r)

@harness('C17', 'C subscript', CP)
def h_subscript(env):
    start(env, *ABS)
    v, D = absvec(env)
    c = cur()
    k = c.choose(10)
    if k == 9:
        fails(env, F(env, 'PVector_subscript')(v, c.val('x')), TypeError, 'a subscript that is neither integer nor slice raises TypeError')
        return
    if k == 8:
        i = c.int('i')
        if c.choose(2):
            c.huge = (i.t.get_id(),)
            fails(env, F(env, 'PVector_subscript')(v, i), IndexError, 'a subscript out of the range of integers raises IndexError')
            balance(env, 'v[i]')
            return
        j = mkint(z3.If(i.t < 0, i.t + iz(D.n), i.t))
        r = F(env, 'PVector_subscript')(v, i)
        if mkbool(z3.And(iz(j) >= 0, iz(j) < iz(D.n))):
            ok(env, r, 'v[i] in range returns')
            prove_same(r, D.get(j), 'v[i] is element i')
            balance(env, 'v[i]', result=r)
        else:
            fails(env, r, IndexError, 'v[i] out of range raises IndexError')
        return
    a, b, s = c.int('a'), c.int('b'), c.int('step')
    sl = VSlice(a if k & 1 else None, b if k & 2 else None, s if k & 4 else None)
    r = F(env, 'PVector_subscript')(v, sl)
    if k & 4 and mkbool(s.t == 0):
        fails(env, r, ValueError, 'a zero step raises ValueError')
        balance(env, 'v[a:b:c]')
        return
    st = 1 if not k & 4 else s
    lo, hi, ln = slice_bounds(sl, D.n, st)
    isvec(env, r, Step(D, lo, st, ln), 'slice is the slice of the contents')

# ------------------------------------------------------------- iteration over a Python iterable
class AIter(MListAdapter):
    """position of an iterator, as a sequence of that length"""
    def matches(self, v): return isinstance(v, VIter)
    def get(self, v): return Fn(v.pos, tf=lambda i: v.s.term(z3.IntVal(0)))
    def set(self, v, s): v.pos = s.n
    def delta(self, v, hv): return None
def iter_hint(L, loc, slots):
    """while ((item = next(it)) != NULL): after k further iterations the iterator has handed out k more items"""
    its = [(n, v) for n, v in loc.items() if isinstance(v, VIter)]
    if len({id(v) for n, v in its}) != 1 or not isint(its[0][1].pos):
        return None
    it = its[0][1]
    p0 = it.pos
    out = {}
    for m, v in slots.items():
        if isinstance(v, SymVal) and v.t.eq(it.s.term(z3.simplify(iz(p0) - 1))):
            def item(k):
                q = mkint(iz(p0) + iz(k) - 1)
                if mkbool(iz(q) < iz(it.s.n)):
                    return it.s.get(q)
                led()
                cur().err = getattr(it, 'outcome', None)
                return None
            out[m] = item
            out['held!'] = [m]
    def at(k):
        q = mkint(iz(p0) + iz(k))
        return ('list', None, Fn(q if mkbool(iz(q) <= iz(it.s.n)) else it.s.n, tf=lambda i: it.s.term(z3.IntVal(0))))
    for n, _ in its:
        out[n] = at
    return out

def iterable(env, kinds=4):
    """an iterable and its elements; some end with an exception"""
    c = cur()
    k = c.choose(kinds)
    if k == 0:
        s = fresh_seq('it')
        return VList(s, frozen='caller list'), s
    if k == 1:
        return absvec(env, 'it')
    s = fresh_seq('it')
    it = VIter(s)
    it.outcome = (None, StopIteration, TypeError)[c.choose(3)] if k == 2 else None
    if k == 2:
        return it, s
    return Single('an object'), None          # not iterable

@harness('C17', 'C extend', CP)
def h_extend(env):
    start(env, *ABS)
    env.H.loop_hints.append(iter_hint)
    rt.MLISTS.append(AIter())
    v, D = absvec(env)
    c = cur()
    it, s = iterable(env)
    r = F(env, 'PVector_extend')(v, it)
    if s is None or getattr(it, 'outcome', None) is TypeError:
        fails(env, r, TypeError, 'an exception from the iterable comes out of extend')
        balance(env, 'extend')
        return
    isvec(env, r, D + s, 'extend(it) is contents + elements of it')

@harness('C17', 'C pvector()', CP)
def h_pvec(env):
    start(env, 'PVector_extend')
    c = cur()
    if c.choose(2):
        isvec(env, F(env, 'pyrsistent_pvec')(None, ()), EMPTY, 'pvector() is empty')
        return
    it, s = iterable(env)
    r = F(env, 'pyrsistent_pvec')(None, (it,))
    if s is None or getattr(it, 'outcome', None) is TypeError:
        fails(env, r, TypeError, 'an exception from the iterable comes out of pvector()')
    else:
        isvec(env, r, s, 'pvector(it) holds the elements of it')

@harness('C17', 'C delete remove', CP)
def h_delete(env):
    start(env, 'PVector_toList', 'PVector_extend', 'PVector_index')
    v, D = absvec(env)
    c = cur()
    k = c.choose(4)
    if k == 0:
        i = c.int('i')
        j = mkint(z3.If(i.t < 0, i.t + iz(D.n), i.t))
        r = F(env, 'PVector_delete')(v, (i,))
        if mkbool(z3.And(iz(j) >= 0, iz(j) < iz(D.n))):
            isvec(env, r, Removed(D, j), 'delete(i) drops exactly element i')
        else:
            fails(env, r, IndexError, 'delete out of range raises IndexError')
            balance(env, 'delete')
    elif k == 1:
        a, b = c.int('a'), c.int('b')
        lo, hi, _ = norm_slice(VSlice(a, b, None), D.n)
        hi = mkint(z3.If(iz(hi) < iz(lo), iz(lo), iz(hi)))
        isvec(env, F(env, 'PVector_delete')(v, (a, b)), Slice(D, 0, lo) + Slice(D, hi, D.n - hi), 'delete(a, b) drops the range')
    elif k == 2:
        a = c.int('a')
        r = F(env, 'PVector_delete')(v, (a, c.val('x')))
        fails(env, r, TypeError, 'a stop that is not an integer raises TypeError')
        balance(env, 'delete')
    else:
        e = c.val('e')
        p = find_first(D, e)
        env.first = p
        r = F(env, 'PVector_remove')(v, (e,))
        if p is None:
            fails(env, r, ValueError, 'remove of an absent element raises ValueError')
            balance(env, 'remove')
        else:
            isvec(env, r, Removed(D, p), 'remove(e) drops exactly the first equal element')
def k_PVector_index(env):
    def f(fn, v, args):
        led()
        D = cont(env, v)
        if len(args) != 1:
            raise Unsupported('index')
        p = getattr(env, 'first', None)
        if p is None:
            cur().err = ValueError
            return None
        r = PyLong(p)
        cur().newobjs.append(r)
        return r
    return f

@harness('C17', 'C compare', CP + ['C10'])
def h_compare(env):
    start(env, '_get_item', 'PVector_toList')
    v, D = absvec(env)
    c = cur()
    c.eq_failed = False
    op = c.choose(6)
    k = c.choose(4)
    T, Fa, NI = env.ns['_Py_TrueStruct'], env.ns['_Py_FalseStruct'], env.ns['_Py_NotImplementedStruct']
    if k in (1, 2):
        x = c.val('x')
        r = F(env, 'PVector_richcompare')(*((v, x) if k == 1 else (x, v)), op)
        if r is None:
            c.prove(c.err is not None, 'comparison with other types: failure is reported')
            balance(env, 'compare')
            return
        okk = isinstance(r, CmpTok) and r.op == op and (isinstance(r.a, VList) and r.b is x if k == 1 else isinstance(r.b, VList) and r.a is x)
        c.prove(okk, 'comparison with other types is that of the list of contents')
        if okk:
            prove_same_seq((r.a if k == 1 else r.b).s, D, 'comparison with other types is that of the list of contents')
        balance(env, 'compare', result=r)
        return
    if k == 3:
        w, E = v, D
    else:
        w, E = absvec(env, 'E')
        c.eq_raises = bool(c.choose(2))
    # first difference
    na, nb = iz(D.n), iz(E.n)
    m = z3.If(na < nb, na, nb)
    d = c.int('diff')
    c.assume(z3.And(d.t >= 0, d.t <= m, z3.Implies(d.t < m, Cls(D.term(d.t)) != Cls(E.term(d.t)))))
    c.forall(lambda t: z3.Implies(z3.And(t >= 0, t < d.t), Cls(D.term(t)) == Cls(E.term(t))))
    c.reg(d)
    r = F(env, 'PVector_richcompare')(v, w, op)
    if c.eq_failed:
        fails(env, r, RuntimeError, 'an exception from == comes out of the comparison')
        balance(env, 'compare')
        return
    eq = z3.And(na == nb, d.t == m)
    if op in (2, 3):
        ok(env, r, '== and != return')
        c.prove(r is T or r is Fa, '== and != return a bool')
        want = eq if op == 2 else z3.Not(eq)
        c.prove(want if r is T else z3.Not(want), 'equality is equality of contents')
        balance(env, 'compare', result=r, objs=())
        return
    if mkbool(d.t == m):
        ok(env, r, 'ordering returns')
        want = {0: na < nb, 1: na <= nb, 4: na > nb, 5: na >= nb}[op]
        c.prove(r is T or r is Fa, 'ordering of a prefix is that of the lengths')
        c.prove(want if r is T else z3.Not(want), 'ordering of a prefix is that of the lengths')
        balance(env, 'compare', result=r)
    elif r is None:
        c.prove(c.err is not None, 'ordering is that of the first difference: failure is reported')
        balance(env, 'compare')
    else:
        okk = isinstance(r, CmpTok) and r.op == op
        c.prove(okk, 'ordering is that of the first difference')
        if okk:
            prove_same(r.a, D.get(d), 'ordering is that of the first difference')
            prove_same(r.b, E.get(d), 'ordering is that of the first difference')
        balance(env, 'compare', result=r)

@harness('C17', 'C pickle_reduce transform', CP + ['C16'])
def h_reduce(env):
    start(env, 'PVector_toList')
    v, D = absvec(env)
    c = cur()
    if c.choose(2):
        r = ok(env, F(env, 'PVector_pickle_reduce')(v), '__reduce__ returns')
        okk = isinstance(r, VTuple) and r.s.n == 2 and r.s.get(0) == ('attr', ('module', 'pvectorc'), 'pvector') and isinstance(r.s.get(1), VTuple) and r.s.get(1).s.n == 1 and isinstance(r.s.get(1).s.get(0), VList)
        c.prove(okk, 'the reduced form is (pvectorc.pvector, ([contents],))')
        if okk:
            prove_same_seq(r.s.get(1).s.get(0).s, D, 'the reduced form is (pvectorc.pvector, ([contents],))')
        balance(env, '__reduce__', result=r)
    else:
        a = VTuple(fresh_seq('args'))
        r = ok(env, F(env, 'PVector_transform')(v, a), 'transform returns')
        fn = ('attr', ('module', 'pyrsistent._transformations'), 'transform')
        c.prove(r == ('call', fn, v, a, None) or r == ('call', fn, v, a), 'transform is pyrsistent._transformations.transform')

@harness('C17', 'C iterator', CP)
def h_iter(env):
    start(env, '_get_item')
    v, D = absvec(env)
    c = cur()
    k = c.choose(3)
    it = CEv()
    it.typ = env.ns['PVectorIterType']
    it.tracked = True
    c.keep.append(it)
    if k == 0:
        r = ok(env, F(env, 'PVectorIter_iter')(v), 'iter() returns')
        c.prove(r.it_index == 0 and r.it_seq is v, 'a new iterator is at the start of the vector')
        balance(env, 'iter', result=r, objs=[(v, 1)])
        return
    it.it_index = c.int('pos')
    c.assume(it.it_index.t >= 0)
    it.it_seq = v if k == 1 else None
    p = it.it_index
    r = F(env, 'PVectorIter_next')(it)
    if k == 1 and mkbool(p.t < iz(D.n)):
        ok(env, r, 'next returns the element at the position')
        prove_same(r, D.get(p), 'next returns the element at the position')
        c.prove(z3.And(z3.BoolVal(it.it_seq is v), iz(it.it_index) == p.t + 1), 'next moves on by one')
        balance(env, 'next', result=r)
    else:
        c.prove(r is None and c.err is None and it.it_seq is None, 'an exhausted iterator stays exhausted')
        balance(env, 'next', objs=[(v, -1)] if k == 1 else [])

# ------------------------------------------------------------- vectors being built
@harness('C17', 'C copyPVector', CP, variants=SHIFTS)
def h_copy(env, L):
    start(env)
    v, D = newcvec(env, L)
    c = cur()
    c.soft = True
    r = F(env, 'copyPVector')(v)
    check_cvec(r, D, 'the copy has the same contents')
    c.prove(isinstance(r, CVec) and isinstance(r.tail, NN), 'the copy has a tail of its own')
    balance(env, 'copy', result=r, after=holds(r))

@harness('C17', 'C extendWithItem', CP, variants=SHIFTS)
def h_build(env, L):
    start(env)
    v, D = newcvec(env, L, frozen=False, label='a vector being built')
    c = cur()
    c.soft = True
    v.tail.excl, v.tail.frozen = True, None
    x = c.val('x')
    before = holds(v)
    tl = v.tail
    led().append(('one', x, 1))      # the reference handed in
    F(env, 'extendWithItem')(v, x)
    check_cvec(v, D + Lit([x]), 'the item is added at the end')
    c.prove(v.tail is tl or isinstance(v.tail, NN), 'the tail stays its own')
    balance(env, 'extendWithItem', after=holds(v), before=before, values=[(Lit([x]), 1)] if v.tail is tl else [])

# ------------------------------------------------------------- evolver
class EvState:
    pass
def newcev(env, L, case=None):
    """arbitrary state of an evolver after any history: newVector is the original vector, or a private copy with any nodes marked"""
    c = cur()
    e = CEv()
    e.typ, e.tracked = env.ns['PVectorEvolverType'], True
    c.keep.append(e)
    S = EvState()
    X = fresh_seq('X')
    e.appendList = VList(X)
    c.keep.append(e.appendList)
    if c.choose(2) if case is None else case:
        v, D = newcvec(env, L, label='the original vector')
        e.originalVector = e.newVector = v
        S.private = False
    else:
        S.private = True
        D = fresh_seq('D')
        tl = c.int('taillen')
        T = mkint(iz(D.n) - iz(tl))
        c.assume(z3.And(tl.t >= 0, tl.t <= 32, levels_of(T, L), z3.Implies(tl.t == 0, iz(D.n) == 0), iz(D.n) < 1 << 31))
        c.assume(iz(D.n) >= 1)
        fs = {}
        def owned(level, m):
            if level not in fs:
                fs[level] = c.fun('owned%d' % level, z3.IntSort(), z3.BoolSort())
            return fs[level](m)
        v = CVec()
        v.typ, v.in_weakreflist, v.tracked = env.ns['PVectorType'], None, False
        tr = Tree(D, T, 'node shared with a persistent vector', owned)
        v.count, v.shift, v.root, v.tail = D.n, L, CN(tr, L, 0), TN(Slice(D, T, tl), 'tail shared with a persistent vector', c.bool('tail_owned'))
        c.keep.append(v)
        env.cont[id(v)] = D
        o, O = absvec(env, 'O', D.n)
        e.originalVector, e.newVector = o, v
    c.assume(iz(D.n) + iz(X.n) < 1 << 31)
    S.D, S.X, S.E, S.v, S.o, S.l = D, X, D + X, e.newVector, e.originalVector, e.appendList
    S.tree = v.root.tree
    S.before = [(v.root, v.root.is_owned()), (v.tail, v.tail.is_owned())] if S.private else []
    S.tail, S.tail_s = v.tail, v.tail.s
    return e, S

def marked(n):
    if isinstance(n, NN):
        return n.rc.dirty if n.rc is not None else z3.BoolVal(False)
    return dirty_of(n)

def check_cev(env, e, S, E, name, objs=()):
    """the evolver is well-formed, has contents E, and counts its references"""
    c = cur()
    if c.quiet:
        return
    c.prove(c.err is None, name, 'exception %s is set' % c.err)
    X, v, o = e.appendList, e.newVector, e.originalVector
    if not isinstance(X, VList) or isinstance(X, (CN, TN, NN)) or X.frozen or not isinstance(v, CVec):
        c.prove(False, name + ': representation')
        return
    c.prove(iz(v.count) + iz(X.s.n) == iz(E.n), name + ': length')
    W = Slice(E, 0, v.count)
    prove_same_seq(X.s, Slice(E, v.count, X.s.n), name + ': appended elements')
    c.prove(isinstance(o, CVec) and iz(o.count) == iz(v.count), name + ': the original vector has the length of the trie part')
    values = []
    if not isinstance(v, BVec):
        check_cvec(v, W, name)
    else:
        prove_same_seq(cont(env, v), W, name + ': contents')
    objs = list(objs)
    after = []
    if v is not o:
        c.prove(not getattr(v, 'tracked', False), name + ': the private vector is not known to the garbage collector yet', soft=True)
        after = [(n, marked(n)) for n in holds(v)]
        if v is not S.v:
            objs.append((v, 1))
        def f():        # a marked node has a marked parent
            q = c.int('q')
            c.assume(z3.And(q.t >= 0, q.t < iz(v.count) - iz(v.tail.s.n)))
            node, l = v.root, v.shift
            while l:
                if isinstance(node, CN) and not node.tree.writes:
                    return
                ch = node.s.get(digit(iz(shr(q, l)))[1])
                if not (isinstance(ch, CN) and isinstance(node, CN)):
                    c.prove(z3.Implies(marked(ch), marked(node)), name + ': the parent of a marked node is marked', soft=True)
                node, l = ch, l - 5
        side(f)
    if S.tail is v.tail and S.tail.s is not S.tail_s:
        upd_diff(S.tail.s, S.tail_s, values)
    if X is S.l:       # a list holds references to its elements by itself
        pass
    balance(env, name, after=after, before=S.before, values=values, objs=objs, marked=True, trees0=[(S.tree, S.D)] if S.private else [])

EVP = ['C03', 'C18', 'C01']
EVS = [(L, k) for L in reversed(SHIFTS) for k in (0, 1)]
@harness('C17', 'C evolver set_item', EVP, variants=EVS, budget=400)
def h_evset(env, Lk):
    start(env)
    e, S = newcev(env, *Lk)
    c = cur()
    i, x = c.int('i'), c.val('x')
    c.assume(z3.And(i.t >= -(1 << 31), i.t < 1 << 31))
    E = S.E
    j = mkint(z3.If(i.t < 0, i.t + iz(E.n), i.t))
    r = F(env, 'PVectorEvolver_set_item')(e, i, x)
    if mkbool(z3.And(iz(j) >= 0, iz(j) < iz(E.n))):
        c.prove(r == 0, 'assignment in range returns', 'result %r, exception %s' % (r, c.err))
        check_cev(env, e, S, Upd(E, j, x), 'e[i] = x replaces exactly element i')
    elif mkbool(iz(j) == iz(E.n)):
        c.prove(r == 0, 'assignment at the end returns', 'result %r, exception %s' % (r, c.err))
        check_cev(env, e, S, E + Lit([x]), 'e[len] = x appends')
    else:
        fails(env, r, IndexError, 'assignment out of range raises IndexError', bad=-1)
        c.err = None
        check_cev(env, e, S, E, 'a failed assignment changes nothing')

@harness('C17', 'C evolver subscript len is_dirty', EVP, variants=SHIFTS)
def h_evget(env, L):
    start(env, '_get_item')
    e, S = newcev(env, L)
    c = cur()
    E = S.E
    k = c.choose(4)
    T, Fa = env.ns['_Py_TrueStruct'], env.ns['_Py_FalseStruct']
    if k == 0:
        c.prove(iz(F(env, 'PVectorEvolver_len')(e)) == iz(E.n), 'len() is the number of elements')
    elif k == 1:
        r = F(env, 'PVectorEvolver_is_dirty')(e)
        c.prove(r is T or r is Fa, 'is_dirty() is a bool')
        if r is Fa:
            prove_same_seq(cont(env, e.originalVector), E, 'an evolver that is not dirty equals its original vector')
        balance(env, 'is_dirty', result=r)
        return
    elif k == 2:
        x = c.val('x')
        fails(env, F(env, 'PVectorEvolver_subscript')(e, x), TypeError, 'a subscript that is not an integer raises TypeError')
        balance(env, 'e[i]')
        return
    else:
        i = c.int('i')
        j = mkint(z3.If(i.t < 0, i.t + iz(E.n), i.t))
        r = F(env, 'PVectorEvolver_subscript')(e, i)
        if mkbool(z3.And(iz(j) >= 0, iz(j) < iz(E.n))):
            ok(env, r, 'getitem in range returns')
            prove_same(r, E.get(j), 'e[i] is element i')
            balance(env, 'e[i]', result=r)
        else:
            fails(env, r, IndexError, 'getitem out of range raises IndexError')
            balance(env, 'e[i]')

@harness('C17', 'C evolver append extend', EVP, variants=[5, 10])
def h_evapp(env, L):
    start(env)
    e, S = newcev(env, L)
    c = cur()
    if c.choose(2):
        x = c.val('x')
        r = F(env, 'PVectorEvolver_append')(e, x)
        c.prove(r is e, 'append returns the evolver')
        check_cev(env, e, S, S.E + Lit([x]), 'append(x) adds x at the end', objs=[(e, 1)])
    else:
        it, s = iterable(env)
        r = F(env, 'PVectorEvolver_extend')(e, it)
        if s is None or getattr(it, 'outcome', None) is TypeError:
            fails(env, r, TypeError, 'an exception from the iterable comes out of extend')
            return
        c.prove(r is e, 'extend returns the evolver')
        check_cev(env, e, S, S.E + s, 'extend(it) adds the elements at the end', objs=[(e, 1)])

@harness('C17', 'C evolver()', EVP, variants=[5, 10])
def h_evnew(env, L):
    start(env)
    v, D = newcvec(env, L)
    c = cur()
    r = ok(env, F(env, 'PVector_evolver')(v), 'evolver() returns')
    c.prove(isinstance(r, CEv) and r.originalVector is v and r.newVector is v and isinstance(r.appendList, VList) and r.appendList.s.n == 0, 'a new evolver has the contents of the vector')
    c.prove(getattr(r, 'tracked', False), 'a new evolver is known to the garbage collector')
    balance(env, 'evolver()', result=r, objs=[(v, 1), (r.appendList, 1)])

# ------------------------------------------------------------- removing the marks
class CleanLoop(RefLoop):
    """every marked item is cleaned in its iteration"""
    def record(self, again, loc, st):
        c = cur()
        n = c.clean_node
        k = self.k
        if not again:       # leaves the loop: only where no item follows
            c.prove(k.t >= iz(n.s.n), 'every marked child is cleaned', 'the loop ends before the last item')
            raise Stop()
        if mkbool(k.t < iz(n.s.n)):
            x = n.s.get(k)
            done = [z3.BoolVal(False)] + [same_node(y, x) for (y, l) in c.cleaned[self.c0:] if l == n.level - 5]
            c.prove(z3.Or(z3.Not(dirty_of(x)), *done), 'every marked child is cleaned')
            for (y, l) in c.cleaned[self.c0:]:
                c.prove(same_node(y, x), 'only the child is cleaned')
        if not c.implied(iz(st[self.L.names.index(self.i)]) == k.t + 1):
            raise Unsupported('the counter does not go up by one')
        raise Stop()
    def first(self, loc, st):
        self.c0 = len(getattr(cur(), 'cleaned', []))
        r = RefLoop.first(self, loc, st)
        if self.mode == 'exit':
            cur().clean_loops = getattr(cur(), 'clean_loops', 0) + 1
        return r

def k_cleanNodeRecursively(env):
    def f(fn, node, level):
        c = cur()
        led()
        if not hasattr(c, 'cleaned'):
            c.cleaned = []
        c.prove(marked(node), 'only marked nodes are cleaned')
        c.prove(level == (node.level if isinstance(node, CN) else 0), 'a node is cleaned as a node of its level')
        c.cleaned.append((node, level))
    return f

@harness('C17', 'C cleanNodeRecursively', EVP, variants=[0] + SHIFTS)
def h_clean(env, L):
    start(env)
    c = cur()
    c.soft = True
    c.cleaned = []
    D, T = fresh_seq('D'), c.int('T')
    c.assume(z3.And(T.t >= 0, T.t <= iz(D.n)))
    fs = {}
    def owned(level, m):
        if level not in fs:
            fs[level] = c.fun('owned%d' % level, z3.IntSort(), z3.BoolSort())
        return fs[level](m)
    if L == 0 and c.choose(2):
        n = TN(fresh_seq('tail'), 'tail', c.bool('tail_owned'))
    else:
        tr = Tree(D, T, 'node of an evolver', owned)
        m = c.int('m')
        c.assume(z3.And(m.t >= 0, m.t * (1 << (L + 5)) < T.t))
        n = CN(tr, L, m)
    c.assume(n.is_owned())
    c.clean_node = n
    g = k_cleanNodeRecursively(env)
    def f(fn, node, level):
        if node is n:
            return fn(node, level)
        return g(fn, node, level)
    env.H.intercepts['pvectorc:cleanNodeRecursively'] = f
    def prov(Lp, loc):
        names = [x for x in Lp.tnames if type(loc.get(x)) is int and loc[x] == 0 and x in Lp.names]
        if Lp.it is None and Lp.qual == 'pvectorc:cleanNodeRecursively' and len(names) == 1:
            return CleanLoop(env.H, Lp, loc, names[0])
    env.H.providers.insert(0, prov)
    F(env, 'cleanNodeRecursively')(n, L)
    rc = rc_of(n)
    c.prove(z3.And(z3.Not(rc.dirty), rc.cnt == 1), 'the node carries no mark and one reference')
    if L > 0 and c.freed_old == []:
        c.prove(getattr(c, 'clean_loops', 0) >= 1, 'the marked nodes below are cleaned')

@harness('C17', 'C evolver persistent', EVP, variants=SHIFTS)
def h_evpers(env, L):
    start(env, 'cleanNodeRecursively', 'PVector_extend')
    e, S = newcev(env, L)
    c = cur()
    c.cleaned = []
    r = ok(env, F(env, 'PVectorEvolver_persistent')(e), 'persistent() returns')
    if c.quiet:
        return
    c.prove(isinstance(r, CVec), 'persistent() returns a vector')
    prove_same_seq(cont(env, r), S.E, 'persistent() has the contents of the evolver')
    c.prove(e.originalVector is r and e.newVector is r, 'after persistent() the result is the new original vector')
    c.prove(isinstance(e.appendList, VList) and not e.appendList.frozen and e.appendList.s.n == 0 if not isinstance(e.appendList.s.n, SymInt) else c.implied(iz(e.appendList.s.n) == 0), 'after persistent() nothing is pending')
    after = []
    objs = [(S.o, -1)]
    if S.private:
        v = S.v
        c.prove(getattr(v, 'tracked', False), 'the vector is known to the garbage collector')
        after = [v.root, v.tail]
        for n, l in ((v.root, L), (v.tail, 0)):
            c.prove(z3.Or(z3.Not(dirty_of(n)), *[same_node(n, y) for y, _ in c.cleaned]), 'after persistent() the evolver owns no node of the result')
    c.prove(v.in_weakreflist is None if S.private else True, 'no weak references yet')
    if r is not S.v:
        objs += [(S.v, -1)] if S.private else []
        objs += [(r, 1), (S.l, -1), (e.appendList, 1)]
    elif not S.private:
        objs = []
    balance(env, 'persistent', result=r, after=after, before=S.before, objs=objs)

def k_rawCopyPVector(env):
    def f(fn, v):
        w = CVec()
        w.typ, w.in_weakreflist, w.tracked, w.count = env.ns['PVectorType'], None, False, v.count
        env.cont[id(w)] = cont(env, v)
        cur().keep.append(w)
        led()
        cur().newobjs.append(w)
        return w
    return f
def k_PVectorEvolver_persistent(env):
    def f(fn, e):
        led()
        v = e.newVector
        E = cont(env, v) + e.appendList.s
        if not mkbool(iz(e.appendList.s.n) == 0) or e.newVector is not e.originalVector:
            r = BVec(env, E)
            if not mkbool(iz(e.appendList.s.n) == 0):
                led().append(('one', e.appendList, -1))
                e.appendList = VList(EMPTY)
                cur().newobjs.append(e.appendList)
            led().append(('one', e.originalVector, -1))
            if v is not e.originalVector:
                led().append(('one', v, -1))
            e.originalVector = e.newVector = r
        r = e.originalVector
        led().append(('one', r, 1))
        return r
    return f

@harness('C17', 'C evolver set delete', EVP)
def h_evdel(env):
    """the methods, and deletion, over the contracts of set_item and persistent"""
    start(env, 'PVectorEvolver_persistent', 'PVector_toList', 'PVector_extend', '_get_item', 'rawCopyPVector')
    c = cur()
    e = CEv()
    e.typ, e.tracked = env.ns['PVectorEvolverType'], True
    c.keep.append(e)
    X = fresh_seq('X')
    e.appendList = VList(X)
    v, D = absvec(env)
    if c.choose(2):
        e.originalVector = e.newVector = v
    else:
        e.newVector = v
        e.originalVector, _ = absvec(env, 'O', D.n)
    o, l = e.originalVector, e.appendList
    c.assume(iz(D.n) + iz(X.n) < 1 << 31)
    E = D + X
    i = c.int('i')
    k = c.choose(4)
    if k == 0:           # set: hands on to set_item
        out = c.choose(2)
        log = []
        def si(fn, *a):
            log.append(a)
            if out:
                cur().err = IndexError
            return -1 if out else 0
        env.H.intercepts['pvectorc:PVectorEvolver_set_item'] = si
        x = c.val('x')
        r = F(env, 'PVectorEvolver_set')(e, (i, x))
        c.prove(len(log) == 1 and log[0][0] is e and log[0][1] is i and log[0][2] is x, 'set(i, x) is e[i] = x')
        c.prove(r is None if out else r is e, 'set returns the evolver')
        balance(env, 'set', objs=[] if out else [(e, 1)])
        return
    f = (lambda: F(env, 'PVectorEvolver_delete')(e, (i,))) if k == 1 else (lambda: F(env, 'PVectorEvolver_set_item')(e, i, None))
    if k == 3:
        r = F(env, 'PVectorEvolver_set_item')(e, c.val('y'), None if c.choose(2) else c.val('x'))
        fails(env, r, TypeError, 'an index that is not an integer raises TypeError', bad=-1)
        balance(env, 'del e[i]')
        return
    j = mkint(z3.If(i.t < 0, i.t + iz(E.n), i.t))
    if not mkbool(z3.And(iz(j) >= 0, iz(j) < iz(E.n))):
        r = f()
        fails(env, r, IndexError, 'deletion out of range raises IndexError', bad=None if k == 1 else -1)
        prove_same_seq(cont(env, e.newVector) + e.appendList.s, E, 'a failed deletion changes nothing')
        balance(env, 'del e[i]')
        return
    r = f()
    c.prove((r is e if k == 1 else r == 0) and c.err is None, 'deletion in range returns', 'result %r with exception %s' % (r, c.err))
    if c.quiet:
        return
    c.prove(isinstance(e.newVector, CVec) and e.newVector is e.originalVector, 'after a deletion nothing is private to the evolver', soft=True)
    prove_same_seq(cont(env, e.newVector) + e.appendList.s, Removed(E, j), 'del e[i] drops exactly element i')
    objs = [(e, 1)] if k == 1 else []
    held = {}
    for a, d in ((o, -1), (v, -1 if v is not o else 0), (e.originalVector, 1), (l, -1), (e.appendList, 1)):
        held.setdefault(id(a), [a, 0])[1] += d
    objs += [(a, d) for a, d in held.values() if d]
    raw = [w for w in c.newobjs if isinstance(w, CVec) and not isinstance(w, BVec)]
    balance(env, 'del e[i]', objs=objs)

class CLogEv(CEv):
    pass
class ACLog(MListAdapter):
    def matches(self, v): return isinstance(v, CLogEv)
    def get(self, v): return v.log.s
    def set(self, v, s): v.log.s = s
    def delta(self, v, hv): return MListAdapter.delta(self, v.log, hv)
    def owned(self, v): return [id(v), id(v.log)]
@harness('C17', 'C mset', CP)
def h_mset(env):
    start(env)
    rt.MLISTS.append(ACLog())
    v, D = absvec(env)
    c = cur()
    led()
    inj = []
    evs, res = [], []
    def ev(fn, w):
        e = CLogEv()
        e.typ, e.base, e.log, e.tracked = env.ns['PVectorEvolverType'], w, VList(EMPTY), True
        c.keep.append(e)
        c.newobjs.append(e)
        evs.append(e)
        return e
    def si(fn, e, i, x):
        c.mutlog.append(e)
        if i is None or x is None:
            if c.quiet:
                raise Stop()
            bad('argument beyond the end')
        if c.choose(2):
            c.err = IndexError
            inj.append(1)
            return -1
        e.log.append((i, x))
        return 0
    def pers(fn, e):
        r = BVec(env, EMPTY)
        res.append((r, e))
        return r
    ic = env.H.intercepts
    ic['pvectorc:PVector_evolver'], ic['pvectorc:PVectorEvolver_set_item'], ic['pvectorc:PVectorEvolver_persistent'] = ev, si, pers
    n = c.int('n')
    ai, av = c.fun('argi', z3.IntSort(), z3.IntSort()), c.fun('argv', z3.IntSort(), VS)
    odd = c.choose(2)
    c.assume(n.t >= 0)
    def get(i):
        if mkbool(iz(i) % 2 == 0):
            return mkint(ai(iz(i)))
        return SymVal(av(iz(i)))
    r = F(env, 'PVector_mset')(v, VTuple(Fn(mkint(2 * n.t + odd), gf=get)))
    if odd:
        fails(env, r, TypeError, 'an odd number of arguments raises TypeError')
        balance(env, 'mset')
        return
    if inj:
        fails(env, r, IndexError, 'a failing assignment makes mset fail')
        balance(env, 'mset')
        return
    ok(env, r, 'mset returns')
    if c.quiet:
        return
    hit = [e for (w, e) in res if w is r]
    if not hit or hit[0].base is not v:
        raise Unsupported('mset not expressed through one evolver')
    prove_same_seq(hit[0].log.s, Fn(n, gf=lambda i: (mkint(ai(2 * iz(i))), SymVal(av(2 * iz(i) + 1)))), 'mset makes exactly the given assignments in order')
    balance(env, 'mset', result=r)

# ------------------------------------------------------------- memory: allocation, release, garbage collection
@harness('C18', 'C allocNode freeNode emptyNewPvec')
def h_alloc(env):
    """nodeCache invariant: 0 <= size <= 1024 and the first size entries are distinct free nodes"""
    start(env)
    c = cur()
    c.soft = True
    led()
    del env.H.intercepts['pvectorc:allocNode'], env.H.intercepts['pvectorc:freeNode']
    class Cache:
        pass
    nc = Cache()
    nc.size = c.int('size')
    c.assume(z3.And(nc.size.t >= 0, nc.size.t <= 1024))
    nc.nodes = CacheNodes()
    got = []
    def handed(i):
        n = NN()
        n.at = i
        got.append(n)
        return n
    nc.nodes.handed = handed
    env.ns['nodeCache'] = nc
    s0 = nc.size
    if c.choose(2):
        r = F(env, 'allocNode')()
        c.prove(isinstance(r, NN) and not r.freed, 'allocation hands out a free node')
        if got:
            c.prove(z3.And(z3.BoolVal(len(got) == 1 and r is got[0]), iz(got[0].at) == s0.t - 1, iz(nc.size) == s0.t - 1), 'a node taken from the cache leaves it')
        else:
            c.prove(iz(nc.size) == s0.t, 'a new node does not touch the cache')
        c.prove(not nc.nodes.writes, 'allocation leaves the other cached nodes alone')
    else:
        n = alloc()
        F(env, 'freeNode')(n)
        w = nc.nodes.writes
        if w:
            c.prove(z3.And(z3.BoolVal(len(w) == 1 and w[0][1] is n and not n.freed), iz(w[0][0]) == s0.t, iz(nc.size) == s0.t + 1), 'a freed node goes into the cache or back to the allocator, once')
        else:
            c.prove(z3.And(z3.BoolVal(n.freed), iz(nc.size) == s0.t), 'a freed node goes into the cache or back to the allocator, once')
    c.prove(z3.And(iz(nc.size) >= 0, iz(nc.size) <= 1024), 'the size of the cache stays in range')

@harness('C18', 'C emptyNewPvec', ['C17'])
def h_empty(env):
    start(env)
    c = cur()
    c.soft = True
    r = F(env, 'emptyNewPvec')()
    check_cvec(r, EMPTY, 'the empty vector')
    c.prove(getattr(r, 'tracked', False), 'the empty vector is known to the garbage collector')
    balance(env, 'empty vector', result=r, after=holds(r))

@harness('C18', 'C releaseNode', variants=[0] + SHIFTS)
def h_release(env, L):
    """the count goes down by one; a node without references gives back its own references, each once, and is freed once"""
    start(env)
    c = cur()
    c.soft = True
    led()
    D, T = fresh_seq('D'), c.int('T')
    c.assume(z3.And(T.t >= 0, T.t <= iz(D.n)))
    if L == 0 and c.choose(2):
        n = TN(fresh_seq('tail', None), 'tail')
        c.assume(iz(n.s.n) <= 32)
    else:
        tr = Tree(D, T, 'node')
        m = c.int('m')
        c.assume(z3.And(m.t >= 0, m.t * (1 << (L + 5)) < T.t))
        n = CN(tr, L, m)
    g = env.H.intercepts['pvectorc:releaseNode']
    def f(fn, level, node):
        if node is n:
            return fn(level, node)
        if node is not None:
            cur().prove(level == (node.level if isinstance(node, CN) else 0), 'a child is released as a node of its level')
        return g(fn, level, node)
    env.H.intercepts['pvectorc:releaseNode'] = f
    if c.choose(2):
        F(env, 'releaseNode')(L, None)
        c.prove(not c.led, 'releasing NULL does nothing')
        return
    s = n.s
    b = rc_base(n)
    F(env, 'releaseNode')(L, n)
    if c.quiet:
        return
    c.prove(delta(n) == -1, 'the count goes down by one')
    gone = bool(mkbool(b == 1))
    c.prove([x for x in c.freed_old] == ([n] if gone else []), 'a node is freed exactly when its last reference goes')
    if L == 0:
        u = c.val('u').t
        t = z3.IntVal(0)
        for e in c.led:
            t = t + effect(e, u)
        c.prove(t == (-occ(s, u) if gone else 0), 'a freed leaf gives back its references to elements')
    else:
        x = CN(n.tree, L - 5, c.int('mm'))
        t = z3.IntVal(0)
        for e in c.led:
            t = t + effect(e, x)
        c.prove(t == (-occ(s, x) if gone else 0), 'a freed inner node gives back its references to children')

@harness('C18', 'C dealloc', variants=[5, 10])
def h_dealloc(env, L):
    start(env, 'cleanNodeRecursively')
    c = cur()
    c.cleaned = []
    k = c.choose(3)
    calls = []
    env.H.intercepts['pvectorc:releaseNode'] = lambda fn, level, n: (calls.append((level, n)), led().append(('one', n, -1)))[0]
    if k == 0:
        v, D = newcvec(env, L, frozen=False)
        v.tracked = True
        v.in_weakreflist = [None, Single('weakrefs')][c.choose(2)]
        F(env, 'PVector_dealloc')(v)
        c.prove(v.freed, 'the vector is freed')
        c.prove(sorted([(l, id(n)) for l, n in calls]) == sorted([(L, id(v.root)), (0, id(v.tail))]), 'a freed vector gives back its references to root and tail')
        balance(env, 'dealloc', before=[v.root, v.tail])
    elif k == 1:
        e, S = newcev(env, L)
        F(env, 'PVectorEvolver_dealloc')(e)
        c.prove(e.freed, 'the evolver is freed')
        after = []
        objs = [(S.o, -1), (S.l, -1)]
        if S.private:
            after = [S.v.root, S.v.tail]
            objs.append((S.v, -1))
            for n in after:
                c.prove(z3.Or(z3.Not(dirty_of(n)), *[same_node(n, y) for y, _ in c.cleaned]), 'no node of a freed evolver keeps its mark')
        balance(env, 'evolver dealloc', after=after, before=S.before, objs=objs)
    else:
        it = CEv()
        it.typ, it.tracked, it.it_index = env.ns['PVectorIterType'], True, 0
        v, D = absvec(env)
        it.it_seq = [v, None][c.choose(2)]
        w = it.it_seq
        F(env, 'PVectorIter_dealloc')(it)
        c.prove(it.freed, 'the iterator is freed')
        balance(env, 'iterator dealloc', objs=[(v, -1)] if w is v else [])

@harness('C18', 'C visitNode', variants=[0] + SHIFTS)
def h_visit(env, L):
    """garbage collection sees exactly the references owned through nodes that nobody else shares"""
    start(env)
    c = cur()
    c.soft = True
    led()
    D, T = fresh_seq('D'), c.int('T')
    c.assume(z3.And(T.t >= 0, T.t <= iz(D.n)))
    fs = {}
    def owned(level, m):
        if level not in fs:
            fs[level] = c.fun('owned%d' % level, z3.IntSort(), z3.BoolSort())
        return fs[level](m)
    if L == 0 and c.choose(2):
        n = TN(fresh_seq('tail', None), 'tail', c.bool('tail_owned'))
        c.assume(iz(n.s.n) <= 32)
    else:
        tr = Tree(D, T, 'node', owned)
        m = c.int('m')
        c.assume(z3.And(m.t >= 0, m.t * (1 << (L + 5)) < T.t))
        n = CN(tr, L, m)
    ARG = Single('arg')
    c.marks_iter, c.last = [], None
    def outcome():
        c.last = c.int('result')
        return c.last if c.choose(2) else 0
    def visit(x, arg):
        c.prove(arg is ARG, 'the argument of the visitor is passed on')
        c.marks_iter = c.marks_iter + [('visit', x, 1)]
        r = outcome()
        if not isinstance(r, int):
            c.assume(c.last.t != 0)
        return r
    def f(fn, node, level, vis, arg):
        if node is n:
            return fn(node, level, vis, arg)
        cur().prove(vis is visit and arg is ARG and isinstance(node, CN) and level == node.level, 'a child is visited as a node of its level')
        c.marks_iter = c.marks_iter + [('node', node, 1)]
        r = outcome()
        if not isinstance(r, int):
            c.assume(c.last.t != 0)
        return r
    env.H.intercepts['pvectorc:visitNode'] = f
    def early(loop, v):
        c.prove(v is c.last, 'a visit that asks to stop stops the traversal with its result')
        raise Stop()
    c.early_return = early
    s = n.s
    b = rc_base(n)
    r = F(env, 'visitNode')(n, L, visit, ARG)
    if c.quiet:
        return
    c.prove(r == 0 if isinstance(r, int) else False, 'a completed traversal returns 0')
    ms = getattr(c, 'marks', [])
    if mkbool(b != 1):
        c.prove(not ms, 'references owned through shared nodes are not visited')
    else:
        tag = 'visit' if L == 0 else 'node'
        okk = len(ms) == 1 and ms[0][0] == tag and ms[0][2] == 1
        c.prove(okk or c.implied(iz(s.n) == 0) and not ms, 'each reference owned is visited once')
        if okk:
            c.prove(z3.BoolVal(skey(ms[0][1]) == skey(s)) if not isinstance(ms[0][1], Slice) or isinstance(s, Slice) else False, 'each reference owned is visited once')

@harness('C18', 'C traverse', variants=[5, 10])
def h_traverse(env, L):
    start(env)
    c = cur()
    led()
    ARG, log = Single('arg'), []
    def res():
        if c.choose(2):
            r = c.int('result')
            c.assume(r.t != 0)
            return r
        return 0
    stops = []
    def visit(x, arg):
        r = res()
        c.prove(arg is ARG and not stops, 'nothing is visited after a request to stop')
        log.append(('obj', x))
        if not isinstance(r, int):
            stops.append(r)
        return r
    def f(fn, node, level, vis, arg):
        c.prove(vis is visit and arg is ARG and level == (node.level if isinstance(node, CN) else 0) and not stops, 'a node is visited as a node of its level')
        log.append(('node', node))
        r = res()
        if not isinstance(r, int):
            stops.append(r)
        return r
    env.H.intercepts['pvectorc:visitNode'] = f
    k = c.choose(3)
    if k == 0:
        v, D = newcvec(env, L)
        r = F(env, 'PVector_traverse')(v, visit, ARG)
        want = [('node', v.root), ('node', v.tail)]
    elif k == 1:
        e, S = newcev(env, L)
        r = F(env, 'PVectorEvolver_traverse')(e, visit, ARG)
        want = [('obj', S.o), ('obj', S.l)]
        for n in holds(S.v) if S.private else []:
            if mkbool(dirty_of(n)):
                want.append(('node', n))
    else:
        it = CEv()
        it.typ, it.it_index = env.ns['PVectorIterType'], 0
        v, D = absvec(env)
        it.it_seq = [v, None][c.choose(2)]
        r = F(env, 'PVectorIter_traverse')(it, visit, ARG)
        want = [('obj', v)] if it.it_seq is v else []
    if c.quiet:
        return
    key = lambda l: sorted((a, id(b)) for a, b in l)
    if stops:
        c.prove(r is stops[0], 'a request to stop is passed on')
        c.prove(all(x in key(want) for x in key(log)) and len(set(key(log))) == len(log), 'only references owned are visited, once')
    else:
        c.prove(r == 0 if isinstance(r, int) else False, 'a completed traversal returns 0')
        c.prove(key(log) == key(want), 'each reference owned is visited once', '%r instead of %r' % (log, want))

class Rep(Cyc):
    """a repeated times times (times >= 1)"""
    def term(self, t):
        n, m = iz(self.a.n), iz(self.times)
        r = PyMod(t, n)
        c = cur()
        c.assume_raw(z3.Implies(z3.And(n > 0, n * (m - 1) <= t, t < n * m), r == t - n * (m - 1)))        # definition of the remainder
        c.assume_raw(z3.Implies(z3.And(n > 0, t >= 0), z3.And(r >= 0, r < n)))
        return self.a.term(r)
    def get(self, i):
        return SymVal(self.term(iz(i)))
@harness('C17', 'C repeat', CP)
def h_repeat(env):
    start(env, *ABS)
    v, D = absvec(env)
    c = cur()
    k = c.int('times')
    c.assume(iz(D.n) * k.t < 1 << 31)
    def hint(L, loc, slots):
        for n, x in slots.items():
            if isinstance(x, BVec) and env.cont[id(x)] is D and not hasattr(env, 'rep'):
                env.rep = True
                return {n: lambda j: ('list', None, Rep(D, mkint(iz(j) + 1)))}
    if hasattr(env, 'rep'):
        del env.rep
    env.H.loop_hints.append(hint)
    r = F(env, 'PVector_repeat')(v, k)
    if mkbool(z3.Or(k.t <= 0, iz(D.n) == 0)):
        isvec(env, r, EMPTY, 'v * k is empty for k <= 0')
    elif mkbool(k.t == 1):
        isvec(env, r, D, 'v * 1')
    else:
        isvec(env, r, Rep(D, k), 'v * k repeats the contents')
