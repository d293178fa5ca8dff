"""Contracts of the persistent map and its evolver (_pmap.py): C04, C05 (and parts of C01, C10, C16)."""
import core, rt, z3
from rt import *
from common import *
from amap import *

def prepare(env):
    env.replace['_pmap'] = {'pvector': apvector}

def setup(env):
    m = env.pm = env.get('_pmap')
    env.M = m.PMap
    env.Ev = m.PMap._Evolver
    rt.DictType.hook = dict_hook(lambda x: fm_of(env, x))
    def fs(*a):
        if not a:
            raise Unsupported('empty frozenset')
        s = seq_of(a[0])
        if isinstance(s, Enum) and s.part == 'items':
            return AFrozenset(s.fm, 'items')
        raise Unsupported('frozenset of other things')
    rt.FrozensetType.hook = fs
    env.H.providers[:] = [lambda L, loc: map_loops(env, L, loc)]
    env.H.comp_hook = nonempty
    env.H.flatten_hook = flatten
    env.inset = {}

PRE = '_pmap:PMap._Evolver.'
def rec_set(env):
    """a call of set from within set: by the contract of set itself (the well-formed state before is an obligation)"""
    def rset(f, self, key, val):
        if id(self) not in env.inset:
            env.inset[id(self)] = tabfm(self._buckets_evolver.s)
            return f(self, key, val)
        fm = env.inset[id(self)]
        tab = self._buckets_evolver.s
        if not (isinstance(tab, BTab) and tab.fm is fm and not tab.kids):
            check_table(tab, fm, 'recursive set: state before', soft=True)
        cur().prove(iz(self._size) == iz(fm.n), 'recursive set: size before', soft=True)
        new_state(self, fm.set(key, val), AVec(tab))
        return self
    env.H.intercepts[PRE + 'set'] = rset
def new_state(e, fm, orig=None):
    v = AVec(BTab(cur().int('n_after'), fm))
    o = e._buckets_evolver.orig if orig is None else orig
    e._buckets_evolver = AVecEv(v, dirty=True)
    e._buckets_evolver.orig = o
    e._size = fm.n
    cur().mutlog.append(e)
def by_contract(env, *names):
    """calls of these evolver methods by their contracts, each proved by its own harness"""
    def set(f, self, key, val):
        fm = tabfm(self._buckets_evolver.s)
        q = cls(key)
        regc(q)
        if cur().branch(z3.And(fm.has(q), fm.val(q) == vterm(val))) and cur().choose(2):
            return self
        new_state(self, fm.set(key, val))
        return self
    def remove(f, self, key):
        fm = tabfm(self._buckets_evolver.s)
        regc(cls(key))
        if not mkbool(fm.has(cls(key))):
            raise HRaised(KeyError(key))
        new_state(self, fm.remove(key))
        return self
    def _reallocate(f, self):
        fm = tabfm(self._buckets_evolver.s)
        cur().prove(iz(self._size) == iz(fm.n), 'size before growing', soft=True)
        new_state(self, fm)
    d = locals()
    for n in names:
        env.H.intercepts[PRE + n] = d[n]

def fm_of(env, x):
    """finite map of one of our maps"""
    if isinstance(x, env.M) and isinstance(x._buckets, AVec):
        return tabfm(x._buckets.s)
    return None

def tabfm(s):
    if isinstance(s, BTab) and not s.kids:
        return s.fm
    if isinstance(s, Lit) and all(x is None for x in s.xs):
        return fm_empty()
    raise Unsupported('contents of a modified table')

def newmap(env, name='m', n=None, K=None):
    """arbitrary well-formed map"""
    c = cur()
    fm = FM.fresh(name)
    n = c.int('buckets') if n is None else n
    tab = BTab(n, fm)
    m = object.__new__(K or env.M)
    m._size, m._buckets, m._cached_hash = fm.n, AVec(tab), None
    c.frozen[id(m)] = ('an existing map', ('_cached_hash',))
    c.keep.append(m)
    return m, fm

def newevolver(env, name='m', w=None):
    """arbitrary evolver: dirty with any contents, or clean and then those of the map it is based on"""
    c = cur()
    e = object.__new__(env.Ev)
    m, fm0 = newmap(env, name + '0')
    e._original_pmap = m
    if w == 'changed' or w is None and c.choose(2):
        fm = FM.fresh(name)
        e._buckets_evolver = AVecEv(m._buckets, BTab(c.int('evbuckets'), fm), True)
        e._size = fm.n
        return e, fm, m, True
    e._buckets_evolver, e._size = AVecEv(m._buckets), fm0.n
    return e, fm0, m, False

def check_map(env, r, fm, name):
    c = cur()
    if not isinstance(r, env.M):
        c.prove(False, name + ': result is a map', 'result is %s' % type(r).__name__)
        return
    if not isinstance(r._buckets, AVec) or not isint(r._size):
        c.prove(False, name + ': representation')
        return
    c.prove(iz(r._size) == iz(fm.n), name + ': size')
    if r._cached_hash is not None:
        c.prove(iz(r._cached_hash) == iz(fm.h) if isint(r._cached_hash) else False, name + ': cached hash')
    check_table(r._buckets.s, fm, name)

def check_evolver(env, e, fm, name, base=None):
    """the evolver represents fm; base: the map it must still be based on when clean"""
    c = cur()
    be = e._buckets_evolver
    if not isinstance(be, AVecEv):
        raise Unsupported('evolver representation')
    c.prove(iz(e._size) == iz(fm.n) if isint(e._size) else False, name + ': size')
    check_table(be.s, fm, name)
    o = e._original_pmap
    # clean: the original map is the one represented
    d = be.dirty
    if d is not True:
        c.prove(z3.Or(tz(d) if not isinstance(d, bool) else z3.BoolVal(d), z3.BoolVal(isinstance(o, env.M) and be.orig is o._buckets)), name + ': a clean evolver is based on its map')
        if isinstance(o, env.M):
            c.prove(z3.Or(tz(d) if not isinstance(d, bool) else z3.BoolVal(d), iz(o._size) == iz(fm.n)), name + ': a clean evolver has the size of its map')

# ------------------------------------------------------------------ loops over tables and items
class Flatten:
    """loop over all buckets that yields something for every entry of each"""
    def __init__(self, L, tab, out):
        self.L, self.tab, self.out, self.v0 = L, tab, out, out.s
        c = cur()
        self.key = ('flatten', L.qual, L.line, tuple(map(str, c.trail)))
    def first(self, loc, st):
        c = cur()
        self.L.mode = 'prov'
        c.havocs += 1
        it = self.L.it
        if c.choose(2) == 0:
            j = c.int('j')
            c.assume(z3.And(j.t >= 0, j.t < iz(self.tab.n)))
            self.j = j
            it.pos = j
            self.hv = self.out.s = fresh_seq('out')
            return [UNBOUND] * len(st)
        kind = c.store.tables.get(self.key)
        if kind is None:
            if not c.store.tables.get(self.key + ('empty',)):
                raise Unsupported('loop over buckets not understood')
            kind = 'items'          # no bucket holds anything
        it.pos = self.tab.n
        e = self.tab.enum
        self.out.s = self.v0 + (e if kind == 'items' else e.keys() if kind == 'keys' else e.values())
        return [UNBOUND] * len(st)
    def again(self, loc, st):
        c = cur()
        tab, j, s = self.tab, self.j, self.out.s
        if not c.implied(iz(self.L.it.pos) == j.t + 1):
            raise Unsupported('iterator advanced irregularly')
        if s is self.hv:
            c.prove(tab.bl(j.t) == 0, 'loop over buckets: an empty bucket adds nothing', soft=True)
            c.store.tables.setdefault(self.key + ('empty',), True)
            raise Stop()
        if not (isinstance(s, Concat) and getattr(s.a, 'fun', None) is not None and s.a.fun.eq(self.hv.fun)):
            if c.quiet:
                raise Stop()
            raise Unsupported('loop over buckets not understood')
        d = s.b
        c.prove(iz(d.n) == tab.bl(j.t), 'loop over buckets: one result per entry', soft=True)
        i = c.int('i')
        c.assume(z3.And(i.t >= 0, i.t < iz(d.n)))
        e = d.get(i)
        k, v = tab.bk(j.t, i.t), tab.bv(j.t, i.t)
        kind = 'items' if isinstance(e, tuple) and len(e) == 2 else 'keys' if isinstance(e, SymVal) and e.t.eq(k) else 'values'
        if c.store.tables.setdefault(self.key, kind) != kind:
            raise Unsupported('loop over buckets not uniform')
        w = (SymVal(k), SymVal(v)) if kind == 'items' else SymVal(k) if kind == 'keys' else SymVal(v)
        prove_same(e, w, 'loop over buckets: the entries in order', soft=True)
        raise Stop()

class Build:
    """loop over the items of a finite map that distributes them over a new table"""
    def __init__(self, L, enum, lst):
        self.L, self.e, self.lst, self.m = L, enum, lst, lst.s.n
    def state(self, t):
        e = self.e
        return FM(lambda q: z3.And(e.ei(q) >= 0, e.ei(q) < iz(t), Cls(e.ek(e.ei(q))) == q), lambda q: e.ev(e.ei(q)), t)
    def first(self, loc, st):
        c = cur()
        self.L.mode = 'prov'
        c.havocs += 1
        it = self.L.it
        if c.choose(2) == 0:
            c.prove(iz(self.m) > 0, 'new table has a bucket', soft=True)
            t = self.t = c.int('t')
            c.assume(z3.And(t.t >= 0, t.t < iz(self.e.n)))
            it.pos = t
            self.fm = self.state(t)
        else:
            it.pos = self.e.n
            self.fm = self.state(self.e.n)
        self.lst.s = BTab(self.m, self.fm, frozen=False)
        return [UNBOUND] * len(st)
    def again(self, loc, st):
        c = cur()
        if not c.implied(iz(self.L.it.pos) == self.t.t + 1):
            raise Unsupported('iterator advanced irregularly')
        if c.quiet:
            raise Stop()
        check_table(self.lst.s, self.state(self.t + 1), 'distribution of the items over the new table', soft=True)
        raise Stop()

def allnone(s):
    return isinstance(s, Cyc) and isinstance(s.a, Lit) and all(x is None for x in s.a.xs) or isinstance(s, Lit) and all(x is None for x in s.xs)

def map_loops(env, L, loc):
    it = L.it
    if not isinstance(it, VIter) or not (isinstance(it.pos, int) and it.pos == 0):
        return None
    s = it.s
    if isinstance(s, BTab) and isinstance(loc.get('_out'), VList):
        return Flatten(L, s, loc['_out'])
    if isinstance(s, Enum) and s.part == 'items':
        ls = [v for v in loc.values() if isinstance(v, VList) and not v.frozen and allnone(v.s) and not (isinstance(v.s.n, int) and v.s.n == 0)]
        if len(ls) == 1:
            return Build(L, s, ls[0])
    return None

class NonEmpty(Seq):
    """the buckets of a table that hold something"""
    def __init__(self, tab):
        self.tab, self.n = tab, cur().int('nonempty')
        cur().assume(self.n >= 0)
    def get(self, i):
        raise Unsupported('element of the non-empty buckets')
def nonempty(kind, s, f, cond):
    if not isinstance(s, BTab) or kind not in ('gen', 'list') or cond is None:
        return NotImplemented
    probe = VList(Fn(1, gf=lambda i: (None, None)))
    if not (f(probe) is probe and cond(None) is False and cond(VList(EMPTY)) is False and cond(probe) is True):
        return NotImplemented
    r = NonEmpty(s)
    return VIter(r) if kind == 'gen' else VList(r)
def flatten(it):
    s = seq_of(it)
    if isinstance(s, NonEmpty):
        return VIter(s.tab.enum)
    raise Unsupported('chain.from_iterable')

# ------------------------------------------------------------------ reading
def start(env):
    env.inset = {}
    for k in [k for k in env.H.intercepts if k.startswith('_pmap:')]:
        del env.H.intercepts[k]
    e = env.pm._EMPTY_PMAP
    cur().frozen[id(e)] = ('the empty map', ('_cached_hash',))

def key(name='k'):
    k = cur().val(name)
    regc(cls(k))
    return k

@harness('C04', 'PMap.__getitem__ get __contains__ __getattr__')
def h_get(env):
    start(env)
    m, fm = newmap(env)
    c = cur()
    k = key()
    has = mkbool(fm.has(cls(k)))
    w = c.choose(4)
    if w == 0:
        prove_bool(env.H.contains(m, k), has, 'membership is that of the dict')
        return
    if w == 1:
        d = c.val('default')
        r = env.H.b_getattr(m, 'get')(k, d) if c.choose(2) else m.get(k)
        if truth(has):
            prove_same(r, SymVal(fm.val(cls(k))), 'get(k) of a present key is its value')
        else:
            c.prove(z3.Or(tz(same(r, d)), tz(same(r, None))), 'get(k) of an absent key is the default')
        return
    if w == 2:
        if truth(has):
            prove_same(expect_ok(lambda: env.H.getitem(m, k), 'm[k] of a present key returns'), SymVal(fm.val(cls(k))), 'm[k] is the value of k')
        else:
            expect_raise(lambda: env.H.getitem(m, k), KeyError, 'm[k] of an absent key raises KeyError')
        return
    c.prove(iz(env.H.b_len(m)) == iz(fm.n), 'len is the number of keys')
    if truth(has):
        prove_same(expect_ok(lambda: type(m).__getattr__(m, k), 'm.k of a present key returns'), SymVal(fm.val(cls(k))), 'm.k is the value of k')
    else:
        expect_raise(lambda: type(m).__getattr__(m, k), AttributeError, 'm.k of an absent key raises AttributeError')

@harness('C04', 'PMap iteration and views')
def h_iter(env):
    start(env)
    m, fm = newmap(env)
    c = cur()
    H = env.H
    w = c.choose(6)
    def enumerates(it, part, name):
        s = seq_of(it)
        c.prove(iz(s.n) == iz(fm.n), name + ': as many as there are keys')
        i = c.int('i')
        c.assume(z3.And(i.t >= 0, i.t < iz(s.n)))
        c.reg(i)
        prove_same(s.get(i), Enum(fm, part, fm.enum).get(i), name + ': every key once, with its value')
    if w == 0:
        enumerates(m.iteritems(), 'items', 'iteritems')
    elif w == 1:
        enumerates(m.iterkeys(), 'keys', 'iterkeys')
    elif w == 2:
        enumerates(m.itervalues(), 'values', 'itervalues')
    elif w == 3:
        enumerates(type(m).__iter__(m), 'keys', 'iteration')
    elif w == 4:
        v = m.items()
        enumerates(type(v).__iter__(v), 'items', 'items()')
        c.prove(iz(H.b_len(v)) == iz(fm.n), 'len of items()')
        k, x = key(), c.val('x')
        prove_bool(H.contains(v, (k, x)), mkbool(z3.And(fm.has(cls(k)), Cls(fm.val(cls(k))) == cls(x))), 'membership in items() needs the key with an equal value')
        c.prove(H.contains(v, 7) is False and H.contains(v, (k,)) is False, 'other things are not in items()')
    else:
        v = m.values()
        enumerates(type(v).__iter__(v), 'values', 'values()')
        c.prove(iz(H.b_len(v)) == iz(fm.n), 'len of values()')

@harness('C04', 'PMap view classes')
def h_views(env):
    start(env)
    m, fm = newmap(env)
    m2, fm2 = newmap(env, 'o')
    c = cur()
    V = env.pm
    w = c.choose(4)
    if w == 0:
        expect_raise(lambda: V.PMapItems(5), TypeError, 'a view of something else raises TypeError')
        d = ADict(FM.fresh('d'))
        v = V.PMapItems(d)
        check_map(env, v._map, d.fm, 'a view of a dict holds a map with the same items')
    elif w == 1:
        a, b = m.items(), m2.items()
        prove_bool(type(a).__eq__(a, b), fm_eq(fm, fm2), 'item views are equal when the maps are')
        c.prove(type(a).__eq__(a, a) is True and type(a).__eq__(a, m.values()) is False and type(a).__eq__(a, 3) is False, 'an item view equals itself and no other kind')
    elif w == 2:
        a, b = m.values(), m.values()
        c.prove(type(a).__eq__(a, a) is True and type(a).__eq__(a, b) is False, 'value views are equal only when identical')
    else:
        expect_raise(lambda: m.items().__setattr__('_map', m2), TypeError, 'views cannot be changed')
        expect_raise(lambda: env.H.b_reversed(m), TypeError, 'maps are not reversible')
        expect_raise(lambda: type(m).__lt__(m, m2), TypeError, 'maps are not orderable')

# ------------------------------------------------------------------ updates
@harness('C04', 'PMap.set', ['C01'])
def h_set(env):
    start(env)
    by_contract(env, 'set')
    m, fm = newmap(env)
    k, x = key(), cur().val('x')
    r = m.set(k, x)
    if r is m:
        same_fm(fm, fm.set(k, x), 'set may return the map itself only if nothing changes')
    else:
        check_map(env, r, fm.set(k, x), 'set(k, x)')

@harness('C04', 'PMap.remove discard', ['C01'])
def h_remove(env):
    start(env)
    by_contract(env, 'remove')
    m, fm = newmap(env)
    k = key()
    c = cur()
    d = c.choose(2)
    if mkbool(fm.has(cls(k))):
        r = expect_ok(lambda: m.discard(k) if d else m.remove(k), 'remove of a present key returns')
        check_map(env, r, fm.remove(k), 'remove(k)')
    elif d:
        r = expect_ok(lambda: m.discard(k), 'discard of an absent key returns')
        c.prove(r is m, 'discard of an absent key returns the map itself')
    else:
        expect_raise(lambda: m.remove(k), KeyError, 'remove of an absent key raises KeyError')

@harness('C05', 'PMap._Evolver.set', ['C01', 'C04'], variants=['clean', 'changed'])
def h_evset(env, w):
    start(env)
    rec_set(env)
    by_contract(env, '_reallocate')
    e, fm, m, dirty = newevolver(env, w=w)
    k, x = key(), cur().val('x')
    r = e.set(k, x)
    cur().prove(r is e, 'set returns the evolver')
    check_evolver(env, e, fm.set(k, x), 'evolver: set(k, x)')

@harness('C05', 'PMap._Evolver.__setitem__', ['C01'])
def h_evsetitem(env):
    start(env)
    by_contract(env, 'set')
    e, fm, m, dirty = newevolver(env)
    k, x = key(), cur().val('x')
    env.H.setitem(e, k, x)
    check_evolver(env, e, fm.set(k, x), 'evolver[k] = x')

@harness('C05', 'PMap._Evolver._reallocate', ['C01', 'C04'])
def h_realloc(env):
    start(env)
    if not hasattr(env.Ev, '_reallocate'):
        raise Unsupported('no separate growth function')
    cur().soft = True
    e, fm, m, dirty = newevolver(env)
    e._reallocate()
    check_evolver(env, e, fm, 'growing the table keeps the contents')
    cur().prove(tz(e._buckets_evolver.dirty), 'growing the table leaves the evolver dirty')

@harness('C05', 'PMap._Evolver remove __delitem__', ['C01'])
def h_evremove(env):
    start(env)
    e, fm, m, dirty = newevolver(env)
    k = key()
    c = cur()
    d = c.choose(2)
    if mkbool(fm.has(cls(k))):
        r = expect_ok(lambda: env.H.delitem(e, k) if d else e.remove(k), 'remove of a present key returns')
        check_evolver(env, e, fm.remove(k), 'evolver: remove(k)')
    else:
        expect_raise(lambda: env.H.delitem(e, k) if d else e.remove(k), KeyError, 'remove of an absent key raises KeyError')
        check_evolver(env, e, fm, 'evolver: unchanged after KeyError')

@harness('C05', 'PMap._Evolver reads, persistent, is_dirty', ['C01'])
def h_evread(env):
    start(env)
    c = cur()
    e, fm, m, dirty = newevolver(env)
    w = c.choose(3)
    if w == 0:
        k = key()
        has = mkbool(fm.has(cls(k)))
        prove_bool(env.H.contains(e, k), has, 'evolver membership')
        if truth(has):
            prove_same(expect_ok(lambda: env.H.getitem(e, k), 'evolver getitem of a present key'), SymVal(fm.val(cls(k))), 'evolver[k] is the value')
        else:
            expect_raise(lambda: env.H.getitem(e, k), KeyError, 'evolver[k] of an absent key raises KeyError')
        c.prove(iz(env.H.b_len(e)) == iz(fm.n), 'len of an evolver')
    elif w == 1:
        r = e.persistent()
        c.prove(dirty or r is m, 'persistent() with nothing pending returns the map it is based on')
        check_map(env, r, fm, 'persistent() has the contents of the evolver')
        check_evolver(env, e, fm, 'the evolver goes on with the same contents')
        c.prove(e.persistent() is r, 'persistent() again returns the same map')
    else:
        e2 = m.evolver()
        check_evolver(env, e2, tabfm(m._buckets.s), 'a new evolver has the contents of its map')
        c.prove(e2.persistent() is m, 'an unused evolver gives back its map')
        c.prove(m.copy() is m, 'copy() is the map itself')

# ------------------------------------------------------------------ construction
def initial(env, w):
    """(argument, finite map it stands for)"""
    c = cur()
    fm = FM.fresh('init')
    if w == 'dict':
        return ADict(fm, frozen='the dict passed in'), fm
    if w == 'mapping':
        return AMapping(fm), fm
    if w == 'map':
        m, fm = newmap(env, 'init')
        return m, fm
    n = c.int('npairs')
    c.assume(n >= 1)
    kf, vf = c.fun('pk', I, VS), c.fun('pv', I, VS)
    s = Fn(n, gf=lambda i: (SymVal(kf(iz(i))), SymVal(vf(iz(i)))))
    x = VIter(s) if c.choose(2) else VList(s)
    return x, rt.DictType(VIter(s)).fm

@harness('C04', 'pmap()', variants=['dict', 'mapping', 'map', 'pairs'])
def h_pmap(env, w):
    start(env)
    c = cur()
    x, fm = initial(env, w)
    if c.choose(2):
        r = env.pm.pmap(x)
    else:
        p = c.int('pre_size')
        c.assume(p >= 0)
        r = env.pm.pmap(x, p)
    check_map(env, r, fm, 'pmap(initial) has the items of initial')

@harness('C04', 'pmap() m() without items')
def h_pmap0(env):
    start(env)
    c = cur()
    r = env.pm.pmap() if c.choose(2) else env.pm.m()
    check_map(env, r, fm_empty(), 'pmap() and m() are empty')
    got = []
    def ic(f, *a, **k):
        got.append((a, k))
        return r
    env.H.intercepts['_pmap:pmap'] = ic
    x, y = c.val('x'), c.val('y')
    r2 = env.pm.m(a=x, b=y)
    c.prove(r2 is r and len(got) == 1 and len(got[0][0]) == 1 and got[0][1] == {} and dict(got[0][0][0]) == {'a': x, 'b': y} and got[0][0][0]['a'] is x, 'm(**kw) is pmap of the keyword arguments')
    del env.H.intercepts['_pmap:pmap']

# ------------------------------------------------------------------ comparison, hash, reduce
@harness('C10', 'PMap.__eq__ __ne__', ['C04'], variants=[(0, 'map'), (0, 'submap'), (1, 'map'), (1, 'submap'), (0, 'other'), (1, 'other')])
def h_eq(env, v):
    start(env)
    c = cur()
    m, fm = newmap(env, K=sub(env, env.M, v[0]))
    w = 1 + c.choose(4) if v[1] == 'other' else 0
    if w == 0:
        o, fo = newmap(env, 'o', K=sub(env, env.M, int(v[1] == 'submap')))
        for x, f in ((m, fm), (o, fo)):
            if c.choose(2):
                x._cached_hash = f.h
    elif w == 1:
        fo = FM.fresh('o')
        o = ADict(fo)
    elif w == 2:
        fo = FM.fresh('o')
        o = AMapping(fo)
    elif w == 3:
        c.prove(type(m).__eq__(m, m) is True, 'a map equals itself')
        return
    else:
        for o in (5, VList(fresh_seq('l'))):
            c.prove(type(m).__eq__(m, o) is NotImplemented, '== with something that is not a mapping is not decided by the map')
        return
    want = fm_eq(fm, fo)
    if c.choose(2):
        prove_bool(type(m).__eq__(m, o), want, 'maps are equal when they have the same items')
    else:
        prove_bool(type(m).__ne__(m, o), H_not(want), '!= is the negation of ==')

@harness('C10', 'PMap.__hash__')
def h_hash(env):
    start(env)
    c = cur()
    m, fm = newmap(env, K=sub(env, env.M))
    if c.choose(2):
        m._cached_hash = fm.h
    r = env.H.b_hash(m)
    c.prove(iz(r) == iz(fm.h) if isint(r) else False, 'hash is that of the set of items')
    r = env.H.b_hash(m)
    c.prove(iz(r) == iz(fm.h) if isint(r) else False, 'hash is the same when asked again')

@harness('C16', 'PMap.__reduce__')
def h_reduce(env):
    start(env)
    m, fm = newmap(env)
    f, args = env.H.unpack(m.__reduce__(), 2)
    r = f(*args)
    check_map(env, r, fm, 'the reduced form rebuilds the map')

# ------------------------------------------------------------------ update: one set per item, in order
class FoldEv:
    """map evolver by its contract (C05), with a record of the sequences folded into it"""
    def __init__(self, fm):
        self.fm, self.log = fm, []
    def vsetattr(self, a, v):
        raise Unsupported('attribute of an evolver')
    def d(self): return ADict(self.fm)
    def vcontains(self, k): return self.d().vcontains(k)
    def vlen(self): return self.fm.n
    def __getitem__(self, k): return self.d()[k]
    def set(self, k, v):
        cur().mutlog.append(self)
        self.fm = self.fm.set(k, v)
        return self
    __setitem__ = set
    def remove(self, k):
        cur().mutlog.append(self)
        d = self.d()
        del d[k]
        self.fm = d.fm
        return self
    __delitem__ = remove
    def is_dirty(self): return SymBool(cur().bool('dirty'))
    def persistent(self): return FoldResult(self.fm, list(self.log))
class FoldResult:
    def __init__(self, fm, log):
        self.fm, self.log = fm, log

class FoldLoop:
    """loop over items (inner) or over maps (outer) that updates one evolver"""
    def __init__(self, env, L, ev):
        self.env, self.L, self.ev = env, L, ev
    def first(self, loc, st):
        c = cur()
        self.L.mode = 'prov'
        c.havocs += 1
        it = self.L.it
        self.fm0, self.log0 = self.ev.fm, list(self.ev.log)
        self.inner = isinstance(getattr(it.s, 'mapno', None), z3.ExprRef)
        if c.choose(2) == 0:
            t = self.t = c.int('t')
            c.assume(z3.And(t.t >= 0, t.t < iz(it.s.n)))
            it.pos = t
            self.ev.fm = self.fm = FM.fresh('fold')
            self.ev.log = []
        else:
            it.pos = it.s.n
            self.ev.fm = FM.fresh('folded')
            self.ev.log = self.log0 + [('items', it.s.mapno) if self.inner else ('maps', it.s)]
        return [UNBOUND] * len(st)
    def again(self, loc, st):
        c = cur()
        if c.quiet:
            raise Stop()
        if not c.implied(iz(self.L.it.pos) == self.t.t + 1):
            raise Unsupported('iterator advanced irregularly')
        if self.inner:
            c.prove(self.ev.log == [], 'update: one step per item')
            k, v = self.L.it.s.get(self.t)
            q = cls(k)
            old = self.fm.val(q)
            w = z3.If(self.fm.has(q), self.env.merge(old, v.t), v.t)
            same_fm(self.ev.fm, self.fm.set(k, SymVal(w)), 'update: each item is set, merged with the value present')
        else:
            ok = len(self.ev.log) == 1 and self.ev.log[0][0] == 'items'
            c.prove(ok and self.ev.log[0][1] == self.t.t, 'update: all items of each map, in order')
        raise Stop()

def fold_setup(env, merge):
    c = cur()
    env.merge = merge
    env.folds = []
    def evolver(f, self):
        return FoldEv(fm_of(env, self))
    env.H.intercepts['_pmap:PMap.evolver'] = evolver
    def prov(L, loc):
        evs = [v for v in loc.values() if isinstance(v, FoldEv)]
        if len(evs) == 1 and isinstance(L.it, VIter) and (hasattr(L.it.s, 'mapno') or hasattr(L.it.s, 'maps')):
            return FoldLoop(env, L, evs[0])
        return None
    env.H.providers[:] = [prov] + env.H.providers[-1:]
    lf, kf, vf = c.fun('maplen', I, I), c.fun('mk', I, I, VS), c.fun('mv', I, I, VS)
    n = c.int('nmaps')
    c.assume(n >= 0)
    class Arg:
        def __init__(self, i): self.i = iz(i)
        def visabc(self, name): return name == 'Mapping'
        def items(self):
            c.assume_raw(lf(self.i) >= 0)
            i = self.i
            s = Fn(mkint(lf(i)), gf=lambda t: (SymVal(kf(i, iz(t))), SymVal(vf(i, iz(t)))))
            s.mapno = i
            return VTuple(s)
        __hash__ = None
    s = Fn(n, gf=lambda i: Arg(i))
    s.maps = True
    return s

@harness('C04', 'PMap.update_with update __add__ __or__', variants=['update_with', 'update', 'add', 'or'])
def h_update(env, w):
    start(env)
    c = cur()
    m, fm = newmap(env)
    U = c.fun('merge', VS, VS, VS)
    s = fold_setup(env, (lambda a, b: U(a, b)) if w == 'update_with' else (lambda a, b: b))
    args = VTuple(s)
    if w == 'update_with':
        r = raw_vararg(type(m).update_with, m, lambda a, b: SymVal(U(a.t, b.t)), args)
    elif w == 'update':
        got = []
        def ic(f, self, fn, *maps):
            got.append((self, fn, maps))
            return f(self, fn, *maps)
        r = raw_vararg(type(m).update, m, args)
    else:
        x = s.get(cur().int('some'))
        got = []
        env.H.intercepts['_pmap:PMap.update'] = lambda f, self, *maps: got.append((self, maps)) or 'result'
        r = (m + x) if w == 'add' else (m | x)
        c.prove(r == 'result' and len(got) == 1 and got[0][0] is m and got[0][1] == (x,), '+ and | are update with the other map')
        return
    if not isinstance(r, FoldResult):
        c.prove(False, 'update returns the result of one evolver', 'result is %s' % type(r).__name__)
        return
    c.prove(len(r.log) == 1 and r.log[0][0] == 'maps' and r.log[0][1] is s, 'update folds all maps, in order')

@harness('C04', 'PMap.keys', ['C06'])
def h_keys(env):
    start(env)
    m, fm = newmap(env)
    k = m.keys()
    cur().prove(type(k).__name__ == 'PSet' and k._map is m, 'keys() is the set over the map')
