"""Contracts of freeze, thaw and mutant (_helpers.py): C15.  Containers by their contracts (C02, C04, C06), the recursive calls by the
contracts of freeze and thaw themselves (structural induction over the nesting)."""
import core, rt, z3, collections
from rt import *
from common import *
from amap import *

class DefaultDict(ADict): pass
class FrozenSet:
    """a persistent set by its contract (C06)"""
    def __init__(self, fm): self.fm = fm
    def _vc_seq(self): return self.fm.enum.keys()
    def vsetattr(self, a, v): frame_violation('a set')
class SomeType: pass

def apset(it=(), pre_size=8):
    if isinstance(it, ASet):
        return FrozenSet(it.fm)
    s = seq_of(it)
    return FrozenSet(s.fm if isinstance(s, Enum) and s.part == 'keys' else fm_of_elements(s))

def prepare(env):
    env.replace['_helpers'] = {'pmap': apmap, 'pvector': apvector, 'pset': apset}
def setup(env):
    m = env.hm = env.get('_helpers')
    env.H.filters = True
    PMap, PVector, PSet = m.PMap, m.PVector, m.PSet
    kinds = {PMap: ('pmap',), PVector: ('pvector',), PSet: ('pset',), rt.SetType: ('set',), set: ('set',), dict: ('dict', 'defaultdict'), rt.DictType: ('dict', 'defaultdict'), collections.defaultdict: ('defaultdict',),
             list: ('list',), rt.VListType: ('list',), tuple: ('tuple',), rt.VTupleType: ('tuple',), frozenset: ('frozenset',), rt.FrozensetType: ('frozenset',)}
    def rule(x, t):
        if isinstance(x, SymVal):
            K = cur().__dict__.get('K')
            if t is object:
                return True
            if t in kinds and K is not None:
                return mkbool(z3.Or(*[K(x.t) == KINDS.index(k) for k in kinds[t]]))
            if t in LEAF and K is not None:
                return mkbool(z3.And(K(x.t) == KINDS.index('leaf'), cur().isa[t](x.t)))
            raise Unsupported('isinstance of an element against %s' % getattr(t, '__name__', t))
        if t in (PMap, PVector, PSet):
            return isinstance(x, {PMap: AMap, PVector: AVec, PSet: FrozenSet}[t])
        if t is rt.SetType or t is set:
            return isinstance(x, ASet) and not x.isfrozen
        return None
    env.H.isinst.insert(0, rule)
    def th(x):
        if isinstance(x, SymVal):
            K = cur().__dict__.get('K')
            for k, t in TYPES.items() if K is not None else ():
                if cur().branch(K(x.t) == KINDS.index(k)):
                    return t
            return SomeType
        if isinstance(x, DefaultDict):
            return collections.defaultdict
        if isinstance(x, ASet):
            return rt.FrozensetType if x.isfrozen else rt.SetType
        return {AMap: PMap, AVec: m.PVector, FrozenSet: PSet}.get(type(x))
    TYPES = dict(dict=rt.DictType, defaultdict=collections.defaultdict, list=rt.VListType, tuple=rt.VTupleType, set=rt.SetType, frozenset=rt.FrozensetType, pmap=PMap, pvector=m.PVector, pset=PSet)
    rt.TypeShim.hook = th
    rt.DictType.hook = dict_hook(lambda x: x.fm if isinstance(x, AMap) else None, precise=True)
    def mkset(*a):
        if not a:
            return ASet(fm_empty())
        s = seq_of(a[0])
        return ASet(s.fm if isinstance(s, Enum) and s.part == 'keys' else fm_of_elements(s))
    rt.SetType.hook = mkset
    def dc(s, k, val):
        if isinstance(s, Enum) and s.part == 'items' and isinstance(val, tuple) and len(val) == 2 and vterm(val[1]) is not None and seqsame(val[0], SymVal(s.ek(k))):
            t = vterm(val[1])
            return ADict(FM(s.fm.has, lambda q: z3.substitute(t, (k, s.ei(q))), s.fm.n))
        return NotImplemented
    env.H.dictcomp_hook = dc

def recursion(env, name, F):
    """calls below the first one: F(value, strict)"""
    st = [0]
    def ic(orig, o, strict=True):
        if st[0] == 0:
            st[0] = 1
            return orig(o, strict)
        v = vterm(o)
        if v is None:
            raise Unsupported('recursive call on %s' % type(o).__name__)
        if not isinstance(strict, bool):
            raise Unsupported('strict flag of another kind')
        return SymVal(F(v, z3.BoolVal(strict)))
    env.H.intercepts['_helpers:' + name] = ic

LEAF = (str, int, float, bytes, bool, rt.IntType, rt.BoolType)
KINDS = ['dict', 'defaultdict', 'list', 'tuple', 'set', 'frozenset', 'pmap', 'pvector', 'pset', 'leaf']
CONV = dict(freeze=(('dict', 'defaultdict', 'list', 'tuple', 'set'), ('pmap', 'pvector')), thaw=(('pmap', 'pvector', 'tuple', 'pset'), ('dict', 'list')))
def kinds():
    """values inside are of arbitrary kinds"""
    c = cur()
    c.isa = {t: c.fun('isa_' + t.__name__, VS, z3.BoolSort()) for t in LEAF}
    c.K = c.fun('kind', VS, I)
def kept(name, F, t, strict):
    """contract for what is not converted"""
    K = cur().K
    a, b = CONV[name]
    ks = a + (b if strict else ())
    cur().assume_raw(z3.Implies(z3.Not(z3.Or(*[K(t) == KINDS.index(k) for k in ks])), F(t, z3.BoolVal(strict)) == t))
def value(kind):
    """(value, contents)"""
    if kind in ('dict', 'defaultdict', 'pmap'):
        fm = FM.fresh('m')
        fm.enum
        return {'dict': lambda: ADict(fm, frozen='the argument'), 'defaultdict': lambda: DefaultDict(fm, frozen='the argument'), 'pmap': lambda: AMap(fm)}[kind](), fm
    if kind in ('list', 'tuple', 'pvector'):
        s = fresh_seq('s')
        return {'list': lambda: VList(s, frozen='the argument'), 'tuple': lambda: VTuple(s), 'pvector': lambda: AVec(s)}[kind](), s
    if kind in ('set', 'frozenset', 'pset'):
        fm = FM.fresh('e')
        return {'set': lambda: ASet(fm), 'frozenset': lambda: ASet(fm, True), 'pset': lambda: FrozenSet(fm)}[kind](), fm
    v = cur().val('leaf')
    if 'K' in cur().__dict__:
        cur().assume(cur().K(v.t) == KINDS.index('leaf'))
    return v, v

def check(env, name, kind, x, cont, r, F, strict):
    """the documented result of freeze / thaw"""
    c = cur()
    fz = name == 'freeze'
    same_as = lambda: c.prove(r is x, '%s of this is the object itself' % name, 'gave %s' % type(r).__name__)
    def f(t):
        kept(name, F, t, strict)
        return F(t, z3.BoolVal(strict))
    conv = {'freeze': dict(dict=AMap, defaultdict=AMap, list=AVec, tuple=VTuple, set=FrozenSet, pmap=AMap if strict else None, pvector=AVec if strict else None),
            'thaw': dict(pmap=ADict, pvector=VList, tuple=VTuple, pset=ASet, dict=ADict if strict else None, list=VList if strict else None)}[name].get(kind)
    if conv is None:
        return same_as()
    if type(r) is not conv and not (conv is VTuple and isinstance(r, tuple)):
        c.prove(False, '%s gives the corresponding structure' % name, 'gave %s' % type(r).__name__)
        return
    if conv is ASet:
        c.prove(not r.isfrozen, 'a mutable set')
    if not fz and conv in (ADict, VList, ASet):
        c.prove(r is not x, 'thaw gives a fresh structure')
    if kind in ('list', 'tuple', 'pvector'):
        prove_same_seq(seq_of(r), Fn(cont.n, tf=lambda j: f(cont.term(j))), 'every element converted, in order')
    elif kind in ('set', 'pset'):
        q = c.int('q')
        regc(q.t)
        c.prove(r.fm.has(q.t) == cont.has(q.t), 'the same elements')
    else:
        c.prove(iz(r.fm.n) == iz(cont.n), 'as many keys')
        q = c.int('q')
        regc(q.t)
        c.prove(r.fm.has(q.t) == cont.has(q.t), 'the same keys')
        c.prove(z3.Implies(cont.has(q.t), r.fm.val(q.t) == f(cont.val(q.t))), 'every value converted')

@harness('C15', 'freeze and thaw: one level', variants=[(n, k) for n in ('freeze', 'thaw') for k in KINDS], also=('C01',))
def h_level(env, v):
    c = cur()
    name, kind = v
    kinds()
    x, cont = value(kind)
    F = c.fun(name, VS, z3.BoolSort(), VS)
    recursion(env, name, F)
    strict = bool(c.choose(2))
    fn = getattr(env.hm, name)
    if strict and c.choose(2):
        r = expect_ok(lambda: fn(x), name + '(x)')
    else:
        r = expect_ok(lambda: fn(x, strict) if c.choose(2) else fn(x, strict=strict), name + '(x, strict)')
    check(env, name, kind, x, cont, r, F, strict)

@harness('C15', 'thaw(freeze(x)) equals x: induction step', variants=['dict', 'list', 'tuple', 'set', 'leaf'])
def h_inverse(env, kind):
    """for the values inside: thaw(freeze(v)) == v (induction hypothesis)"""
    c = cur()
    kinds()
    x, cont = value(kind)
    F, T = c.fun('freeze', VS, z3.BoolSort(), VS), c.fun('thaw', VS, z3.BoolSort(), VS)
    recursion(env, 'freeze', F)
    recursion(env, 'thaw', T)
    def tf(t):
        kept('freeze', F, t, True)
        kept('thaw', T, F(t, z3.BoolVal(True)), True)
        return T(F(t, z3.BoolVal(True)), z3.BoolVal(True))
    r = expect_ok(lambda: env.hm.thaw(env.hm.freeze(x)), 'thaw(freeze(x))')
    if kind == 'leaf':
        c.prove(r is x, 'a leaf comes back as itself')
        return
    if type(r) is not type(x):
        c.prove(False, 'the same kind of structure', type(r).__name__)
        return
    if kind in ('list', 'tuple'):
        s = seq_of(r)
        c.prove(iz(s.n) == iz(cont.n), 'the same length')
        j = c.int('j')
        c.reg(j)
        c.assume_raw(Cls(tf(cont.term(j.t))) == Cls(cont.term(j.t)))
        c.prove(z3.Implies(z3.And(j.t >= 0, j.t < iz(s.n)), Cls(s.term(j.t)) == Cls(cont.term(j.t))), 'equal elements')
    else:
        q = c.int('q')
        regc(q.t)
        c.prove(r.fm.has(q.t) == cont.has(q.t), 'the same keys or elements')
        if kind == 'dict':
            c.assume_raw(Cls(tf(cont.val(q.t))) == Cls(cont.val(q.t)))
            c.prove(z3.Implies(cont.has(q.t), Cls(r.fm.val(q.t)) == Cls(cont.val(q.t))), 'equal values')

@harness('C15', 'mutant')
def h_mutant(env):
    c = cur()
    kinds()
    F = c.fun('freeze', VS, z3.BoolSort(), VS)
    fz = lambda t: SymVal(F(t, z3.BoolVal(True)))
    def ic(orig, o, strict=True):
        if isinstance(o, (tuple, VTuple)):      # contract for tuples
            return tuple(ic(orig, e) for e in as_native(o))
        if isinstance(o, str):
            return o
        return SymVal(F(vterm(o), z3.BoolVal(strict)))
    env.H.intercepts['_helpers:freeze'] = ic
    res = c.val('result')
    got = []
    def fn(*a, **k):
        got.append((a, k))
        return res
    na, nk = c.choose(3), c.choose(3)
    a, k = [c.val('a%d' % i) for i in range(na)], {'k%d' % i: c.val('k%d' % i) for i in range(nk)}
    rt.DictType.hook = None
    g = env.hm.mutant(fn)
    r = expect_ok(lambda: g(*a, **k), 'call of a mutant function')
    c.prove(len(got) == 1, 'the function is called once')
    ga, gk = got[0]
    c.prove(len(ga) == na and sorted(gk) == sorted(k), 'with the same arguments')
    for x, y in zip(ga, a):
        prove_same(x, fz(y.t), 'positional arguments are frozen')
    for n in k:
        prove_same(gk[n], fz(k[n].t), 'keyword arguments are frozen')
    prove_same(r, fz(res.t), 'the result is frozen')
