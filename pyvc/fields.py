"""Declarations of records and classes with symbolic types, invariants, factories, serializers and values (for C12, C13, C14, C16)."""
import core, rt, z3, itertools
from rt import *
from common import *

B, I = z3.BoolSort(), z3.IntSort()

class T1: pass
class T2: pass
class SomeType: pass      # type of an opaque value, in messages only

class SymFn:
    """opaque function supplied by the user of the library: deterministic, no effects"""
    def __init__(self, f, name='f'):
        self.f, self.name, self.calls = f, name, []
        self.__name__ = name
    def vcallable(self): return True
    def __call__(self, *a, **k):
        self.calls.append((a, k))
        return self.f(*a, **k)
    def __eq__(self, o): return self is o
    def __ne__(self, o): return self is not o
    def __hash__(self): return id(self)

def install(env, checked=()):
    """isinstance of opaque values against the types of a declaration: uninterpreted predicates"""
    def rule(x, t):
        if isinstance(x, SymVal) and isinstance(t, type):
            if t is rt.BoolType or t is object:
                return t is object
            return isa(env, x, t)
        return None
    env.H.isinst.insert(0, rule)
    rt.TypeShim.hook = lambda x: SomeType if isinstance(x, SymVal) else None
def isa(env, x, t):
    tab = cur().__dict__.setdefault('isa', {})
    if t not in tab:
        tab[t] = cur().fun('isa_' + t.__name__, VS, B)
    return mkbool(tab[t](x.t))

def unary(name, ran=VS):
    return cur().fun(name, VS, ran)

class Field:
    """typ: list of types or None; inv/fac: opaque or None; init: None | 'value' | 'call'; mand: bool or symbolic"""
    def __init__(self, env, name, typ=None, inv=False, fac=False, init=None, mand=False, ser=False):
        c = cur()
        self.env, self.name, self.typ, self.hasinv, self.hasfac, self.hasinit, self.mand, self.hasser = env, name, typ, inv, fac, init, mand, ser
        self.ok, self.code, self.F = unary('ok_' + name, B), unary('code_' + name), unary('fac_' + name)
        self.S = c.fun('ser_' + name, VS, VS, VS)
        kw = {}
        if typ is not None:
            kw['type'] = tuple(typ) if len(typ) != 1 else typ[0]
        if inv:
            self.invfn = SymFn(lambda v: (mkbool(self.ok(vt(v))), SymVal(self.code(vt(v)))), 'inv_' + name)
            kw['invariant'] = self.invfn
        if fac:
            self.facfn = SymFn(lambda v: SymVal(self.F(vt(v))), 'fac_' + name)
            kw['factory'] = self.facfn
        if init:
            self.initv = c.val('init_' + name)
            if init == 'value' and typ is not None:      # required by field() itself
                c.assume(z3.Or(*[tz(isa(env, self.initv, t)) for t in typ]))
            kw['initial'] = self.initv if init == 'value' else SymFn(lambda: self.initv, 'init_' + name)
        if ser:
            kw['serializer'] = SymFn(lambda fmt, v: SymVal(self.S(vt(fmt), vt(v))), 'ser_' + name)
        if mand is not False and mand is not None:
            kw['mandatory'] = mand
        self.kw = kw
    def decl(self):
        return self.env.fc.field(**self.kw)
    def typeok(self, v):
        return z3.BoolVal(True) if self.typ is None else z3.Or(*[tz(isa(self.env, v, t)) if not isinstance(isa(self.env, v, t), bool) else z3.BoolVal(isa(self.env, v, t)) for t in self.typ])
    def invok(self, v):
        return self.ok(vt(v)) if self.hasinv else z3.BoolVal(True)
    def valid(self, v):
        return z3.And(self.typeok(v), self.invok(v))
    def make(self, v):
        """value stored when v is given to the factory"""
        return SymVal(self.F(vt(v))) if self.hasfac else v
    def mandatory(self):
        return bool(self.mand)

def vt(v):
    t = getattr(v, '_vterm', None)
    if t is None:
        t = vterm(v)
    if t is None:
        raise Unsupported('opaque function applied to %s' % type(v).__name__)
    return t

MISSING = z3.Const('missing!', VS)

class Ginv:
    """invariant of a whole instance: opaque function of the field values"""
    def __init__(self, names, tag):
        self.names = names
        self.ok = cur().fun('gok_' + tag, *([VS] * len(names) + [B]))
        self.code = cur().fun('gcode_' + tag, *([VS] * len(names) + [VS]))
        self.seen = []
    def fn(self, read):
        def f(subject):
            self.seen.append(subject)
            a = self.args(read(subject))
            return (mkbool(self.ok(*a)), SymVal(self.code(*a)))
        return f
    def args(self, d):
        return [vt(d[n]) if n in d else MISSING for n in self.names]

def prove_codes(got, want, name):
    """the reported codes are exactly the expected ones (in any order)"""
    c = cur()
    got = as_native(got) if not isinstance(got, (list, tuple)) else list(got)
    if len(got) != len(want):
        c.prove(False, name, 'reports %d codes, expected %d' % (len(got), len(want)))
        return
    if not want:
        c.prove(True, name)
        return
    alts = []
    for p in itertools.permutations(want):
        parts = [same(a, b) for a, b in zip(got, p)]
        alts.append(z3.And(*[z3.BoolVal(x) if isinstance(x, bool) else x for x in parts]))
    c.prove(z3.Or(*alts), name)
def prove_names(got, want, name):
    got = as_native(got) if not isinstance(got, (list, tuple)) else list(got)
    cur().prove(all(isinstance(x, str) for x in got) and sorted(got) == sorted(want), name, 'reports %r, expected %r' % (got, want))

def config(env, name, which=None, **fix):
    """arbitrary declaration of one field (all combinations), or one of a few for the other field"""
    c = cur()
    if which is not None:
        d = [dict(), dict(typ=[T1], inv=True, mand=True), dict(fac=True, init='value')][which]
    else:
        d = dict(typ=fix['typ'] if 'typ' in fix else [None, [T1]][c.choose(2)], inv=fix['inv'] if 'inv' in fix else bool(c.choose(2)), fac=bool(c.choose(2)), init=[None, 'value', 'call'][c.choose(3)])
        if d['typ'] and not d['fac'] and d['init'] is None:
            d['typ'] = [T1, T2]
        d['mand'] = SymBool(c.bool('mandatory')) if not getattr(env, 'eager_mand', False) else bool(c.choose(2))
        fix = {}
    d.update(fix)
    return Field(env, name, **d)

def Nested(CT):
    c = cur()
    S = c.fun('nested_ser', VS, VS)
    class N(CT):
        def serialize(self, format=None):
            return SymVal(S(vt(format)))
        def out(self, fmt):
            return S(vt(fmt))
    n = N()
    n._vterm = c.val('nested').t
    return n

def checked_type(env):
    """an arbitrary other checked type: create() and serialize() are functions of their argument, create() gives instances of it"""
    c = cur()
    Cr, Se = c.fun('create', VS, VS), c.fun('serialize', VS, VS)
    class CT(env.ct.CheckedType):
        made = []
        @classmethod
        def create(cls, data, _factory_fields=None, ignore_extra=False):
            CT.made.append(ignore_extra)
            return SymVal(Cr(vt(data)))
        def serialize(self, format=None):
            raise Unsupported('instance of the stub')
    CT.Cr, CT.Se = Cr, Se
    c.serfun = Se
    isct = c.fun('isa_CheckedType', VS, B)
    CT.plain = []           # functions whose values are known not to be checked instances
    def rule(x, t):
        if t is env.ct.CheckedType and isinstance(x, SymVal):
            if any(x.t.decl().eq(f) for f in CT.plain):
                return False
            return mkbool(z3.Or(tz(isa(env, x, CT)), isct(x.t)))
        return None
    env.H.isinst[:] = [r for r in env.H.isinst if not getattr(r, 'ofct', False)]
    rule.ofct = True
    env.H.isinst.insert(0, rule)
    return CT
def ischecked(env, x):
    return tz(env.H.b_isinstance(x, env.ct.CheckedType))

def roundtrip_fields(env):
    """two fields: one of a checked type with arbitrary create()/serialize() or with a serializer and a factory, one optional and plain or with both.
    Returns (x, y, hypotheses about a value v of the field)"""
    c = cur()
    CT = checked_type(env)
    fs = []
    for n, k in (('x', c.choose(3)), ('y', 1 + c.choose(2))):
        if k == 0:
            f = Field(env, n, typ=[CT], inv=bool(c.choose(2)), mand=bool(c.choose(2)))
            f.out = CT.Se
            f.hyp = lambda v: z3.And(CT.Cr(CT.Se(v.t)) == v.t, ischecked(env, v))
            f.make = lambda v: SymVal(CT.Cr(vt(v)))
        elif k == 1:
            f = Field(env, n, ser=True, fac=True, mand=n == 'y')
            f.out = (lambda f: lambda t: f.S(NONE, t))(f)
            f.hyp = (lambda f: lambda v: f.F(f.S(NONE, v.t)) == v.t)(f)
        else:
            f = Field(env, n, typ=[T1], inv=n == 'x')
            f.out = lambda t: t
            f.hyp = lambda v: z3.Not(ischecked(env, v))
        fs.append(f)
    return CT, fs

def raising(env, f, modes=1):
    """factory that may report failed invariants of its own (as create() of nested checked types does)"""
    f.hasfac = 'raise'
    f.fmode = cur().choose(modes)       # codes and missing fields, only missing fields, only codes
    f.FR, f.fcode = unary('raises_' + f.name, B), unary('fcode_' + f.name)
    def fac(v):
        if cur().branch(f.FR(vt(v))):
            raise HRaised(env.ct.InvariantException((SymVal(f.fcode(vt(v))),) if f.fmode != 1 else (), ('Sub.m',) if f.fmode != 2 else (), 'nested'))
        return SymVal(f.F(vt(v)))
    f.kw['factory'] = SymFn(fac, 'fac_' + f.name)
