"""Contracts of persistent classes (_pclass.py, _field_common.py, field declarations in _checked_types.py): C13 (and parts of C01, C10, C16).
The code runs as it is; values, types, invariants, factories, initial values and serializers are arbitrary.  Declarations: two fields, one of them
declared in a base class in half of the cases, and up to two class invariants."""
import core, rt, z3
from rt import *
from common import *
from fields import *

def setup(env):
    env.ct, env.fc, env.pc = env.get('_checked_types'), env.get('_field_common'), env.get('_pclass')
    install(env)

def read(env, o, names):
    d = {}
    for n in names:
        try:
            d[n] = object.__getattribute__(o, n)
        except AttributeError:
            pass
    return d

class Decl:
    """class with fields x and y"""
    def __init__(self, env, x, y, ginv=None, inherit=None):
        c = cur()
        self.env, self.x, self.y = env, x, y
        self.fields = [x, y]
        self.names = ['x', 'y']
        self.byname = dict(x=x, y=y)
        self.g = []
        inherit = c.choose(2) if inherit is None else inherit
        ng = (2 if inherit else 1) if ginv is None else ginv
        self.g = [Ginv(self.names, 'g%d' % i) for i in range(ng)]
        rd = lambda o: read(env, o, self.names)
        P = env.pc.PClass
        M = type(P)
        def mk(name, bases, fs, g):
            d = {f.name: f.decl() for f in fs}
            d['__module__'] = 'pyrsistent.user'
            if g is not None:
                d['__invariant__'] = g.fn(rd)
            return M(name, bases, d)
        if inherit:
            b = mk('Base', (P,), [x], self.g[0] if ng else None)
            self.cls = mk('A', (b,), [y], self.g[1] if ng > 1 else None)
        else:
            self.cls = mk('A', (P,), [x, y], self.g[0] if ng else None)
    def sub(self, fs):
        return type(self.env.pc.PClass)('Sub', (self.cls,), dict({f.name: f.decl() for f in fs}, __module__='pyrsistent.user'))
    def existing(self, cls=None, more=()):
        """arbitrary valid instance, built field by field"""
        c = cur()
        o = object.__new__(cls or self.cls)
        d = {}
        for f in self.fields + list(more):
            if f.hasinit or (f.mand is True) or c.choose(2):
                v = c.val('cur_' + f.name)
                c.assume(f.valid(v))
                d[f.name] = v
                object.__setattr__(o, f.name, v)
            elif isinstance(f.mand, SymBool):
                c.assume(z3.Not(f.mand.t))
        object.__setattr__(o, '_pclass_frozen', True)
        for g in self.g:
            c.assume(g.ok(*g.args(d)))
        c.frozen[id(o)] = ('an existing instance', ())
        c.keep.append(o)
        return o, d
    def unchanged(self, o, d, name):
        e = read(self.env, o, self.names)
        c = cur()
        c.prove(set(e) == set(d), name + ': the existing instance has the same fields')
        for n in d:
            if n in e:
                c.prove(same(e[n], d[n]), name + ': the existing instance has the same values')

def outcome(D, given, made, extra, f, name):
    """given: field -> value handed in (present fields); made: fields whose factory applies; extra: undeclared names given.
    Runs f and checks the result or the error.  Returns the instance."""
    c = cur()
    want, bad_type, codes, missing, inner = {}, [], [], [], None
    for fd in D.fields:
        if fd.name in given:
            if fd.name in made and fd.hasfac == 'raise' and c.branch(fd.FR(vt(given[fd.name]))):
                inner = fd, given[fd.name]      # the factory itself reports failed invariants: passed on
                break
            v = fd.make(given[fd.name]) if fd.name in made else given[fd.name]
        elif fd.hasinit:
            v = fd.initv
        else:
            if fd.mandatory():
                missing.append('A.' + fd.name)
            continue
        if not c.branch(fd.typeok(v)):
            bad_type.append(fd.name)
        elif not c.branch(fd.invok(v)):
            codes.append(SymVal(fd.code(vt(v))) if fd.hasinv else None)
        want[fd.name] = v
    gcodes = []
    if not (bad_type or codes or missing or extra or inner):
        for g in D.g:
            a = g.args(want)
            if not c.branch(g.ok(*a)):
                gcodes.append(SymVal(g.code(*a)))
    IE, TE = D.env.ct.InvariantException, D.env.fc.PTypeError
    ok = not (bad_type or codes or missing or extra or gcodes or inner)
    try:
        r = f()
    except Exception as e:
        classify(e)
        if ok:
            c.prove(False, name + ': a permitted result is returned', 'raised %s: %s' % (type(e).__name__, e))
            raise Stop()
        c.prove(isinstance(e, TE) and bool(bad_type) or isinstance(e, IE) and bool(codes or missing or gcodes or inner) or isinstance(e, AttributeError) and bool(extra), name + ': the documented error for what is wrong', 'raised %s: %s' % (type(e).__name__, e))
        if isinstance(e, IE) and inner:
            if not (bad_type or codes or missing or extra):
                fd, v = inner
                prove_codes(e.invariant_errors, [SymVal(fd.fcode(vt(v)))] if fd.fmode != 1 else [], name + ': the error of the factory lists its failed invariants')
                prove_names(e.missing_fields, ['Sub.m'] if fd.fmode != 2 else [], name + ': the error of the factory lists its missing fields')
        elif isinstance(e, IE):
            if not gcodes and not bad_type:
                prove_codes(e.invariant_errors, codes, name + ': the error lists exactly the failed invariants')
                prove_names(e.missing_fields, missing, name + ': the error lists exactly the missing fields')
            elif gcodes:
                prove_codes(e.invariant_errors, gcodes, name + ': the error lists exactly the failed class invariants')
        if isinstance(e, TE):
            c.prove(e.field in bad_type and e.source_class is D.cls, name + ': the type error names the field', '%r' % (e.field,))
        return None
    if not ok:
        c.prove(False, name + ': what is forbidden raises', 'returned %s (types %s, codes %d, missing %s, extra %s, class invariants %d)' % (type(r).__name__, bad_type, len(codes), missing, extra, len(gcodes)))
        raise Stop()
    check_obj(D, r, want, name)
    return r
def check_obj(D, r, want, name):
    c = cur()
    c.prove(type(r) is D.cls, name + ': result is an instance of the class', 'result is %s' % type(r).__name__)
    if type(r) is not D.cls:
        raise Stop()
    e = read(D.env, r, D.names)
    c.prove(set(e) == set(want), name + ': exactly the fields expected', 'has %s, expected %s' % (sorted(e), sorted(want)))
    for n in want:
        if n in e:
            prove_same(e[n], want[n], name + ': field values')
    c.prove(read(D.env, r, ['_pclass_frozen']).get('_pclass_frozen', False) is True, name + ': the result is frozen')

VAR = [(t, i) for t in range(2) for i in range(2)]
def decl(env, w, modes=1, **k):
    c = cur()
    x = config(env, 'x', typ=[None, [T1]][w[0]], inv=bool(w[1]))
    if x.hasfac and not x.hasinit and c.choose(2):
        raising(env, x, modes)
    o = c.choose(3)
    D = Decl(env, x, config(env, 'y', o), inherit=o == 1, **k)
    D.option = o
    return D

@harness('C13', 'PClass.__new__', variants=VAR)
def h_new(env, w):
    c = cur()
    D = decl(env, w, 3)
    given = {}
    for n in D.names:
        if c.choose(2):
            given[n] = c.val('arg_' + n)
    extra = ['zz'] if c.choose(2) else []
    kw = dict(given)
    if extra:
        kw['zz'] = c.val('arg_zz')
    keys = list(kw)
    if len(keys) > 1 and D.option:
        kw = {k: kw[k] for k in reversed(keys)}
    if D.option or extra:
        outcome(D, given, D.names, extra, lambda: D.cls(**kw), 'construction')
    else:
        a = VDict(kw, frozen='the argument')
        outcome(D, given, D.names, extra, lambda: D.cls.create(a), 'create')

@harness('C13', 'PClass.create', variants=VAR)
def h_create(env, w):
    c = cur()
    D = decl(env, w, ginv=0)
    if c.choose(2):
        o, d = D.existing()
        c.prove(expect_ok(lambda: D.cls.create(o), 'create(instance)') is o, 'create() of an instance of the class is the instance itself')
        D.unchanged(o, d, 'create')
        return
    kw = {}
    for n in ('x', 'zz'):
        if c.choose(2):
            kw[n] = c.val('arg_' + n)
    given = {k: v for k, v in kw.items() if k != 'zz'}
    a = VDict(kw, frozen='the argument')
    # extra names are ignored on request
    outcome(D, given, D.names, [], lambda: D.cls.create(a, ignore_extra=True), 'create with ignore_extra')

@harness('C13', 'PClass.set', also=('C01',), variants=VAR)
def h_set(env, w):
    c = cur()
    D = decl(env, w)
    o, d = D.existing()
    v = c.val('new')
    k = c.choose(5)
    if k == 4:
        outcome(D, d, [], ['zz'], lambda: o.set('zz', v), 'set of an undeclared name')
        D.unchanged(o, d, 'set')
        return
    if k == 3:
        v2 = c.val('new2')
        outcome(D, dict(x=v, y=v2), ['x', 'y'], [], lambda: o.set(x=v, y=v2), 'set of two fields')
    else:
        n = 'xyx'[k]
        g = dict(d)
        g[n] = v
        outcome(D, g, [n], [], (lambda: o.set(n, v)) if k == 2 else (lambda: o.set(**{n: v})), 'set')
    D.unchanged(o, d, 'set')

@harness('C13', 'PClass.remove', also=('C01',), variants=VAR)
def h_remove(env, w):
    c = cur()
    D = decl(env, w)
    o, d = D.existing()
    n = ['x', 'y', 'zz'][c.choose(3)]
    if n not in d:
        expect_raise(lambda: o.remove(n), AttributeError, 'remove of an absent field raises AttributeError')
    else:
        g = {k: v for k, v in d.items() if k != n}
        outcome(D, g, [], [], lambda: o.remove(n), 'remove')
    D.unchanged(o, d, 'remove')

@harness('C13', 'PClass attributes', also=('C01',))
def h_attrs(env):
    c = cur()
    D = Decl(env, config(env, 'x', 1), config(env, 'y', 0), ginv=0)
    o, d = D.existing()
    n = ['x', 'y', 'zz', '_pclass_frozen', '__class__', '__dict__'][c.choose(6)]
    c.frozen.clear()
    if c.choose(2):
        expect_raise(lambda: type(o).__setattr__(o, n, c.val('v')), AttributeError, 'attributes cannot be assigned')
    else:
        expect_raise(lambda: type(o).__delattr__(o, n), AttributeError, 'attributes cannot be deleted')
    D.unchanged(o, d, 'attributes')
    c.prove(read(env, o, ['_pclass_frozen']).get('_pclass_frozen') is True, 'attributes: the instance stays frozen')
    c.prove(getattr(o, 'x', None) is d.get('x'), 'attributes: reading gives the field')

# ------------------------------------------------------------------ evolver
def newev(D):
    """arbitrary reachable evolver: any data; fields touched since the original are in _factory_fields; clean: the data of the original"""
    c = cur()
    env = D.env
    o, d = D.existing()
    e = object.__new__(env.pc._PClassEvolver)
    data = dict(d)
    touched = []
    dirty = bool(c.choose(2))
    if dirty:
        for n in D.names:
            w = c.choose(3)
            if w == 1:
                data[n] = c.val('ev_' + n)
                touched.append(n)
            elif w == 2:
                data.pop(n, None)
    if 'x' not in data and c.choose(2):      # left over from an earlier set and remove
        absent = ['x']
    else:
        absent = []
    sa = object.__setattr__
    sa(e, '_pclass_evolver_original', o)
    sa(e, '_pclass_evolver_data', VDict(data))
    sa(e, '_pclass_evolver_data_is_dirty', dirty)
    sa(e, '_factory_fields', VSet(touched + absent))
    return e, o, d, data, touched, dirty
def ev_state(e):
    ga = object.__getattribute__
    return ga(e, '_pclass_evolver_data').d, list(ga(e, '_factory_fields').d), ga(e, '_pclass_evolver_data_is_dirty'), ga(e, '_pclass_evolver_original')
def check_ev(e, o, data, touched, dirty, name):
    """representation after an operation"""
    c = cur()
    d2, t2, dirty2, o2 = ev_state(e)
    c.prove(o2 is o, name + ': still based on the same instance', soft=True, assume=False)
    c.prove(set(d2) == set(data), name + ': fields', '%s instead of %s' % (sorted(d2), sorted(data)), soft=True, assume=False)
    for k in data:
        if k in d2:
            c.prove(same(d2[k], data[k]), name + ': values', soft=True, assume=False)
    c.prove(set(t2) & set(data) == set(touched), name + ': fields whose factory applies', '%s instead of %s' % (t2, touched), soft=True, assume=False)
    c.prove(dirty2 is True if dirty else True, name + ': a change is marked', soft=True, assume=False)

@harness('C13', 'PClass evolver: set remove read', also=('C01',), variants=list(range(7)))
def h_ev(env, w):
    c = cur()
    D = Decl(env, config(env, 'x', 0, fac=True), config(env, 'y', 1), ginv=0)
    e, o, d, data, touched, dirty = newev(D)
    H = env.H
    n = ['x', 'y', 'zz'][c.choose(3)]
    if w <= 2:
        v = c.val('v')
        if w == 0:
            c.prove(e.set(n, v) is e, 'evolver: set returns the evolver')
        elif w == 1:
            H.setitem(e, n, v)
        else:
            H.setattr(e, n, v)
        if n in data and c.implied(tz(same(data[n], v))):
            # the very same value: nothing changes, or it is stored again
            check_ev(e, o, data, touched if n not in ev_state(e)[1] else touched + [n], dirty, 'evolver: set of the same value')
            return
        data, touched, dirty = dict(data, **{n: v}), touched + [n], True
        check_ev(e, o, data, touched, True, 'evolver: set')
    elif w <= 4:
        f = (lambda: e.remove(n)) if w == 3 else (lambda: H.delitem(e, n))
        if n in data:
            r = expect_ok(f, 'evolver: remove of a present field')
            data, touched, dirty = {k: v for k, v in data.items() if k != n}, [t for t in touched if t != n], True
            check_ev(e, o, data, touched, True, 'evolver: remove')
        else:
            expect_raise(f, AttributeError, 'evolver: remove of an absent field raises AttributeError')
            check_ev(e, o, data, touched, dirty, 'evolver: failed remove')
    else:
        f = (lambda: e[n]) if w == 5 else (lambda: getattr(e, n))
        if n in data:
            prove_same(expect_ok(f, 'evolver: read of a present field'), data[n], 'evolver: read')
        else:
            expect_raise(f, (KeyError, AttributeError), 'evolver: read of an absent field raises')
        check_ev(e, o, data, touched, dirty, 'evolver: read')
    D.unchanged(o, d, 'evolver')
    # what can be observed afterwards
    if c.choose(2):
        for k in ('x', 'y', 'zz'):
            if k in data:
                prove_same(expect_ok(lambda: e[k], 'evolver afterwards: read of a present field'), data[k], 'evolver afterwards: read')
            else:
                expect_raise(lambda: e[k], (KeyError, AttributeError), 'evolver afterwards: read of an absent field raises')
    elif not dirty:
        c.prove(expect_ok(lambda: e.persistent(), 'evolver afterwards: persistent() with nothing pending') is o, 'evolver afterwards: persistent() with nothing pending is the instance itself')
    else:
        outcome(D, {k: v for k, v in data.items() if k != 'zz'}, touched, ['zz'] if 'zz' in data else [], lambda: e.persistent(), 'evolver afterwards: persistent()')
    D.unchanged(o, d, 'evolver afterwards')

@harness('C13', 'PClass evolver: persistent', also=('C01',), variants=VAR)
def h_evp(env, w):
    c = cur()
    D = decl(env, w)
    e, o, d, data, touched, dirty = newev(D)
    if not dirty:
        c.prove(expect_ok(lambda: e.persistent(), 'evolver: persistent() with nothing pending') is o, 'evolver: persistent() with nothing pending is the instance itself')
    else:
        outcome(D, data, touched, [], lambda: e.persistent(), 'evolver: persistent()')
        check_ev(e, o, data, touched, dirty, 'evolver: persistent()')
    D.unchanged(o, d, 'evolver')

@harness('C13', 'PClass.evolver', also=('C01',))
def h_mkev(env):
    c = cur()
    D = Decl(env, config(env, 'x', 0), config(env, 'y', 1), ginv=0)
    o, d = D.existing()
    e = o.evolver()
    check_ev(e, o, d, [], False, 'evolver()')
    c.prove(ev_state(e)[2] is False, 'evolver(): nothing pending')
    e.set('x', c.val('v'))
    D.unchanged(o, d, 'evolver()')

# ------------------------------------------------------------------ equality and hash
def eqterm(D, d1, d2):
    if set(d1) != set(d2):
        return z3.BoolVal(False)
    return z3.And(*[Cls(vt(d1[n])) == Cls(vt(d2[n])) for n in d1]) if d1 else z3.BoolVal(True)
def hash_equal(env, o, p):
    c = cur()
    a, b = env.H.b_hash(o), env.H.b_hash(p)
    if not (isinstance(a, OpHash) and isinstance(b, OpHash) and a.kind == b.kind):
        raise Unsupported('hash of another form')
    xs, ys = as_native(a.arg), as_native(b.arg)
    c.prove(len(xs) == len(ys), 'equal instances hash equal: same form')
    def he(x, y):
        if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
            return z3.And(*[he(p, q) for p, q in zip(x, y)])
        if isinstance(x, SymVal) and isinstance(y, SymVal):
            return Cls(x.t) == Cls(y.t)
        if isinstance(x, SymVal) or isinstance(y, SymVal):
            return z3.BoolVal(False)
        return z3.BoolVal(x is y or x == y)
    for x, y in zip(xs, ys):
        c.prove(he(x, y), 'equal instances hash equal: from equal parts')
@harness('C10', 'PClass == != hash', also=('C13',))
def h_eq(env):
    c = cur()
    D = Decl(env, config(env, 'x', 0), config(env, 'y', 0), ginv=0)
    o, d = D.existing()
    p, d2 = D.existing()
    w = c.choose(5)
    if w == 0:
        r = env.H.truth(type(o).__eq__(o, p))
        c.prove(eqterm(D, d, d2) == z3.BoolVal(r), 'instances are equal exactly when they have equal values in the same fields')
    elif w == 1:
        r = env.H.truth(o != p)
        c.prove(eqterm(D, d, d2) == z3.BoolVal(not r), '!= is the opposite of ==')
    elif w == 2:
        c.assume(eqterm(D, d, d2))
        hash_equal(env, o, p)
    elif w == 3:
        # an instance of a subclass, which may declare a further field
        fs = [Field(env, 'z')] if c.choose(2) else []
        sub = D.sub(fs)
        q, d2 = D.existing(sub, fs)
        k = c.choose(3)
        if k == 0:
            r = env.H.truth(o == q)
            c.prove(eqterm(D, d, d2) == z3.BoolVal(r), 'instances of a class and a subclass are equal exactly when they have equal values in the same fields')
        elif k == 1:
            r = env.H.truth(q == o)
            c.prove(eqterm(D, d, d2) == z3.BoolVal(r), 'instances of a subclass and its base are equal exactly when they have equal values in the same fields')
        elif env.H.truth(o == q):
            hash_equal(env, o, q)
    else:
        E = Decl(env, config(env, 'x', 0), config(env, 'y', 0), ginv=0, inherit=0)
        q, _ = E.existing()
        c.prove(type(o).__eq__(o, q) is NotImplemented or env.H.truth(type(o).__eq__(o, q)) is False, 'an instance of another class is not equal')
        c.prove(type(o).__eq__(o, 3) is NotImplemented or env.H.truth(type(o).__eq__(o, 3)) is False, 'something else is not equal')
    D.unchanged(o, d, 'comparison')

# ------------------------------------------------------------------ pickling, serializing
@harness('C16', 'PClass.__reduce__', also=('C13',), variants=VAR)
def h_reduce(env, w):
    c = cur()
    D = decl(env, w)
    o, d = D.existing()
    r = o.__reduce__()
    c.prove(isinstance(r, tuple) and len(r) == 2, 'reduce gives a function and its arguments')
    # what pickle does with it: the arguments are rebuilt as equal fresh objects
    f, a = r[0], [VDict(x.d) if isinstance(x, VDict) else x for x in r[1]]
    p = expect_ok(lambda: f(*a), 'unpickling')
    check_obj(D, p, d, 'unpickling')
    D.unchanged(o, d, 'pickling')

@harness('C16', 'PClass.serialize')
def h_serialize(env):
    c = cur()
    CT = env.ct.CheckedType
    x = Field(env, 'x', ser=bool(c.choose(2)))
    y = Field(env, 'y', ser=bool(c.choose(2)), mand=True)
    D = Decl(env, x, y, ginv=0)
    o, d = D.existing()
    fmt = c.val('fmt')
    nested = None
    if 'x' in d and c.choose(2):
        # a checked value: its own serialize() is used unless the field has a serializer
        nested = Nested(CT)
        object.__setattr__(o, 'x', nested)
    for v in d.values():
        c.assume(z3.Not(tz(isa(env, v, CT))))
    r = expect_ok(lambda: o.serialize(fmt), 'serialize')
    c.prove(isinstance(r, VDict) and set(r.d) == set(d), 'serialize gives a dict of the fields')
    for f in D.fields:
        if f.name not in d or not isinstance(r, VDict) or f.name not in r.d:
            continue
        got = r.d[f.name]
        if f.name == 'x' and nested is not None:
            if f.hasser:
                prove_same(got, SymVal(f.S(vt(fmt), nested._vterm)), 'serialize: a serializer of the field takes precedence')
                continue
            prove_same(got, SymVal(nested.out(fmt)), 'serialize: checked values by their own serialize() with the same format')
        else:
            prove_same(got, SymVal(f.S(vt(fmt), vt(d[f.name]))) if f.hasser else d[f.name], 'serialize: each field by its serializer')

@harness('C16', 'PClass: create(serialize(x)): induction step')
def h_roundtrip(env):
    """for the values of the fields: create(serialize(v)) is v, and the factory of a field undoes its serializer"""
    c = cur()
    CT, fs = roundtrip_fields(env)
    D = Decl(env, *fs)
    o, d = D.existing()
    for f in fs:
        if f.name in d:
            c.assume(f.hyp(d[f.name]))
    s = expect_ok(lambda: o.serialize(), 'serialize')
    extra = bool(c.choose(2))
    if extra and isinstance(s, VDict):
        s.d['zz'] = c.val('arg_zz')
    r = expect_ok(lambda: D.cls.create(s, ignore_extra=True) if extra else D.cls.create(s), 'create')
    check_obj(D, r, d, 'create(serialize(x))')
    c.prove(all(bool(v) is extra for v in CT.made), 'ignore_extra is passed on to the fields')
    D.unchanged(o, d, 'serialize and create')
