"""Contracts of records (_precord.py, _field_common.py, declarations in _checked_types.py): C12 (and parts of C01, C16).
The map behind a record by its contract (C04, C05); values, types, invariants, factories, initial values and serializers arbitrary;
two declared fields, one of them inherited in part of the cases, up to two record invariants."""
import core, rt, z3
from rt import *
from common import *
from fields import *
import fields, dtok

def setup(env):
    env.ct, env.fc, env.pr = env.get('_checked_types'), env.get('_field_common'), env.get('_precord')
    fields.install(env)
    dtok.install(env)
    env.eager_mand = True

def read(o):
    b = object.__getattribute__(o, '_buckets')
    if not isinstance(b, dtok.DTok):
        raise Unsupported('representation of a record')
    return dict(b.d)

class Decl:
    def __init__(self, env, x, y, ginv=None, inherit=None):
        c = cur()
        self.env, self.x, self.y = env, x, y
        self.fields = [x, y]
        self.names = ['x', 'y']
        inherit = c.choose(2) if inherit is None else inherit
        ng = (2 if inherit else 1) if ginv is None else ginv
        self.g = [Ginv(self.names, 'g%d' % i) for i in range(ng)]
        P = env.pr.PRecord
        M = type(P)
        def mk(name, bases, fs, g):
            d = {f.name: f.decl() for f in fs}
            d['__module__'] = 'pyrsistent.user'
            if g is not None:
                d['__invariant__'] = g.fn(read)
            return M(name, bases, d)
        if inherit:
            b = mk('Base', (P,), [x], self.g[0] if ng else None)
            self.cls = mk('A', (b,), [y], self.g[1] if ng > 1 else None)
        else:
            self.cls = mk('A', (P,), [x, y], self.g[0] if ng else None)
    def existing(self):
        """arbitrary valid record"""
        c = cur()
        d = {}
        for f in self.fields:
            if f.mand is True or c.choose(2):
                v = c.val('cur_' + f.name)
                c.assume(f.valid(v))
                d[f.name] = v
        for g in self.g:
            c.assume(g.ok(*g.args(d)))
        o = dtok.newmap(self.env, d, self.cls)
        c.frozen[id(o)] = ('an existing record', ('_cached_hash',))
        c.keep.append(o)
        return o, d
    def unchanged(self, o, d, name):
        e = read(o)
        c = cur()
        c.prove(set(e) == set(d) and o._size == len(d), name + ': the existing record has the same fields')
        for n in d:
            if n in e:
                c.prove(same(e[n], d[n]), name + ': the existing record has the same values')

def plan(D, d, sets, codes=(), missing=(), removed=()):
    """contents, codes and missing fields after assigning sets = [(name, value, factory applies)] to contents d; bad: first error that is raised at once"""
    c = cur()
    d, codes, missing = dict(d), list(codes), list(missing)
    by = {f.name: f for f in D.fields}
    bad = None
    for n, v, fac in sets:
        f = by.get(n)
        if f is None:
            bad = bad or ('extra', n)
            continue
        if fac and f.hasfac == 'raise' and c.branch(f.FR(vt(v))):
            if f.fmode != 1:
                codes.append(SymVal(f.fcode(vt(v))))
            if f.fmode != 2:
                missing.append('Sub.m')
            continue
        w = f.make(v) if fac else v
        if not c.branch(f.typeok(w)):
            bad = bad or ('type', n)
            continue
        if not c.branch(f.invok(w)):
            codes.append(SymVal(f.code(vt(w))))
        d[n] = w
    return d, codes, missing, bad
def finish(D, d, codes, missing, bad, f, name, orig=None):
    """run f (that ends with persistent()) and compare with the plan"""
    c = cur()
    miss = list(missing) + ['A.' + fd.name for fd in D.fields if fd.mand is True and fd.name not in d]
    gcodes = []
    if not (bad or codes or miss):
        for g in D.g:
            a = g.args(d)
            if not c.branch(g.ok(*a)):
                gcodes.append(SymVal(g.code(*a)))
    IE, TE = D.env.ct.InvariantException, D.env.fc.PTypeError
    ok = not (bad or codes or miss or gcodes)
    try:
        r = f()
    except Exception as e:
        classify(e)
        if ok:
            c.prove(False, name + ': a permitted result is returned', 'raised %s: %s' % (type(e).__name__, e))
            raise Stop()
        if bad:
            c.prove(isinstance(e, TE) and bad[0] == 'type' or isinstance(e, AttributeError) and bad[0] == 'extra', name + ': the documented error for what is wrong', 'raised %s: %s' % (type(e).__name__, e))
            if isinstance(e, TE):
                c.prove(e.field == bad[1] and e.source_class is D.cls, name + ': the type error names the field')
            return None
        c.prove(isinstance(e, IE), name + ': the documented error for what is wrong', 'raised %s: %s' % (type(e).__name__, e))
        if isinstance(e, IE):
            prove_codes(e.invariant_errors, gcodes or codes, name + ': the error lists exactly the failed invariants')
            prove_names(e.missing_fields, miss, name + ': the error lists exactly the missing fields')
        return None
    if not ok:
        c.prove(False, name + ': what is forbidden raises', 'returned %s (%s, codes %d, missing %s, record invariants %d)' % (type(r).__name__, bad, len(codes), miss, len(gcodes)))
        raise Stop()
    check_rec(D, r, d, name)
    return r
def check_rec(D, r, want, name):
    c = cur()
    c.prove(type(r) is D.cls, name + ': result is a record of the class', 'result is %s' % type(r).__name__)
    if type(r) is not D.cls:
        raise Stop()
    e = read(r)
    c.prove(set(e) == set(want), name + ': exactly the fields expected', 'has %s, expected %s' % (sorted(e), sorted(want)))
    for n in want:
        if n in e:
            prove_same(e[n], want[n], name + ': field values')
    c.prove(r._size == len(want), name + ': size')

VAR = [(t, i) for t in range(2) for i in range(2)]
def decl(env, w, modes=1, **k):
    c = cur()
    x = config(env, 'x', typ=[None, [T1]][w[0]], inv=bool(w[1]))
    if x.hasfac and not x.hasinit and c.choose(2):
        raising(env, x, modes)
    o = c.choose(3)
    D = Decl(env, x, config(env, 'y', o), inherit=o == 1, **k)
    D.option = o
    return D
@harness('C12', 'PRecord.__new__', variants=VAR)
def h_new(env, w):
    c = cur()
    D = decl(env, w, 3)
    kw = {}
    for n in ['x', 'y', 'zz']:
        if (n != 'zz' or D.option == 0) and c.choose(2):
            kw[n] = c.val('arg_' + n)
    sets = dict((f.name, f.initv) for f in D.fields if f.hasinit)
    sets.update(kw)
    p = plan(D, {}, [(n, v, True) for n, v in sets.items()])
    if D.option == 1:
        a = VDict(kw, frozen='the argument')
        finish(D, *p, lambda: D.cls.create(a), 'create')
    else:
        finish(D, *p, lambda: D.cls(**kw), 'construction')

@harness('C12', 'PRecord.create', variants=VAR)
def h_create(env, w):
    c = cur()
    D = decl(env, w, ginv=0)
    if c.choose(2):
        o, d = D.existing()
        c.prove(expect_ok(lambda: D.cls.create(o), 'create(record)') is o, 'create() of a record of the class is the record itself')
        D.unchanged(o, d, 'create')
        return
    kw = {}
    for n in ('x', 'zz'):
        if c.choose(2):
            kw[n] = c.val('arg_' + n)
    sets = dict((f.name, f.initv) for f in D.fields if f.hasinit)
    sets.update({k: v for k, v in kw.items() if k != 'zz'})
    a = VDict(kw, frozen='the argument')
    finish(D, *plan(D, {}, [(n, v, True) for n, v in sets.items()]), lambda: D.cls.create(a, ignore_extra=True), 'create with ignore_extra')

@harness('C12', 'PRecord.set update', also=('C01',), variants=VAR)
def h_set(env, w):
    c = cur()
    D = decl(env, w)
    o, d = D.existing()
    v, v2 = c.val('new'), c.val('new2')
    k = c.choose(7)
    sets, f = [([('x', v)], lambda: o.set('x', v)), ([('y', v)], lambda: o.set('y', v)), ([('x', v)], lambda: o.set(x=v)), ([('x', v), ('y', v2)], lambda: o.set(x=v, y=v2)),
               ([('y', v), ('x', v2)], lambda: o.update(VDict(dict(y=v), frozen='the argument'), VDict(dict(x=v2)))), ([('zz', v)], lambda: o.set('zz', v)), ([('zz', v)], lambda: o.set(zz=v))][k]
    finish(D, *plan(D, d, [(n, x, True) for n, x in sets]), f, 'set')
    D.unchanged(o, d, 'set')

@harness('C12', 'PRecord.update_with', also=('C01',))
def h_update_with(env):
    c = cur()
    D = Decl(env, config(env, 'x', 0), config(env, 'y', 1), ginv=0)
    o, d = D.existing()
    g = c.fun('merge', VS, VS, VS)
    fn = SymFn(lambda a, b: SymVal(g(vt(a), vt(b))), 'merge')
    n, v = ['x', 'y'][c.choose(2)], c.val('v')
    new = SymVal(g(vt(d[n]), vt(v))) if n in d else v
    finish(D, *plan(D, d, [(n, new, True)]), lambda: o.update_with(fn, VDict({n: v})), 'update_with')
    D.unchanged(o, d, 'update_with')

@harness('C12', 'PRecord.remove discard', also=('C01',), variants=VAR)
def h_remove(env, w):
    c = cur()
    D = decl(env, w)
    o, d = D.existing()
    n = ['x', 'y', 'zz'][c.choose(3)]
    disc = c.choose(2)
    f = (lambda: o.discard(n)) if disc else (lambda: o.remove(n))
    if n not in d:
        if disc:
            c.prove(expect_ok(f, 'discard of an absent field') is o, 'discard of an absent field gives the record itself')
        else:
            expect_raise(f, KeyError, 'remove of an absent field raises KeyError')
    else:
        finish(D, {k: v for k, v in d.items() if k != n}, [], [], None, f, 'remove')
    D.unchanged(o, d, 'remove')

@harness('C12', 'PRecord reading', also=('C01',))
def h_read(env):
    c = cur()
    H = env.H
    D = Decl(env, config(env, 'x', 0), config(env, 'y', 1), ginv=0)
    o, d = D.existing()
    n = ['x', 'y', 'zz'][c.choose(3)]
    w = c.choose(5)
    if w == 0:
        prove_bool(H.contains(o, n), n in d, 'membership')
    elif w in (1, 2):
        f = (lambda: H.getitem(o, n)) if w == 1 else (lambda: getattr(o, n))
        if n in d:
            prove_same(expect_ok(f, 'read of a present field'), d[n], 'reading a field')
        else:
            expect_raise(f, KeyError if w == 1 else AttributeError, 'reading an absent field raises')
    elif w == 3:
        c.prove(H.b_len(o) == len(d), 'length')
        its = as_native(o.items())
        c.prove(sorted(k for k, _ in its) == sorted(d), 'items: each field once')
        for k, v in its:
            prove_same(v, d[k], 'items: values')
        c.prove(sorted(as_native(o.keys())) == sorted(d), 'keys')
    else:
        c.prove(o.copy() is o, 'copy() is the record itself')
    D.unchanged(o, d, 'reading')

# ------------------------------------------------------------------ evolver
def newev(D):
    """arbitrary reachable evolver: any declared fields, each value valid or reported by a recorded code; clean: as the record"""
    c = cur()
    o, d = D.existing()
    E = D.env.pr._PRecordEvolver
    e = object.__new__(E)
    t = dtok.DTokEv(o._buckets)
    codes, miss, data = [], [], dict(d)
    w = c.choose(3)
    if w:
        t.dirty = True
        for f in D.fields:
            k = c.choose(3)
            if k == 1:
                v = data[f.name] = c.val('ev_' + f.name)
                c.assume(f.typeok(v))
                if w == 2 or True:
                    c.assume(z3.Or(f.invok(v), z3.BoolVal(w == 2)))
            elif k == 2:
                data.pop(f.name, None)
        t.d = dict(data)
        if w == 2:
            codes.append(c.val('recorded'))
    sa = object.__setattr__
    for a, v in [('_original_pmap', o), ('_buckets_evolver', t), ('_size', len(data)), ('_destination_cls', D.cls), ('_invariant_error_codes', VList(Lit(codes))), ('_missing_fields', VList(Lit(miss))), ('_factory_fields', None), ('_ignore_extra', False)]:
        sa(e, a, v)
    return e, o, d, data, codes, bool(w)

@harness('C12', 'PRecord evolver', also=('C01',), variants=[('set', n, k) for n in ('x', 'y', 'zz') for k in (0, 1, 2)] + [('remove',), ('persistent',)])
def h_ev(env, var):
    c = cur()
    w = var[0]
    D = Decl(env, config(env, 'x', 0, fac=True, inv=True), config(env, 'y', 1), ginv=1 if w == 'persistent' else 0)
    if w != 'persistent' and c.choose(2):
        raising(env, D.x)
        D = Decl(env, D.x, D.y, ginv=0)
    e, o, d, data, codes, dirty = newev(D)
    H = env.H
    bad = None
    miss = []
    if w == 'set':
        n, k = var[1:]
        v = c.val('v')
        p = plan(D, data, [(n, v, True)], codes)
        f = [lambda: e.set(n, v), lambda: H.setitem(e, n, v), lambda: e.__setitem__(n, v)][k]
        try:
            r = f()
            if k == 0:
                c.prove(r is e, 'evolver: set returns the evolver')
        except Exception as ex:
            classify(ex)
            c.prove(p[3] is not None and isinstance(ex, env.fc.PTypeError if p[3][0] == 'type' else AttributeError), 'evolver: set raises only what is documented', 'raised %s' % type(ex).__name__)
            data2 = dict(data)
            p = (data2, codes, [], None)
        else:
            c.prove(p[3] is None, 'evolver: a forbidden assignment raises')
            dirty = True
        data, codes, miss, _ = p
    elif w == 'remove':
        n = ['x', 'y', 'zz'][c.choose(3)]
        f = (lambda: e.remove(n)) if c.choose(2) else (lambda: H.delitem(e, n))
        if n in data:
            expect_ok(f, 'evolver: remove of a present field')
            data = {k: v for k, v in data.items() if k != n}
            dirty = True
        else:
            expect_raise(f, KeyError, 'evolver: remove of an absent field raises KeyError')
    D.unchanged(o, d, 'evolver')
    for n in ('x', 'y', 'zz'):
        prove_bool(H.contains(e, n), n in data, 'evolver: membership')
        if n in data:
            prove_same(expect_ok(lambda: e[n], 'evolver: read of a present field'), data[n], 'evolver: read')
        else:
            expect_raise(lambda: e[n], KeyError, 'evolver: read of an absent field raises')
    if not dirty:
        c.prove(expect_ok(lambda: e.persistent(), 'evolver: persistent() with nothing pending') is o, 'evolver: persistent() with nothing pending is the record itself')
    else:
        r = finish(D, data, codes, miss, None, lambda: e.persistent(), 'evolver: persistent()')
        if r is not None:
            # used again: what it returned stays as it is
            c.frozen[id(r)] = ('a record returned before', ('_cached_hash',))
            v = c.val('later')
            c.assume(D.x.valid(D.x.make(v)))
            if D.x.hasfac != 'raise':
                e.set('x', v)
            check_rec(D, r, data, 'evolver: a record returned before')
    D.unchanged(o, d, 'evolver')

@harness('C12', 'PRecord.evolver', also=('C01',))
def h_mkev(env):
    c = cur()
    D = Decl(env, config(env, 'x', 0), config(env, 'y', 1), ginv=0)
    o, d = D.existing()
    e = o.evolver()
    for n in ('x', 'y'):
        prove_bool(env.H.contains(e, n), n in d, 'evolver(): the fields of the record')
        if n in d:
            prove_same(e[n], d[n], 'evolver(): the values of the record')
    c.prove(expect_ok(lambda: e.persistent(), 'evolver().persistent()') is o, 'evolver().persistent() is the record itself')
    v = c.val('v')
    e.set('x', v)
    D.unchanged(o, d, 'evolver()')

# ------------------------------------------------------------------ pickling, serializing
@harness('C16', 'PRecord.__reduce__', also=('C12',), variants=VAR)
def h_reduce(env, w):
    c = cur()
    D = decl(env, w)
    o, d = D.existing()
    if any(f.hasinit and f.name not in d for f in D.fields):
        raise Stop()      # a removed field with an initial value: known finding (KNOWN_FINDINGS.jsonl), not claimed
    r = o.__reduce__()
    c.prove(isinstance(r, tuple) and len(r) == 2, 'reduce gives a function and its arguments')
    f, a = r[0], [VDict(x.d) if isinstance(x, VDict) else x for x in r[1]]
    p = expect_ok(lambda: f(*a), 'unpickling')
    check_rec(D, p, d, 'unpickling')
    D.unchanged(o, d, 'pickling')

@harness('C16', 'PRecord.serialize')
def h_serialize(env):
    c = cur()
    CT = env.ct.CheckedType
    x = Field(env, 'x', ser=bool(c.choose(2)))
    y = Field(env, 'y', ser=bool(c.choose(2)), mand=True)
    D = Decl(env, x, y, ginv=0)
    o, d = D.existing()
    fmt = c.val('fmt')
    nested = None
    for v in d.values():
        c.assume(z3.Not(tz(isa(env, v, CT))))
    if 'x' in d and c.choose(2):
        nested = Nested(CT)
        o._buckets.d['x'] = nested
    r = expect_ok(lambda: o.serialize(fmt), 'serialize')
    c.prove(isinstance(r, VDict) and set(r.d) == set(d), 'serialize gives a dict of the fields')
    for f in D.fields:
        if f.name not in d or not isinstance(r, VDict) or f.name not in r.d:
            continue
        got = r.d[f.name]
        if f.name == 'x' and nested is not None:
            prove_same(got, SymVal(f.S(vt(fmt), nested._vterm)) if f.hasser else SymVal(nested.out(fmt)), 'serialize: checked values by their own serialize() unless the field has a serializer')
        else:
            prove_same(got, SymVal(f.S(vt(fmt), vt(d[f.name]))) if f.hasser else d[f.name], 'serialize: each field by its serializer')

@harness('C16', 'PRecord: create(serialize(x)): induction step')
def h_roundtrip(env):
    """for the values of the fields: create(serialize(v)) is v, and the factory of a field undoes its serializer"""
    c = cur()
    CT, fs = roundtrip_fields(env)
    D = Decl(env, *fs)
    o, d = D.existing()
    for f in fs:
        if f.name in d:
            c.assume(f.hyp(d[f.name]))
    s = expect_ok(lambda: o.serialize(), 'serialize')
    extra = bool(c.choose(2))
    if extra and isinstance(s, VDict):
        s.d['zz'] = c.val('arg_zz')
    r = expect_ok(lambda: D.cls.create(s, ignore_extra=True) if extra else D.cls.create(s), 'create')
    check_rec(D, r, d, 'create(serialize(x))')
    c.prove(all(bool(v) is extra for v in CT.made), 'ignore_extra is passed on to the fields')
    D.unchanged(o, d, 'serialize and create')
