"""Contracts of immutable() (_immutable.py) and get_in (_toolz.py): C19.  The class text that immutable() produces is taken from the call it makes to
exec, translated like the modules themselves and executed: what is checked is the text generated by the current source for each declaration."""
import core, rt, z3, ast, builtins, itertools
from rt import *
from common import *
from load import Tr

def prepare(env):
    def ex(src, ns=None, *a):
        try:
            tree = ast.parse(src)
        except SyntaxError as e:
            raise HRaised(e)
        env.texts.append(src)
        tree = ast.fix_missing_locations(Tr('_immutable:generated').visit(tree))
        d = dict(ns.items()) if isinstance(ns, VDict) else ns
        g = dict(d)
        g['__builtins__'] = env.im.__dict__['__builtins__']
        g['_H'] = env.H
        builtins.exec(compile(tree, 'generated', 'exec'), g)
        for k, v in g.items():
            if k not in ('__builtins__', '_H'):
                ns[k] = v
    env.texts = []
    env.replace['_immutable'] = {'exec': ex}
def setup(env):
    env.im, env.tz = env.get('_immutable'), env.get('_toolz')
    env.H.providers[:] = [lambda L, loc: Walk.of(env, L, loc)]

# ------------------------------------------------------------------ immutable()
NAMES = ['x', 'y_', 'zed', 'w_', 'id_']
DECL = [m for n in range(4) for m in itertools.combinations(NAMES[:4], n)] + [('y_', 'x'), ('zed', 'w_', 'x'), ('id_', 'x', 'y_', 'zed')]
def spelled(members, how):
    return {'list': lambda: VList(Lit(list(members))), 'tuple': lambda: tuple(members), 'commas': lambda: ', '.join(members), 'tight': lambda: ','.join(members), 'blanks': lambda: '  '.join(members)}[how]()

@harness('C19', 'immutable: members, assignment and set', variants=[(m, h) for m in DECL for h in ('commas', 'list')] + [(m, h) for m in DECL[-3:] for h in ('tuple', 'tight', 'blanks')], also=('C01',))
def h_immutable(env, v):
    c = cur()
    members, how = v
    name = ['Immutable', 'Point'][c.choose(2)]
    K = expect_ok(lambda: env.im.immutable(spelled(members, how)) if name == 'Immutable' else env.im.immutable(spelled(members, how), name=name), 'immutable(members)')
    c.prove(K.__name__ == name, 'the class has the given name', K.__name__)
    sub = c.choose(2)
    if sub:
        class K(K):
            __slots__ = ()
            def __new__(cls, *a, **k):
                made.append(cls)
                return super(K, cls).__new__(cls, *a, **k)
    made = []
    vals = [c.val(m) for m in members]
    p = K(*vals) if c.choose(2) else K(**dict(zip(members, vals)))
    snap = lambda o: [getattr(o, m) for m in members]
    c.prove(all(a is b for a, b in zip(snap(p), vals)) and len(tuple(p)) == len(members), 'the members are the given values')
    op = c.choose(2)
    if op == 0:       # assignment and deletion, declared or not
        for a in list(members) + ['other', '__dict__']:
            for f in (lambda: builtins.setattr(p, a, c.val('n')), lambda: builtins.delattr(p, a)):
                try:
                    f()
                    ok = False
                except (AttributeError, TypeError):
                    ok = True
                c.prove(ok, 'attributes cannot be assigned or deleted', a)
        c.prove(all(a is b for a, b in zip(snap(p), vals)), 'the instance is unchanged')
        return
    pick = [m for m in list(members) + ['other'] if c.choose(2)]
    new = {m: c.val('new_' + m) for m in pick}
    made[:] = []
    want = 'error' if 'other' in pick or any(m.endswith('_') for m in pick) else 'ok'
    if want == 'error':
        e = expect_raise(lambda: p.set(**new), AttributeError, 'set() of a frozen or undeclared member raises AttributeError')
        bad = [m for m in pick if m == 'other'] or [m for m in pick if m.endswith('_')]
        c.prove(all(b in str(e) for b in bad), 'the error names the members', str(e))
    else:
        r = expect_ok(lambda: p.set(**new), 'set()')
        if not pick:
            c.prove(r is p, 'set() of nothing is the instance itself')
        c.prove(r.__class__ is K, 'set() gives an instance of the same class', type(r).__name__)
        if sub and pick:
            c.prove(K in made, "set() goes through the class' own __new__")
        got = snap(r)
        c.prove(len(tuple(r)) == len(members), 'the same members')
        for m, o, g in zip(members, vals, got):
            prove_same(g, new.get(m, o), 'exactly the named members change')
    c.prove(all(a is b for a, b in zip(snap(p), vals)), 'the instance is unchanged')

# ------------------------------------------------------------------ get_in
Get = z3.Function('getitem!', VS, VS, VS)
Out = z3.Function('getitem_outcome!', VS, VS, z3.IntSort())     # 0: Get, 1..3: KeyError, IndexError, TypeError, 4: another error
class Other(Exception): pass
ERR = [None, KeyError, IndexError, TypeError, Other]
class Struct(SymVal):
    """anything that may or may not be subscripted"""
    __slots__ = ()
    def __getitem__(self, k):
        o = Out(self.t, vterm(k))
        if mkbool(o == 0):
            return Struct(Get(self.t, vterm(k)))
        for i in (1, 2, 3):
            if mkbool(o == i):
                raise HRaised(ERR[i]())
        raise HRaised(Other())

class Walk:
    """invariant of a loop over the keys: the one variable carried is the structure reached after t keys"""
    @staticmethod
    def of(env, L, loc):
        vs = [n for n in L.names if n not in L.targets and isinstance(loc.get(n), Struct)]
        if len(vs) != 1 or not isinstance(L.it, VIter) or not isinstance(L.it.pos, int) or L.it.pos != 0 or L.it.s is not env.keys:
            return None
        w = Walk()
        w.env, w.L, w.n = env, L, vs[0]
        return w
    def first(self, loc, st):
        c, L, s, g = cur(), self.L, self.env.keys, self.env.ghost
        L.mode = 'prov'
        c.havocs += 1
        c.prove(loc[self.n].t == g.at(0), 'loop: starts at the given structure', soft=True)
        if c.choose(2) == 0:
            t = self.t = g.t = c.int('t')
            c.assume(z3.And(t.t >= 0, t.t < iz(s.n)))
            L.it.pos = t
        else:
            t = L.it.pos = s.n
        t = self.tt = iz(t)
        c.forall(lambda i: z3.Implies(z3.And(i >= 0, i < t), g.ok(i)))
        c.reg(t)
        v = Struct(g.at(t))
        return [UNBOUND if n in L.targets else v if n == self.n else x for n, x in zip(L.names, st)]
    def again(self, loc, st):
        c, g = cur(), self.env.ghost
        if not c.implied(iz(self.L.it.pos) == self.tt + 1):
            raise Unsupported('iterator advanced irregularly')
        v = vterm(loc[self.n])
        if v is None:
            raise Unsupported('the structure reached')
        c.prove(v == g.at(self.tt + 1), 'loop: one step further', soft=True)
        c.prove(g.ok(self.tt), 'loop: the step exists', soft=True)
        raise Stop()

class Ghost: pass

@harness('C19', 'get_in', variants=[0, 1, 2, 3, 'any'])
def h_get_in(env, n):
    c = cur()
    keys = env.keys = fresh_seq('keys') if n == 'any' else Lit([c.val('k%d' % i) for i in range(n)])
    coll, default = Struct(c.val('coll').t), c.val('default')
    g = env.ghost = Ghost()
    At = c.fun('at', z3.IntSort(), VS)
    g.at = lambda i: At(iz(i))
    g.ok = lambda i: Out(At(i), keys.term(i)) == 0
    g.t = None
    c.assume_raw(At(0) == coll.t)
    c.forall(lambda i: z3.Implies(z3.And(i >= 0, i < iz(keys.n)), At(i + 1) == Get(At(i), keys.term(i))))
    arg = VList(keys, frozen="the caller's keys") if c.choose(2) else VTuple(keys)
    if n == 'any' and c.choose(2):
        arg = VIter(keys)
    mode = c.choose(4)     # default / explicit default / no_default / both
    call = [lambda: env.tz.get_in(arg, coll), lambda: env.tz.get_in(arg, coll, default), lambda: env.tz.get_in(arg, coll, no_default=True), lambda: env.tz.get_in(arg, coll, default, True)][mode]
    e = r = None
    try:
        r = call()
    except Exception as x:
        classify(x)
        e = x
    N = iz(keys.n)
    i = c.int('i')
    c.reg(i)
    def reached(t):
        return z3.Implies(z3.And(i.t >= 0, i.t < t), g.ok(i.t))
    def fails(t, codes):
        return z3.And(t >= 0, t < N, reached(t), z3.Or([Out(At(t), keys.term(t)) == k if k < 4 else z3.And([Out(At(t), keys.term(t)) != j for j in range(4)]) for k in codes]))
    ts = [iz(g.t)] if g.t is not None else [z3.IntVal(k) for k in range(n if n != 'any' else 0)]
    for k in range(n if n != 'any' else 0):
        c.reg(z3.IntVal(k))
    if n != 'any':          # the failing position is known: all instances of `reached`
        reached = lambda t: z3.And([z3.Implies(z3.IntVal(k) < t, g.ok(z3.IntVal(k))) for k in range(n)])
    some = lambda codes: z3.Or([fails(t, codes) for t in ts])
    if e is None:
        d = NONE if mode in (0,) else default.t
        v = vterm(r)
        if v is None:
            c.prove(False, 'get_in gives an element or the default', type(r).__name__)
            return
        full = z3.And(reached(N), v == g.at(N))
        c.prove(z3.Or(full, z3.And(some((1, 2, 3)), v == d)) if mode < 2 else full, 'the element at the path, or the default when a step is missing')
    else:
        code = [k for k in range(1, 5) if type(e) is ERR[k]]
        if not code:
            c.prove(False, 'no other exception', type(e).__name__)
            return
        c.prove(z3.And(some(tuple(code)), z3.BoolVal(mode >= 2 or code[0] == 4)), 'the error of the missing step is raised only on request')
