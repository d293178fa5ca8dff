"""Symbolic execution core: path exploration by re-execution, terms, obligations."""
import z3, time, itertools

SERIAL = itertools.count()
class Stop(BaseException):
    """The current path is finished (infeasible, cut at a loop head, or shared with another path)."""
class Unsupported(BaseException):
    """The code left the subset the engine can reason about."""

VS = z3.DeclareSort('V')
Cls = z3.Function('cls', VS, z3.IntSort())      # equality class of an element
Hsh = z3.Function('hsh', z3.IntSort(), z3.IntSort())   # hash of an equality class
NONE = z3.Const('None!', VS)
Truthy = z3.Function('truthy', VS, z3.BoolSort())
TRUE = z3.Const('True!', VS)

MAXDEPTH = 4   # chains of instantiations are cut here (fewer facts, never more)
C = None       # current context

class Ctx:
    def __init__(self, prefix, store, opts):
        self.prefix = list(prefix)
        self.trail = []
        self.pending = []
        self.pc = []
        self.solver = z3.Solver()
        self.solver.set('timeout', opts.get('branch_timeout', 4000))
        self.store = store
        self.opts = opts
        self.cnt = itertools.count()
        self.foralls = []         # (python predicate: index term -> z3 Bool | None)
        self.idx = []             # registered index terms
        self.done_inst = set()
        self.depth = 0            # of the instantiation under way: terms it produces are registered one level deeper
        self.tdepth = {}
        self.insumm = 0
        self.soft = False         # obligations of private helpers and loop invariants: undecided, not refuted, when they fail
        self.quiet = False        # discovery: obligations not recorded
        self.frozen = {}
        self.havocs = 0
        self.decs = []
        self.decisions = 0        # branches that did not simplify to a constant
        self.notes = []
        self.axioms = {}
        self.mutlog = []
        self.keep = []
        self.deadline = opts.get('deadline')

    # ---- terms
    def int(self, name):
        return SymInt(z3.Int('%s!%d' % (name, next(self.cnt))))
    def val(self, name):
        return SymVal(z3.Const('%s!%d' % (name, next(self.cnt)), VS))
    def bool(self, name):
        return z3.Bool('%s!%d' % (name, next(self.cnt)))
    def fun(self, name, *sorts):
        return z3.Function('%s!%d' % (name, next(self.cnt)), *sorts)

    # ---- facts
    def assume(self, c):
        c = tz(c)
        if c is True or z3.is_true(c):
            return
        if c is False or z3.is_false(c):
            raise Stop()
        self.pc.append(c)
        self.solver.add(c)
    def forall(self, f, dom='i'):
        """f: z3 Int term -> z3 Bool; instantiated at every registered term of the domain ('i': indices, 'c': equality classes)."""
        self.foralls.append((f, dom))
        for t, d in list(self.idx):
            if d == dom:
                self._inst(len(self.foralls) - 1, t)
    def reg(self, t, dom='i'):
        t = iz(t)
        if dom == 'i' and z3.is_int_value(t) and abs(t.as_long()) > 64:
            return
        if self.depth > MAXDEPTH:
            return
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget exhausted')
        key = (t.get_id(), dom)
        if self.tdepth.get(key, 99) <= self.depth and any(d == dom and u.eq(t) for u, d in self.idx):
            return
        self.tdepth[key] = self.depth
        if not any(d == dom and u.eq(t) for u, d in self.idx):
            self.idx.append((t, dom))
        else:
            self.done_inst = set(x for x in self.done_inst if x[1] != key[0])
        for i in range(len(self.foralls)):
            if self.foralls[i][1] == dom:
                self._inst(i, t)
    def _inst(self, i, t):
        key = (i, t.get_id())
        if key in self.done_inst:
            return
        self.done_inst.add(key)
        d0 = self.depth
        self.depth = self.tdepth.get((t.get_id(), self.foralls[i][1]), 0) + 1
        try:
            c = self.foralls[i][0](t)
        finally:
            self.depth = d0
        if c is not None:
            self.assume_raw(c)
    def assume_raw(self, c):
        c = tz(c)
        if c is True or z3.is_true(c):
            return
        if c is False:
            c = z3.BoolVal(False)
        self.pc.append(c)
        self.solver.add(c)

    # ---- decisions
    def _take(self, options):
        i = len(self.trail)
        if i < len(self.prefix):
            o = self.prefix[i]
            self.trail.append(o)
            return o
        for o in reversed(options[1:]):
            self.pending.append(self.trail + [o])
        self.trail.append(options[0])
        return options[0]
    def choose(self, n, label=''):
        return self._take(list(range(n)))
    def check(self, extra=None):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget exhausted')
        t = time.time()
        r = self.solver.check(extra) if extra is not None else self.solver.check()
        self.store.solver_time += time.time() - t
        return r
    def branch(self, c):
        c = tz(c)
        if c is True or c is False:
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        i = len(self.trail)
        self.decisions += 1
        if i < len(self.prefix):
            o = self._take(None)
        else:
            t = self.check(c)
            f = self.check(z3.Not(c))
            opts = [b for b, r in ((True, t), (False, f)) if r != z3.unsat]
            if not opts:
                raise Stop()
            o = self._take(opts)
        d = c if o else z3.Not(c)
        self.pc.append(d)
        self.solver.add(d)
        self.decs.append(d)
        return o

    def summarize(self, f):
        """[(condition, result of f())]: f run on all its branches without forking the path; f must only compute"""
        saved = self.prefix, self.trail, self.pending
        self.insumm += 1
        base = (len(self.idx), len(self.foralls), set(self.done_inst), len(self.pc), dict(self.__dict__.get('digits', {})), len(self.mutlog))
        out, work, n, nd = [], [[]], 0, len(self.decs)
        ser = next(SERIAL)       # lists made by the expression itself may be filled
        try:
            while work:
                n += 1
                if n > 64:
                    raise Unsupported('too many cases in an expression')
                self.prefix, self.trail, self.pending = work.pop(), [], []
                self.solver.push()
                try:
                    r = f()
                    if any(getattr(o, 'serial', -1) < ser for o in self.mutlog[base[5]:]):
                        raise Unsupported('expression with effects')
                    del self.mutlog[base[5]:]
                    cs = self.decs[nd:]
                    out.append((z3.And(*cs) if len(cs) != 1 else cs[0], r))
                except Stop:
                    pass
                finally:
                    work.extend(self.pending)
                    self.solver.pop()
                    del self.idx[base[0]:], self.foralls[base[1]:], self.pc[base[3]:]
                    self.done_inst = set(base[2])
                    del self.decs[nd:]
                    if 'digits' in self.__dict__:
                        self.digits = dict(base[4])
        finally:
            self.insumm -= 1
            self.prefix, self.trail, self.pending = saved
        return out

    def implied(self, c):
        c = tz(c)
        if c is True or c is False:
            return c
        return self.check(z3.Not(c)) == z3.unsat

    # ---- obligations
    def prove(self, c, name, detail='', soft=False, assume=True):
        """soft: an invariant found or supplied for a loop; when it does not hold the loop is undecided, not the property refuted"""
        if self.quiet:
            return
        soft = soft or self.soft
        c = tz(c)
        if c is True:
            self.store.add(name, 'proved', 0.0, 'evaluation')
            return
        if c is False:
            c = z3.BoolVal(False)
        t0 = time.time()
        s = z3.Solver()
        s.set('timeout', self.opts.get('prove_timeout', 15000))
        s.add(*self.pc)
        s.add(z3.Not(c))
        r = s.check()
        be = 'z3'
        if r == z3.unknown:
            r2 = other_solver(s, 20)
            if r2 is not None:
                r, be = r2, 'cvc5'
        dt = time.time() - t0
        self.store.solver_time += dt
        if r == z3.unsat:
            self.store.add(name, 'proved', dt, be)
        elif r == z3.sat and soft:
            self.store.add(name, 'unknown', dt, be, detail='loop invariant not established: ' + (detail or str(c)[:200]))
            if assume:
                self.store.relied = True
        elif r == z3.sat:
            try:
                model = str(s.model())[:3000]
            except Exception:
                model = ''
            exact = not self.foralls and not self.havocs
            self.store.add(name, 'refuted', dt, be, detail=(detail or str(c)[:200]) + (' [exact]' if exact else ' [relative to loop/forall facts]'), model=model, exact=exact, ctx=self, s=s)
        else:
            self.store.add(name, 'unknown', dt, be, detail='solver gave up: ' + (detail or str(c)[:200]))
        # keep going under the assumption that it holds (not where what follows judges the same state by its behaviour)
        if assume or not soft:
            self.assume_raw(c)

def other_solver(s, tmo):
    import subprocess, tempfile, os
    fd, p = tempfile.mkstemp(suffix='.smt2')
    try:
        with os.fdopen(fd, 'w') as f:
            f.write('(set-logic ALL)\n' + s.to_smt2().replace('None!', 'NoneC').replace('True!', 'TrueC'))
        r = subprocess.run(['cvc5', '--tlimit=%d' % (tmo * 1000), p], capture_output=True, text=True, timeout=tmo + 5)
        if r.stdout.strip().startswith('unsat'):
            return z3.unsat
    except Exception:
        pass
    finally:
        os.unlink(p)
    return None

class Store:
    """Collected obligations of one harness."""
    def __init__(self, harness):
        self.harness = harness
        self.obs = {}
        self.solver_time = 0.0
        self.paths = 0
        self.tables = {}
        self.completed = 0
        self.work = []
        self.broken = False      # an iteration of some loop left the verified subset: the state after that loop is not known
        self.relied = False      # an invariant that was not established has been relied on
    def add(self, name, status, dt, be, detail='', model='', exact=False, ctx=None, s=None):
        o = self.obs.setdefault(name, dict(name=self.harness + ': ' + name, status='proved', time=0.0, instances=0, backend={}, detail='', exact=False))
        o['time'] += dt
        o['instances'] += 1
        o['backend'][be] = o['backend'].get(be, 0) + 1
        rank = {'proved': 0, 'unsupported': 1, 'unknown': 2, 'refuted': 3}
        if rank[status] > rank[o['status']]:
            o['status'] = status
            o['detail'] = detail
            o['model'] = model
            o['exact'] = exact
            if ctx is not None:
                o['trail'] = list(ctx.trail)
                o['notes'] = list(ctx.notes)

def tz(c):
    if isinstance(c, SymBool):
        return c.t
    return c

def iz(x):
    """z3 Int term of an int-like"""
    if isinstance(x, SymInt):
        return x.t
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, z3.ArithRef):
        return x
    raise Unsupported('integer expected, got %s' % type(x).__name__)

def mkint(t):
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    return SymInt(t)
def mkbool(t):
    if isinstance(t, bool):
        return t
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)

class SymBool:
    __slots__ = ('t',)
    def __init__(self, t):
        self.t = t
    def __bool__(self):
        return C.branch(self.t)
    def __eq__(self, o):
        return mkbool(self.t == (o.t if isinstance(o, SymBool) else o))
    def __hash__(self):
        raise Unsupported('hash of symbolic bool')
    def __repr__(self):
        return '<bool>'

def isint(x):
    return isinstance(x, (int, SymInt))

def _ar(f):
    def g(self, o):
        if not isint(o):
            return NotImplemented
        return mkint(f(self.t, iz(o)))
    return g
def _rar(f):
    def g(self, o):
        if not isint(o):
            return NotImplemented
        return mkint(f(iz(o), self.t))
    return g
def _cm(f):
    def g(self, o):
        if isinstance(o, float):
            raise Unsupported('float comparison')
        if not isint(o):
            return NotImplemented
        return mkbool(f(self.t, iz(o)))
    return g

def digit(t):
    """(t div 32, t mod 32) as linear terms: t == 32*q + r with 0 <= r < 32 defines q and r"""
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long() >> 5, t.as_long() & 31
    tab = C.__dict__.setdefault('digits', {})
    k = t.get_id()
    if k not in tab:
        q, r = C.int('hi'), C.int('lo')
        C.assume_raw(z3.And(t == 32 * q.t + r.t, r.t >= 0, r.t < 32))
        tab[k] = (t, q, r)
    return tab[k][1:]
def shr(x, k):
    """x >> k for a multiple k of 5"""
    while k:
        if isinstance(x, int):
            return x >> k
        x = digit(x.t)[0]
        k -= 5
    return x

class SymInt:
    """Mathematical integer."""
    __slots__ = ('t',)
    def __init__(self, t):
        self.t = t
    __add__ = _ar(lambda a, b: a + b)
    __radd__ = _rar(lambda a, b: a + b)
    __sub__ = _ar(lambda a, b: a - b)
    __rsub__ = _rar(lambda a, b: a - b)
    __lt__ = _cm(lambda a, b: a < b)
    __le__ = _cm(lambda a, b: a <= b)
    __gt__ = _cm(lambda a, b: a > b)
    __ge__ = _cm(lambda a, b: a >= b)
    def __eq__(self, o):
        if isinstance(o, SymVal):
            return NotImplemented
        if not isint(o):
            return False
        return mkbool(self.t == iz(o))
    def __ne__(self, o):
        if isinstance(o, SymVal):
            return NotImplemented
        if not isint(o):
            return True
        return mkbool(self.t != iz(o))
    def __mul__(self, o):
        if isinstance(o, float):
            return Scaled(self, o)
        if isint(o):
            return mkint(self.t * iz(o))
        return NotImplemented
    __rmul__ = __mul__
    def __neg__(self):
        return mkint(-self.t)
    def __abs__(self):
        return mkint(z3.If(self.t < 0, -self.t, self.t))
    def __floordiv__(self, o):
        if isinstance(o, int) and o > 1 and (o & (o - 1)) == 0 and (o.bit_length() - 1) % 5 == 0:
            return self >> (o.bit_length() - 1)
        if isinstance(o, int) and o > 0:
            return mkint(self.t / o)
        raise Unsupported('division by non-constant')
    def __truediv__(self, o):
        if isinstance(o, int) and o > 0:
            return Quot(self, o)
        raise Unsupported('true division')
    def __mod__(self, o):
        if isinstance(o, int) and o == 32:
            return digit(self.t)[1]
        if isinstance(o, int) and o > 0:
            return mkint(self.t % o)
        if isinstance(o, SymInt):
            return modterm(self, o)
        raise Unsupported('modulo')
    def __rmod__(self, o):
        if isinstance(o, int):
            return modterm(o, self)
        return NotImplemented
    def __rshift__(self, k):
        if isinstance(k, int) and k >= 0 and k % 5 == 0:
            return shr(self, k)
        if isinstance(k, int) and k >= 0:
            return mkint(self.t / (1 << k))
        raise Unsupported('shift by symbolic amount')
    def __lshift__(self, k):
        if isinstance(k, int) and k >= 0:
            return mkint(self.t * (1 << k))
        raise Unsupported('shift by symbolic amount')
    def __and__(self, m):
        if m == 31 and isinstance(m, int):
            return digit(self.t)[1]
        if isinstance(m, int) and m >= 0 and (m & (m + 1)) == 0:
            return mkint(self.t % (m + 1))
        raise Unsupported('bitwise and')
    __rand__ = __and__
    def __bool__(self):
        return C.branch(self.t != 0)
    def __index__(self):
        raise Unsupported('symbolic integer used where a concrete one is needed')
    def __int__(self):
        raise Unsupported('int() of symbolic integer')
    def __hash__(self):
        raise Unsupported('hash of symbolic int')
    def __repr__(self):
        return '<int>'
    def __format__(self, s):
        return '<int>'
    def __str__(self):
        return '<int>'

class Quot:
    """x / c for a positive constant; only int() of it is defined (exact below 2**53, stated as an assumption)"""
    def __init__(self, x, c):
        self.x, self.c = x, c
    def toint(self):
        t = self.x.t
        return mkint(z3.If(t >= 0, t / self.c, -((-t) / self.c)))

class Scaled:
    """0.67 * size: only compared with an integer; treated as an arbitrary threshold (any resize policy must be correct)"""
    def __init__(self, x, f):
        self.x, self.f = x, f
    def _b(self):
        return SymBool(C.bool('threshold'))
    def __lt__(self, o): return self._b()
    def __le__(self, o): return self._b()
    def __gt__(self, o): return self._b()
    def __ge__(self, o): return self._b()

PyMod = z3.Function('pymod', z3.IntSort(), z3.IntSort(), z3.IntSort())
def modterm(a, n):
    """a % n with symbolic n: uninterpreted with range axiom for n > 0"""
    a, n = iz(a), iz(n)
    t = PyMod(a, n)
    m = PyMod(z3.simplify(-a), n)
    C.assume_raw(z3.Implies(n > 0, z3.And(t >= 0, t < n, z3.Implies(z3.And(a >= 0, a < n), t == a), z3.Implies(a == n, t == 0), z3.Implies(z3.And(a < 0, a > -n), t == a + n), z3.Implies(a == -n, t == 0),
                                        m >= 0, m < n, z3.If(t == 0, m == 0, m == n - t))))
    return mkint(t)

class SymVal:
    """Opaque element: `is` is term equality, == is equality of classes, hash is a function of the class."""
    __slots__ = ('t',)
    def __init__(self, t):
        self.t = t
    def __eq__(self, o):
        if isinstance(o, SymVal):
            if self.t.eq(o.t):
                return True
            return mkbool(Cls(self.t) == Cls(o.t))
        if o is None:
            return mkbool(Cls(self.t) == Cls(NONE))
        if o is NotImplemented or isinstance(o, (int, str, SymInt)):
            raise Unsupported('element compared with a constant')
        return NotImplemented
    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return mkbool(z3.Not(tz(r))) if isinstance(r, SymBool) else not r
    def __bool__(self):
        return bool(mkbool(z3.And(self.t != NONE, Truthy(self.t))))       # any element may be true or false; None is false
    def __hash__(self):
        raise Unsupported('native hash of an element')
    def __iter__(self):
        raise Unsupported('iteration over an element')
    def __repr__(self):
        return '<val>'
    def __str__(self):
        return '<val>'
    def __format__(self, s):
        return '<val>'
    def vhash(self):
        return mkint(Hsh(Cls(self.t)))
    def serialize(self, format=None):
        """of elements of a checked type (see c_checked.py)"""
        f = getattr(C, 'serfun', None)
        if f is None:
            raise Unsupported('serialize() of an element')
        return SymVal(f(self.t))

def vterm(x):
    """V term of an element value"""
    if isinstance(x, SymVal):
        return x.t
    if x is None:
        return NONE
    if x is True:
        return TRUE
    return None

def same(a, b):
    """z3 Bool / bool: a is b (identity)"""
    ta, tb = vterm(a), vterm(b)
    if ta is not None and tb is not None:
        return z3.simplify(ta == tb)
    if isint(a) and isint(b):
        return z3.simplify(iz(a) == iz(b))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        parts = [same(x, y) for x, y in zip(a, b)]
        return z3.And(*[z3.BoolVal(p) if isinstance(p, bool) else p for p in parts]) if parts else True
    return a is b

def explore(harness, name, opts, store=None):
    """Run harness(ctx) on every path. Returns Store."""
    global C
    store = store or Store(name)
    work = store.work = [[]]
    limit = opts.get('max_paths', 20000)
    try:
        while work:
            prefix = work.pop()
            store.paths += 1
            if store.paths > limit:
                store.add('path budget', 'unsupported', 0, '-', detail='more than %d paths' % limit)
                break
            C = Ctx(prefix, store, opts)
            try:
                harness(C)
                store.completed += 1
            except Stop:
                pass
            except Unsupported as e:
                if not C.quiet:
                    store.add('within the verified subset', 'unsupported', 0, '-', detail=str(e))
                    store.relied = True
                else:
                    store.add('within the verified subset', 'unsupported', 0, '-', detail='(while solving a loop) ' + str(e))
                    store.broken = True
                if opts.get('debug'):
                    import traceback; traceback.print_exc()
            except RecursionError:
                store.add('within the verified subset', 'unsupported', 0, '-', detail='recursion limit')
            work.extend(C.pending)
            if opts.get('deadline') and time.time() > opts['deadline']:
                store.add('time budget', 'unsupported', 0, '-', detail='time budget of the harness exhausted')
                break
    finally:
        C = None
    return store
