"""Mechanical extraction: the modules of /repo/pyrsistent are parsed on every run, rewritten node by node (below) and
executed.  What the rewriting does, and all it does:
  truth tests, and/or/not, ternaries, asserts -> H.truth          (so that symbolic values can fork the path)
  is / is not                                -> H.is_              (identity of symbolic elements is term equality)
  in / not in                                -> H.contains
  list / dict / set displays, comprehensions -> H.mklist ...       (sequences of symbolic length)
  for / while                                -> while True with a cut point (H.loop)
  generator functions                        -> eager collection of the yielded values
  attribute and item stores / deletes        -> H.setattr / H.setitem (frame conditions)
  raise                                      -> marked as raised by the code
  decorators, default arguments, annotations, docstrings, class structure: unchanged.
Nothing is dropped except docstrings and annotations; laziness of generators is dropped (stated as an assumption)."""
import ast, os, sys, types, builtins

def assigned_names(stmts):
    out = []
    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in out:
                out.append(n.id)
        def visit_FunctionDef(self, n):
            if n.name not in out:
                out.append(n.name)
        def visit_Lambda(self, n): pass
        def visit_ListComp(self, n): pass
        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp
        def visit_ExceptHandler(self, n):
            self.generic_visit(n)
    for s in stmts:
        V().visit(s)
    return out

def has_yield(fn):
    class V(ast.NodeVisitor):
        found = False
        def visit_Yield(self, n): self.found = True
        visit_YieldFrom = visit_Yield
        def visit_FunctionDef(self, n): pass
        def visit_Lambda(self, n): pass
    v = V()
    for s in fn.body:
        v.visit(s)
    return v.found

def call(name, *args):
    return ast.Call(func=ast.Attribute(value=ast.Name('_H', ast.Load()), attr=name, ctx=ast.Load()), args=list(args), keywords=[])
def lam(body, *params, star=None):
    return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(p) for p in params], kwonlyargs=[], kw_defaults=[], defaults=[]), body=body)
K = ast.Constant
def N(n, ctx=None):
    return ast.Name(n, ctx or ast.Load())

class Tr(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []        # qualname parts
        self.fn = 0
        self.loops = []
        self.cnt = 0
        self.gen = []
        self.infn = 0
    # -------- scopes
    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        loops, self.loops = self.loops, []
        infn, self.infn = self.infn, 0
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.body = self.body(n.body)
        self.loops = loops
        self.infn = infn
        self.stack.pop()
        return n
    def body(self, stmts):
        out = []
        for i, s in enumerate(stmts):
            if i == 0 and isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, str):
                out.append(ast.copy_location(ast.Pass(), s))
                continue
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out or [ast.Pass()]
    def visit_FunctionDef(self, n):
        self.stack.append(n.name)
        loops, self.loops = self.loops, []
        n.returns = None
        for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs:
            a.annotation = None
        self.infn += 1
        n.args.defaults = [self.visit(d) for d in n.args.defaults]
        isgen = has_yield(n)
        self.gen.append(isgen)
        n.body = self.body(n.body)
        if isgen:
            n.body = [ast.Assign(targets=[N('_out', ast.Store())], value=call('genlist'))] + n.body + [ast.Return(value=call('genend', N('_out')))]
        self.gen.pop()
        qual = '.'.join(self.stack)
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.decorator_list = n.decorator_list + [call('fn', K(self.mod + ':' + qual))]
        self.infn -= 1
        self.loops = loops
        self.stack.pop()
        return n
    def visit_Lambda(self, n):
        self.infn += 1
        n = self.generic_visit(n)
        self.infn -= 1
        return n
    # -------- truth
    def truth(self, e):
        return call('truth', e)
    def visit_If(self, n):
        n.test = self.truth(self.visit(n.test))
        n.body = self.body(n.body)
        n.orelse = self.body(n.orelse) if n.orelse else []
        return n
    def visit_IfExp(self, n):
        self.generic_visit(n)
        n.test = self.truth(n.test)
        return n
    def visit_Assert(self, n):
        self.generic_visit(n)
        return ast.Expr(call('assert_', n.test))
    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Not):
            return call('not_', n.operand)
        return n
    def visit_BoolOp(self, n):
        self.generic_visit(n)
        e = n.values[-1]
        for v in reversed(n.values[:-1]):
            e = call('and_' if isinstance(n.op, ast.And) else 'or_', v, lam(e))
        return e
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1:
            return self.cmp(n.left, n.ops[0], n.comparators[0])
        if any(isinstance(o, (ast.Is, ast.IsNot, ast.In, ast.NotIn)) for o in n.ops):
            raise SyntaxError('chained identity comparison')
        # a < b < c with operands evaluated once
        return ast.Call(func=lam(self.chain([N('_c%d' % i) for i in range(len(n.ops) + 1)], n.ops), *['_c%d' % i for i in range(len(n.ops) + 1)]), args=[n.left] + n.comparators, keywords=[])
    def chain(self, xs, ops):
        e = ast.Compare(left=xs[-2], ops=[ops[-1]], comparators=[xs[-1]])
        for i in range(len(ops) - 2, -1, -1):
            e = call('and_', ast.Compare(left=xs[i], ops=[ops[i]], comparators=[xs[i + 1]]), lam(e))
        return e
    def cmp(self, a, op, b):
        if isinstance(op, ast.Is):
            return call('is_', a, b)
        if isinstance(op, ast.IsNot):
            return call('isnot', a, b)
        if isinstance(op, ast.In):
            return call('contains', b, a)
        if isinstance(op, ast.NotIn):
            return call('notcontains', b, a)
        return ast.Compare(left=a, ops=[op], comparators=[b])
    def visit_Call(self, n):
        self.generic_visit(n)
        st = [a for a in n.args if isinstance(a, ast.Starred)]
        if self.infn and len(st) == 1 and n.args[-1] is st[0] and not n.keywords:
            return call('callstar', n.func, ast.Tuple(n.args[:-1], ast.Load()), st[0].value)
        return n
    # -------- displays and comprehensions
    def visit_List(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and self.infn:
            return call('mklist', n)
        return n
    def visit_Dict(self, n):
        self.generic_visit(n)
        return call('mkdict', n) if self.infn else n
    def visit_Set(self, n):
        self.generic_visit(n)
        return call('mkset', n) if self.infn else n
    def comp(self, n, kind, elt):
        if self.infn and len(n.generators) == 2 and kind in ('gen', 'list') and not any(g.is_async for g in n.generators) and not n.generators[0].ifs and isinstance(n.generators[0].target, ast.Name):
            g0 = n.generators[0]
            it0 = self.visit(g0.iter)
            inner = self.comp(ast.GeneratorExp(elt=n.elt, generators=n.generators[1:]), 'gen', elt)
            return call('comp2', K(kind), it0, lam(inner, g0.target.id))
        if not self.infn or len(n.generators) != 1 or n.generators[0].is_async:
            self.generic_visit(n)
            return n
        g = n.generators[0]
        it = self.visit(g.iter)
        cond = K(True)
        ifs = [self.visit(i) for i in g.ifs]
        if ifs:
            cond = ifs[-1]
            for i in reversed(ifs[:-1]):
                cond = call('and_', i, lam(cond))
            cond = self.truth(cond)
        elts = [self.visit(e) for e in elt]
        e = elts[0] if len(elts) == 1 else ast.Tuple(elts=elts, ctx=ast.Load())
        def mk(body):
            if isinstance(g.target, ast.Name):
                return lam(body, g.target.id)
            if isinstance(g.target, (ast.Tuple, ast.List)) and all(isinstance(t, ast.Name) for t in g.target.elts):
                names, seen = [], set()
                for k, t in enumerate(g.target.elts):
                    nm = t.id if t.id not in seen else t.id + '__d%d' % k
                    seen.add(t.id)
                    names.append(nm)
                if len(names) != len(seen):      # duplicate targets such as _, _: the last one wins
                    last = {}
                    for k, t in enumerate(g.target.elts):
                        last[t.id] = k
                    names = [t.id if last[t.id] == k else '%s__d%d' % (t.id, k) for k, t in enumerate(g.target.elts)]
                inner = lam(body, *names)
                return lam(ast.Call(func=inner, args=[ast.Starred(call('unpack', N('_t'), K(len(names))), ast.Load())], keywords=[]), '_t')
            raise SyntaxError('comprehension target')
        return call('comp', K(kind), it, mk(e), mk(cond) if ifs else K(None))
    def visit_ListComp(self, n): return self.comp(n, 'list', [n.elt])
    def visit_SetComp(self, n): return self.comp(n, 'set', [n.elt])
    def visit_GeneratorExp(self, n): return self.comp(n, 'gen', [n.elt])
    def visit_DictComp(self, n): return self.comp(n, 'dict', [n.key, n.value])
    # -------- generators
    def visit_Yield(self, n):
        self.generic_visit(n)
        return call('yield_', N('_out'), n.value or K(None))
    def visit_YieldFrom(self, n):
        self.generic_visit(n)
        return call('yieldfrom', N('_out'), n.value)
    def visit_Return(self, n):
        self.generic_visit(n)
        if self.gen and self.gen[-1]:
            v = call('genend', N('_out'))
        else:
            v = n.value or K(None)
        for l in reversed(self.loops):
            v = call('leave', N(l), v)
        n.value = v
        return n
    # -------- stores
    def visit_Assign(self, n):
        n.value = self.visit(n.value)
        if all(isinstance(t, ast.Name) for t in n.targets):
            return n
        self.cnt += 1
        tmp = '_v%d' % self.cnt
        out = [ast.Assign(targets=[N(tmp, ast.Store())], value=n.value)]
        for t in n.targets:
            out += self.store(t, N(tmp))
        return [ast.copy_location(s, n) for s in out]
    def store(self, t, v):
        if isinstance(t, ast.Name):
            return [ast.Assign(targets=[t], value=v)]
        if isinstance(t, ast.Attribute):
            return [ast.Expr(call('setattr', self.visit(t.value), K(t.attr), v))]
        if isinstance(t, ast.Subscript):
            return [ast.Expr(call('setitem', self.visit(t.value), self.visit(t.slice), v))]
        if isinstance(t, (ast.Tuple, ast.List)):
            out = []
            self.cnt += 1
            tmp = '_v%d' % self.cnt
            if any(isinstance(e, ast.Starred) for e in t.elts):
                return [ast.Assign(targets=[t], value=v)]
            out.append(ast.Assign(targets=[N(tmp, ast.Store())], value=call('unpack', v, K(len(t.elts)))))
            for i, e in enumerate(t.elts):
                out += self.store(e, ast.Subscript(value=N(tmp), slice=K(i), ctx=ast.Load()))
            return out
        raise SyntaxError('assignment target')
    def visit_AugAssign(self, n):
        v = self.visit(n.value)
        if isinstance(n.target, ast.Name):
            n.value = v
            return n
        self.cnt += 1
        o, k = '_o%d' % self.cnt, '_k%d' % self.cnt
        if isinstance(n.target, ast.Attribute):
            return [ast.Assign(targets=[N(o, ast.Store())], value=self.visit(n.target.value)),
                    ast.Expr(call('setattr', N(o), K(n.target.attr), ast.BinOp(left=ast.Attribute(value=N(o), attr=n.target.attr, ctx=ast.Load()), op=n.op, right=v)))]
        return [ast.Assign(targets=[N(o, ast.Store())], value=self.visit(n.target.value)),
                ast.Assign(targets=[N(k, ast.Store())], value=self.visit(n.target.slice)),
                ast.Expr(call('setitem', N(o), N(k), ast.BinOp(left=call('getitem', N(o), N(k)), op=n.op, right=v)))]
    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and self.infn:
            return call('getitem', n.value, n.slice)
        return n
    def visit_Slice(self, n):
        self.generic_visit(n)
        return ast.Call(func=N('slice'), args=[n.lower or K(None), n.upper or K(None), n.step or K(None)], keywords=[])
    def visit_Delete(self, n):
        out = []
        for t in n.targets:
            if isinstance(t, ast.Subscript):
                out.append(ast.Expr(call('delitem', self.visit(t.value), self.visit(t.slice))))
            elif isinstance(t, ast.Attribute):
                out.append(ast.Expr(call('delattr', self.visit(t.value), K(t.attr))))
            else:
                out.append(ast.Delete(targets=[t]))
        return out
    def visit_Raise(self, n):
        self.generic_visit(n)
        if n.exc is not None:
            n.exc = call('raised', n.exc)
        return n
    # -------- loops
    def loop(self, n, names):
        self.cnt += 1
        l = '_L%d' % self.cnt
        qual = self.mod + ':' + '.'.join(self.stack)
        enter = ast.Assign(targets=[N(l, ast.Store())], value=call('loop', K(qual), K(n.lineno), ast.Tuple([K(x) for x in names], ast.Load()), ast.Call(func=N('_locals'), args=[], keywords=[])))
        head = []
        hv = '_h%d' % self.cnt
        head.append(ast.Assign(targets=[N(hv, ast.Store())], value=call('head', N(l), ast.Call(func=N('_locals'), args=[], keywords=[]))))
        for i, x in enumerate(names):
            head.append(ast.Assign(targets=[N(x, ast.Store())], value=ast.Subscript(value=N(hv), slice=K(i), ctx=ast.Load())))
        return l, enter, head
    def visit_While(self, n):
        if not self.infn:
            return self.generic_visit(n)
        names = assigned_names(n.body)
        if self.gen and self.gen[-1] and '_out' not in names:
            pass
        l, enter, head = self.loop(n, names)
        tn = sorted({x.id for x in ast.walk(n.test) if isinstance(x, ast.Name)})
        enter.value.keywords.append(ast.keyword('tnames', ast.Tuple([K(x) for x in tn], ast.Load())))
        test = self.truth(self.visit(n.test))
        self.loops.append(l)
        body = self.body(n.body)
        self.loops.pop()
        orelse = self.body(n.orelse) if n.orelse else []
        w = ast.While(test=K(True), body=head + [ast.If(test=call('not_', call('wtest', N(l), lam(test))), body=orelse + [ast.Break()], orelse=[])] + body, orelse=[])
        return [ast.copy_location(s, n) for s in (enter, w, ast.Expr(call('left', N(l))))]
    def visit_For(self, n):
        if not self.infn:
            return self.generic_visit(n)
        names = assigned_names([n.target] + n.body)
        self.cnt += 1
        it, nx = '_it%d' % self.cnt, '_nx%d' % self.cnt
        mk = ast.Assign(targets=[N(it, ast.Store())], value=call('iter', self.visit(n.iter)))
        l, enter, head = self.loop(n, names)
        enter.value.args.append(N(it))
        enter.value.keywords.append(ast.keyword('targets', ast.Tuple([K(x) for x in assigned_names([n.target])], ast.Load())))
        self.loops.append(l)
        st = self.store(n.target, ast.Subscript(value=N(nx), slice=K(0), ctx=ast.Load()))
        body = self.body(n.body)
        self.loops.pop()
        orelse = self.body(n.orelse) if n.orelse else []
        w = ast.While(test=K(True), body=head + [ast.Assign(targets=[N(nx, ast.Store())], value=call('next', N(it))),
                      ast.If(test=ast.Compare(left=N(nx), ops=[ast.Is()], comparators=[K(None)]), body=orelse + [ast.Break()], orelse=[])] + st + body, orelse=[])
        return [ast.copy_location(s, n) for s in (mk, enter, w, ast.Expr(call('left', N(l))))]
    def visit_AnnAssign(self, n):
        self.generic_visit(n)
        return n
    def visit_JoinedStr(self, n):
        return K('<fstring>')

def load_package(repo, H, replace=None):
    """Fresh copy of the pyrsistent package under the transformed semantics. replace: {module: {name: object}} assumed contracts"""
    pkg = types.ModuleType('pyrsistent')
    pkg.__path__ = []
    mods = {}
    src = os.path.join(repo, 'pyrsistent')
    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        full = name
        if level:
            full = 'pyrsistent' + ('.' + name if name else '')
        if full == 'pyrsistent' or full.startswith('pyrsistent.'):
            m = pkg if full == 'pyrsistent' else get(full.split('.')[1])
            if fromlist:
                for f in fromlist or ():
                    if not hasattr(m, f) and m is pkg and os.path.exists(os.path.join(src, f + '.py')):
                        setattr(pkg, f, get(f))
                return m
            return pkg
        if full == 'pvectorc':
            raise ImportError(full)
        m = H.import_module(full)
        if m is not None:
            return m
        return builtins.__import__(name, globals, locals, fromlist, level)
    bi = dict(vars(builtins))
    bi.update(H.builtins())
    bi['__import__'] = imp
    bi['_locals'] = builtins.locals
    def get(short):
        if short in mods:
            return mods[short]
        m = types.ModuleType('pyrsistent.' + short)
        mods[short] = m
        p = os.path.join(src, short + '.py')
        tree = ast.parse(open(p).read(), p)
        rep = (replace or {}).get(short) or {}
        for st in list(tree.body):          # imported names that are replaced by contracts
            if isinstance(st, ast.ImportFrom):
                st.names = [a for a in st.names if (a.asname or a.name) not in rep]
                if not st.names:
                    tree.body.remove(st)
        tree = ast.fix_missing_locations(Tr(short).visit(tree))
        m.__dict__['__builtins__'] = bi
        m.__dict__['_H'] = H
        m.__file__ = p
        m.__package__ = 'pyrsistent'
        for k, v in ((replace or {}).get(short) or {}).items():
            m.__dict__[k] = v
        exec(compile(tree, p, 'exec'), m.__dict__)
        for k, v in ((replace or {}).get(short) or {}).items():
            m.__dict__[k] = v
        setattr(pkg, short, m)
        return m
    return get
