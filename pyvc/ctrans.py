"""Mechanical extraction of pvectorcmodule.c: clang's typed AST (macros expanded by clang) of /repo's current file is rewritten on
every run, node by node, into Python functions that the engine executes.  What the rewriting does, and all it does:
  integer arithmetic          -> mathematical integers; a conversion to an unsigned type carries an obligation (the value fits)
  p->f, (*p).f, p[i]          -> _C.deref(p).f, _C.at(p, i)   (obligation: p is not NULL, the index is inside the array)
  a variable whose address is taken -> a cell
  pointer casts, qualifiers, storage classes, debug output: dropped
  for/while/do/switch/if/?:, calls, assignments: the same statement
A function that uses anything else is not extracted (Unsupported when it is called)."""
import re, json, subprocess, ast, sysconfig, types, builtins, os, sys
import load

class Skip(Exception):
    pass

def dump(repo):
    inc = subprocess.run(['/opt/venv/bin/python', '-c', 'import sysconfig;print(sysconfig.get_path("include"))'], capture_output=True, text=True, check=True).stdout.strip()
    r = subprocess.run(['clang', '-w', '-DNDEBUG', '-Xclang', '-ast-dump=json', '-fsyntax-only', '-I', inc, os.path.join(repo, 'pvectorcmodule.c')], capture_output=True, text=True)
    if r.returncode:
        raise Skip('clang: ' + r.stderr[:500])
    return json.loads(r.stdout)

def in_main(d):
    loc = d.get('loc') or {}
    for k in ('expansionLoc', 'spellingLoc'):
        if k in loc:
            return 'includedFrom' not in loc['expansionLoc'] and 'includedFrom' not in loc.get('expansionLoc', {})
    return bool(loc) and 'includedFrom' not in loc

SIZES = {'void *': 8, 'PyObject *': 8, 'VNode *': 8}
KW = {'None', 'True', 'False', 'is', 'in', 'not', 'and', 'or', 'pass', 'def', 'class', 'from', 'lambda', 'del', 'with', 'yield', 'raise', 'try', 'global', 'as', 'assert', 'except', 'finally', 'import', 'nonlocal', 'elif', 'async', 'await', 'str', 'len', 'slice'}
def nm(x):
    return x + '_' if x in KW else x

class Fun:
    """one C function -> Python source"""
    def __init__(self, d, mod):
        self.d, self.mod = d, mod
        self.cells = set()
        self.ids = {}
        self.names = {}
        self.globals = set()
        self.tmp = 0
        self.loops = []
    def kids(self, n):
        return n.get('inner') or []
    def scan(self, n):
        if n.get('kind') == 'UnaryOperator' and n.get('opcode') == '&':
            x = self.strip(self.kids(n)[0])
            if x.get('kind') == 'DeclRefExpr' and x['referencedDecl']['kind'] in ('VarDecl', 'ParmVarDecl') and x['referencedDecl']['id'] in self.local:
                self.cells.add(x['referencedDecl']['id'])
        for k in self.kids(n):
            if isinstance(k, dict):
                self.scan(k)
    def locals_(self, n):
        if n.get('kind') in ('VarDecl', 'ParmVarDecl'):
            self.local.add(n['id'])
            base = nm(n['name'])
            x, i = base, 1
            while x in self.names.values():
                i += 1
                x = '%s_%d' % (base, i)
            self.names[n['id']] = x
        for k in self.kids(n):
            if isinstance(k, dict):
                self.locals_(k)
    def strip(self, n):
        while n.get('kind') in ('ParenExpr', 'ImplicitCastExpr', 'CStyleCastExpr'):
            n = self.kids(n)[-1]
        return n
    def source(self):
        d = self.d
        self.local = set()
        self.locals_(d)
        self.scan(d)
        ps = [p for p in self.kids(d) if p['kind'] == 'ParmVarDecl']
        body = [b for b in self.kids(d) if b['kind'] == 'CompoundStmt']
        out = []
        for p in ps:
            if p['id'] in self.cells:
                out.append('    %s = _C.cell(%s)' % (self.names[p['id']], self.names[p['id']]))
        out += self.block(body[0], 1)
        head = 'def %s(%s):' % (nm(d['name']), ', '.join(self.names[p['id']] for p in ps))
        g = ['    global %s' % ', '.join(sorted(self.globals))] if self.globals else []
        return '\n'.join([head] + g + (out or ['    pass'])) + '\n'
    # ---------------------------------------------------------------- statements
    def block(self, n, ind):
        out = []
        if n['kind'] == 'CompoundStmt':
            for k in self.kids(n):
                out += self.stmt(k, ind)
        else:
            out += self.stmt(n, ind)
        return out
    def stmt(self, n, ind):
        P = '    ' * ind
        k = n.get('kind')
        I = self.kids(n)
        if k == 'CompoundStmt':
            return self.block(n, ind)
        if k == 'NullStmt' or k is None:
            return []
        if k == 'DeclStmt':
            out = []
            for v in I:
                if v['kind'] != 'VarDecl' or v.get('storageClass') == 'static':
                    raise Skip('declaration')
                x = self.names[v['id']]
                init = [i for i in self.kids(v) if 'Attr' not in i['kind']]
                if v['id'] in self.cells:
                    out.append('%s%s = _C.cell(%s)' % (P, x, self.ex(init[-1]) if init else ''))
                elif init:
                    out.append('%s%s = %s' % (P, x, self.conv(v, init[-1])))
                else:
                    out.append('%s%s = _C.UNSET' % (P, x))
            return out
        if k == 'IfStmt':
            I = [i for i in I if i]
            out = ['%sif %s:' % (P, self.cond(I[0]))] + (self.block(I[1], ind + 1) or [P + '    pass'])
            if len(I) > 2:
                out += [P + 'else:'] + (self.block(I[2], ind + 1) or [P + '    pass'])
            return out
        if k == 'ReturnStmt':
            return ['%sreturn %s' % (P, self.ex(I[0]) if I else 'None')]
        if k == 'WhileStmt':
            self.loops.append(None)
            b = self.block(I[-1], ind + 1)
            self.loops.pop()
            return ['%swhile %s:' % (P, self.cond(I[0]))] + (b or [P + '    pass'])
        if k == 'DoStmt':
            z = self.strip(I[1])
            if z.get('kind') != 'IntegerLiteral' or z['value'] != '0' or self.has(I[0], ('ContinueStmt',)):
                raise Skip('do')
            if not self.has(I[0], ('BreakStmt',)):
                return self.block(I[0], ind)
            self.loops.append(None)
            b = self.block(I[0], ind + 1)
            self.loops.pop()
            return ['%sfor _once in _C.once:' % P] + (b or [P + '    pass'])
        if k == 'ForStmt':
            init, cond, inc, body = I[0], I[2], I[3], I[4]
            out = self.stmt(init, ind) if init.get('kind') else []
            step = self.stmt(inc, ind + 1) if inc.get('kind') else []
            self.loops.append(inc if inc.get('kind') else None)
            b = self.block(body, ind + 1)
            self.loops.pop()
            out.append('%swhile %s:' % (P, self.cond(cond) if cond.get('kind') else 'True'))
            return out + (b + step or [P + '    pass'])
        if k == 'BreakStmt':
            return [P + 'break']
        if k == 'ContinueStmt':
            inc = self.loops[-1] if self.loops else None
            return (self.stmt(inc, ind) if inc else []) + [P + 'continue']
        if k == 'SwitchStmt':
            return self.switch(I, ind)
        if k == 'StmtExpr':
            return self.block(I[0], ind)
        if k == 'ExprWithCleanups':
            return self.stmt(I[0], ind)
        return self.exstmt(n, ind)
    def has(self, n, kinds):
        return n.get('kind') in kinds or any(self.has(x, kinds) for x in self.kids(n) if isinstance(x, dict))
    def switch(self, I, ind):
        P = '    ' * ind
        self.tmp += 1
        t = '_s%d' % self.tmp
        out = ['%s%s = %s' % (P, t, self.ex(I[0]))]
        cases, curc = [], None
        def add(n):
            nonlocal curc
            if n['kind'] in ('CaseStmt', 'DefaultStmt'):
                if curc is not None and not curc[2] and curc[1]:
                    raise Skip('switch fall through')
                sub = self.kids(n)
                lab = None if n['kind'] == 'DefaultStmt' else self.ex(sub[0])
                if curc is not None and not curc[1]:
                    curc[0].append(lab)
                else:
                    curc = [[lab], [], False]
                    cases.append(curc)
                add(sub[-1])
            elif n['kind'] == 'BreakStmt':
                curc[2] = True
            else:
                if curc[2]:
                    raise Skip('switch')
                curc[1].append(n)
                if n['kind'] == 'ReturnStmt':
                    curc[2] = True
        for n in self.kids(I[-1]):
            add(n)
        first = True
        cases.sort(key=lambda c: None in c[0])
        for labs, body, _ in cases:
            test = 'True' if None in labs else ' or '.join('(%s == %s)' % (t, l) for l in labs)
            out.append('%s%s %s:' % (P, 'if' if first else 'elif', test))
            first = False
            b = []
            for s in body:
                if self.has(s, ('BreakStmt',)):
                    raise Skip('switch')
                b += self.stmt(s, ind + 1)
            out += b or [P + '    pass']
        return out
    def exstmt(self, n, ind):
        P = '    ' * ind
        n0 = n
        while n['kind'] in ('ParenExpr',) or n['kind'] in ('CStyleCastExpr', 'ImplicitCastExpr') and n.get('castKind') == 'ToVoid':
            n = self.kids(n)[-1]
        k = n['kind']
        I = self.kids(n)
        if k == 'BinaryOperator' and n['opcode'] == ',':
            return self.exstmt(I[0], ind) + self.exstmt(I[1], ind)
        if k == 'BinaryOperator' and n['opcode'] == '=':
            r = self.strip(I[1])
            if r.get('kind') == 'BinaryOperator' and r['opcode'] == '=':      # a = b = c
                return self.exstmt(r, ind) + self.assign(I[0], self.ex(self.kids(r)[0]), P)
            return self.assign(I[0], self.conv(I[0], I[1]), P)
        if k == 'CompoundAssignOperator':
            return self.assign(I[0], '(%s %s %s)' % (self.ex(I[0]), self.op(n['opcode'][:-1], I[0]), self.ex(I[1])), P)
        if k == 'UnaryOperator' and n['opcode'] in ('++', '--'):
            return self.assign(I[0], '(%s %s 1)' % (self.ex(I[0]), n['opcode'][0]), P)
        if k == 'ConditionalOperator':
            return ['%sif %s:' % (P, self.cond(I[0]))] + (self.exstmt(I[1], ind + 1) or [P + '    pass']) + [P + 'else:'] + (self.exstmt(I[2], ind + 1) or [P + '    pass'])
        e = self.ex(n)
        if e in ('None', '0'):
            return []
        return [P + e]
    def assign(self, l, v, P):
        l = self.strip_l(l)
        k = l['kind']
        I = self.kids(l)
        if k == 'DeclRefExpr':
            rd = l['referencedDecl']
            if rd['id'] in self.cells:
                return ['%s_C.put(%s, %s)' % (P, self.names[rd['id']], v)]
            if rd['id'] in self.local:
                return ['%s%s = %s' % (P, self.names[rd['id']], v)]
            self.globals.add(nm(rd['name']))
            return ['%s%s = %s' % (P, nm(rd['name']), v)]
        if k == 'MemberExpr':
            return ['%s%s.%s = %s' % (P, self.base(l), l['name'], v)]
        if k == 'ArraySubscriptExpr':
            return ['%s_C.store(%s, %s, %s)' % (P, self.ex(I[0]), self.ex(I[1]), v)]
        if k == 'UnaryOperator' and l['opcode'] == '*':
            return ['%s_C.put(%s, %s)' % (P, self.ex(I[0]), v)]
        raise Skip('assignment to ' + k)
    def strip_l(self, n):
        while n['kind'] == 'ParenExpr':
            n = self.kids(n)[0]
        return n
    # ---------------------------------------------------------------- expressions
    def cond(self, n):
        return '_C.nonnull(%s)' % self.ex(n) if '*' in self.tp(n) else self.ex(n)
    def tp(self, n):
        t = n.get('type') or {}
        return t.get('desugaredQualType') or t.get('qualType') or ''
    def conv(self, lhs, rhs):
        return self.ex(rhs)
    def op(self, o, l):
        return '//' if o == '/' else o
    def base(self, n):
        """object whose member is selected"""
        b = self.kids(n)[0]
        if n.get('isArrow'):
            return '_C.deref(%s)' % self.ex(b)
        return self.ex(b)
    def ex(self, n):
        k = n['kind']
        I = self.kids(n)
        if k in ('ParenExpr', 'ConstantExpr'):
            return self.ex(I[0])
        if k in ('ImplicitCastExpr', 'CStyleCastExpr'):
            ck = n.get('castKind')
            e = self.ex(I[-1])
            if ck == 'NullToPointer':
                return 'None'
            if ck in ('IntegralCast',):
                src, dst = self.tp(I[-1]), self.tp(n)
                if re.fullmatch(r'\(?-\d+\)?', e) and dst in ('unsigned long', 'unsigned int', 'unsigned long long'):
                    return str(int(e.strip('()')) % (1 << (32 if dst == 'unsigned int' else 64)))
                if dst in ('unsigned int',) and src not in ('unsigned int', 'unsigned char', 'unsigned short') and not e.lstrip('-').isdigit():
                    return '_C.u32(%s)' % e
                if dst == 'int' and src in ('long', 'unsigned long', 'unsigned int') and not e.lstrip('-').isdigit():
                    return '_C.i32(%s)' % e
                return e
            if ck in ('LValueToRValue', 'NoOp', 'BitCast', 'ArrayToPointerDecay', 'FunctionToPointerDecay', 'ToVoid', 'BuiltinFnToFnPtr'):
                return e
            if ck in ('IntegralToBoolean', 'PointerToBoolean'):
                return e
            raise Skip('cast ' + str(ck))
        if k == 'IntegerLiteral':
            return n['value']
        if k == 'CharacterLiteral':
            return str(n['value'])
        if k == 'StringLiteral':
            return repr(ast.literal_eval(n['value']) if n['value'].startswith('"') else n['value'])
        if k == 'DeclRefExpr':
            rd = n['referencedDecl']
            if rd['id'] in self.cells:
                return '%s.v' % self.names[rd['id']]
            if rd['id'] in self.local:
                return self.names[rd['id']]
            return nm(rd['name'])
        if k == 'MemberExpr':
            return '%s.%s' % (self.base(n), n['name'])
        if k == 'ArraySubscriptExpr':
            return '_C.at(%s, %s)' % (self.ex(I[0]), self.ex(I[1]))
        if k == 'CallExpr':
            return '%s(%s)' % (self.ex(I[0]), ', '.join(self.ex(a) for a in I[1:]))
        if k == 'UnaryOperator':
            o = n['opcode']
            if o == '&':
                x = self.strip(I[0])
                if x['kind'] == 'DeclRefExpr':
                    if x['referencedDecl']['id'] in self.cells:
                        return self.names[x['referencedDecl']['id']]
                    return nm(x['referencedDecl']['name'])
                raise Skip('address of ' + x['kind'])
            if o == '*':
                x = self.strip(I[0])
                if x['kind'] == 'UnaryOperator' and x['opcode'] == '&':
                    return self.ex(self.kids(x)[0])
                if '(' in self.tp(n) and ')' in self.tp(n):      # *f for a function pointer f
                    return self.ex(I[0])
                return '_C.get(%s)' % self.ex(I[0])
            if o == '!':
                return '_C.lnot(%s)' % self.cond(I[0])
            if o == '~':
                if self.tp(n) == 'unsigned int':
                    return '(4294967295 ^ %s)' % self.ex(I[0])
                return '(~%s)' % self.ex(I[0])
            if o in ('-', '+'):
                return '(%s%s)' % (o, self.ex(I[0]))
            if o == '__extension__':
                return self.ex(I[0])
            raise Skip('unary ' + o)
        if k == 'BinaryOperator':
            o = n['opcode']
            if o in ('&&', '||'):
                return '(%s %s %s)' % (self.cond(I[0]), 'and' if o == '&&' else 'or', self.cond(I[1]))
            if o == '=':
                return self.asex(I[0], self.ex(I[1]))
            if o == ',':
                return '_C.comma(%s, %s)' % (self.ex(I[0]), self.ex(I[1]))
            if o in ('==', '!='):
                a, b = I
                p = lambda x: '*' in self.tp(x)
                if p(a) or p(b):
                    return '_C.%s(%s, %s)' % ('same' if o == '==' else 'differ', self.ex(a), self.ex(b))
                return '_C.%s(%s, %s)' % ('eq' if o == '==' else 'ne', self.ex(a), self.ex(b))
            a, b = self.ex(I[0]), self.ex(I[1])
            if o == '*':
                return '_C.mul(%s, %s)' % (a, b)
            if o == '/':
                return '_C.div(%s, %s)' % (a, b)
            if o == '%':
                return '_C.mod(%s, %s)' % (a, b)
            e = '(%s %s %s)' % (a, o, b)
            if o == '-' and self.tp(n) == 'unsigned int':
                return '_C.usub(%s, %s)' % (a, b)
            if o in ('*', '-') and 'unsigned' in self.tp(n) and self.tp(n) != 'unsigned int':
                return e
            return e
        if k == 'ConditionalOperator':
            return '(%s if %s else %s)' % (self.ex(I[1]), self.cond(I[0]), self.ex(I[2]))
        if k == 'UnaryExprOrTypeTraitExpr' and n.get('name') == 'sizeof':
            t = (n.get('argType') or {}).get('qualType') or (I and self.tp(I[0]))
            return '_C.sizeof(%r)' % t
        if k == 'StmtExpr':
            raise Skip('statement expression')
        raise Skip('expression ' + str(k))
    def asex(self, l, v):
        l = self.strip_l(l)
        if l['kind'] == 'DeclRefExpr' and l['referencedDecl']['id'] in self.cells:
            return '_C.put(%s, %s)' % (self.names[l['referencedDecl']['id']], v)
        if l['kind'] == 'UnaryOperator' and l['opcode'] == '*':
            x = self.strip(self.kids(l)[0])
            if x['kind'] == 'UnaryOperator' and x['opcode'] == '&':
                return self.asex(self.kids(x)[0], v)
            return '_C.put(%s, %s)' % (self.ex(self.kids(l)[0]), v)
        raise Skip('assignment inside an expression')

CACHE = {}
def extract(repo):
    """{name: source} of all functions defined in pvectorcmodule.c, {name: reason} of those outside the subset"""
    if repo not in CACHE:
        CACHE[repo] = extract_(repo)
    return CACHE[repo]
def extract_(repo):
    d = dump(repo)
    src, bad = {}, {}
    for x in d['inner']:
        if x['kind'] != 'FunctionDecl' or not in_main(x):
            continue
        if not any(b['kind'] == 'CompoundStmt' for b in x.get('inner') or []):
            continue
        try:
            src[x['name']] = Fun(x, 'pvectorc').source()
        except Skip as e:
            bad[x['name']] = str(e)
    return src, bad

def load_c(repo, H, env):
    """namespace with the extracted functions under the engine's semantics; env: C API contracts by name"""
    from core import Unsupported
    src, bad = extract(repo)
    text = '\n'.join(src[k] for k in src)
    tree = ast.parse(text)
    tree = ast.fix_missing_locations(load.Tr('pvectorc').visit(tree))
    bi = dict(vars(builtins))
    bi.update(H.builtins())
    bi['_locals'] = builtins.locals
    ns = dict(env)
    ns['__builtins__'] = bi
    ns['_H'] = H
    exec(compile(tree, 'pvectorcmodule.c', 'exec'), ns)
    for k, why in bad.items():
        def un(*a, _k=k, _w=why):
            raise Unsupported('%s is outside the extracted subset of C: %s' % (_k, _w))
        ns[k] = H.fn('pvectorc:' + k)(un)
    return ns, src, bad

if __name__ == '__main__':
    s, b = extract(sys.argv[1] if len(sys.argv) > 1 else '/repo')
    for k, v in s.items():
        print(v)
    print(b)
