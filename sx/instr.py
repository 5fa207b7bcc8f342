"""Load the repository's Python modules from their current source, with every operation that CPython does not dispatch
to operand methods routed through the executor (calls, subscripts, identity/containment tests, boolean connectives,
conditional expressions, f-strings, simple assignments under `if`)."""
import ast
import builtins
import os
import sys
import types

from . import core, models

PREFIX = '_sx_'


def name(n, ctx=None):
    return ast.Name(id=n, ctx=ctx or ast.Load())


def call(fn, *args):
    return ast.Call(func=name(PREFIX + fn), args=list(args), keywords=[])


def lam(body):
    return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=body)


def has(node, *types_):
    return any(isinstance(n, types_) for n in ast.walk(node))


def pure_stmts(body):
    """Statements we may run speculatively for both outcomes: assignments to plain local names, pass, nested ifs.
    (Calls inside are vetted at run time: a side effect aborts the speculation before it happens.)"""
    for s in body:
        if isinstance(s, ast.Assign):
            if not all(isinstance(t, ast.Name) for t in s.targets):
                return False
        elif isinstance(s, ast.AugAssign):
            if not isinstance(s.target, ast.Name):
                return False
        elif isinstance(s, ast.AnnAssign):
            if not isinstance(s.target, ast.Name) or s.value is None:
                return False
        elif isinstance(s, ast.Pass):
            pass
        elif isinstance(s, ast.If):
            if not pure_stmts(s.body) or not pure_stmts(s.orelse):
                return False
        else:
            return False
        if has(s, ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await, ast.Lambda):
            return False
    return True


def targets(body):
    out = []
    for s in body:
        if isinstance(s, ast.Assign):
            out += [t.id for t in s.targets]
        elif isinstance(s, (ast.AugAssign, ast.AnnAssign)):
            out.append(s.target.id)
        elif isinstance(s, ast.If):
            out += targets(s.body) + targets(s.orelse)
    return list(dict.fromkeys(out))


class Rewriter(ast.NodeTransformer):
    def __init__(self):
        self.fn = []            # stack: 'f' function, 'c' class, 'm' module
        self.globals = [set()]
        self.n = 0

    def fresh(self, p):
        self.n += 1
        return f'{PREFIX}{p}{self.n}'

    # scopes
    def visit_Module(self, node):
        self.fn.append('m')
        self.generic_visit(node)
        self.fn.pop()
        return node

    def visit_ClassDef(self, node):
        self.fn.append('c')
        node.bases = [self.visit(b) for b in node.bases]
        node.decorator_list = [self.visit(b) for b in node.decorator_list]
        node.body = self.body(node.body)
        self.fn.pop()
        return node

    def body(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if r is None:
                continue
            out.extend(r if isinstance(r, list) else [r])
        return out

    def visit_FunctionDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [self.visit(d) if d is not None else None for d in node.args.kw_defaults]
        node.returns = None
        for a in node.args.posonlyargs + node.args.args + node.args.kwonlyargs:
            a.annotation = None
        g = set()
        for n in ast.walk(node):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                g.update(n.names)
        self.fn.append('f')
        self.globals.append(g)
        node.body = self.body(node.body)
        self.globals.pop()
        self.fn.pop()
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Lambda(self, node):
        self.fn.append('f')
        self.globals.append(set())
        node.body = self.visit(node.body)
        self.globals.pop()
        self.fn.pop()
        return node

    def visit_AnnAssign(self, node):
        # annotations of locals are not evaluated; keep those of classes (dataclasses) untouched
        if self.fn[-1] == 'f':
            if node.value is None:
                return node
            return ast.copy_location(ast.Assign(targets=[self.visit(node.target)], value=self.visit(node.value)), node)
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    # expressions
    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in ('super', 'locals', 'globals', 'vars', 'dir'):
            self.generic_visit(node)
            return node
        f = self.visit(node.func)
        args = [self.visit(a) for a in node.args]
        kws = [ast.keyword(arg=k.arg, value=self.visit(k.value)) for k in node.keywords]
        return ast.copy_location(ast.Call(func=name(PREFIX + 'call'), args=[f] + args, keywords=kws), node)

    def visit_Subscript(self, node):
        v = self.visit(node.value)
        if self.has_star(node.slice):
            return node
        s = self.slice(node.slice)
        if isinstance(node.ctx, ast.Load):
            return ast.copy_location(call('getitem', v, s), node)
        node.value = v
        node.slice = self.visit(node.slice)
        return node

    def has_star(self, s):
        return isinstance(s, ast.Tuple) and any(isinstance(e, ast.Starred) for e in s.elts)

    def slice(self, s):
        if isinstance(s, ast.Slice):
            parts = [self.visit(p) if p is not None else ast.Constant(value=None) for p in (s.lower, s.upper, s.step)]
            return ast.Call(func=name(PREFIX + 'slice'), args=parts, keywords=[])
        return self.visit(s)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        pairs = ast.GeneratorExp(elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()), generators=node.generators)
        return ast.copy_location(call('dictcomp', pairs), node)

    def visit_Compare(self, node):
        left = self.visit(node.left)
        comps = [self.visit(c) for c in node.comparators]
        if len(comps) == 1:
            return ast.copy_location(self.cmp1(left, node.ops[0], comps[0]), node)
        # chained: a < b < c with b evaluated once
        if has(node, ast.NamedExpr, ast.Await, ast.Yield) or self.fn[-1] == 'c':
            node.left, node.comparators = left, comps
            return node
        names = [self.fresh('c') for _ in comps]
        ops = node.ops

        def build(i, l):
            # lambda ci: cmp(l, ci) and rest
            if i == len(comps) - 1:
                return self.cmp1(l, ops[i], comps[i])
            inner = call('and', self.cmp1(l, ops[i], name(names[i])), lam(build(i + 1, name(names[i]))))
            return ast.Call(func=ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=names[i])],
                                            kwonlyargs=[], kw_defaults=[], defaults=[]), body=inner),
                            args=[comps[i]], keywords=[])
        return ast.copy_location(build(0, left), node)

    def cmp1(self, l, op, r):
        if isinstance(op, ast.In):
            return call('in', l, r)
        if isinstance(op, ast.NotIn):
            return call('not', call('in', l, r))
        if isinstance(op, ast.Is):
            return call('is', l, r)
        if isinstance(op, ast.IsNot):
            return call('not', call('is', l, r))
        if isinstance(op, ast.Eq):
            return call('eq', l, r)
        if isinstance(op, ast.NotEq):
            return call('not', call('eq', l, r)) if False else call('ne', l, r)
        return ast.Compare(left=l, ops=[op], comparators=[r])

    def visit_BoolOp(self, node):
        if has(node, ast.NamedExpr, ast.Await, ast.Yield, ast.YieldFrom) or self.fn[-1] == 'c':
            return self.generic_visit(node)
        vals = [self.visit(v) for v in node.values]
        fn = 'and' if isinstance(node.op, ast.And) else 'or'
        r = vals[-1]
        for v in vals[-2::-1]:
            r = call(fn, v, lam(r))
        return ast.copy_location(r, node)

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return ast.copy_location(call('not', node.operand), node)
        return node

    def visit_IfExp(self, node):
        if has(node, ast.NamedExpr, ast.Await, ast.Yield, ast.YieldFrom) or self.fn[-1] == 'c':
            return self.generic_visit(node)
        t, a, b = self.visit(node.test), self.visit(node.body), self.visit(node.orelse)
        return ast.copy_location(call('ifexp', t, lam(a), lam(b)), node)

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant(value='')
                parts.append(ast.Tuple(elts=[self.visit(v.value), ast.Constant(value=v.conversion), spec],
                                       ctx=ast.Load()))
            else:
                parts.append(v)
        return ast.copy_location(ast.Call(func=name(PREFIX + 'fstr'), args=parts, keywords=[]), node)

    # statements
    def visit_Assign(self, node):
        node.value = self.visit(node.value)
        if len(node.targets) == 1:
            t = node.targets[0]
            r = self.store(t, node.value)
            if r is not None:
                return ast.copy_location(r, node)
        node.targets = [self.visit(t) for t in node.targets]
        return node

    def store(self, t, value):
        if isinstance(t, ast.Subscript) and not self.has_star(t.slice):
            return ast.Expr(value=call('setitem', self.visit(t.value), self.slice(t.slice), value))
        if isinstance(t, ast.Attribute) and not (t.attr.startswith('__') and not t.attr.endswith('__')):
            return ast.Expr(value=call('setattr', self.visit(t.value), ast.Constant(value=t.attr), value))
        return None

    def visit_AugAssign(self, node):
        node.value = self.visit(node.value)
        op = ast.Constant(value=type(node.op).__name__)
        t = node.target
        if isinstance(t, ast.Subscript) and not self.has_star(t.slice):
            return ast.copy_location(ast.Expr(value=call('augitem', self.visit(t.value), self.slice(t.slice), op,
                                                         node.value)), node)
        if isinstance(t, ast.Attribute):
            return ast.copy_location(ast.Expr(value=call('augattr', self.visit(t.value), ast.Constant(value=t.attr), op,
                                                         node.value)), node)
        if isinstance(t, ast.Name):
            return ast.copy_location(ast.Assign(targets=[t], value=call('aug', name(t.id), op, node.value)), node)
        node.target = self.visit(t)
        return node

    def visit_Delete(self, node):
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript):
                out.append(ast.Expr(value=call('delitem', self.visit(t.value), self.slice(t.slice))))
            else:
                out.append(ast.Delete(targets=[t]))
        return [ast.copy_location(o, node) for o in out]

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        if node.type is None:
            node.type = ast.Tuple(elts=[name('Exception'), name('SystemExit'), name('KeyboardInterrupt'),
                                        name('GeneratorExit')], ctx=ast.Load())
        else:
            node.type = ast.Call(func=name(PREFIX + 'exctypes'), args=[node.type], keywords=[])
        return node

    def visit_If(self, node):
        if self.fn[-1] == 'f' and pure_stmts(node.body) and pure_stmts(node.orelse) \
                and not (set(targets(node.body) + targets(node.orelse)) & self.globals[-1]):
            vs = targets(node.body) + targets(node.orelse)
            vs = list(dict.fromkeys(vs))
            if vs and not has(node.test, ast.NamedExpr):
                return self.merge_if(node, vs)
        node.test = self.visit(node.test)
        node.body = self.body(node.body)
        node.orelse = self.body(node.orelse)
        return node

    def merge_if(self, node, vs):
        """c = test
           if is_sym(c):
               for branch in merge_branches(c):      # yields 1 (then, speculative), 0 (else, speculative), or a
                   restore                           # single real branch when speculation is not possible
                   ...
        """
        c = self.fresh('t')
        ctl = self.fresh('m')
        import copy
        body2, orelse2 = copy.deepcopy(node.body), copy.deepcopy(node.orelse)
        plain = ast.If(test=call('isplain', name(c)), body=[ast.If(test=name(c), body=self.body(node.body),
                                                                   orelse=self.body(node.orelse))], orelse=[])
        # symbolic: speculative execution
        pre = self.fresh('p')
        snap = ast.Assign(targets=[name(pre, ast.Store())],
                          value=ast.Tuple(elts=[self.getlocal(v) for v in vs], ctx=ast.Load()))
        restore = [ast.Assign(targets=[ast.Tuple(elts=[name(v, ast.Store()) for v in vs], ctx=ast.Store())],
                              value=name(pre))]
        vals = ast.Tuple(elts=[name(v) for v in vs], ctx=ast.Load())
        # while ctl.next(): restore; if ctl.then: body else: orelse; ctl.done((vals))
        b1, b2 = self.body(body2), self.body(orelse2)
        import copy as cp
        loop = ast.While(
            test=ast.Call(func=ast.Attribute(value=name(ctl), attr='next', ctx=ast.Load()), args=[], keywords=[]),
            body=cp.deepcopy(restore) + [
                ast.Try(
                    body=[ast.If(test=ast.Attribute(value=name(ctl), attr='then', ctx=ast.Load()),
                                 body=b1 or [ast.Pass()], orelse=b2),
                          ast.Expr(value=ast.Call(func=ast.Attribute(value=name(ctl), attr='done', ctx=ast.Load()),
                                                  args=[vals], keywords=[]))],
                    handlers=[ast.ExceptHandler(type=name(PREFIX + 'Catch'), name=PREFIX + 'e', body=[
                        ast.Expr(value=ast.Call(func=ast.Attribute(value=name(ctl), attr='fail', ctx=ast.Load()),
                                                args=[name(PREFIX + 'e')], keywords=[]))])],
                    orelse=[], finalbody=[]),
            ], orelse=[])
        fin = ast.Assign(targets=[ast.Tuple(elts=[name(v, ast.Store()) for v in vs], ctx=ast.Store())],
                         value=ast.Attribute(value=name(ctl), attr='vals', ctx=ast.Load()))
        clean = [ast.If(test=call('isunbound', name(v)), body=[ast.Delete(targets=[name(v, ast.Del())])], orelse=[])
                 for v in vs]
        plain.orelse = [
            snap,
            ast.Assign(targets=[name(ctl, ast.Store())], value=call('merger', name(c))),
            loop, fin] + clean
        first = ast.Assign(targets=[name(c, ast.Store())], value=self.visit(node.test))
        out = [first, plain]
        for o in out:
            ast.copy_location(o, node)
        return out

    def getlocal(self, v):
        # value of a possibly unbound local: (locals().get(v, UNBOUND))
        return ast.Call(func=ast.Attribute(value=ast.Call(func=name('locals'), args=[], keywords=[]), attr='get',
                                           ctx=ast.Load()),
                        args=[ast.Constant(value=v), name(PREFIX + 'UNBOUND')], keywords=[])


def transform(src, filename):
    tree = ast.parse(src, filename)
    # drop `from __future__`-independent docstrings: nothing to do
    tree = Rewriter().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec', dont_inherit=True)


class Loader:
    """Instrumented copies of the package's modules, kept apart from any natively imported ones."""

    def __init__(self, root, package, stubs=None):
        self.root = root
        self.package = package
        self.mods = {}
        self.stubs = stubs or {}
        self.source = {}
        self.extra = {}

    def compile(self, m, src, path):
        models.install(m.__dict__)
        return transform(src, path)

    def find(self, fullname):
        p = os.path.join(self.root, *fullname.split('.'))
        if os.path.isfile(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py'), True
        if os.path.isfile(p + '.py'):
            return p + '.py', False
        return None

    def load(self, fullname):
        if fullname in self.mods:
            return self.mods[fullname]
        parent = fullname.rpartition('.')[0]
        if parent:
            self.load(parent)
            if fullname in self.mods:
                return self.mods[fullname]
        f = self.find(fullname)
        if f is None:
            raise ModuleNotFoundError(f'No module named {fullname!r}', name=fullname)
        path, ispkg = f
        m = types.ModuleType(fullname)
        m.__file__ = path
        m.__package__ = fullname if ispkg else parent
        if ispkg:
            m.__path__ = [os.path.dirname(path)]
        self.mods[fullname] = m
        with open(path, encoding='utf-8') as fh:
            src = fh.read()
        self.source[fullname] = src
        b = dict(builtins.__dict__)
        b['__import__'] = self.imp
        m.__dict__['__builtins__'] = b
        code = self.compile(m, src, path)
        m.__dict__.update(self.extra.get(fullname, {}))
        had = sys.modules.get(fullname)
        sys.modules[fullname] = m       # dataclasses look their module up
        try:
            exec(code, m.__dict__)
        finally:
            if had is None:
                del sys.modules[fullname]
            else:
                sys.modules[fullname] = had
        if parent:
            setattr(self.mods[parent], fullname.rpartition('.')[2], m)
        return m

    def imp(self, name_, globals=None, locals=None, fromlist=(), level=0):
        if level:
            base = globals['__package__'].split('.')
            if level > 1:
                base = base[:-(level - 1)]
            name_ = '.'.join(base + ([name_] if name_ else []))
        top = name_.partition('.')[0]
        if top == self.package:
            m = self.load(name_)
            if not fromlist:
                return self.mods[top]
            for x in fromlist:
                if x != '*' and not hasattr(m, x):
                    try:
                        self.load(name_ + '.' + x)
                    except ModuleNotFoundError:
                        pass
            return m
        if top in self.stubs:
            m = self.stubs[top]
            if m is None:
                raise ModuleNotFoundError(f'No module named {name_!r}', name=name_)
            if not fromlist:
                return m
            for part in name_.split('.')[1:]:
                m = getattr(m, part)
            return m
        return __import__(name_, globals, locals, fromlist, level)


class PlainLoader(Loader):
    """The package as it is, with some imports answered by stand-ins (for replaying on the real code)."""

    def compile(self, m, src, path):
        return compile(src, path, 'exec', dont_inherit=True)
