"""Mechanical extraction of the code under proof.

The modules of /repo/meshless are parsed from the working tree on every run and
executed by the verifier after the following rewriting (nothing else is
dropped or added; comments and docstrings carry no behaviour):

  float literal c        ->  __lit__(c)      exact rational meant by the literal
  a / b                  ->  __div__(a, b)   exact division
  a is b                 ->  __is__(a, b)
  for T in X: body       ->  iteration through __loop__(X); in a loop over a
                             collection of unknown size the locals assigned in
                             the body are forgotten on entry of an iteration
                             and after the loop (havoc), counters `c += k` get
                             their closed form
  [e for T in X]         ->  the same expression through __comp__
  {..} / {k: v} displays ->  __set__/__dict__ (semantic equality of keys)
  except:                ->  except Exception:
  import                 ->  resolved to extracted modules or contract stubs
"""
import ast
import builtins
import os
import types

from .alg import Unsupported

REPO = os.environ.get('DV_REPO', '/repo')


def assigned_names(stmts):
    """names bound by the statements (not inside nested functions)"""
    out = set()

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

        def visit_FunctionDef(self, n):
            out.add(n.name)

        visit_AsyncFunctionDef = visit_FunctionDef

        def visit_Lambda(self, n):
            pass

        def visit_ClassDef(self, n):
            out.add(n.name)

        def visit_ListComp(self, n):
            for g in n.generators:
                self.visit(g.iter)

        visit_SetComp = visit_GeneratorExp = visit_DictComp = visit_ListComp

        def visit_Import(self, n):
            for a in n.names:
                out.add((a.asname or a.name).split('.')[0])

        visit_ImportFrom = visit_Import

        def visit_ExceptHandler(self, n):
            if n.name:
                out.add(n.name)
            self.generic_visit(n)
    v = V()
    for s in stmts:
        v.visit(s)
    return out


class Rewrite(ast.NodeTransformer):
    def __init__(self):
        self.n = 0
        self.loops = []
        self.names = {}
        self.globals_decl = [set()]

    def call(self, name, *args):
        return ast.Call(ast.Name(name, ast.Load()), list(args), [])

    def visit_Constant(self, n):
        if isinstance(n.value, float):
            return ast.copy_location(self.call('__lit__', n), n)
        return n

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                spec = v.format_spec
                spec = ast.Constant('') if spec is None else self.visit(spec)
                parts.append(ast.Tuple([self.visit(v.value), ast.Constant(v.conversion), spec], ast.Load()))
            else:
                parts.append(v)
        return ast.copy_location(self.call('__fstr__', *parts), n)

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div):
            return ast.copy_location(self.call('__div__', n.left, n.right), n)
        if isinstance(n.op, ast.Pow):
            return ast.copy_location(self.call('__pow__', n.left, n.right), n)
        if isinstance(n.op, ast.Mod):
            return ast.copy_location(self.call('__mod__', n.left, n.right), n)
        return n

    def visit_Call(self, n):
        if isinstance(n.func, ast.Name) and n.func.id == 'next' and n.args and isinstance(n.args[0], ast.GeneratorExp) and not n.keywords:
            n.func.id = '__next__'
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr in ('format', 'join'):
            n.func = ast.copy_location(self.call('__strm__', n.func.value, ast.Constant(n.func.attr)), n.func)
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and isinstance(n.target, ast.Name):
            v = self.call('__mod__', ast.Name(n.target.id, ast.Load()), n.value)
            return ast.copy_location(ast.Assign([n.target], v), n)
        if isinstance(n.op, ast.Div) and isinstance(n.target, ast.Name):
            v = self.call('__idiv__', ast.Name(n.target.id, ast.Load()), n.value)
            return ast.copy_location(ast.Assign([n.target], v), n)
        return n

    def visit_Compare(self, n):
        if len(n.ops) > 1 and any(isinstance(o, (ast.Is, ast.IsNot, ast.In, ast.NotIn)) for o in n.ops):
            # a is b is c: one comparison after the other (names are evaluated twice, harmlessly)
            xs = [n.left] + n.comparators
            if not all(isinstance(y, (ast.Name, ast.Attribute, ast.Load, ast.Constant)) for x in xs[1:-1] for y in ast.walk(x)):
                raise Unsupported('chained identity comparison')
            import copy
            b = ast.BoolOp(ast.And(), [ast.Compare(copy.deepcopy(x), [o], [copy.deepcopy(y)]) for x, o, y in zip(xs, n.ops, xs[1:])])
            return self.visit(ast.fix_missing_locations(ast.copy_location(b, n)))
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Is, ast.IsNot)):
            c = self.call('__is__', n.left, n.comparators[0])
            if isinstance(n.ops[0], ast.IsNot):
                c = ast.UnaryOp(ast.Not(), c)
            return ast.copy_location(c, n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            c = self.call('__in__', n.left, n.comparators[0])
            if isinstance(n.ops[0], ast.NotIn):
                c = ast.UnaryOp(ast.Not(), c)
            return ast.copy_location(c, n)
        return n

    def visit_List(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load):
            return ast.copy_location(self.call('__list__', n), n)
        return n

    def visit_Set(self, n):
        self.generic_visit(n)
        return ast.copy_location(self.call('__set__', ast.List(n.elts, ast.Load())), n)

    def visit_Dict(self, n):
        self.generic_visit(n)
        if any(k is None for k in n.keys):
            return n
        pairs = [ast.Tuple([k, v], ast.Load()) for k, v in zip(n.keys, n.values)]
        return ast.copy_location(self.call('__dict__', ast.List(pairs, ast.Load())), n)

    def _comp(self, n, kind):
        self.generic_visit(n)
        g = n.generators[0]
        self.n += 1
        var = '__c%d' % self.n
        src = g.iter
        g.iter = self.call('__citer__', ast.Name(var, ast.Load()))
        if kind == 'dict':
            inner = ast.ListComp(ast.Tuple([n.key, n.value], ast.Load()), n.generators)
        else:
            inner = ast.ListComp(n.elt, n.generators)
        # (lambda v: __comp__(kind, v, [..]))(src): the source evaluated once
        lam = ast.Lambda(ast.arguments([], [ast.arg(var)], None, [], [], None, []),
                         self.call('__comp__', ast.Constant(kind), ast.Name(var, ast.Load()),
                                   inner, ast.Constant(len(n.generators) > 1 or bool(g.ifs))))
        return ast.copy_location(ast.Call(lam, [src], []), n)

    def visit_ListComp(self, n):
        return self._comp(n, 'list')

    def visit_SetComp(self, n):
        return self._comp(n, 'set')

    def visit_GeneratorExp(self, n):
        return self._comp(n, 'gen')

    def visit_DictComp(self, n):
        return self._comp(n, 'dict')

    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
        if n.type is None:
            n.type = ast.Name('Exception', ast.Load())
        return n

    def visit_FunctionDef(self, n):
        saved, self.loops = self.loops, []
        g = set()
        for s in ast.walk(n):
            if isinstance(s, (ast.Global, ast.Nonlocal)):
                g |= set(s.names)
        self.globals_decl.append(g)
        self.generic_visit(n)
        self.globals_decl.pop()
        self.loops = saved
        return n

    def visit_Lambda(self, n):
        saved, self.loops = self.loops, []
        self.generic_visit(n)
        self.loops = saved
        return n

    def _early(self, n, all_loops):
        names = self.loops if all_loops else self.loops[-1:]
        out = [ast.copy_location(ast.Expr(ast.Call(
            ast.Attribute(ast.Name(v, ast.Load()), 'early', ast.Load()), [], [])), n)
            for v in names if v]
        return out + [n]

    def visit_Return(self, n):
        self.generic_visit(n)
        return self._early(n, True)

    def visit_Break(self, n):
        return self._early(n, False)

    def visit_Continue(self, n):
        if self.loops and self.loops[-1] and self.names.get(self.loops[-1]):
            return [self._bottom(self.loops[-1], n), n]
        return n

    def _bottom(self, L, n):
        load = lambda v: ast.Name(v, ast.Load())
        olds = [ast.Tuple([ast.Constant(v), ast.Call(load('__old__'), [ast.Lambda(ast.arguments([], [], None, [], [], None, []), load(v))], [])], ast.Load()) for v in sorted(self.names[L])]
        attr = lambda a: ast.Attribute(load(L), a, ast.Load())
        return ast.copy_location(ast.If(attr('sym'), [ast.Expr(ast.Call(attr('bottom'), [ast.List(olds, ast.Load())], []))], []), n)

    def visit_While(self, n):
        self.loops.append('')
        self.generic_visit(n)
        self.loops.pop()
        return n

    def visit_For(self, n):
        self.n += 1
        L = '__L%d' % self.n
        it = self.visit(n.iter)
        names = assigned_names(n.body) - {'__L%d' % k for k in range(self.n)}
        tnames = assigned_names([ast.Assign([n.target], ast.Constant(0))])
        names -= tnames
        induct = {}
        for s in n.body:
            if isinstance(s, ast.AugAssign) and isinstance(s.op, (ast.Add, ast.Sub)) \
                    and isinstance(s.target, ast.Name) and isinstance(s.value, ast.Constant) \
                    and isinstance(s.value.value, int) and not isinstance(s.value.value, bool):
                v = s.target.id
                rest = [t for t in n.body if t is not s]
                if v not in assigned_names(rest) and v not in induct:
                    induct[v] = s.value.value if isinstance(s.op, ast.Add) else -s.value.value
        has_continue = any(isinstance(s, ast.Continue) for b in n.body for s in ast.walk(b))
        if has_continue:
            induct = {}
        self.loops.append(L)
        self.names[L] = names
        body = []
        for s in n.body:
            r = self.visit(s)
            body += r if isinstance(r, list) else [r]
        self.loops.pop()
        orelse = []
        for s in n.orelse:
            r = self.visit(s)
            orelse += r if isinstance(r, list) else [r]
        load = lambda v: ast.Name(v, ast.Load())
        store = lambda v: ast.Name(v, ast.Store())
        attr = lambda a: ast.Attribute(load(L), a, ast.Load())
        pre = []
        post = []
        for v in sorted(names):
            if v in induct:
                pre.append(ast.Assign([store(v)], ast.Call(attr('at'), [ast.Constant(v), load(v), ast.Constant(induct[v])], [])))
                post.append(ast.Assign([store(v)], ast.Call(attr('end'), [ast.Constant(v), load(v), ast.Constant(induct[v])], [])))
            else:
                # the old value is kept aside: the loop may treat it (accumulator)
                old = ast.Call(load('__old__'), [ast.Lambda(ast.arguments([], [], None, [], [], None, []), load(v))], [])
                pre.append(ast.Assign([store(v)], ast.Call(attr('havoc'), [ast.Constant(v), old], [])))
                old2 = ast.Call(load('__old__'), [ast.Lambda(ast.arguments([], [], None, [], [], None, []), load(v))], [])
                post.append(ast.Assign([store(v)], ast.Call(attr('after'), [ast.Constant(v), old2], [])))
        for v in sorted(tnames):
            old2 = ast.Call(load('__old__'), [ast.Lambda(ast.arguments([], [], None, [], [], None, []), load(v))], [])
            post.append(ast.Assign([store(v)], ast.Call(attr('after'), [ast.Constant(v), old2], [])))
        if pre:
            body = [ast.If(attr('sym'), pre, [])] + body
        # end-of-iteration hook sees the final values of the assigned locals
        if names:
            body.append(self._bottom(L, n))
        loop = ast.For(n.target, load(L), body, orelse)
        out = [ast.Assign([store(L)], self.call('__loop__', it, ast.Constant(n.lineno))), loop]
        if post:
            out.append(ast.If(attr('sym'), post, []))
        for o in out:
            ast.copy_location(o, n)
        return out


def rewrite(src, filename):
    tree = ast.parse(src, filename)
    tree = Rewrite().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec', dont_inherit=True)


class Loader:
    """Loads meshless.* from the working tree for the verifier"""

    def __init__(self, repo=None, shim=None, stubs=None):
        self.repo = repo or REPO
        self.mods = {}
        self.shim = shim
        self.stubs = stubs or {}
        self.read = {}

    def path(self, name):
        p = os.path.join(self.repo, *name.split('.'))
        if os.path.isdir(p):
            return os.path.join(p, '__init__.py'), True
        if os.path.isfile(p + '.py'):
            return p + '.py', False
        return None, False

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if name in self.stubs:
            return self.stubs[name]
        top = name.split('.')[0]
        if name == 'numpy.linalg' and 'numpy' in self.stubs:
            return self.stubs['numpy'].linalg
        if name.startswith(('numpy.core', 'numpy._core')):
            # numpy's own C code imports its helpers through the caller
            import importlib
            return importlib.import_module(name)
        if top != 'meshless':
            if top in ('__future__', 'collections', 'itertools', 'functools', 'operator',
                       'os', 'sys', 'inspect', 're', 'copy', 'warnings', 'typing', 'numbers', 'contextlib', 'dataclasses', 'string'):
                st = self.shim.stdlib(name) if self.shim else None
                if st is not None:
                    return st
                __import__(name)
                import sys
                return sys.modules[name]
            from .alg import Unsupported
            raise Unsupported('import of %s' % name)
        p, pkg = self.path(name)
        if p is None:
            raise ImportError('no module %s' % name)
        m = types.ModuleType(name)
        m.__file__ = p
        m.__package__ = name if pkg else name.rpartition('.')[0]
        if pkg:
            m.__path__ = [os.path.dirname(p)]
        self.mods[name] = m
        src = open(p, encoding='utf-8').read()
        self.read[p] = src
        b = dict(vars(builtins))
        if self.shim:
            b.update(self.shim.BUILTINS)
        b['__import__'] = self._import
        m.__dict__['__builtins__'] = b
        try:
            exec(self.code(src, p), m.__dict__)
        except BaseException:
            del self.mods[name]
            raise
        parent, _, child = name.rpartition('.')
        if parent in self.mods:
            setattr(self.mods[parent], child, m)
        return m

    _codes = {}

    def code(self, src, p):
        k = (p, src)
        if k not in Loader._codes:
            Loader._codes[k] = rewrite(src, p)
        return Loader._codes[k]

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__package__']
            for _ in range(level - 1):
                pkg = pkg.rpartition('.')[0]
            name = pkg + ('.' + name if name else '')
        if name.startswith(('numpy.core', 'numpy._core')):
            return builtins.__import__(name, globals, locals, fromlist, 0)
        parts = name.split('.')
        for i in range(1, len(parts)):
            self.load('.'.join(parts[:i]))
        m = self.load(name)
        if fromlist:
            for f in fromlist:
                if f != '*' and not hasattr(m, f):
                    sub = name + '.' + f
                    if sub in self.stubs or self.path(sub)[0]:
                        setattr(m, f, self.load(sub))
            return m
        return self.load(parts[0])
