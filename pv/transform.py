"""Mechanical transformation of the repository's source.

Every function body is kept statement by statement; only the following constructs are
rewritten so that symbolic values flow through them (nothing is dropped):
  f(args)            -> pv__call(f, args)            dispatch to models of builtins
  for / while        -> while pv__loop.next(..)      loop rule (loops.py)
  comprehensions     -> pv__comp(series, lambda)     same loop rule
  generators         -> eager functions returning an iterator over the yielded values
  a[i], x in c, x is y, [..], {..}, o.a = v           -> helper calls of the same meaning
Module-level statements are executed unchanged.
"""
import ast
import sys
import importlib.abc
import importlib.util
import os

CTX_DECORATORS = {'contextmanager'}


def name(n, ctx=None):
    return ast.Name(n, ctx or ast.Load())


def call(f, *args):
    return ast.Call(name(f), list(args), [])


def const(v):
    return ast.Constant(v)


class StoreCollector(ast.NodeVisitor):
    def __init__(self):
        self.names = []

    def add(self, n):
        if n not in self.names:
            self.names.append(n)

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.add(n.id)

    def visit_FunctionDef(self, n):
        self.add(n.name)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.add(n.name)

    def visit_Lambda(self, n):
        pass

    def visit_ListComp(self, n):
        for g in n.generators:
            self.visit(g.iter)

    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

    def visit_ExceptHandler(self, n):
        if n.name:
            self.add(n.name)
        self.generic_visit(n)

    def visit_Import(self, n):
        for a in n.names:
            self.add((a.asname or a.name).split('.')[0])

    visit_ImportFrom = visit_Import


def stored(stmts):
    c = StoreCollector()
    for s in stmts:
        c.visit(s)
    return c.names


def is_generator(fn):
    class V(ast.NodeVisitor):
        found = False

        def visit_FunctionDef(self, n):
            pass

        visit_AsyncFunctionDef = visit_Lambda = visit_ClassDef = visit_FunctionDef

        def visit_Yield(self, n):
            self.found = True

        def visit_YieldFrom(self, n):
            self.found = True
    v = V()
    for s in fn.body:
        v.visit(s)
    return v.found


class FnTransformer(ast.NodeTransformer):
    """Transforms the body of one function."""

    def __init__(self, mod, qual, generator):
        self.mod = mod
        self.qual = qual
        self.generator = generator
        self.loops = []          # stack of loop variable names, for break/return
        self.n = 0

    def loc(self, node):
        return '{}:{}'.format(self.mod, getattr(node, 'lineno', 0)) + ':{}'.format(getattr(node, 'col_offset', 0))

    # ------------------------------------------------------------- scopes
    def visit_FunctionDef(self, node):
        return transform_function(node, self.mod, self.qual)

    def visit_Lambda(self, node):
        sub = FnTransformer(self.mod, self.qual, False)
        node.body = sub.visit(node.body)
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        return node

    def visit_ClassDef(self, node):
        node.bases = [self.visit(b) for b in node.bases]
        node.keywords = [ast.keyword(k.arg, self.visit(k.value)) for k in node.keywords]
        node.body = [transform_function(b, self.mod, self.qual) if isinstance(b, ast.FunctionDef) else b for b in node.body]
        return node

    # --------------------------------------------------------------- calls
    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Name) and f.id == 'super' and not node.args:
            return node
        if isinstance(f, ast.Name) and f.id in ('locals', 'globals', 'pv__call'):
            return node
        args = [self.visit(a) for a in node.args]
        kws = [ast.keyword(k.arg, self.visit(k.value)) for k in node.keywords]
        fn = self.visit(f)
        if any(isinstance(a, ast.Starred) for a in args):
            parts = []
            for a in args:
                if isinstance(a, ast.Starred):
                    parts.append(ast.Tuple([const(1), a.value], ast.Load()))
                else:
                    parts.append(ast.Tuple([const(0), a], ast.Load()))
            return ast.Call(name('pv__callv'), [fn, ast.Tuple(parts, ast.Load())], kws)
        return ast.Call(name('pv__call'), [fn] + args, kws)

    # --------------------------------------------------------- containers
    def visit_List(self, node):
        if not isinstance(node.ctx, ast.Load):
            node.elts = [self.visit(e) for e in node.elts]
            return node
        elts = [self.visit(e) for e in node.elts]
        if any(isinstance(e, ast.Starred) for e in elts):
            return call('pv__listv', ast.Tuple([ast.Tuple([const(1), e.value], ast.Load()) if isinstance(e, ast.Starred)
                                                 else ast.Tuple([const(0), e], ast.Load()) for e in elts], ast.Load()))
        return call('pv__list', *elts)

    def visit_Dict(self, node):
        self.generic_visit(node)
        if any(k is None for k in node.keys):
            return node
        return call('pv__dict', ast.Tuple([ast.Tuple([k, v], ast.Load()) for k, v in zip(node.keys, node.values)], ast.Load()))

    def visit_Set(self, node):
        self.generic_visit(node)
        return call('pv__set', ast.Tuple(node.elts, ast.Load()))

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return call('pv__get', node.value, self.index(node.slice))
        return node

    def index(self, s):
        if isinstance(s, ast.Slice):
            return call('slice', s.lower or const(None), s.upper or const(None), s.step or const(None))
        if isinstance(s, ast.Tuple) and any(isinstance(e, ast.Slice) for e in s.elts):
            return ast.Tuple([self.index(e) for e in s.elts], ast.Load())
        return s

    def visit_Compare(self, node):
        self.generic_visit(node)
        if not any(isinstance(o, (ast.In, ast.NotIn, ast.Is, ast.IsNot)) for o in node.ops):
            return node
        if len(node.ops) > 1:
            return node
        o, a, b = node.ops[0], node.left, node.comparators[0]
        f = {ast.In: 'pv__in', ast.NotIn: 'pv__notin', ast.Is: 'pv__is', ast.IsNot: 'pv__isnot'}[type(o)]
        return call(f, a, b)

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        return node

    # ------------------------------------------------------ comprehensions
    def comp(self, node, kind, elt):
        gens = node.generators
        return call('pv__finish', const(kind), self.gen(gens, elt, self.loc(node)))

    def gen(self, gens, elt, loc):
        g = gens[0]
        rest = gens[1:]
        it = self.visit(g.iter)
        names, pat = self.pattern(g.target)
        if rest:
            inner = self.gen(rest, elt, loc + "'")
        else:
            inner = elt()
        conds = [self.visit(c) for c in g.ifs]
        body = inner
        if conds:
            c = conds[0] if len(conds) == 1 else ast.BoolOp(ast.And(), conds)
            body = ast.IfExp(c, inner, name('pv__skip'))
        lam = ast.Lambda(ast.arguments([], [ast.arg(n) for n in names], None, [], [], None, []), body)
        return ast.Call(name('pv__comp'), [const(loc), it, pat, lam, const(bool(rest))], [])

    def pattern(self, t):
        """names, and a nested tuple describing the destructuring"""
        if isinstance(t, ast.Name):
            if t.id == '_':
                self.n += 1
                return ['pv__u{}'.format(self.n)], const(None)
            return [t.id], const(None)
        if isinstance(t, (ast.Tuple, ast.List)):
            names, pats = [], []
            for e in t.elts:
                n, p = self.pattern(e)
                names += n
                pats.append(p)
            return names, ast.Tuple(pats, ast.Load())
        raise SyntaxError('unsupported comprehension target')

    def visit_ListComp(self, node):
        return self.comp(node, 'list', lambda: self.visit(node.elt))

    def visit_SetComp(self, node):
        return self.comp(node, 'set', lambda: self.visit(node.elt))

    def visit_GeneratorExp(self, node):
        return self.comp(node, 'gen', lambda: self.visit(node.elt))

    def visit_DictComp(self, node):
        return self.comp(node, 'dict', lambda: ast.Tuple([self.visit(node.key), self.visit(node.value)], ast.Load()))

    # --------------------------------------------------------- statements
    def visit_Assign(self, node):
        node.value = self.visit(node.value)
        node.targets = [self.visit(t) for t in node.targets]
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Attribute):
            t = node.targets[0]
            return ast.Expr(call('pv__setattr', t.value, const(self.mangle(t.attr)), node.value))
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            t = node.targets[0]
            return ast.Expr(call('pv__setitem', t.value, self.index(t.slice), node.value))
        if any(isinstance(t, (ast.Tuple, ast.List)) for t in node.targets):
            node.value = call('pv__unpack', node.value)
        return node

    def mangle(self, a):
        if a.startswith('__') and not a.endswith('__') and '.' in self.qual:
            cls = self.qual.split('.')[-2].lstrip('_')
            return '_' + cls + a
        return a

    def visit_Expr(self, node):
        if isinstance(node.value, ast.Yield) and self.generator:
            v = self.visit(node.value.value) if node.value.value is not None else const(None)
            return ast.Expr(ast.Call(ast.Attribute(name('pv__out'), 'append', ast.Load()), [v], []))
        if isinstance(node.value, ast.YieldFrom) and self.generator:
            return ast.Expr(ast.Call(ast.Attribute(name('pv__out'), 'extend', ast.Load()), [self.visit(node.value.value)], []))
        node.value = self.visit(node.value)
        return node

    def visit_Yield(self, node):
        if self.generator:
            raise SyntaxError('yield expression')
        self.generic_visit(node)
        return node

    def visit_Return(self, node):
        v = self.visit(node.value) if node.value is not None else None
        if self.generator:
            v = call('pv__geniter', name('pv__out'))
        out = []
        for l in reversed(self.loops):
            if l:
                # evaluate first, then leave the loop
                v = ast.Call(name('pv__leave'), [name(l), v if v is not None else const(None)], [])
        node.value = v
        return node

    def visit_Break(self, node):
        l = self.loops[-1] if self.loops else None
        if l:
            return [ast.Expr(ast.Call(ast.Attribute(name(l), 'brk', ast.Load()), [], [])), node]
        return node

    def vals(self, L, names):
        """if L.symbolic: a, b = L.vals() (and delete unbound names)"""
        if not names:
            return []
        body = [ast.Assign([ast.Tuple([name(n, ast.Store()) for n in names], ast.Store())],
                           ast.Call(ast.Attribute(name(L), 'vals', ast.Load()), [], []))]
        for n in names:
            body.append(ast.If(ast.Compare(name(n), [ast.Is()], [name('pv__unbound')]),
                               [ast.Delete([name(n, ast.Del())])], []))
        return [ast.If(ast.Attribute(name(L), 'symbolic', ast.Load()), body, [])]

    def visit_For(self, node):
        self.n += 1
        L = 'pv__L{}_{}_{}'.format(self.n, node.lineno, node.col_offset)
        tnames = stored([node.target])
        names = [n for n in stored(node.body) if n not in tnames]
        gl = getattr(self, 'globals_', set())
        allnames = [n for n in tnames + names if n not in gl]
        it = self.visit(node.iter)
        loc = self.loc(node)
        self.loops.append(L)
        target = self.visit(node.target)
        body = self.block(node.body)
        self.loops.pop()
        orelse = self.block(node.orelse)
        init = ast.Assign([name(L, ast.Store())], call('pv__loop', const(loc), it,
                                                      ast.Tuple([const(n) for n in allnames], ast.Load())))
        itemv = ast.Call(ast.Attribute(name(L), 'item', ast.Load()), [], [])
        if isinstance(target, (ast.Tuple, ast.List)):
            itemv = call('pv__unpack', itemv)
        w = ast.While(ast.Call(ast.Attribute(name(L), 'next', ast.Load()), [ast.Call(name('locals'), [], [])], []),
                      self.vals(L, allnames) + [ast.Assign([target], itemv)] + body,
                      self.vals(L, allnames) + orelse + ([ast.Pass()] if not orelse else []))
        return [init, w]

    def visit_While(self, node):
        self.n += 1
        L = 'pv__L{}_{}_{}'.format(self.n, node.lineno, node.col_offset)
        names = [n for n in stored(node.body)]
        loc = self.loc(node)
        self.loops.append(L)
        test = self.visit(node.test)
        body = self.block(node.body)
        self.loops.pop()
        orelse = self.block(node.orelse)
        init = ast.Assign([name(L, ast.Store())], call('pv__loop', const(loc), name('pv__while'),
                                                      ast.Tuple([const(n) for n in names], ast.Load())))
        stop = ast.If(ast.UnaryOp(ast.Not(), test),
                      [ast.Expr(ast.Call(ast.Attribute(name(L), 'brk', ast.Load()), [], []))] + orelse + [ast.Break()], [])
        w = ast.While(ast.Call(ast.Attribute(name(L), 'next', ast.Load()), [ast.Call(name('locals'), [], [])], []),
                      self.vals(L, names) + [stop] + body, [])
        return [init, w]

    def block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    def visit_AugAssign(self, node):
        node.value = self.visit(node.value)
        if isinstance(node.target, ast.Attribute):
            t = self.visit(node.target)
            cur = ast.Attribute(t.value, t.attr, ast.Load())
            return ast.Expr(call('pv__setattr', t.value, const(self.mangle(t.attr)),
                                 call('pv__iop', const(type(node.op).__name__), cur, node.value)))
        if isinstance(node.target, ast.Subscript):
            t = self.visit(node.target)
            return ast.Expr(call('pv__setitem_op', t.value, self.index(t.slice), const(type(node.op).__name__), node.value))
        return node

    def visit_Global(self, node):
        self.globals_ = getattr(self, 'globals_', set()) | set(node.names)
        return node

    visit_Nonlocal = visit_Global


def has_ctx_decorator(node):
    for d in node.decorator_list:
        n = d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else ''
        if n in CTX_DECORATORS:
            return True
    return False


def transform_function(node, mod, qual):
    qual = qual + '.' + node.name if qual else node.name
    gen = is_generator(node)
    ctx = has_ctx_decorator(node)
    if gen and ctx:
        t = FnTransformer(mod, qual, False)
        t.visit_Yield = lambda n: n
        node.body = t.block(node.body)
        return node
    t = FnTransformer(mod, qual, gen)
    doc = []
    body = node.body
    if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
        doc, body = [body[0]], body[1:]
    body = t.block(body)
    pre = [ast.Expr(call('pv__enter', const(mod + '.' + qual)))]
    if gen:
        pre.append(ast.Assign([name('pv__out', ast.Store())], call('pv__list')))
        body = body + [ast.Return(call('pv__geniter', name('pv__out')))]
        # a StopIteration which escapes from a generator is a RuntimeError
        gl0 = [s for s in body if isinstance(s, (ast.Global, ast.Nonlocal))]
        body = gl0 + [ast.Try([s for s in body if s not in gl0], [ast.ExceptHandler(
            name('StopIteration'), None, [ast.Raise(ast.Call(name('RuntimeError'), [const('generator raised StopIteration')], []), None)])],
            [], [])]
    gl = [s for s in body if isinstance(s, (ast.Global, ast.Nonlocal))]
    body = [s for s in body if not isinstance(s, (ast.Global, ast.Nonlocal))]
    node.body = doc + gl + pre + body
    return node


def transform_module(src, mod, filename):
    tree = ast.parse(src, filename)

    def do(body, qual):
        out = []
        for s in body:
            if isinstance(s, ast.FunctionDef):
                out.append(transform_function(s, mod, qual))
            elif isinstance(s, ast.ClassDef):
                s.body = do(s.body, (qual + '.' if qual else '') + s.name)
                out.append(s)
            elif isinstance(s, (ast.If, ast.Try)):
                for f in ('body', 'orelse', 'finalbody'):
                    if hasattr(s, f):
                        setattr(s, f, do(getattr(s, f), qual))
                out.append(s)
            else:
                out.append(s)
        return out
    tree.body = do(tree.body, '')
    ast.fix_missing_locations(tree)
    return tree


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, roots, helpers):
        self.roots = roots          # {'segpy': '/repo/segpy', ...}
        self.helpers = helpers
        self.sources = {}

    def find_spec(self, fullname, path, target=None):
        parts = fullname.split('.')
        if parts[0] not in self.roots:
            return None
        base = os.path.join(self.roots[parts[0]], *parts[1:])
        if os.path.isdir(base) and os.path.exists(os.path.join(base, '__init__.py')):
            f = os.path.join(base, '__init__.py')
            spec = importlib.util.spec_from_loader(fullname, self, origin=f, is_package=True)
            spec.submodule_search_locations = [base]
        elif os.path.exists(base + '.py'):
            f = base + '.py'
            spec = importlib.util.spec_from_loader(fullname, self, origin=f)
        else:
            return None
        spec.loader_state = f
        return spec

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        f = module.__spec__.loader_state
        with open(f, encoding='utf-8') as fh:
            src = fh.read()
        self.sources[module.__name__] = f
        tree = transform_module(src, module.__name__, f)
        code = compile(tree, f, 'exec')
        module.__file__ = f
        module.__dict__.update(self.helpers)
        exec(code, module.__dict__)
