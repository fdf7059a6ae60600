"""Import hook: every amazon.ion module is parsed from /repo's current source and rewritten so that calls, subscripts,
membership tests and loops go through pyvc.rt.  Nothing is dropped: with no active context the hooks do what the
original construct does."""
import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

from . import rt

REPO = os.environ.get('ION_REPO', '/repo')
PREFIX = 'amazon'


def _name(n, store=False):
    return ast.Name(id=n, ctx=ast.Store() if store else ast.Load())


def _call(fn, args, keywords=()):
    return ast.Call(func=_name(fn), args=list(args), keywords=list(keywords))


class _Assigned(ast.NodeVisitor):
    """Names bound by a statement list (not entering nested functions)."""

    def __init__(self):
        self.names = []

    def _add(self, n):
        if n not in self.names:
            self.names.append(n)

    def visit_Name(self, node):
        if isinstance(node.ctx, (ast.Store, ast.Del)):
            self._add(node.id)

    def visit_FunctionDef(self, node):
        self._add(node.name)

    def visit_ClassDef(self, node):
        self._add(node.name)

    def visit_Lambda(self, node):
        pass

    def visit_ListComp(self, node):
        pass
    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

    def visit_ExceptHandler(self, node):
        if node.name:
            self._add(node.name)
        self.generic_visit(node)

    def visit_Import(self, node):
        for a in node.names:
            self._add((a.asname or a.name).split('.')[0])
    visit_ImportFrom = visit_Import


def assigned(stmts):
    v = _Assigned()
    for s in stmts:
        v.visit(s)
    return v.names


def owners(loop):
    """Names whose methods a loop calls."""
    out = []
    for n in ast.walk(loop):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name):
            if n.func.value.id not in out:
                out.append(n.func.value.id)
    return out


class _Rewriter(ast.NodeTransformer):
    def __init__(self, module):
        self.module = module
        self.scope = []        # (kind, name)
        self.ordinals = {}
        self.locals = []       # names assigned in each enclosing function
        self.tmp = 0

    def qual(self):
        return '.'.join([self.module] + [n for _, n in self.scope])

    def fresh(self, base):
        self.tmp += 1
        return '__vc_%s_%d' % (base, self.tmp)

    # scopes
    def visit_FunctionDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args = self.visit(node.args)
        self.scope.append(('def', node.name))
        a = node.args
        self.locals.append(set(assigned(node.body)) | set(x.arg for x in a.posonlyargs + a.args + a.kwonlyargs))
        node.body = self.block(node.body)
        self.locals.pop()
        self.scope.pop()
        return node

    def visit_ClassDef(self, node):
        node.bases = [self.visit(b) for b in node.bases]
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        self.scope.append(('class', node.name))
        node.body = self.block(node.body)
        self.scope.pop()
        return node

    def block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    def in_function(self):
        return bool(self.scope) and self.scope[-1][0] == 'def'

    # expressions
    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in ('locals', 'globals', 'vars') or \
                (isinstance(node.func, ast.Name) and node.func.id == 'super' and not node.args):
            return self.generic_visit(node)
        node = self.generic_visit(node)
        return ast.copy_location(ast.Call(func=_name('__vc_call__'), args=[node.func] + node.args,
                                          keywords=node.keywords), node)

    def visit_Subscript(self, node):
        node = self.generic_visit(node)
        if not isinstance(node.ctx, ast.Load):
            return node
        k = node.slice
        if isinstance(k, ast.Slice):
            none = ast.Constant(value=None, kind=None)
            k = _call('__vc_slice__', [k.lower or none, k.upper or none, k.step or none])
        elif k.__class__.__name__ == 'Index':
            k = k.value
        elif k.__class__.__name__ == 'ExtSlice':
            return node
        return ast.copy_location(_call('__vc_getitem__', [node.value, k]), node)

    def visit_Compare(self, node):
        node = self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            c = _call('__vc_in__', [node.left, node.comparators[0]])
            if isinstance(node.ops[0], ast.NotIn):
                c = ast.UnaryOp(op=ast.Not(), operand=c)
            return ast.copy_location(c, node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.Is, ast.IsNot)) and self.in_function():
            c = _call('__vc_is__', [node.left, node.comparators[0]])
            if isinstance(node.ops[0], ast.IsNot):
                c = ast.UnaryOp(op=ast.Not(), operand=c)
            return ast.copy_location(c, node)
        return node

    def visit_BinOp(self, node):
        node = self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(_call('__vc_mod__', [node.left, node.right]), node)
        return node

    # statements
    def _key(self, k):
        return k.value if k.__class__.__name__ == 'Index' else k

    def visit_Assign(self, node):
        pre = []
        for t in node.targets:
            if isinstance(t, (ast.Attribute, ast.Subscript)) and self.in_function():
                pre += self.touch(t.value)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript) and self.in_function():
            t = node.targets[0]
            k = self._key(t.slice)
            if not isinstance(k, (ast.Slice,)) and k.__class__.__name__ != 'ExtSlice':
                e = _call('__vc_setitem__', [self.visit(t.value), self.visit(k), self.visit(node.value)])
                return pre + [ast.copy_location(ast.Expr(value=e), node)]
        node = self.generic_visit(node)
        return pre + [node]

    def visit_AugAssign(self, node):
        pre = []
        if isinstance(node.target, (ast.Attribute, ast.Subscript)) and self.in_function():
            pre = self.touch(node.target.value)
        return pre + [self.generic_visit(node)]

    def visit_Delete(self, node):
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript) and self.in_function():
                k = self._key(t.slice)
                if not isinstance(k, ast.Slice):
                    out += self.touch(t.value)
                    out.append(ast.copy_location(ast.Expr(value=_call(
                        '__vc_delitem__', [self.visit(t.value), self.visit(k)])), node))
                    continue
            out.append(ast.copy_location(ast.Delete(targets=[self.generic_visit(t)]), node))
        return out

    def touch(self, expr):
        x = expr
        while isinstance(x, ast.Attribute):
            x = x.value
        if not isinstance(x, ast.Name):
            return []
        import copy
        e = copy.deepcopy(expr)
        s = ast.Expr(value=_call('__vc_touch__', [e]))
        return [ast.copy_location(s, expr)]

    def visit_Raise(self, node):
        if node.exc is None or not self.in_function():
            return self.generic_visit(node)
        node = self.generic_visit(node)
        tmp = self.fresh('exc')
        body = [
            ast.Expr(value=_call('__vc_msg__', [ast.Constant(value=1, kind=None)])),
            ast.Assign(targets=[_name(tmp, True)], value=node.exc, type_comment=None),
        ]
        fin = [ast.Expr(value=_call('__vc_msg__', [ast.Constant(value=-1, kind=None)]))]
        node.exc = _name(tmp)
        tr = ast.Try(body=body, handlers=[], orelse=[], finalbody=fin)
        return [ast.copy_location(tr, node), node]

    def _loop(self, node, kind):
        key = self.qual()
        n = self.ordinals.get(key, 0)
        self.ordinals[key] = n + 1
        key = '%s#%d' % (key, n)
        return key

    def visit_While(self, node):
        return self._cutloop(node, 'while')

    def visit_For(self, node):
        return self._cutloop(node, 'for')

    def _cutloop(self, node, kind):
        import copy
        if not self.in_function():
            node.body = self.block(node.body)
            node.orelse = self.block(node.orelse)
            return node
        key = self._loop(node, kind)
        mod = assigned(node.body + ([node.target] if kind == 'for' else []))
        kept = [n for n in (owners(node) if kind == 'while' else []) if n in self.locals[-1] and n not in mod]
        lv, dv = self.fresh('loop'), self.fresh('vars')
        saved = dict(self.ordinals)
        plain = copy.deepcopy(node)
        out = []
        if kind == 'for':
            it = self.fresh('iter')
            out.append(ast.Assign(targets=[_name(it, True)], value=self.visit(copy.deepcopy(node.iter)),
                                  type_comment=None))
            plain.iter = _name(it)
            plain.target = self.visit(plain.target)
        else:
            plain.test = self.visit(plain.test)
        plain.body = self.block(plain.body)
        plain.orelse = self.block(plain.orelse)
        after = self.ordinals
        self.ordinals = saved
        body = []
        body.append(ast.Assign(targets=[_name(dv, True)], type_comment=None, value=ast.Call(
            func=ast.Attribute(value=_name(lv), attr='top', ctx=ast.Load()),
            args=[ast.Call(func=_name('locals'), args=[], keywords=[])], keywords=[])))
        for m in mod:
            body.append(ast.Assign(targets=[_name(m, True)], type_comment=None, value=ast.Subscript(
                value=_name(dv), slice=_index(ast.Constant(value=m, kind=None)), ctx=ast.Load())))
        for m in kept:         # a specification may replace an object that the loop changes in place
            asg = ast.Assign(targets=[_name(m, True)], type_comment=None, value=ast.Subscript(
                value=_name(dv), slice=_index(ast.Constant(value=m, kind=None)), ctx=ast.Load()))
            body.append(ast.If(test=ast.Compare(left=ast.Constant(value=m, kind=None), ops=[ast.In()],
                                                comparators=[_name(dv)]), body=[asg], orelse=[]))
        c = copy.deepcopy(node)
        if kind == 'while':
            test = self.visit(c.test)
        else:
            test = ast.Call(func=ast.Attribute(value=_name(lv), attr='has_next', ctx=ast.Load()), args=[],
                            keywords=[])
        orelse = self.block(c.orelse)
        cbody = self.block(c.body)
        self.ordinals = after
        body.append(ast.If(test=ast.UnaryOp(op=ast.Not(), operand=test), body=orelse + [ast.Break()], orelse=[]))
        if kind == 'for':
            body.append(ast.Assign(targets=[self.visit(c.target)], type_comment=None, value=ast.Call(
                func=ast.Attribute(value=_name(lv), attr='next', ctx=ast.Load()), args=[], keywords=[])))
        body += cbody
        cutw = ast.While(test=ast.Constant(value=True, kind=None), body=body, orelse=[])
        args = [ast.Constant(value=key, kind=None), ast.Call(func=_name('locals'), args=[], keywords=[]),
                ast.Tuple(elts=[ast.Constant(value=m, kind=None) for m in mod], ctx=ast.Load()),
                _name(it) if kind == 'for' else ast.Constant(value=None, kind=None)]
        out.append(ast.Assign(targets=[_name(lv, True)], value=_call('__vc_loop__', args), type_comment=None))
        test = ast.Compare(left=_name(lv), ops=[ast.Is()], comparators=[ast.Constant(value=None, kind=None)])
        out.append(ast.If(test=test, body=[plain], orelse=[ast.Try(body=[cutw], handlers=[], orelse=[], finalbody=[
            ast.Expr(value=ast.Call(func=ast.Attribute(value=_name(lv), attr='done', ctx=ast.Load()),
                                    args=[], keywords=[]))])]))
        for s in out:
            ast.copy_location(s, node)
        return out


def _index(e):
    if sys.version_info < (3, 9):
        return ast.Index(value=e)
    return e


def rewrite(source, module, filename):
    tree = ast.parse(source, filename)
    rw = _Rewriter(module)
    tree.body = rw.block(tree.body)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec', dont_inherit=True)


class Loader(importlib.abc.Loader):
    def __init__(self, name, path, is_pkg):
        self.name, self.path, self.is_pkg = name, path, is_pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, 'rb') as f:
            src = f.read()
        for k, v in rt.HOOKS.items():
            module.__dict__[k] = v
        saved, rt._current[0] = rt._current[0], None       # module-level code runs with concrete values
        try:
            exec(rewrite(src, self.name, self.path), module.__dict__)
        finally:
            rt._current[0] = saved


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if name != PREFIX and not name.startswith(PREFIX + '.'):
            return None
        base = os.path.join(REPO, *name.split('.'))
        if os.path.isdir(base):
            p, pkg = os.path.join(base, '__init__.py'), True
        else:
            p, pkg = base + '.py', False
        if not os.path.exists(p):
            return None
        spec = importlib.util.spec_from_file_location(
            name, p, loader=Loader(name, p, pkg), submodule_search_locations=[base] if pkg else None)
        return spec


def install():
    for m in list(sys.modules):
        if m == PREFIX:
            del sys.modules[m]      # a namespace stub left by site-packages
        elif m.startswith(PREFIX + '.'):
            raise RuntimeError('amazon.ion imported before instrumentation')
    sys.meta_path.insert(0, Finder())
