"""Loads /repo's ccnpy (and the harness modules) through an AST rewriting that routes the few operations
CPython will not dispatch to symbolic values (type conversions, formatting, `in`, hash, dict displays) to the
helpers in rt.  Control flow, arithmetic, comparisons, calls, classes and exceptions run as written."""
import ast
import builtins
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import types

from . import rt, core

REPO = os.environ.get('SX_REPO', '/repo')


class Rewriter(ast.NodeTransformer):
    def __init__(self, tree):
        self.shadow = set()
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                pass
        # names rebound at module or function level shadow the builtin helpers
        for n in ast.walk(tree):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                self.shadow.add(n.id)
            elif isinstance(n, ast.arg):
                self.shadow.add(n.arg)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    self.shadow.add(a.asname or a.name.split('.')[0])
        for n in tree.body if isinstance(tree, ast.Module) else []:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                self.shadow.add(n.name)

    def _h(self, name, node):
        return ast.copy_location(ast.Name(id='__sx_' + name + '__', ctx=ast.Load()), node)

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Name) and f.id in rt.CALLS and f.id not in self.shadow:
            node.func = self._h(f.id, f)
        elif isinstance(f, ast.Attribute) and f.attr in rt.METHODS:
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super':
                return node
            node.args = [f.value, ast.copy_location(ast.Constant(f.attr), f)] + node.args
            node.func = self._h('method', f)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                val = self.visit(v.value)
                conv = {-1: None, 115: 's', 114: 'r', 97: 'a'}[v.conversion]
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant('')
                parts.append(ast.Tuple([val, ast.Constant(conv), spec], ast.Load()))
        return ast.copy_location(ast.Call(self._h('fstr', node), parts, []), node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(ast.Call(self._h('mod', node), [node.left, node.right], []), node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.target, ast.Name):
            load = ast.copy_location(ast.Name(node.target.id, ast.Load()), node)
            return ast.copy_location(
                ast.Assign([node.target], ast.Call(self._h('mod', node), [load, node.value], [])), node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            h = 'in' if isinstance(node.ops[0], ast.In) else 'notin'
            return ast.copy_location(ast.Call(self._h(h, node), [node.left, node.comparators[0]], []), node)
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(self._h('dictlit', node), [ast.List(
            [ast.Tuple([k if k is not None else self._h('star', node), v], ast.Load())
             for k, v in zip(node.keys, node.values)], ast.Load())], []), node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        g = ast.ListComp(ast.Tuple([node.key, node.value], ast.Load()), node.generators)
        return ast.copy_location(ast.Call(self._h('dictlit', node), [g], []), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(self._h('set', node), [ast.List(node.elts, ast.Load())], []), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(
            ast.Call(self._h('set', node), [ast.ListComp(node.elt, node.generators)], []), node)

    def visit_Try(self, node):
        self.generic_visit(node)
        wide = any(h.type is None or any(isinstance(x, ast.Name) and x.id == 'BaseException'
                                         for x in ast.walk(h.type)) for h in node.handlers)
        if wide:
            node.handlers.insert(0, ast.copy_location(
                ast.ExceptHandler(self._h('Ctl', node), None, [ast.copy_location(ast.Raise(), node)]), node))
        return node

    # annotations must stay evaluable by typing: leave them alone
    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        node.target = self.visit(node.target)
        return node

    def visit_arguments(self, node):
        node.defaults = [self.visit(d) for d in node.defaults]
        node.kw_defaults = [self.visit(d) if d is not None else None for d in node.kw_defaults]
        return node

    def _fn(self, node):
        node.args = self.visit(node.args)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.body = [self.visit(s) for s in node.body]
        return node
    visit_FunctionDef = _fn
    visit_AsyncFunctionDef = _fn

    # patterns in match statements are left alone
    def visit_match_case(self, node):
        node.body = [self.visit(s) for s in node.body]
        if node.guard is not None:
            node.guard = self.visit(node.guard)
        return node


_STAR = object()


def dictlit(pairs):
    d = rt.SDict()
    for k, v in pairs:
        if k is _STAR:
            d.update(v)
        else:
            d[k] = v
    return d


def helpers():
    h = {'__sx_' + k + '__': v for k, v in rt.CALLS.items()}
    h.update({'__sx_method__': rt.method_, '__sx_fstr__': rt.fstr_, '__sx_mod__': rt.mod_, '__sx_in__': rt.in_,
              '__sx_notin__': rt.notin_, '__sx_dictlit__': dictlit, '__sx_star__': _STAR, '__sx_Ctl__': core.Ctl})
    return h


_real_import = builtins.__import__
_FAKES = {}
_builtins = None


def fake_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        if name in _FAKES:
            if fromlist:
                return _FAKES[name]
            top = name.split('.')[0]
            if top == name:
                return _FAKES[name]
            if top in _FAKES:
                return _FAKES[top]
    return _real_import(name, globals, locals, fromlist, level)


def sx_builtins():
    global _builtins
    if _builtins is None:
        b = dict(vars(builtins))
        b.update(helpers())
        b['__import__'] = fake_import
        b['open'] = sx_open
        b['print'] = rt.print_
        _builtins = b
    return _builtins


def sx_open(*a, **k):
    from . import fakes
    return fakes.fs_open(*a, **k)


def compile_source(src, path):
    tree = ast.parse(src, path)
    tree = Rewriter(tree).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, path, 'exec')


encoded = {}     # module -> list of functions


class SxLoader(importlib.abc.Loader):
    def __init__(self, path, is_pkg):
        self.path, self.is_pkg = path, is_pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path) as f:
            src = f.read()
        code = compile_source(src, self.path)
        module.__dict__['__builtins__'] = sx_builtins()
        exec(code, module.__dict__)
        loaded.append(module)


loaded = []


class SxFinder(importlib.abc.MetaPathFinder):
    """finds `ccnpy` in REPO and `harness` in /verif, rewriting both"""
    def __init__(self, roots):
        self.roots = roots    # top-level package -> directory that contains it

    def find_spec(self, name, path=None, target=None):
        top = name.split('.')[0]
        if top not in self.roots:
            return None
        rel = os.path.join(self.roots[top], *name.split('.'))
        if os.path.isdir(rel) and os.path.exists(os.path.join(rel, '__init__.py')):
            p = os.path.join(rel, '__init__.py')
            return importlib.util.spec_from_file_location(name, p, loader=SxLoader(p, True),
                                                          submodule_search_locations=[rel])
        if os.path.isdir(rel):
            spec = importlib.machinery.ModuleSpec(name, None, is_package=True)
            spec.submodule_search_locations = [rel]
            return spec
        p = rel + '.py'
        if os.path.exists(p):
            return importlib.util.spec_from_file_location(name, p, loader=SxLoader(p, False))
        return None


def install():
    from . import fakes
    _FAKES.update(fakes.build())
    roots = {'ccnpy': REPO, 'harness': os.path.dirname(os.path.dirname(os.path.abspath(__file__)))}
    sys.meta_path.insert(0, SxFinder(roots))


# ---------------------------------------------------------------- per-path reset of mutable global state
class Snapshot:
    """records the mutable state reachable from module globals, class attributes and default arguments of the
    rewritten modules, and puts it back before each path"""
    def __init__(self):
        self.saved = []
        seen = set()
        for m in loaded:
            self._ns(m, m.__dict__, seen)

    def _ns(self, owner, ns, seen):
        if id(ns) in seen:
            return
        seen.add(id(ns))
        keep = {}
        for k, v in list(ns.items()):
            if k in ('__builtins__', '__dict__', '__weakref__', '__doc__', '__annotations__'):
                continue
            keep[k] = v
            if isinstance(v, type) and getattr(v, '__module__', '').split('.')[0] in ('ccnpy', 'harness'):
                self._ns(v, vars(v), seen)
            f = v.__func__ if isinstance(v, (classmethod, staticmethod)) else v
            if isinstance(f, types.FunctionType):
                for d in (f.__defaults__ or ()) + tuple((f.__kwdefaults__ or {}).values()):
                    self._cont(d, seen)
            else:
                self._cont(v, seen)
        self.saved.append(('ns', owner, keep))

    def _cont(self, v, seen, depth=0):
        t = type(v)
        if id(v) in seen or depth > 4:
            return
        if t is list:
            seen.add(id(v))
            self.saved.append(('list', v, list(v)))
            for x in v:
                self._cont(x, seen, depth + 1)
        elif t in (rt.SDict, rt.SDefaultDict):
            seen.add(id(v))
            self.saved.append(('sdict', v, (dict((i, list(e)) for i, e in v._k.items()), dict(v._idx), v._n, v._nsym)))
            for x in v.values():
                self._cont(x, seen, depth + 1)
        elif t is rt.SSet:
            seen.add(id(v))
            self._cont(v._d, seen, depth + 1)
        elif t is dict:
            seen.add(id(v))
            self.saved.append(('dict', v, dict(v)))
        elif t is set:
            seen.add(id(v))
            self.saved.append(('set', v, set(v)))
        elif hasattr(v, 'items') and type(v).__module__ == 'sx.seq':
            seen.add(id(v))
            self.saved.append(('seq', v, list(v.items)))
        elif getattr(t, '__module__', '').split('.')[0] in ('ccnpy', 'harness') and hasattr(v, '__dict__') \
                and not isinstance(v, type):
            seen.add(id(v))
            self.saved.append(('obj', v, dict(vars(v))))
            for x in vars(v).values():
                self._cont(x, seen, depth + 1)

    def restore(self):
        for kind, o, s in self.saved:
            if kind == 'ns':
                cur = vars(o)
                if isinstance(o, types.ModuleType):
                    for k, v in s.items():
                        if cur.get(k) is not v:
                            cur[k] = v
                else:
                    for k, v in s.items():
                        if cur.get(k) is not v:
                            try:
                                setattr(o, k, v)
                            except (AttributeError, TypeError):
                                pass
                    for k in [k for k in cur if k not in s and not k.startswith('__') and not k.startswith('_abc')]:
                        try:
                            delattr(o, k)
                        except (AttributeError, TypeError):
                            pass
            elif kind == 'list':
                o[:] = s
            elif kind == 'sdict':
                o._k = dict((i, list(e)) for i, e in s[0].items())
                o._idx, o._n, o._nsym = dict(s[1]), s[2], s[3]
            elif kind in ('dict',):
                o.clear()
                o.update(s)
            elif kind == 'set':
                o.clear()
                o.update(s)
            elif kind == 'seq':
                if o.items != s:
                    try:
                        o.items[:] = s
                    except TypeError:
                        pass
            elif kind == 'obj':
                d = vars(o)
                if d != s or True:
                    try:
                        d.clear()
                        d.update(s)
                    except TypeError:
                        pass


def load_rewritten_stdlib(name, path, fakes):
    _FAKES.update(fakes)
    with open(path) as f:
        code = compile_source(f.read(), path)
    m = types.ModuleType(name)
    m.__file__ = path
    m.__dict__['__builtins__'] = sx_builtins()
    exec(code, m.__dict__)
    return m
