# -*- coding: utf-8 -*-
"""Loads the packages of the tree under test into a private module table, with
set/dict literals and builtins redirected to the symbolic ones.  The source is
read from the tree on every run; nothing is matched by name or by shape."""
import ast
import builtins
import os
import sys
import types

from . import shims

REPO = os.environ.get('SV_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PACKAGES = ('geometry', 'SR_Vessel', 'harness')


class Rewrite(ast.NodeTransformer):
    def _call(self, node, fn, args):
        return ast.copy_location(ast.Call(func=ast.Name(id=fn, ctx=ast.Load()), args=args, keywords=[]), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return self._call(node, '_sv_set', [ast.List(elts=node.elts, ctx=ast.Load())])

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return self._call(node, '_sv_set', [ast.ListComp(elt=node.elt, generators=node.generators)])

    def visit_Subscript(self, node):
        # the first of a sorted list: the least one, without sorting the others
        self.generic_visit(node)
        v, i = node.value, node.slice
        if isinstance(node.ctx, ast.Load) and isinstance(i, ast.Constant) and i.value == 0 and type(i.value) is int and \
                isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'sorted' and len(v.args) == 1 and \
                not isinstance(v.args[0], ast.Starred) and all(k.arg == 'key' for k in v.keywords):
            c = ast.Call(func=ast.Name(id='_sv_first', ctx=ast.Load()), args=[v.func] + v.args, keywords=v.keywords)
            return ast.copy_location(c, node)
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        ks = [ast.Name(id='_sv_spread', ctx=ast.Load()) if k is None else k for k in node.keys]
        return self._call(node, '_sv_dictd', [ast.List(elts=ks, ctx=ast.Load()),
                                               ast.List(elts=node.values, ctx=ast.Load())])

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return self._call(node, '_sv_dict', [ast.ListComp(
            elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()), generators=node.generators)])


class Loader(object):
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.mods = {}
        self.bdict = shims.builtins_dict()
        self.bdict['__import__'] = self.imp
        shims.build_modules()
        self.files = {}

    def path(self, name):
        repo = HERE if name.split('.')[0] == 'harness' else self.repo
        base = os.path.join(repo, *name.split('.'))
        if os.path.isdir(base):
            return os.path.join(base, '__init__.py'), True
        return base + '.py', False

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if '.' in name:
            self.load(name.rsplit('.', 1)[0])
            if name in self.mods:
                return self.mods[name]
        fn, pkg = self.path(name)
        if not os.path.exists(fn):
            if pkg:                      # namespace package
                m = types.ModuleType(name)
                m.__path__ = [os.path.dirname(fn)]
                self.mods[name] = m
                return m
            raise ModuleNotFoundError('No module named %r' % name)
        src = open(fn, encoding='utf-8').read()
        tree = ast.parse(src, fn)
        tree = ast.fix_missing_locations(Rewrite().visit(tree))
        code = compile(tree, fn, 'exec')
        m = types.ModuleType(name)
        m.__file__ = fn
        m.__package__ = name if pkg else name.rpartition('.')[0]
        if pkg:
            m.__path__ = [os.path.dirname(fn)]
        m.__dict__['__builtins__'] = self.bdict
        self.mods[name] = m
        self.files[fn] = name
        exec(code, m.__dict__)
        if '.' in name:
            par, _, leaf = name.rpartition('.')
            setattr(self.mods[par], leaf, m)
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pk = (globals or {}).get('__package__') or ''
            for _ in range(level - 1):
                pk = pk.rpartition('.')[0]
            name = pk + ('.' + name if name else '')
        top = name.split('.')[0]
        if top in PACKAGES:
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != '*' and not hasattr(m, f):
                        try:
                            self.load(name + '.' + f)
                        except ModuleNotFoundError:
                            pass
                return m
            return self.mods[top]
        if name in shims.MODULES:
            return shims.MODULES[name]
        if top in ('matplotlib',):
            raise ImportError('No module named matplotlib')
        return builtins.__import__(name, globals, locals, fromlist, 0)


class API(object):
    """what a harness may use of the code under test"""

    def __init__(self, load):
        self.load = load
        self.point = load('geometry.SR_point')
        self.line = load('geometry.SR_line')
        self.polygon = load('geometry.SR_polygon')
        self.group = load('geometry.SR_polygon_group')
        self.extra = load('geometry.additional_stuff')
        self.vessel = load('SR_Vessel.SR_hauptteile')
        self.Point = self.point.Point
        self.LineSegment = self.line.LineSegment
        self.PolygonLine = self.polygon.PolygonLine
        self.Triangle = self.polygon.Triangle
