"""Source instrumentation and import hook.

Every run parses the current source of the encoded modules, rewrites the
operations whose builtin implementation cannot see a symbolic value (calls
into C, identity/membership/equality tests, subscripts, set operators,
formatting) into calls of :mod:`symx.rt`, and executes the result.
"""
import ast
import functools
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import types

from . import rt

SKIP_CALL = {'super', 'locals', 'globals', 'vars', 'eval', 'exec', 'dir',
             '__import__'}
OPS = {ast.BitOr: '|', ast.BitAnd: '&', ast.Sub: '-', ast.BitXor: '^'}
# stdlib modules replaced by instrumented copies in encoded modules
SUBST = {
    'datetime': 'symx_std_datetime',
    'urllib.parse': 'symx_std_urlparse',
    'six.moves.urllib.parse': 'symx_std_urlparse',
    '_strptime': 'symx_std_strptime',
}
STD_SOURCE = {
    'symx_std_datetime': '_pydatetime',
    'symx_std_urlparse': 'urllib.parse',
    'symx_std_strptime': '_strptime',
}


def _rt(attr):
    return ast.Attribute(ast.Name('symx_rt_', ast.Load()), attr, ast.Load())


def _call(attr, args):
    return ast.Call(_rt(attr), args, [])


class Rewriter(ast.NodeTransformer):

    def __init__(self, modname):
        self.modname = modname
        self.functions = 0

    # -- imports
    def visit_Import(self, node):
        for al in node.names:
            if al.name in SUBST and SUBST[al.name] != self.modname:
                if '.' in al.name and not al.asname:
                    continue
                al.asname = al.asname or al.name
                al.name = SUBST[al.name]
        return node

    def visit_ImportFrom(self, node):
        if node.level == 0 and node.module in SUBST and \
                SUBST[node.module] != self.modname:
            node.module = SUBST[node.module]
        elif self.modname == 'symx_std_datetime' and \
                node.module == '_pydatetime':
            return None
        return node

    # -- functions
    def visit_FunctionDef(self, node):
        self.functions += 1
        self.generic_visit(node)
        if node.name in ('__str__', '__repr__', '__format__'):
            node.decorator_list.insert(0, _rt('text'))
        return node

    # -- calls
    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in SKIP_CALL:
            return node
        for k in node.keywords:
            if k.arg is None:
                k.value = _call('kw', [k.value])
        return ast.Call(_rt('call'), [node.func] + node.args, node.keywords)

    # -- comparisons
    def visit_Compare(self, node):
        self.generic_visit(node)
        names = {ast.Is: 'is_', ast.IsNot: 'is_not', ast.In: 'contains',
                 ast.NotIn: 'not_contains', ast.Eq: 'eq', ast.NotEq: 'ne'}
        if len(node.ops) != 1:
            if any(type(o) in (ast.Is, ast.IsNot, ast.In, ast.NotIn)
                   for o in node.ops):
                # a in b == c: rare; keep native
                pass
            return node
        op = type(node.ops[0])
        if op in names:
            right = node.comparators[0]
            if op in (ast.Is, ast.IsNot) and isinstance(
                    right, ast.Constant) and right.value is None:
                return node
            return _call(names[op], [node.left, right])
        return node

    # -- subscripts
    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            if isinstance(node.slice, ast.Constant) and isinstance(
                    node.slice.value, int):
                pass
            return _call('getitem', [node.value, self._slice(node.slice)])
        return node

    @staticmethod
    def _slice(sl):
        if isinstance(sl, ast.Slice):
            none = lambda x: x if x is not None else ast.Constant(None)
            return ast.Call(_rt('slice_'),
                            [none(sl.lower), none(sl.upper), none(sl.step)],
                            [])
        if isinstance(sl, ast.Tuple):
            return ast.Tuple([Rewriter._slice(e) for e in sl.elts],
                             ast.Load())
        return sl

    def visit_Assign(self, node):
        self.generic_visit(node)
        if self.modname in STD_SOURCE and len(node.targets) == 1 and \
                isinstance(node.targets[0], ast.Name) and \
                node.targets[0].id == '__name__':
            return ast.Pass()
        if len(node.targets) == 1 and isinstance(node.targets[0],
                                                 ast.Subscript):
            t = node.targets[0]
            return ast.Expr(_call('setitem_v', [
                node.value, t.value, self._slice(t.slice)]))
        return node

    def visit_Delete(self, node):
        self.generic_visit(node)
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript):
                out.append(ast.Expr(_call('delitem', [
                    t.value, self._slice(t.slice)])))
            else:
                out.append(ast.Delete([t]))
        return out

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        op = '%' if isinstance(node.op, ast.Mod) else OPS.get(type(node.op))
        t = node.target
        lam = lambda v: ast.Lambda(
            ast.arguments([], [], None, [], [], None, []), v)
        if isinstance(t, ast.Subscript) and op is None:
            return node
        if op is None:
            return node
        if isinstance(t, ast.Name):
            return ast.Assign([t], _call('iop', [
                ast.Constant(op), ast.Name(t.id, ast.Load()), node.value]))
        if isinstance(t, ast.Attribute) and not t.attr.startswith('__'):
            return ast.Expr(_call('aug_attr', [
                t.value, ast.Constant(t.attr), ast.Constant(op),
                lam(node.value)]))
        if isinstance(t, ast.Subscript):
            return ast.Expr(_call('aug_item', [
                t.value, self._slice(t.slice), ast.Constant(op),
                lam(node.value)]))
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return _call('mod', [node.left, node.right])
        op = OPS.get(type(node.op))
        if op is None or isinstance(node.right, ast.Constant):
            return node
        return _call('binop', [ast.Constant(op), node.left, node.right])

    # -- displays
    def visit_Set(self, node):
        self.generic_visit(node)
        if all(isinstance(e, ast.Constant) for e in node.elts):
            return node
        return _call('mkset', [ast.List(node.elts, ast.Load())])

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return _call('mkset', [ast.ListComp(node.elt, node.generators)])

    def visit_Dict(self, node):
        self.generic_visit(node)
        if all(k is not None and isinstance(k, ast.Constant)
               for k in node.keys) or any(k is None for k in node.keys):
            return node
        return _call('mkdict', [ast.List([
            ast.Tuple([k, v], ast.Load())
            for k, v in zip(node.keys, node.values)], ast.Load())])

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return _call('mkdict', [ast.GeneratorExp(
            ast.Tuple([node.key, node.value], ast.Load()),
            node.generators)])

    # -- f-strings
    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        return _call('fjoin', node.values)

    def visit_FormattedValue(self, node):
        self.generic_visit(node)
        conv = {-1: None, 115: 's', 114: 'r', 97: 'a'}[node.conversion]
        spec = node.format_spec
        return _call('fval', [node.value, ast.Constant(conv),
                              spec if spec is not None
                              else ast.Constant('')])

    # patterns/annotations are left alone
    def visit_match_case(self, node):
        if node.guard is not None:
            node.guard = self.visit(node.guard)
        body = []
        for st in node.body:
            got = self.visit(st)
            if isinstance(got, list):
                body.extend(got)
            elif got is not None:
                body.append(got)
        node.body = body
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node


FUNCTIONS = {}                # module -> number of instrumented functions


def compile_source(source, filename, modname):
    tree = ast.parse(source, filename)
    rw = Rewriter(modname)
    tree = rw.visit(tree)
    idx = 0
    for i, st in enumerate(tree.body):
        if (isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant)
                and i == 0):
            idx = 1
        elif isinstance(st, ast.ImportFrom) and st.module == '__future__':
            idx = i + 1
        else:
            break
    tree.body.insert(idx, ast.Import([ast.alias('symx.rt', 'symx_rt_')]))
    ast.fix_missing_locations(tree)
    FUNCTIONS[modname] = rw.functions
    rt.INSTRUMENTED.add(modname)
    return compile(tree, filename, 'exec', dont_inherit=True)


class Loader(importlib.abc.Loader):

    def __init__(self, path, std):
        self.path = path
        self.std = std

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding='utf-8') as fh:
            source = fh.read()
        code = compile_source(source, self.path, module.__name__)
        exec(code, module.__dict__)
        if self.std:
            patch_std(module)


def patch_std(module):
    if module.__name__ == 'symx_std_datetime':
        from . import stdmodel
        stdmodel.patch_datetime(module)


class Finder(importlib.abc.MetaPathFinder):

    def __init__(self, repo, harness):
        self.repo = repo
        self.harness = harness

    def find_spec(self, name, path=None, target=None):
        if name in STD_SOURCE:
            src = importlib.util.find_spec(STD_SOURCE[name]).origin
            return importlib.util.spec_from_file_location(
                name, src, loader=Loader(src, True))
        top = name.split('.')[0]
        if top == 'properties':
            base = self.repo
        elif top == 'harness':
            base = self.harness
        else:
            return None
        rel = os.path.join(base, *name.split('.'))
        if os.path.isdir(rel) and os.path.exists(rel + '/__init__.py'):
            return importlib.util.spec_from_file_location(
                name, rel + '/__init__.py',
                loader=Loader(rel + '/__init__.py', False),
                submodule_search_locations=[rel])
        if os.path.exists(rel + '.py'):
            return importlib.util.spec_from_file_location(
                name, rel + '.py', loader=Loader(rel + '.py', False))
        return None


def install(repo='/repo', harness='/verif'):
    finder = Finder(repo, harness)
    sys.meta_path.insert(0, finder)
    return finder


# ---------------------------------------------------------------- isolation

class Snapshot(object):
    """Mutable state reachable from the encoded modules, restored before
    every path"""

    def __init__(self, prefixes=('properties', 'harness')):
        self.prefixes = prefixes
        self.seen = {}
        self.caches = []
        for name, mod in list(sys.modules.items()):
            if name.split('.')[0] in prefixes and mod is not None:
                self._module(mod)

    def _mine(self, modname):
        return isinstance(modname, str) and \
            modname.split('.')[0] in self.prefixes

    def _module(self, mod):
        self._add('ns', mod, dict(vars(mod)))
        for v in list(vars(mod).values()):
            self._walk(v)

    def _add(self, kind, obj, saved):
        self.seen[id(obj)] = (kind, obj, saved)

    def _walk(self, obj):
        stack = [obj]
        while stack:
            o = stack.pop()
            if id(o) in self.seen:
                continue
            t = type(o)
            if isinstance(o, type):
                if not self._mine(o.__module__):
                    continue
                self._add('ns', o, dict(vars(o)))
                stack.extend(vars(o).values())
            elif t is types.FunctionType:
                if not self._mine(o.__module__):
                    continue
                self._add('ns', o, dict(vars(o)))
                stack.extend(o.__defaults__ or ())
                stack.extend((o.__kwdefaults__ or {}).values())
                stack.extend(vars(o).values())
                for cell in o.__closure__ or ():
                    try:
                        self._add('cell', cell, cell.cell_contents)
                        stack.append(cell.cell_contents)
                    except ValueError:
                        pass
            elif isinstance(o, (staticmethod, classmethod)):
                stack.append(o.__func__)
            elif t is property:
                stack.extend(f for f in (o.fget, o.fset, o.fdel) if f)
            elif t is types.ModuleType or t in (str, int, float, bool, bytes,
                                                type(None), complex):
                continue
            elif isinstance(o, dict):
                self._add('dict', o, list(o.items()))
                stack.extend(o.values())
            elif isinstance(o, list):
                self._add('list', o, list(o))
                stack.extend(o)
            elif isinstance(o, set):
                self._add('set', o, list(o))
                stack.extend(o)
            elif t in (tuple, frozenset):
                self.seen[id(o)] = ('keep', o, None)
                stack.extend(o)
            elif isinstance(o, functools._lru_cache_wrapper):
                self.caches.append(o)
            elif self._mine(t.__module__) and hasattr(o, '__dict__'):
                self._add('ns', o, dict(vars(o)))
                stack.extend(vars(o).values())

    def restore(self):
        for kind, o, saved in self.seen.values():
            if kind == 'ns':
                cur = vars(o)
                if isinstance(o, type):
                    for k in list(cur):
                        if k not in saved:
                            type.__delattr__(o, k)
                    for k, v in saved.items():
                        if cur.get(k, self) is not v and k not in (
                                '__dict__', '__weakref__'):
                            type.__setattr__(o, k, v)
                else:
                    for k in list(cur):
                        if k not in saved:
                            del cur[k]
                    for k, v in saved.items():
                        if cur.get(k, self) is not v:
                            cur[k] = v
            elif kind == 'dict':
                if not self._same(o, saved):
                    o.clear()
                    for k, v in saved:
                        dict.__setitem__(o, k, v) if type(o) is dict \
                            else o.__setitem__(k, v)
            elif kind == 'list':
                if len(o) != len(saved) or any(
                        x is not y for x, y in zip(o, saved)):
                    list.__setitem__(o, slice(None), saved)
            elif kind == 'set':
                if len(o) != len(saved) or any(v not in o for v in saved):
                    set.clear(o)
                    set.update(o, saved)
            elif kind == 'cell':
                o.cell_contents = saved
        for c in self.caches:
            c.cache_clear()

    @staticmethod
    def _same(o, saved):
        if len(o) != len(saved):
            return False
        for (k, v), k2 in zip(saved, o):
            if k is not k2 or o[k2] is not v:
                return False
        return True
