"""Dictionaries and sets that accept symbolic numbers as keys.

A hash table compares only keys of equal hash, so a symbolic key would silently miss the concrete
keys it may be equal to.  The code under test is compiled with its dict/set displays and calls
replaced by these subclasses: a lookup with a symbolic key (or in a container that holds one)
compares with each stored key, which forks like any other comparison."""
import ast
import importlib.abc
import importlib.machinery
import importlib.util
import sys

from .core import SymNum, SymBool


def symbolic(k):
    if isinstance(k, (SymNum, SymBool)):
        return True
    return type(k) is tuple and any(symbolic(x) for x in k)


def _comparable(a, b):
    if isinstance(a, tuple) or isinstance(b, tuple):
        return isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and \
            all(_comparable(x, y) for x, y in zip(a, b))
    num = (int, float, SymNum, SymBool)
    return isinstance(a, num) == isinstance(b, num)


def _find(keys, k):
    """The stored key equal to k (forks), or k itself."""
    for q in keys:
        if q is k or (_comparable(q, k) and bool(q == k)):
            return q
    return k


class _Meta(type):
    def __instancecheck__(cls, o):
        return type.__instancecheck__(cls, o) or (cls in (SDict, SSet) and isinstance(o, cls.__mro__[1]))

    def __subclasscheck__(cls, c):
        return type.__subclasscheck__(cls, c) or (cls in (SDict, SSet) and issubclass(c, cls.__mro__[1]))

    def __eq__(cls, o):
        return o is cls or o is cls.__mro__[1]

    def __hash__(cls):
        return hash(cls.__mro__[1])


class SDict(dict, metaclass=_Meta):
    _sym = False

    def __init__(self, *a, **kw):
        dict.__init__(self)
        if len(a) == 1 and type(a[0]) is dict and not kw and not any(map(symbolic, a[0])):
            dict.update(self, a[0])
        elif a or kw:
            self.update(*a, **kw)

    def _key(self, k):
        if self._sym or symbolic(k):
            return _find(list(dict.keys(self)), k)
        return k

    def __contains__(self, k):
        return dict.__contains__(self, self._key(k))

    def __getitem__(self, k):
        return dict.__getitem__(self, self._key(k))

    def get(self, k, d=None):
        return dict.get(self, self._key(k), d)

    def __setitem__(self, k, v):
        q = self._key(k)
        dict.__setitem__(self, q, v)
        if symbolic(q):
            self._sym = True

    def __delitem__(self, k):
        dict.__delitem__(self, self._key(k))

    def pop(self, k, *d):
        return dict.pop(self, self._key(k), *d)

    def setdefault(self, k, d=None):
        if k not in self:
            self[k] = d
        return self[k]

    def update(self, *a, **kw):
        for k, v in _pairs(*a):
            self[k] = v
        for k, v in kw.items():
            self[k] = v

    def copy(self):
        return SDict(self)

    @classmethod
    def fromkeys(cls, it, v=None):
        d = SDict()
        for k in it:
            d[k] = v
        return d


def _pairs(*a):
    if not a:
        return []
    return [(k, a[0][k]) for k in a[0].keys()] if hasattr(a[0], 'keys') else list(a[0])


class SSet(set, metaclass=_Meta):
    _sym = False

    def __init__(self, it=()):
        set.__init__(self)
        self.update(it)

    def _key(self, k):
        if self._sym or symbolic(k):
            return _find(list(set.__iter__(self)), k)
        return k

    def add(self, k):
        q = self._key(k)
        set.add(self, q)
        if symbolic(q):
            self._sym = True

    def update(self, *its):
        for it in its:
            for k in it:
                self.add(k)

    def __contains__(self, k):
        return set.__contains__(self, self._key(k))

    def discard(self, k):
        set.discard(self, self._key(k))

    def remove(self, k):
        set.remove(self, self._key(k))

    def union(self, *its):
        r = SSet(self)
        r.update(*its)
        return r

    def __or__(self, o):
        return self.union(o)

    def __ior__(self, o):
        self.update(o)
        return self

    def intersection(self, *its):
        r = self
        for it in its:
            o = SSet(it)
            r = SSet(k for k in r if k in o)
        return r

    def __and__(self, o):
        return self.intersection(o)

    def difference(self, *its):
        r = self
        for it in its:
            o = SSet(it)
            r = SSet(k for k in r if k not in o)
        return r

    def __sub__(self, o):
        return self.difference(o)

    def copy(self):
        return SSet(self)

    def __eq__(self, o):
        if self._sym or getattr(o, '_sym', False):
            return isinstance(o, set) and len(self) == len(o) and all(k in self for k in o)
        return set.__eq__(self, o)

    def __ne__(self, o):
        return not self == o

    __hash__ = None


# ------------------------------------------------------------------ compiling the code under test
class _Rewrite(ast.NodeTransformer):
    def _wrap(self, node, name):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(func=ast.copy_location(ast.Name(id=name, ctx=ast.Load()), node),
                                          args=[node], keywords=[]), node)

    def visit_Set(self, node):
        # element by element, so that equal symbolic elements are found
        self.generic_visit(node)
        lst = ast.copy_location(ast.List(elts=node.elts, ctx=ast.Load()), node)
        return ast.copy_location(ast.Call(func=ast.copy_location(ast.Name(id='__sx_set__', ctx=ast.Load()), node),
                                          args=[lst], keywords=[]), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        lst = ast.copy_location(ast.ListComp(elt=node.elt, generators=node.generators), node)
        return ast.copy_location(ast.Call(func=ast.copy_location(ast.Name(id='__sx_set__', ctx=ast.Load()), node),
                                          args=[lst], keywords=[]), node)

    def visit_Dict(self, node):
        if any(k is None for k in node.keys):
            return self._wrap(node, '__sx_dict__')
        self.generic_visit(node)
        lst = ast.copy_location(ast.List(elts=[
            ast.copy_location(ast.Tuple(elts=[k, v], ctx=ast.Load()), k) for k, v in zip(node.keys, node.values)],
            ctx=ast.Load()), node)
        return ast.copy_location(ast.Call(func=ast.copy_location(ast.Name(id='__sx_pairs__', ctx=ast.Load()), node),
                                          args=[lst], keywords=[]), node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        lst = ast.copy_location(ast.ListComp(elt=ast.copy_location(ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()), node),
                                             generators=node.generators), node)
        return ast.copy_location(ast.Call(func=ast.copy_location(ast.Name(id='__sx_pairs__', ctx=ast.Load()), node),
                                          args=[lst], keywords=[]), node)


def pairs(lst):
    d = SDict()
    for k, v in lst:
        d[k] = v
    return d


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        # always from the source of the working tree
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)

    def source_to_code(self, data, path, *, _optimize=-1):
        tree = _Rewrite().visit(ast.parse(data, path))
        ast.fix_missing_locations(tree)
        return compile(tree, path, 'exec', dont_inherit=True, optimize=_optimize)

    def exec_module(self, module):
        module.__dict__['__sx_set__'] = SSet
        module.__dict__['__sx_dict__'] = SDict
        module.__dict__['__sx_pairs__'] = pairs
        super().exec_module(module)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if name != 'pdf2docx' and not name.startswith('pdf2docx.'):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path, target)
        if spec is None or not isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            return spec
        spec.loader = _Loader(spec.loader.name, spec.loader.path)
        return spec


def install():
    """(Re)load the code under test with symbolic containers."""
    for m in [m for m in sys.modules if m == 'pdf2docx' or m.startswith('pdf2docx.')]:
        del sys.modules[m]
    if not any(isinstance(f, Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, Finder())
