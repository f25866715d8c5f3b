"""
Control of the orders that a program may not rely on: those of sets, and of directory listings.

`install()` makes later imports of moz.l10n build their sets (displays, comprehensions, calls, and results of operators) as sets that iterate in a chosen order, and has os.scandir and os.listdir list in a chosen order.
`explore(run, bound)` then runs `run` under every combination of choices in which up to `bound` of them aren't the first.
"""

from __future__ import annotations

import ast
import importlib.abc
import importlib.machinery
import itertools
import os
import sys

ON = False
PREFIX: list[int] = []
TRAIL: list[int] = []  # the number of alternatives of each choice
real_scandir, real_listdir = os.scandir, os.listdir
PERMS = {n: list(itertools.permutations(range(n))) for n in range(4)}


def perms(n: int):
    if n not in PERMS:
        rots = [tuple((i + j) % n for i in range(n)) for j in range(n)]
        swaps = [tuple(range(i)) + (i + 1, i) + tuple(range(i + 2, n)) for i in range(n - 1)]
        PERMS[n] = list(dict.fromkeys([*rots, *(r[::-1] for r in rots), *swaps]))
    return PERMS[n]


def order(items: list, key) -> list:
    items.sort(key=key)
    if not ON or len(items) < 2:
        return items
    ps = perms(len(items))
    i = len(TRAIL)
    TRAIL.append(len(ps))
    return [items[j] for j in ps[PREFIX[i] if i < len(PREFIX) else 0]]


class OSet(set):
    def __iter__(self):
        return iter(order(list(set.__iter__(self)), repr))

    def pop(self):
        if not self:
            raise KeyError("pop from an empty set")
        x = next(iter(self))
        self.discard(x)
        return x


class OFrozenSet(frozenset):
    def __iter__(self):
        return iter(order(list(frozenset.__iter__(self)), repr))


def wrap(x):
    return OSet(x) if type(x) is set else OFrozenSet(x) if type(x) is frozenset else x


def plain(x) -> list:
    return list(set.__iter__(x) if isinstance(x, set) else frozenset.__iter__(x) if isinstance(x, frozenset) else x)


for cls in (OSet, OFrozenSet):
    base = cls.__mro__[1]
    for name in ["union", "intersection", "difference", "symmetric_difference", "copy", "__and__", "__or__", "__sub__", "__xor__", "__rand__", "__ror__", "__rsub__", "__rxor__"]:

        def method(self, *args, _f=getattr(base, name)):
            return wrap(_f(self, *args))

        # Arguments that are iterables rather than sets are iterated by the base class
        setattr(cls, name, method)


class Rewrite(ast.NodeTransformer):
    def name(self, node, name):
        return ast.copy_location(ast.Name(name, ast.Load()), node)

    def call(self, node, name, args):
        return ast.copy_location(ast.Call(self.name(node, name), args, []), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return self.call(node, "__orders_set__", [ast.copy_location(ast.List(node.elts, ast.Load()), node)])

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return self.call(node, "__orders_set__", [ast.copy_location(ast.GeneratorExp(node.elt, node.generators), node)])

    def visit_BinOp(self, node):
        self.generic_visit(node)
        return self.call(node, "__orders_wrap__", [node]) if isinstance(node.op, (ast.Sub, ast.BitAnd, ast.BitOr, ast.BitXor)) else node

    def visit_Compare(self, node):
        # Tests of membership in constant sets
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)) and isinstance(node.comparators[0], ast.Set):
            node.left = self.visit(node.left)
            return node
        return self.generic_visit(node)

    def visit_AnnAssign(self, node):
        if node.value:
            node.value = self.visit(node.value)
        return node

    def visit_arg(self, node):
        return node

    def visit_Subscript(self, node):
        if isinstance(node.value, ast.Name) and node.value.id in ("set", "frozenset"):
            return node
        return self.generic_visit(node)

    def visit_Name(self, node):
        if isinstance(node.ctx, ast.Load) and node.id in ("set", "frozenset"):
            return self.name(node, f"__orders_{node.id}__")
        return node


class Loader(importlib.machinery.SourceFileLoader):
    def source_to_code(self, data, path, *, _optimize=-1):
        tree = ast.parse(data, path)
        body = []
        for x in tree.body:
            # Type aliases aren't changed
            body.append(x if isinstance(x, ast.Assign) and "Union[" in ast.unparse(x.value) else Rewrite().visit(x))
        tree.body = body
        return compile(ast.fix_missing_locations(tree), path, "exec", dont_inherit=True)

    def exec_module(self, module):
        module.__dict__["__orders_set__"] = OSet
        module.__dict__["__orders_frozenset__"] = OFrozenSet
        module.__dict__["__orders_wrap__"] = wrap
        super().exec_module(module)

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if not fullname.startswith("moz.l10n"):
            return None
        spec = importlib.machinery.PathFinder.find_spec(fullname, path, target)
        if spec is not None and isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            spec.loader = Loader(spec.loader.name, spec.loader.path)
        return spec


class Listing:
    def __init__(self, path):
        with real_scandir(path) as it:
            self.it = iter(order(list(it), lambda e: e.name))

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *_):
        self.close()

    def close(self):
        self.it = iter(())


def scandir(path="."):
    return Listing(path) if ON else real_scandir(path)


def listdir(path="."):
    return order(real_listdir(path), str)


def install() -> None:
    for name in list(sys.modules):
        if name == "moz.l10n" or name.startswith("moz.l10n."):
            del sys.modules[name]
    sys.meta_path.insert(0, Finder())
    os.scandir, os.listdir = scandir, listdir


class Many(Exception):
    pass


def explore(run, bound: int, limit: int = 100000):
    """Yields the choices and result of each run."""
    global ON, PREFIX, TRAIL
    todo = [([], 0)]
    n = 0
    while todo:
        prefix, used = todo.pop()
        n += 1
        if n > limit:
            raise Many(f"more than {limit} runs")
        PREFIX, TRAIL, ON = prefix, [], True
        try:
            res = run()
        finally:
            ON = False
        trail = TRAIL
        yield prefix, res
        if used < bound:
            for i in range(len(prefix), len(trail)):
                todo += [(prefix + [0] * (i - len(prefix)) + [c], used + 1) for c in range(1, trail[i])]
