"""Loads a package from source with the AST rewrites the executor needs."""
import ast
import builtins
import importlib.abc
import importlib.machinery
import os
import sys
import warnings
from . import shims

FUNCS = {}      # qualified function name -> entered?
_BASES = {"dict", "set", "int", "float", "str", "bytes", "bytearray", "frozenset", "bool"}


def _name(n):
    return ast.Name(id=n, ctx=ast.Load())


def _call(n, args, kw=()):
    return ast.Call(func=_name(n), args=list(args), keywords=list(kw))


class Rewrite(ast.NodeTransformer):
    def __init__(self, modname):
        self.stack = [modname]

    def _fn(self, node):
        self.stack.append(node.name)
        q = ".".join(self.stack)
        self.generic_visit(node)
        self.stack.pop()
        FUNCS.setdefault(q, False)
        node.body.insert(0, ast.Expr(_call("__sv_enter__", [ast.Constant(q)])))
        # keep a docstring first
        if len(node.body) > 1 and isinstance(node.body[1], ast.Expr) and \
                isinstance(node.body[1].value, ast.Constant) and isinstance(node.body[1].value.value, str):
            node.body[0], node.body[1] = node.body[1], node.body[0]
        return node

    visit_FunctionDef = _fn

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        node.bases = [_call("__sv_base__", [b]) if isinstance(b, ast.Name) and b.id in _BASES else b
                      for b in node.bases]
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        items = [ast.Tuple(elts=[k if k is not None else _name("__sv_star__"), v], ctx=ast.Load())
                 for k, v in zip(node.keys, node.values)]
        return _call("__sv_mkdict__", [ast.List(elts=items, ctx=ast.Load())])

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return _call("__sv_mkdict__", [ast.GeneratorExp(
            elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()), generators=node.generators)])

    def visit_Set(self, node):
        self.generic_visit(node)
        return _call("__sv_mkset__", [ast.List(elts=node.elts, ctx=ast.Load())])

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return _call("__sv_mkset__", [ast.GeneratorExp(elt=node.elt, generators=node.generators)])

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return _call("__sv_mod__", [node.left, node.right])
        if isinstance(node.op, ast.Div):
            return _call("__sv_div__", [node.left, node.right])
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant("")
                parts.append(ast.Tuple(elts=[self.visit(v.value), ast.Constant(v.conversion), spec],
                                       ctx=ast.Load()))
        return _call("__sv_fstr__", [ast.List(elts=parts, ctx=ast.Load())])

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.Is, ast.IsNot)) and \
                isinstance(node.comparators[0], ast.Constant) and \
                isinstance(node.comparators[0].value, bool):
            return _call("__sv_isconst__", [node.left, node.comparators[0],
                                            ast.Constant(isinstance(node.ops[0], ast.IsNot))])
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr in ("join", "format"):
            return _call("__sv_%s__" % f.attr, [f.value] + node.args, node.keywords)
        if isinstance(f, ast.Name) and f.id == "type" and len(node.args) == 1 and not node.keywords:
            return _call("__sv_type__", node.args)
        return node


def _enter(q):
    FUNCS[q] = True


def _base(b):
    r = getattr(b, "_real", b)
    return shims.SymDict if r is dict else r


class Loader(importlib.abc.Loader):
    def __init__(self, path, stubs, extra):
        self.path, self.stubs, self.extra = path, stubs, extra

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path) as f:
            src = f.read()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            tree = ast.parse(src, self.path)
        tree = ast.fix_missing_locations(Rewrite(module.__name__).visit(tree))
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            code = compile(tree, self.path, "exec", dont_inherit=True)
        module.__dict__["__builtins__"] = make_builtins(self.stubs, self.extra)
        exec(code, module.__dict__)


def make_builtins(stubs, extra):
    b = dict(builtins.__dict__)
    real_import = builtins.__import__

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0 and name in stubs and (fromlist or "." not in name):
            return stubs[name]
        if level == 0 and not fromlist and "." in name and name.split(".")[0] in stubs:
            return stubs[name.split(".")[0]]
        return real_import(name, globals, locals, fromlist, level)

    b.update({
        "__import__": imp,
        "int": shims.sv_int, "float": shims.sv_float, "bool": shims.sv_bool, "str": shims.sv_str,
        "dict": shims.sv_dict, "set": shims.sv_set, "frozenset": shims.sv_frozenset,
        "bytes": shims.sv_bytes, "bytearray": shims.sv_bytearray,
        "isinstance": shims.sv_isinstance, "issubclass": shims.sv_issubclass,
        "max": shims.sv_max, "min": shims.sv_min, "sum": shims.sv_sum, "round": shims.sv_round,
        "range": shims.sv_range, "ord": shims.sv_ord, "chr": shims.sv_chr, "repr": shims.sv_repr,
        "print": shims.sv_print,
        "__sv_enter__": _enter, "__sv_base__": _base, "__sv_star__": shims._STAR,
        "__sv_mkdict__": shims.sv_mkdict, "__sv_mkset__": shims.sv_mkset,
        "__sv_mod__": shims.sv_mod, "__sv_div__": shims.sv_div, "__sv_fstr__": shims.sv_fstr,
        "__sv_isconst__": shims.sv_isconst, "__sv_join__": shims.sv_join,
        "__sv_format__": shims.sv_format, "__sv_type__": shims._sv_type1,
    })
    b.update(extra)
    return b


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, package, root, stubs, extra):
        self.package, self.root, self.stubs, self.extra = package, root, stubs, extra

    def find_spec(self, name, path=None, target=None):
        if name != self.package and not name.startswith(self.package + "."):
            return None
        p = os.path.join(self.root, *name.split("."))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
            f = os.path.join(p, "__init__.py")
            return importlib.machinery.ModuleSpec(
                name, Loader(f, self.stubs, self.extra), origin=f, is_package=True)
        if os.path.exists(p + ".py"):
            return importlib.machinery.ModuleSpec(
                name, Loader(p + ".py", self.stubs, self.extra), origin=p + ".py")
        return None


def load(package, root, stubs, extra):
    sys.meta_path.insert(0, Finder(package, root, stubs, extra))
    sys.dont_write_bytecode = True
    return __import__(package)
