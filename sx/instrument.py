"""AST instrumentation and import hook: the code under test is transformed from its current source on every run."""
import ast
import builtins
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import types

REPO_SRC = os.environ.get("SX_REPO_SRC", "/repo/src")
STDLIB = ("textwrap", "ipaddress", "urllib.parse")  # standard library modules executed symbolically from their source


class Xform(ast.NodeTransformer):
    def __init__(self, module=None):
        self.quiet = 0
        self.qual = [] if module is None else [module]

    # -- helpers
    def _sx(self, name, *args, keywords=()):
        return ast.Call(
            ast.Attribute(ast.Name("_sx", ast.Load()), name, ast.Load()), list(args), list(keywords)
        )

    # -- annotations and decorators stay untouched
    def visit_FunctionDef(self, node):
        self.qual.append(node.name)
        node.body = [self.visit(s) for s in node.body]
        if len(self.qual) > 1:
            at = 1 if ast.get_docstring(node, clean=False) is not None else 0
            node.body.insert(at, ast.Expr(self._sx("enter", ast.Constant(".".join(self.qual)))))
        self.qual.pop()
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [d and self.visit(d) for d in node.args.kw_defaults]
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Lambda(self, node):
        node.body = self.visit(node.body)
        return node

    def visit_ClassDef(self, node):
        self.qual.append(node.name)
        node.body = [self.visit(s) for s in node.body]
        self.qual.pop()
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        node.target = self.visit(node.target)
        return node

    def visit_Raise(self, node):
        self.quiet += 1
        r = self.generic_visit(node)
        self.quiet -= 1
        return r

    def visit_Assert(self, node):
        node.test = self.visit(node.test)
        if node.msg is not None:
            self.quiet += 1
            node.msg = self.visit(node.msg)
            self.quiet -= 1
        return node

    # -- expressions
    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Name) and f.id in ("super", "locals", "globals", "__import__", "exec", "eval"):
            return self.generic_visit(node)
        is_warn = isinstance(f, ast.Attribute) and f.attr == "warn"
        if self.quiet and isinstance(f, ast.Attribute) and f.attr in ("format", "join") :
            node = self.generic_visit(node)
            return ast.copy_location(self._sx("callq", node.func, *node.args, keywords=node.keywords), node)
        if is_warn:
            self.quiet += 1
        node = self.generic_visit(node)
        if is_warn:
            self.quiet -= 1
        return ast.copy_location(self._sx("call", node.func, *node.args, keywords=node.keywords), node)

    def visit_Compare(self, node):
        node = self.generic_visit(node)
        if not any(isinstance(o, (ast.In, ast.NotIn)) for o in node.ops):
            return node
        if len(node.ops) == 1:
            r = self._sx("contains", node.left, node.comparators[0])
            if isinstance(node.ops[0], ast.NotIn):
                r = ast.UnaryOp(ast.Not(), r)
            return ast.copy_location(r, node)
        return node

    def visit_BinOp(self, node):
        node = self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(self._sx("modq" if self.quiet else "mod", node.left, node.right), node)
        return node

    def visit_AugAssign(self, node):
        node.value = self.visit(node.value)
        if isinstance(node.op, ast.Mod) and isinstance(node.target, ast.Name):
            return ast.copy_location(
                ast.Assign(
                    [node.target], self._sx("mod", ast.Name(node.target.id, ast.Load()), node.value)
                ),
                node,
            )
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = ast.Constant("") if v.format_spec is None else self.visit(v.format_spec)
                conv = ast.Constant(chr(v.conversion) if v.conversion != -1 else "")
                parts.append(ast.Tuple([self.visit(v.value), conv, spec], ast.Load()))
        return ast.copy_location(self._sx("fstrq" if self.quiet else "fstr", *parts), node)

    def visit_Subscript(self, node):
        node = self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not isinstance(node.slice, (ast.Slice, ast.Constant)):
            return ast.copy_location(self._sx("getitem", node.value, node.slice), node)
        return node

    def visit_Assign(self, node):
        node.value = self.visit(node.value)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript) and not isinstance(
            node.targets[0].slice, (ast.Slice, ast.Constant)
        ):
            t = node.targets[0]
            return ast.copy_location(
                ast.Expr(self._sx("setitem", self.visit(t.value), self.visit(t.slice), node.value)), node
            )
        node.targets = [self.visit(t) for t in node.targets]
        return node

    def visit_Dict(self, node):
        node = self.generic_visit(node)
        pairs = []
        for k, v in zip(node.keys, node.values):
            pairs.append(ast.Tuple([v] if k is None else [k, v], ast.Load()))
        return ast.copy_location(self._sx("mkdict", *pairs), node)

    def visit_DictComp(self, node):
        node = self.generic_visit(node)
        gen = ast.GeneratorExp(ast.Tuple([node.key, node.value], ast.Load()), node.generators)
        return ast.copy_location(self._sx("dictcomp", gen), node)

    def visit_Set(self, node):
        node = self.generic_visit(node)
        return ast.copy_location(self._sx("mkset", *node.elts), node)

    def visit_SetComp(self, node):
        node = self.generic_visit(node)
        return ast.copy_location(self._sx("SSet", ast.GeneratorExp(node.elt, node.generators)), node)

    def visit_Attribute(self, node):
        node = self.generic_visit(node)
        if (
            isinstance(node.ctx, ast.Load) and isinstance(node.value, ast.Name) and node.value.id == "str"
            and hasattr(str, node.attr)
        ):
            return ast.copy_location(self._sx("tattr", ast.Constant(node.attr)), node)
        return node


def transform(src, filename, module=None):
    tree = ast.parse(src, filename)
    tree = Xform(module).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)


def prepare_globals(g):
    from sx import rt

    g["_sx"] = rt
    g["dict"] = rt.SDict
    g["set"] = rt.SSet


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with open(path, encoding="utf-8") as f:
            return transform(f.read(), path, fullname)

    def exec_module(self, module):
        prepare_globals(module.__dict__)
        super().exec_module(module)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name == "ics" or name.startswith("ics."):
            rel = name.replace(".", "/")
            for cand, pkg in ((f"{REPO_SRC}/{rel}/__init__.py", True), (f"{REPO_SRC}/{rel}.py", False)):
                if os.path.exists(cand):
                    return importlib.util.spec_from_file_location(
                        name, cand, loader=Loader(name, cand),
                        submodule_search_locations=[os.path.dirname(cand)] if pkg else None,
                    )
        if name == "hcommon":
            cand = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "hcommon.py")
            return importlib.util.spec_from_file_location(name, cand, loader=Loader(name, cand))
        return None


def instrument_stdlib(name):
    real = importlib.import_module(name)
    path = real.__file__
    m = types.ModuleType(name)
    m.__file__ = path
    m.__package__ = real.__package__
    m.__spec__ = real.__spec__
    prepare_globals(m.__dict__)
    # modules that are executed from their own source, transformed exactly like the code under test
    exec(transform(open(path, encoding="utf-8").read(), path, name), m.__dict__)
    sys.modules[name] = m
    parent, _, child = name.rpartition(".")
    if parent:
        setattr(sys.modules[parent], child, m)
    return m


class DateParser:
    """dateutil.parser for texts that may be symbolic"""

    @staticmethod
    def parse(text, ignoretz=False, tzinfos=None):
        import dateutil.tz
        from dateutil import parser
        from sx import chars, dt, values

        if type(text) is values.SymStr:
            # the basic format is read in the same way as by strptime
            n = len(text)
            if n in (15, 16) and values.c_is(text.cells[8], 84) and (n == 15 or values.c_is(text.cells[15], 90)):
                if all(values.c_in(c, chars.ASCII_DIGIT) for c in (*text.cells[:8], *text.cells[9:15])):
                    d = dt.strptime(text[:15], "%Y%m%dT%H%M%S")
                    return d.replace(tzinfo=dateutil.tz.UTC) if n == 16 and not ignoretz else d
            text = text.concretise("dateutil.parser")
        return parser.parse(text, ignoretz=ignoretz, tzinfos=tzinfos)


def instrument_rrulestr():
    """rules are read by a transformed copy of dateutil's own code; they become ordinary rules of dateutil"""
    import dateutil.rrule as real

    m = types.ModuleType("dateutil.rrule")
    m.__file__ = real.__file__
    m.__package__ = real.__package__
    prepare_globals(m.__dict__)
    exec(transform(open(real.__file__, encoding="utf-8").read(), real.__file__, "dateutil.rrule"), m.__dict__)
    real.rrule.__str__ = m.rrule.__str__
    real.rrulestr = m.rrulestr
    m.rrule, m.rruleset, m.parser = real.rrule, real.rruleset, DateParser


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    if sys.path[-1] != "/opt/venv/lib/python3.12/site-packages":
        sys.path.append("/opt/venv/lib/python3.12/site-packages")
    sys.dont_write_bytecode = True
    import warnings

    warnings.simplefilter("ignore")
    from sx import dt, rt, values
    import attr
    import attr.validators as av
    import dateutil.tz
    import dateutil.tz.tz
    import dateutil.rrule

    dateutil.tz.tzlocal = dt.SymLocal
    real_gettz = dateutil.tz.gettz

    def gettz(name=None):
        return real_gettz(rt.concretise(name, "gettz"))

    dateutil.tz.gettz = gettz
    for n in STDLIB:
        instrument_stdlib(n)
    sys.modules["urllib.parse"]._checknetloc = rt.checknetloc(sys.modules["urllib.parse"]._checknetloc)
    instrument_rrulestr()
    in_cls = type(av.in_(()))
    orig = in_cls.__call__

    def in_call(self, inst, attribute, value):
        if isinstance(value, values.Sym):
            if not rt.contains(value, self.options):
                raise ValueError(f"'{attribute.name}' must be in {self.options!r}")
            return
        return orig(self, inst, attribute, value)

    in_cls.__call__ = in_call
    sys.meta_path.insert(0, Finder())
    import ics

    ics.initialize_converters()
    assert ics.__file__.startswith(REPO_SRC), ics.__file__
    from ics.timezone import Timezone  # noqa: F401
    import ics.timezone.converters  # noqa: F401


def load_harness(path):
    name = "h_" + os.path.basename(path)[:-3]
    m = types.ModuleType(name)
    m.__file__ = path
    prepare_globals(m.__dict__)
    sys.modules[name] = m
    exec(transform(open(path, encoding="utf-8").read(), path), m.__dict__)
    return m


# ------------------------------------------------------------------------------------------------ state isolation


class Snapshot:
    """module- and class-level mutable containers of the code under test, restored before every path"""

    def __init__(self):
        self.items = []
        seen = set()
        for name, m in sorted(sys.modules.items()):
            if name == "ics" or name.startswith("ics."):
                self._ns(m.__dict__, seen, name)
        import ics.contentline.container as c

        self.wrap = getattr(c, "DEFAULT_LINE_WRAP", None)
        self.wrap_state = dict(self.wrap.__dict__) if self.wrap is not None else None

    def _ns(self, ns, seen, owner):
        for k, v in list(ns.items()):
            if k.startswith("__") and k != "__attr_fields__" or k == "_sx":
                continue
            if isinstance(v, type) and str(getattr(v, "__module__", "")).split(".")[0] == "ics" and id(v) not in seen:
                seen.add(id(v))
                self._ns(v.__dict__, seen, f"{owner}.{k}")
            elif type(v) in (dict, list, set) or type(v).__name__ == "SDict":
                if id(v) in seen:
                    continue
                seen.add(id(v))
                self.items.append((v, list(v.items()) if isinstance(v, dict) else list(v)))

    def restore(self):
        for obj, saved in self.items:
            if isinstance(obj, dict):
                if list(obj.items()) != saved:
                    obj.clear()
                    for k, v in saved:
                        obj[k] = v
            elif list(obj) != saved:
                obj.clear()
                (obj.extend if isinstance(obj, list) else obj.update)(saved)
        if self.wrap is not None:
            self.wrap.__dict__.clear()
            self.wrap.__dict__.update(self.wrap_state)
