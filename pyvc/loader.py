"""Mechanical extraction of the code that runs: every malcolm module is
compiled from /repo's current source text with semantics-preserving
rewrites so that it can run on symbolic values:

 1. calls of a fixed set of builtins, of module functions (np.f / math.f),
    dict/list subscripts and 'in' go through pyvc.rt, which defers to the
    original on concrete operands;
 2. each loop in a function body becomes  "if <cut by contract>: havoc; one
    arbitrary iteration; check invariant else: the original loop";
 3. a list comprehension over one name goes through pyvc.rt.lc, which runs
    the original comprehension unless the iterable is symbolic;
 4. nothing else: statements, order, exceptions and calls are unchanged.

With no symbolic value and no loop contract the rewritten module behaves as
the original (checked by running the concrete executable contract on both)."""
import ast
import builtins
import importlib.machinery
import os
import sys

from . import rt

REPO = os.environ.get("PYVC_REPO", "/repo")


class Tr(ast.NodeTransformer):
    def __init__(self, module):
        self.module = module
        self.stack = []
        self.counters = []
        self.locals = []

    @staticmethod
    def _stored(stmts):
        out = []

        class V(ast.NodeVisitor):
            def visit_Name(s, n):
                if isinstance(n.ctx, (ast.Store, ast.Del)):
                    out.append(n.id)

            def visit_FunctionDef(s, n):
                out.append(n.name)

            def visit_Lambda(s, n):
                pass
            visit_ListComp = visit_SetComp = visit_DictComp = visit_Lambda
            visit_GeneratorExp = visit_Lambda

            def visit_Import(s, n):
                out.extend((x.asname or x.name).split(".")[0]
                           for x in n.names)
            visit_ImportFrom = visit_Import

            def visit_ExceptHandler(s, n):
                if n.name:
                    out.append(n.name)
                s.generic_visit(n)
        for x in stmts:
            V().visit(x)
        return out

    # ---- scopes ----
    def _func(self, node):
        # decorators/defaults/annotations untouched
        self.stack.append(node.name)
        self.counters.append(0)
        a = node.args
        mine = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        mine += [x.arg for x in (a.vararg, a.kwarg) if x]
        self.locals.append(set(mine) | set(self._stored(node.body)))
        node.body = self._body(node.body)
        self.locals.pop()
        self.counters.pop()
        self.stack.pop()
        return node

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.counters.append(None)
        node.body = [self.visit(s) if isinstance(
            s, (ast.FunctionDef, ast.ClassDef)) else s for s in node.body]
        self.counters.pop()
        self.stack.pop()
        return node

    def visit_Module(self, node):
        node.body = [self.visit(s) if isinstance(
            s, (ast.FunctionDef, ast.ClassDef)) else s for s in node.body]
        return node

    def _body(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arguments(self, node):
        return node

    def visit_Lambda(self, node):
        node.body = self.visit(node.body)
        return node

    # ---- expressions ----
    def _rt(self, name, *args, kw=(), src=None):
        n = ast.Call(
            func=ast.Attribute(value=ast.Name("__pyvc__", ast.Load()),
                               attr=name, ctx=ast.Load()),
            args=list(args), keywords=list(kw))
        return ast.copy_location(n, src) if src is not None else n

    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Name) and f.id in rt.NAMES:
            self.generic_visit(node)
            return self._rt("b", f, *node.args, kw=node.keywords, src=node)
        if (isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name)
                and f.value.id in ("np", "numpy", "math")):
            self.generic_visit(node)
            return self._rt("a", f.value, ast.Constant(f.attr), *node.args,
                            kw=node.keywords, src=node)
        self.generic_visit(node)
        if isinstance(f, ast.Attribute) and f.attr == "join":
            return self._rt("join", f.value, *node.args, kw=node.keywords,
                            src=node)
        return node

    def visit_FormattedValue(self, node):
        node.value = self.visit(node.value)
        return node

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        if all(isinstance(v, ast.Constant) or v.conversion == -1
               and v.format_spec is None for v in node.values):
            return self._rt("fstr", *[
                v if isinstance(v, ast.Constant) else v.value
                for v in node.values], src=node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not isinstance(
                node.slice, (ast.Slice, ast.Tuple, ast.Constant)):
            return self._rt("getitem", node.value, node.slice, src=node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            c = self._rt("contains", node.left, node.comparators[0], src=node)
            if isinstance(node.ops[0], ast.NotIn):
                return ast.copy_location(ast.UnaryOp(ast.Not(), c), node)
            return c
        return node

    def visit_ListComp(self, node):
        self.generic_visit(node)
        g = node.generators[0]
        simple = (len(node.generators) == 1 and not g.ifs and not g.is_async
                  and isinstance(g.target, ast.Name) and not any(
                      isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield))
                      for x in ast.walk(node)))
        if not simple:
            return node
        # [elt for x in it] -> __pyvc__.lc(it, lambda x: elt, lambda it: [...])
        import copy
        tmp = "__pyvc_it"
        plain = ast.ListComp(copy.deepcopy(node.elt), [ast.comprehension(
            copy.deepcopy(g.target), ast.Name(tmp, ast.Load()), [], 0)])

        def lam(arg, body):
            return ast.Lambda(ast.arguments([], [ast.arg(arg)], None, [], [],
                                            None, []), body)
        return self._rt("lc", g.iter, lam(g.target.id, node.elt),
                        lam(tmp, plain), src=node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(
                node.left, ast.Constant) and isinstance(node.left.value, str):
            return self._rt("fmt", node.left, node.right, src=node)
        return node

    def visit_AugAssign(self, node):
        import copy
        self.generic_visit(node)
        t = node.target
        if isinstance(node.op, ast.Add) and (isinstance(t, ast.Name) or (
                isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name))):
            load = copy.deepcopy(t)
            load.ctx = ast.Load()
            n = ast.Assign([t], self._rt("iadd", load, node.value, src=node))
            return ast.copy_location(n, node)
        return node

    # ---- loops ----
    def _assigned(self, stmts, extra=()):
        names = []

        class V(ast.NodeVisitor):
            def visit_Name(s, n):
                if isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in names:
                    names.append(n.id)

            def visit_FunctionDef(s, n):
                if n.name not in names:
                    names.append(n.name)

            def visit_Call(s, n):
                # containers changed in place
                f = n.func
                if isinstance(f, ast.Attribute) and f.attr in MUTATORS and \
                        isinstance(f.value, ast.Name) and \
                        f.value.id not in names and f.value.id != "self":
                    names.append(f.value.id)
                s.generic_visit(n)

            def visit_Subscript(s, n):
                if isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(
                        n.value, ast.Name) and n.value.id not in names:
                    names.append(n.value.id)
                s.generic_visit(n)

            def visit_Lambda(s, n):
                pass

            def visit_ListComp(s, n):
                pass
            visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

            def visit_ExceptHandler(s, n):
                for x in n.body:
                    s.visit(x)
        v = V()
        for s_ in stmts:
            v.visit(s_)
        for e in extra:
            v.visit(e)
        return [n for n in names if not n.startswith("__pyvc")]

    def _loop(self, node, kind):
        import copy
        k = self.counters[-1]
        self.counters[-1] += 1
        qual = ".".join(self.stack)
        var = "__pyvc_L%d" % k
        lname = lambda: ast.Name(var, ast.Load())
        key = ast.Tuple([ast.Constant(self.module), ast.Constant(qual),
                         ast.Constant(k)], ast.Load())
        locs = lambda: ast.Call(ast.Name("locals", ast.Load()), [], [])

        def m(name, *a):
            return ast.Call(ast.Attribute(lname(), name, ast.Load()),
                            list(a), [])
        names = self._assigned(node.body, [node.target] if kind == "for" else [])
        if kind == "for":
            it = self.visit(node.iter)
            start = ast.Assign([ast.Name(var, ast.Store())], self._rt(
                "loop", key, ast.Constant("for"), it))
        else:
            start = ast.Assign([ast.Name(var, ast.Store())], self._rt(
                "loop", key, ast.Constant("while")))
        # nested loops inside get their own ordinals; transform body once and
        # deep copy for the second arm so that ordinals are shared
        body = self._body(node.body)
        orelse = self._body(node.orelse) if node.orelse else []
        test = self.visit(node.test) if kind == "while" else None
        cut = [ast.Expr(m("entry", locs()))]
        mine = self.locals[-1] if self.locals else set()
        for n in names:
            if n not in mine:
                # changed in place, but of an enclosing scope
                cut.append(ast.Expr(m("foreign", ast.Constant(n))))
                continue
            cut.append(ast.If(
                m("has", ast.Constant(n), locs()),
                [ast.Assign([ast.Name(n, ast.Store())],
                            m("hv", ast.Constant(n), ast.Name(n, ast.Load())))],
                []))
        cut.append(ast.Expr(m("havoced", locs())))
        once_iter = (m("one") if kind == "for"
                     else ast.Tuple([ast.Constant(0)], ast.Load()))
        once_target = (copy.deepcopy(node.target) if kind == "for"
                       else ast.Name("__pyvc_once", ast.Store()))
        one = ast.For(once_target, once_iter, copy.deepcopy(body),
                      [ast.Expr(m("preserve", locs()))])
        cond = m("more") if kind == "for" else copy.deepcopy(test)
        cut.append(ast.If(cond, [one], copy.deepcopy(orelse) or [ast.Pass()]))
        if kind == "for":
            orig = ast.For(node.target, m("items"), body, orelse)
        else:
            orig = ast.While(test, body, orelse)
        sel = ast.If(ast.Attribute(lname(), "cut", ast.Load()), cut, [orig])
        for x in (start, sel):
            ast.copy_location(x, node)
            for y in ast.walk(x):
                if not hasattr(y, "lineno") and isinstance(
                        y, (ast.expr, ast.stmt)):
                    ast.copy_location(y, node)
        return [start, sel]

    def visit_For(self, node):
        if not self.counters or self.counters[-1] is None:
            return node
        return self._loop(node, "for")

    def visit_While(self, node):
        if not self.counters or self.counters[-1] is None:
            return node
        return self._loop(node, "while")


MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "update",
            "setdefault", "add", "discard", "sort", "reverse", "appendleft",
            "popleft", "popitem"}


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        src = self.get_data(path)
        tree = ast.parse(src, path)
        tree = Tr(fullname).visit(tree)
        ast.fix_missing_locations(tree)
        LOADED[fullname] = path
        return compile(tree, path, "exec", dont_inherit=True)


LOADED = {}


class Finder:
    def __init__(self):
        self.busy = False

    def find_spec(self, name, path=None, target=None):
        if name != "malcolm" and not name.startswith("malcolm."):
            return None
        spec = importlib.machinery.PathFinder.find_spec(
            name, path if path is not None else [REPO])
        if spec and spec.origin and spec.origin.startswith(REPO + "/malcolm"):
            if isinstance(spec.loader, importlib.machinery.SourceFileLoader):
                spec.loader = Loader(spec.name, spec.origin)
        return spec


def install():
    builtins.__pyvc__ = rt
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, Finder())
