"""Loads the package under test from its current source through an AST
transformation that dispatches calls, subscripts, comparisons, operators,
iteration and a few attributes to the symbolic runtime."""
import ast
import hashlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

RT = "_symrt_"
HOOK_ATTRS = {"flat", "real", "imag", "name", "attrs", "numerator", "denominator"}
SET_ATTRS = {"imag", "real", "flat"}

BIN = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%",
       ast.Pow: "**", ast.LShift: "<<", ast.RShift: ">>", ast.BitOr: "|", ast.BitXor: "^",
       ast.BitAnd: "&", ast.MatMult: "@"}
CMP = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=",
       ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}


def rtcall(name, *args):
    return ast.Call(ast.Attribute(ast.Name(RT, ast.Load()), name, ast.Load()), list(args), [])


class T(ast.NodeTransformer):
    def __init__(self):
        self.cls = []
        self.where = []
        self.n = 0

    def tmp(self):
        self.n += 1
        return "_symtmp%d_" % self.n

    # annotations are left alone
    def visit_arg(self, node):
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        if isinstance(node.target, (ast.Attribute, ast.Subscript)):
            if node.value is None:
                return node
            return self.visit_Assign_done(ast.Assign([node.target], node.value), node)
        return node

    def visit_FunctionDef(self, node):
        node.args = self.defaults(node.args)
        self.where.append(node.name)
        doc = ast.get_docstring(node, clean=False) is not None
        q = ".".join(self.where)
        self.where.append("<locals>")
        body = self.block(node.body)
        # which functions ran is reported in the evidence
        mark = ast.Expr(rtcall("entered", ast.Name("__name__", ast.Load()), ast.Constant(q)))
        body.insert(1 if doc else 0, ast.copy_location(mark, node.body[0]))
        node.body = body
        del self.where[-2:]
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def defaults(self, a):
        a.defaults = [self.visit(x) for x in a.defaults]
        a.kw_defaults = [None if x is None else self.visit(x) for x in a.kw_defaults]
        return a

    def visit_Lambda(self, node):
        node.args = self.defaults(node.args)
        node.body = self.visit(node.body)
        return node

    def block(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            if isinstance(r, list):
                out += r
            elif r is not None:
                out.append(r)
        return out

    def visit_ClassDef(self, node):
        self.cls.append(node.name)
        self.where.append(node.name)
        node.body = self.block(node.body)
        self.where.pop()
        self.cls.pop()
        return node

    def mangle(self, name):
        if self.cls and name.startswith("__") and not name.endswith("__"):
            c = self.cls[-1].lstrip("_")
            if c:
                return "_" + c + name
        return name

    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in ("super", "locals", "globals",
                                                               "vars", "dir"):
            self.generic_visit(node)
            return node
        args = [self.visit(a) for a in node.args]
        kws = [ast.keyword(k.arg, self.visit(k.value)) for k in node.keywords]
        if isinstance(node.func, ast.Attribute):
            f = node.func
            new = ast.Call(ast.Attribute(ast.Name(RT, ast.Load()), "callm", ast.Load()),
                           [self.visit(f.value), ast.Constant(self.mangle(f.attr))] + args, kws)
        else:
            new = ast.Call(ast.Attribute(ast.Name(RT, ast.Load()), "call", ast.Load()),
                           [self.visit(node.func)] + args, kws)
        return ast.copy_location(new, node)

    def index(self, s):
        if isinstance(s, ast.Slice):
            parts = [ast.Constant(None) if x is None else self.visit(x)
                     for x in (s.lower, s.upper, s.step)]
            return ast.Call(ast.Name("slice", ast.Load()), parts, []) if False else rtcall(
                "mkslice", *parts)
        if isinstance(s, ast.Tuple):
            return ast.Tuple([self.index(x) for x in s.elts], ast.Load())
        return self.visit(s)

    def visit_Subscript(self, node):
        if isinstance(node.ctx, ast.Load):
            return ast.copy_location(
                rtcall("getitem", self.visit(node.value), self.index(node.slice)), node)
        node.value = self.visit(node.value)
        node.slice = self.visit(node.slice)
        return node

    def visit_Attribute(self, node):
        node.value = self.visit(node.value)
        if isinstance(node.ctx, ast.Load) and node.attr in HOOK_ATTRS:
            return ast.copy_location(rtcall("attr", node.value, ast.Constant(node.attr)), node)
        return node

    def visit_Assign(self, node):
        node.value = self.visit(node.value)
        return self.visit_Assign_done(node, node)

    def visit_Assign_done(self, node, loc):
        if len(node.targets) == 1:
            t = node.targets[0]
            if isinstance(t, ast.Subscript):
                return ast.copy_location(ast.Expr(rtcall(
                    "setitem", self.visit(t.value), self.index(t.slice), node.value)), loc)
            if isinstance(t, ast.Attribute) and t.attr in SET_ATTRS:
                return ast.copy_location(ast.Expr(rtcall(
                    "setattr_", self.visit(t.value), ast.Constant(t.attr), node.value)), loc)
            if isinstance(t, (ast.Tuple, ast.List)):
                after = []
                t = self.unpacked(t, after)
                if after:
                    out = [ast.copy_location(ast.Assign([self.target(t)], node.value), loc)]
                    for a in after:
                        r = self.visit_Assign_done(a, loc)
                        out += r if isinstance(r, list) else [r]
                    return out
            node.targets = [self.target(t)]
            return ast.copy_location(node, loc)
        tmp = self.tmp()
        out = [ast.Assign([ast.Name(tmp, ast.Store())], node.value)]
        for t in node.targets:
            out.append(self.visit_Assign_done(ast.Assign([t], ast.Name(tmp, ast.Load())), loc))
        return [ast.copy_location(o, loc) for o in out]

    def target(self, t):
        if isinstance(t, ast.Attribute):
            t.value = self.visit(t.value)
        elif isinstance(t, ast.Subscript):
            t.value = self.visit(t.value)
            t.slice = self.visit(t.slice)
        elif isinstance(t, (ast.Tuple, ast.List)):
            t.elts = [self.target(x) for x in t.elts]
        elif isinstance(t, ast.Starred):
            t.value = self.target(t.value)
        return t

    def unpacked(self, t, after):
        """A target with names in place of the items and attributes, which are set after."""
        if isinstance(t, (ast.Tuple, ast.List)):
            t.elts = [self.unpacked(x, after) for x in t.elts]
        elif isinstance(t, ast.Starred):
            t.value = self.unpacked(t.value, after)
        elif isinstance(t, ast.Subscript) or isinstance(t, ast.Attribute) and t.attr in SET_ATTRS:
            n = self.tmp()
            after.append(ast.Assign([t], ast.Name(n, ast.Load())))
            return ast.Name(n, ast.Store())
        return t

    def visit_AugAssign(self, node):
        op = BIN[type(node.op)]
        v = self.visit(node.value)
        t = node.target
        if isinstance(t, ast.Subscript):
            o, i = self.tmp(), self.tmp()
            return [ast.copy_location(x, node) for x in (
                ast.Assign([ast.Name(o, ast.Store())], self.visit(t.value)),
                ast.Assign([ast.Name(i, ast.Store())], self.index(t.slice)),
                ast.Expr(rtcall("setitem", ast.Name(o, ast.Load()), ast.Name(i, ast.Load()),
                                rtcall("augop", ast.Constant(op),
                                       rtcall("getitem", ast.Name(o, ast.Load()),
                                              ast.Name(i, ast.Load())), v))))]
        if isinstance(t, ast.Attribute):
            o = self.tmp()
            return [ast.copy_location(x, node) for x in (
                ast.Assign([ast.Name(o, ast.Store())], self.visit(t.value)),
                ast.Assign([ast.Attribute(ast.Name(o, ast.Load()), t.attr, ast.Store())],
                           rtcall("augop", ast.Constant(op), ast.Attribute(
                               ast.Name(o, ast.Load()), t.attr, ast.Load()), v)))]
        return ast.copy_location(ast.Assign(
            [t], rtcall("augop", ast.Constant(op), ast.Name(t.id, ast.Load()), v)), node)

    def visit_Delete(self, node):
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript):
                out.append(ast.Expr(rtcall("delitem", self.visit(t.value), self.index(t.slice))))
            else:
                out.append(ast.Delete([self.target(t)]))
        return [ast.copy_location(o, node) for o in out]

    def visit_BinOp(self, node):
        return ast.copy_location(rtcall("binop", ast.Constant(BIN[type(node.op)]),
                                        self.visit(node.left), self.visit(node.right)), node)

    def visit_UnaryOp(self, node):
        node.operand = self.visit(node.operand)
        if isinstance(node.op, ast.Invert):
            return ast.copy_location(rtcall("invert", node.operand), node)
        if isinstance(node.op, ast.Not):
            return ast.copy_location(rtcall("not_", node.operand), node)
        return node

    def cond(self, e):
        """An expression in boolean context."""
        if isinstance(e, ast.BoolOp):
            e.values = [self.cond(x) for x in e.values]
            return e
        return rtcall("truth", e)

    def visit_BoolOp(self, node):
        vals = [self.visit(x) for x in node.values]
        node.values = [rtcall("operand", x) for x in vals[:-1]] + vals[-1:]
        return node

    def visit_If(self, node):
        node.test = self.cond(self.visit(node.test))
        node.body = self.block(node.body)
        node.orelse = self.block(node.orelse)
        return node

    def visit_While(self, node):
        node.test = self.cond(self.visit(node.test))
        node.body = self.block(node.body)
        node.orelse = self.block(node.orelse)
        return node

    def visit_IfExp(self, node):
        node.test = self.cond(self.visit(node.test))
        node.body = self.visit(node.body)
        node.orelse = self.visit(node.orelse)
        return node

    def visit_Compare(self, node):
        left = self.visit(node.left)
        rights = [self.visit(c) for c in node.comparators]
        if len(rights) == 1:
            return ast.copy_location(rtcall("cmp", ast.Constant(CMP[type(node.ops[0])]), left,
                                            rights[0]), node)
        # chained: a op b op c -> (t0 := a) op (t1 := b) and t1 op c
        vals = []
        prev = left
        for k, (op, r) in enumerate(zip(node.ops, rights)):
            last = k == len(rights) - 1
            if last:
                vals.append(rtcall("cmp", ast.Constant(CMP[type(op)]), prev, r))
            else:
                tmp = self.tmp()
                vals.append(rtcall("cmp", ast.Constant(CMP[type(op)]), prev,
                                   ast.NamedExpr(ast.Name(tmp, ast.Store()), r)))
                prev = ast.Name(tmp, ast.Load())
        return ast.copy_location(ast.BoolOp(ast.And(), vals), node)

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = ast.Constant("") if v.format_spec is None else self.visit(v.format_spec)
                parts.append(ast.Tuple([self.visit(v.value), ast.Constant(v.conversion), spec],
                                       ast.Load()))
        return ast.copy_location(rtcall("fstring", *parts), node)

    def visit_For(self, node):
        node.iter = rtcall("iter_", self.visit(node.iter))
        node.target = self.target(node.target)
        node.body = self.block(node.body)
        node.orelse = self.block(node.orelse)
        return node

    def visit_comprehension(self, node):
        node.iter = rtcall("iter_", self.visit(node.iter))
        node.target = self.target(node.target)
        node.ifs = [self.cond(self.visit(x)) for x in node.ifs]
        return node

    def visit_Dict(self, node):
        if all(isinstance(k, ast.Constant) for k in node.keys):
            node.values = [self.visit(v) for v in node.values]
            return node
        items = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                items.append(ast.Tuple([ast.Constant(Ellipsis), self.visit(v)], ast.Load()))
            else:
                items.append(ast.Tuple([ast.Tuple([self.visit(k)], ast.Load()), self.visit(v)],
                                       ast.Load()))
        return ast.copy_location(rtcall("mkdict_display", *items), node)

    def visit_DictComp(self, node):
        gens = [self.visit(g) for g in node.generators]
        elt = ast.Tuple([self.visit(node.key), self.visit(node.value)], ast.Load())
        return ast.copy_location(rtcall("mkdict", ast.ListComp(elt, gens)), node)

    def visit_Set(self, node):
        if all(isinstance(k, ast.Constant) for k in node.elts):
            return node
        return ast.copy_location(rtcall("mkset", ast.List([self.visit(e) for e in node.elts],
                                                         ast.Load())), node)

    def visit_SetComp(self, node):
        gens = [self.visit(g) for g in node.generators]
        return ast.copy_location(rtcall("mkset", ast.ListComp(self.visit(node.elt), gens)), node)

    def visit_Try(self, node):
        node.body = self.block(node.body)
        node.orelse = self.block(node.orelse)
        node.finalbody = self.block(node.finalbody)
        hs = []
        for h in node.handlers:
            h.body = self.block(h.body)
            if h.type is not None:
                h.type = self.visit(h.type)
            hs.append(h)
        if hs:
            ctl = ast.ExceptHandler(
                ast.Attribute(ast.Name(RT, ast.Load()), "Control", ast.Load()), None,
                [ast.Raise(None, None)])
            hs.insert(0, ctl)
        node.handlers = hs
        return node


def transform(src, filename):
    tree = ast.parse(src, filename)
    doc = None
    t = T()
    tree.body = t.block(tree.body)
    ast.fix_missing_locations(tree)
    for n in ast.walk(tree):
        # the compiler gives an attribute's instruction the line on which it ends
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == RT:
            n.end_lineno = n.lineno
            n.end_col_offset = n.col_offset
    return compile(tree, filename, "exec", dont_inherit=True)


PLAIN = []  # what is run as it is, as it cannot be transformed


class _Loader(importlib.machinery.SourceFileLoader):
    rt = None
    plain = False

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with open(path, "rb") as f:
            src = importlib.util.decode_source(f.read())
        if not self.plain:
            try:
                return transform(src, path)
            except Exception as e:
                PLAIN.append("%s: %s %s" % (fullname, type(e).__name__, e))
        return compile(src, path, "exec", dont_inherit=True)

    def exec_module(self, module):
        module.__dict__[RT] = self.rt
        super().exec_module(module)


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, root, rt, plain):
        self.root = root
        self.rt = rt
        self.plain = plain

    def find_spec(self, name, path=None, target=None):
        if name != "hdf5storage" and not name.startswith("hdf5storage."):
            return None
        parts = name.split(".")
        base = os.path.join(self.root, *parts)
        if os.path.isdir(base):
            fn = os.path.join(base, "__init__.py")
            loc = [base]
        else:
            fn = base + ".py"
            loc = None
        if not os.path.isfile(fn):
            return None
        ld = _Loader(name, fn)
        ld.rt = self.rt
        ld.plain = self.plain
        return importlib.util.spec_from_file_location(name, fn, loader=ld,
                                                      submodule_search_locations=loc)


def load(root, rt):
    """Import the instrumented package; sys.modules is left without it."""
    try:
        return load_with(root, rt, False)
    except Exception as e:
        PLAIN.append("hdf5storage: %s %s" % (type(e).__name__, e))
        return load_with(root, rt, True)


def load_with(root, rt, plain):
    saved = {k: v for k, v in sys.modules.items()
             if k == "hdf5storage" or k.startswith("hdf5storage.")}
    for k in saved:
        del sys.modules[k]
    fnd = _Finder(root, rt, plain)
    sys.meta_path.insert(0, fnd)
    try:
        import importlib as il

        mod = il.import_module("hdf5storage")
        mods = {k: v for k, v in sys.modules.items()
                if k == "hdf5storage" or k.startswith("hdf5storage.")}
    finally:
        sys.meta_path.remove(fnd)
        for k in [k for k in sys.modules if k == "hdf5storage" or k.startswith("hdf5storage.")]:
            del sys.modules[k]
        sys.modules.update(saved)
    return mod, mods


def source_digest(root):
    h = hashlib.sha256()
    for d, _, fs in sorted(os.walk(os.path.join(root, "hdf5storage"))):
        for f in sorted(fs):
            if f.endswith(".py"):
                with open(os.path.join(d, f), "rb") as g:
                    h.update(f.encode())
                    h.update(g.read())
    return h.hexdigest()
