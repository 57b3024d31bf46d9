"""Front end: read the functions of a .py or .pyx file mechanically into Python ``ast`` nodes.

Cython sources go through Cython's own parser (the one that compiles the code that runs); its tree is
converted node by node.  C declarations are kept on the side (``c_args``, ``c_locals``, ``c_ret``).
What is dropped: docstrings, annotations, cdef/nogil/exception qualifiers that have no effect on values.
A node without a conversion raises Unsupported, never a silent omission.
"""
import ast
import os
import sys
from fractions import Fraction

VENV = "/opt/venv/lib/python3.12/site-packages"


class Unsupported(Exception):
    pass


def _cython():
    if VENV not in sys.path:
        sys.path.append(VENV)
    from Cython.Compiler import Errors, Parsing, Symtab
    from Cython.Compiler.Main import CompilationOptions, Context, default_options
    from Cython.Compiler.Scanning import FileSourceDescriptor, PyrexScanner
    return Errors, Parsing, Symtab, Context, CompilationOptions, default_options, FileSourceDescriptor, PyrexScanner


def parse_tree(path, name):
    Errors, Parsing, Symtab, Context, Opts, dflt, FSD, Scanner = _cython()
    Errors.init_thread()
    ctx = Context.from_options(Opts(dflt, language_level=3))
    scope = Symtab.ModuleScope(name, None, ctx)
    with open(path, encoding="utf-8") as f:
        s = Scanner(f, FSD(path), source_encoding="utf-8", scope=scope, context=ctx)
        return Parsing.p_module(s, path.endswith(".pxd"), name)


class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.cython = path.endswith((".pyx", ".pxd"))
        self.functions = {}      # qualname -> FunctionDef
        self.classes = {}        # name -> ClassInfo
        self.toplevel = []       # remaining module level statements, as ast
        self.fused = {}
        self.directives = {}
        self.source = open(path, encoding="utf-8").read()


class ClassInfo:
    def __init__(self, name, bases=(), node=None):
        self.name, self.bases, self.node = name, list(bases), node
        self.attr_types = {}
        self.methods = {}
        self.statements = []


BIN = {"+": ast.Add, "-": ast.Sub, "*": ast.Mult, "/": ast.Div, "//": ast.FloorDiv, "%": ast.Mod, "**": ast.Pow,
       "&": ast.BitAnd, "|": ast.BitOr, "^": ast.BitXor, "<<": ast.LShift, ">>": ast.RShift, "@": ast.MatMult}
CMP = {"==": ast.Eq, "!=": ast.NotEq, "<": ast.Lt, "<=": ast.LtE, ">": ast.Gt, ">=": ast.GtE, "in": ast.In, "not_in": ast.NotIn,
       "is": ast.Is, "is_not": ast.IsNot}


CNP = {"float32_t": "float32", "float64_t": "float64", "int32_t": "int", "int64_t": "long", "uint32_t": "unsigned int",
       "uint8_t": "unsigned char", "intp_t": "Py_ssize_t", "npy_intp": "Py_ssize_t", "ndarray": ("nd", None, None)}


class Conv:
    def __init__(self, mod):
        self.mod = mod
        self.locals = None

    # ---- types
    def ctype(self, n):
        k = type(n).__name__
        if k == "CSimpleBaseTypeNode":
            name = n.name
            if n.is_basic_c_type:
                if name == "int":
                    base = {0: "int", 1: "long", 2: "long", -1: "short"}.get(n.longness, "int")
                    return ("unsigned " + base) if n.signed == 0 else base
                if name == "char":
                    return "unsigned char" if n.signed == 0 else "char"
                return {"float": "float32", "double": "float64", "bint": "bint", "void": "void", "Py_ssize_t": "Py_ssize_t",
                        "size_t": "size_t"}.get(name, name)
            if n.module_path and n.module_path[-1] in ("np", "numpy", "cnp"):
                return CNP.get(name, name)
            if name is None:
                return "object"
            return {"double": "float64", "float": "float32"}.get(name, name)
        if k == "MemoryViewSliceTypeNode":
            contig = any(getattr(a, "step", None) is not None and type(a.step).__name__ != "NoneNode" for a in n.axes)
            return ("mv", self.ctype(n.base_type_node), len(n.axes), contig)
        if k == "TemplatedTypeNode":
            base = self.ctype(n.base_type_node)
            nd = None
            for it in (n.keyword_args.key_value_pairs if n.keyword_args is not None else []):
                if it.key.value == "ndim":
                    nd = int(it.value.value)
            if base in ("ndarray", ("nd", None, None)) or (isinstance(base, tuple) and base[0] == "nd"):
                a = n.positional_args[0]
            k2 = type(a).__name__
            dt = a.name if k2 == "NameNode" else (CNP.get(a.attribute, a.attribute) if k2 == "AttributeNode" else self.ctype(a))
            return ("nd", dt, nd if nd is not None else 1)
            return base
        if k == "CConstOrVolatileTypeNode":
            return self.ctype(n.base_type)
        raise Unsupported("C type " + k)

    def decl(self, base, d):
        """(name, ctype, default) of a declarator."""
        k = type(d).__name__
        if k == "CNameDeclaratorNode":
            return d.name, base, d.default
        if k == "CPtrDeclaratorNode":
            n, t, dd = self.decl(base, d.base)
            return n, ("ptr", t), dd
        raise Unsupported("declarator " + k)

    # ---- expressions
    def e(self, n):
        if n is None:
            return None
        f = getattr(self, "e_" + type(n).__name__, None)
        if f is None:
            raise Unsupported("Cython expression " + type(n).__name__)
        r = f(n)
        r.lineno = n.pos[1]
        r.col_offset = n.pos[2]
        return r

    def el(self, ns):
        return [self.e(x) for x in ns]

    def e_NameNode(self, n):
        return ast.Name(str(n.name), ast.Load())

    def e_IntNode(self, n):
        v = str(n.value).rstrip("uUlL")
        return ast.Constant(int(v, 0))

    def e_FloatNode(self, n):
        return ast.Constant(Fraction(str(n.value)))

    def e_BoolNode(self, n):
        return ast.Constant(bool(n.value))

    def e_NoneNode(self, n):
        return ast.Constant(None)

    def e_EllipsisNode(self, n):
        return ast.Constant(Ellipsis)

    def e_UnicodeNode(self, n):
        return ast.Constant(str(n.value))

    e_StringNode = e_UnicodeNode
    e_IdentifierStringNode = e_UnicodeNode
    e_BytesNode = e_UnicodeNode

    def e_JoinedStrNode(self, n):
        return ast.Constant("<f-string>")

    def e_TupleNode(self, n):
        return ast.Tuple(self.el(n.args), ast.Load())

    def e_ListNode(self, n):
        return ast.List(self.el(n.args), ast.Load())

    def e_SetNode(self, n):
        return ast.Set(self.el(n.args))

    def e_DictNode(self, n):
        return ast.Dict([self.e(i.key) for i in n.key_value_pairs], [self.e(i.value) for i in n.key_value_pairs])

    def e_AttributeNode(self, n):
        return ast.Attribute(self.e(n.obj), str(n.attribute), ast.Load())

    def e_IndexNode(self, n):
        return ast.Subscript(self.e(n.base), self.e(n.index), ast.Load())

    def e_SliceNode(self, n):
        g = lambda x: None if x is None or type(x).__name__ == "NoneNode" else self.e(x)
        return ast.Slice(g(n.start), g(n.stop), g(n.step))

    def e_SliceIndexNode(self, n):
        g = lambda x: None if x is None or type(x).__name__ == "NoneNode" else self.e(x)
        return ast.Subscript(self.e(n.base), ast.Slice(g(n.start), g(n.stop), None), ast.Load())

    def _bin(self, n):
        return ast.BinOp(self.e(n.operand1), BIN[n.operator](), self.e(n.operand2))

    e_AddNode = e_SubNode = e_MulNode = e_DivNode = e_ModNode = e_PowNode = e_IntBinopNode = e_MatMultNode = _bin

    def e_UnaryMinusNode(self, n):
        return ast.UnaryOp(ast.USub(), self.e(n.operand))

    def e_UnaryPlusNode(self, n):
        return ast.UnaryOp(ast.UAdd(), self.e(n.operand))

    def e_TildeNode(self, n):
        return ast.UnaryOp(ast.Invert(), self.e(n.operand))

    def e_NotNode(self, n):
        return ast.UnaryOp(ast.Not(), self.e(n.operand))

    def e_BoolBinopNode(self, n):
        return ast.BoolOp(ast.And() if n.operator == "and" else ast.Or(), [self.e(n.operand1), self.e(n.operand2)])

    def e_PrimaryCmpNode(self, n):
        ops, comps = [CMP[n.operator]()], [self.e(n.operand2)]
        c = n.cascade
        while c is not None:
            ops.append(CMP[c.operator]())
            comps.append(self.e(c.operand2))
            c = c.cascade
        return ast.Compare(self.e(n.operand1), ops, comps)

    def e_CondExprNode(self, n):
        return ast.IfExp(self.e(n.condition), self.e(n.true_val), self.e(n.false_val))

    def e_SimpleCallNode(self, n):
        args = n.args if n.args is not None else n.arg_tuple.args
        return ast.Call(self.e(n.function), self.el(args), [])

    def e_GeneralCallNode(self, n):
        pos, p = [], n.positional_args
        pos = self._posargs(p)
        kw = []
        if n.keyword_args is not None:
            kw = self._kwargs(n.keyword_args)
        return ast.Call(self.e(n.function), pos, kw)

    def _posargs(self, p):
        k = type(p).__name__
        if k == "TupleNode":
            return self.el(p.args)
        if k == "AsTupleNode":
            return [ast.Starred(self.e(p.arg), ast.Load())]
        if k == "AddNode":
            return self._posargs(p.operand1) + self._posargs(p.operand2)
        raise Unsupported("call arguments " + k)

    def _kwargs(self, k):
        t = type(k).__name__
        if t == "DictNode":
            return [ast.keyword(str(i.key.value), self.e(i.value)) for i in k.key_value_pairs]
        if t == "MergedDictNode":
            out = []
            for d in k.keyword_args:
                out += self._kwargs(d)
            return out
        return [ast.keyword(None, self.e(k))]

    def e_TypecastNode(self, n):
        t = self.ctype(n.base_type)
        name, t, _ = self.decl(t, n.declarator)
        return ast.Call(ast.Name("__cast__", ast.Load()), [ast.Constant(t), self.e(n.operand)], [])

    def e_StarredUnpackingNode(self, n):
        return ast.Starred(self.e(n.target), ast.Load())

    def _loop_to_comp(self, loop):
        gens, elt = [], None
        cur = loop
        while True:
            k = type(cur).__name__
            if k == "ForInStatNode":
                gens.append(ast.comprehension(self.store(self.e(cur.target)), self.e(cur.iterator.sequence), [], 0))
                cur = cur.body
            elif k == "IfStatNode":
                gens[-1].ifs.append(self.e(cur.if_clauses[0].condition))
                cur = cur.if_clauses[0].body
            elif k == "StatListNode" and len(cur.stats) == 1:
                cur = cur.stats[0]
            elif k == "ExprStatNode":
                cur = cur.expr
            elif k == "YieldExprNode":
                return self.e(cur.arg), gens
            elif k == "ComprehensionAppendNode":
                return self.e(cur.expr), gens
            elif k == "DictComprehensionAppendNode":
                return (self.e(cur.key_expr), self.e(cur.value_expr)), gens
            else:
                raise Unsupported("comprehension " + k)

    def e_ComprehensionNode(self, n):
        elt, gens = self._loop_to_comp(n.loop)
        if isinstance(elt, tuple):
            return ast.DictComp(elt[0], elt[1], gens)
        return ast.ListComp(elt, gens)

    def e_GeneratorExpressionNode(self, n):
        elt, gens = self._loop_to_comp(n.loop if hasattr(n, "loop") and n.loop is not None else n.def_node.gbody.body)
        # the parser replaces the outermost iterable by a call parameter
        return ast.GeneratorExp(elt, gens)

    def e_AsTupleNode(self, n):
        return ast.Call(ast.Name("tuple", ast.Load()), [self.e(n.arg)], [])

    def e_IteratorNode(self, n):
        return self.e(n.sequence)

    def e_AnnotationNode(self, n):
        return ast.Constant(None)

    # ---- statements
    def store(self, t):
        for x in ast.walk(t):
            if isinstance(x, (ast.Name, ast.Attribute, ast.Subscript, ast.Tuple, ast.List, ast.Starred)) and x is t:
                x.ctx = ast.Store()
        return t

    def body(self, n):
        r = self.s(n)
        return r or [ast.Pass()]

    def s(self, n):
        f = getattr(self, "s_" + type(n).__name__, None)
        if f is None:
            raise Unsupported("Cython statement " + type(n).__name__)
        out = f(n)
        for x in out:
            x.lineno = n.pos[1] if not hasattr(x, "lineno") else x.lineno
        return out

    def s_StatListNode(self, n):
        out = []
        for x in n.stats:
            out += self.s(x)
        return out

    def s_ExprStatNode(self, n):
        return [ast.Expr(self.e(n.expr))]

    def s_PassStatNode(self, n):
        return [ast.Pass()]

    def s_ContinueStatNode(self, n):
        return [ast.Continue()]

    def s_BreakStatNode(self, n):
        return [ast.Break()]

    def s_SingleAssignmentNode(self, n):
        if type(n.rhs).__name__ == "ImportNode":
            name, to = str(n.rhs.module_name.value), str(n.lhs.name)
            if n.rhs.level:
                raise Unsupported("relative import")
            return [ast.Import([ast.alias(name, to if getattr(n.rhs, "is_import_as_name", to != name.split(".")[0]) else None)])]
        return [ast.Assign([self.store(self.e(n.lhs))], self.e(n.rhs))]

    def s_CascadedAssignmentNode(self, n):
        return [ast.Assign([self.store(self.e(x)) for x in n.lhs_list], self.e(n.rhs))]

    def s_InPlaceAssignmentNode(self, n):
        return [ast.AugAssign(self.store(self.e(n.lhs)), BIN[n.operator](), self.e(n.rhs))]

    def s_CVarDefNode(self, n):
        out = []
        base = self.ctype(n.base_type)
        for d in n.declarators:
            if type(d).__name__ == "CFuncDeclaratorNode":
                continue
            name, t, default = self.decl(base, d)
            self.locals[name] = t
            if default is not None:
                out.append(ast.Assign([ast.Name(name, ast.Store())], self.e(default)))
                out[-1].lineno = n.pos[1]
        return out

    def s_ReturnStatNode(self, n):
        return [ast.Return(self.e(n.value))]

    def s_RaiseStatNode(self, n):
        return [ast.Raise(self.e(n.exc_type), None)]

    def s_IfStatNode(self, n):
        orelse = self.body(n.else_clause) if n.else_clause is not None else []
        for c in reversed(n.if_clauses):
            st = ast.If(self.e(c.condition), self.body(c.body), orelse)
            st.lineno = c.pos[1]
            orelse = [st]
        return orelse

    def s_ForInStatNode(self, n):
        return [ast.For(self.store(self.e(n.target)), self.e(n.iterator.sequence), self.body(n.body),
                        self.body(n.else_clause) if n.else_clause is not None else [])]

    def s_ForFromStatNode(self, n):
        raise Unsupported("for-from")

    def s_WhileStatNode(self, n):
        return [ast.While(self.e(n.condition), self.body(n.body), self.body(n.else_clause) if n.else_clause is not None else [])]

    def s_GILStatNode(self, n):
        return self.body(n.body)

    def s_WithStatNode(self, n):
        return [ast.With([ast.withitem(self.e(n.manager), self.store(self.e(n.target)) if n.target is not None else None)], self.body(n.body))]

    def s_AssertStatNode(self, n):
        return [ast.Assert(self.e(n.condition), None)]

    def s_DelStatNode(self, n):
        return [ast.Delete(self.el(n.args))]

    def s_TryExceptStatNode(self, n):
        hs = []
        for c in n.except_clauses:
            pat = None if not c.pattern else (self.e(c.pattern[0]) if len(c.pattern) == 1 else ast.Tuple(self.el(c.pattern), ast.Load()))
            hs.append(ast.ExceptHandler(pat, c.target.name if c.target is not None else None, self.body(c.body)))
        return [ast.Try(self.body(n.body), hs, self.body(n.else_clause) if n.else_clause is not None else [], [])]

    def s_CImportStatNode(self, n):
        return [ast.Import([ast.alias(str(n.module_name), str(n.as_name) if n.as_name else None)])]

    def s_FromCImportStatNode(self, n):
        lvl = n.relative_level or 0
        return [ast.ImportFrom(str(n.module_name) if n.module_name else None,
                               [ast.alias(str(i[1]), str(i[2]) if i[2] else None) for i in n.imported_names], lvl)]

    def s_FromImportStatNode(self, n):
        m = n.module
        return [ast.ImportFrom(str(m.module_name.value) if m.module_name is not None else None,
                               [ast.alias(str(nm), str(t.name)) for nm, t in n.items], m.level or 0)]

    def s_ImportNode(self, n):
        return []

    def s_CTypeDefNode(self, n):
        return []

    def s_FusedTypeNode(self, n):
        self.mod.fused[n.name] = [self.ctype(t) for t in n.types]
        return []

    def s_GlobalNode(self, n):
        return [ast.Global([str(x) for x in n.names])]

    # functions
    def s_CFuncDefNode(self, n):
        d = n.declarator
        while type(d).__name__ != "CFuncDeclaratorNode":
            d = d.base
        name = d.base.name
        names, types, defaults = [], {}, []
        for a in d.args:
            t = self.ctype(a.base_type)
            nm, t, dflt = self.decl(t, a.declarator)
            if nm == "" and isinstance(t, str):
                nm, t = t, "object"
            names.append(nm)
            types[nm] = t
            dflt = a.default if a.default is not None else dflt
            if dflt is not None:
                defaults.append(self.e(dflt))
        if names and self.cls is not None:
            types[names[0]] = self.cls.name
        return [self._fun(n, name, names, types, defaults, None, None, [], n.body, True, self.ctype(n.base_type))]

    def s_DefNode(self, n):
        names, types, defaults, kwonly, kwdef = [], {}, [], [], []
        for a in n.args:
            t = self.ctype(a.base_type)
            nm, t, dflt = self.decl(t, a.declarator)
            if nm == "" and isinstance(t, str):
                nm, t = t, "object"
            types[nm] = t
            dflt = a.default if a.default is not None else dflt
            if getattr(a, "kw_only", 0):
                kwonly.append(nm)
                kwdef.append(self.e(dflt) if dflt is not None else None)
            else:
                names.append(nm)
                if dflt is not None:
                    defaults.append(self.e(dflt))
        if names and self.cls is not None:
            types[names[0]] = self.cls.name
        f = self._fun(n, str(n.name), names, types, defaults, n.star_arg and str(n.star_arg.name), n.starstar_arg and str(n.starstar_arg.name),
                      list(zip(kwonly, kwdef)), n.body, False, "object")
        return [f]

    cls = None

    def _fun(self, n, name, names, types, defaults, vararg, kwarg, kwonly, body, is_cdef, ret):
        saved = self.locals
        self.locals = {}
        args = ast.arguments([], [ast.arg(x) for x in names], ast.arg(vararg) if vararg else None, [ast.arg(k) for k, _ in kwonly],
                             [d for _, d in kwonly], ast.arg(kwarg) if kwarg else None, defaults)
        b = self.body(body)
        decos = [self.e(d.decorator) for d in (n.decorators or [])]
        f = ast.FunctionDef(str(name), args, b, decos, None, None)
        f.lineno = n.pos[1]
        f.c_args, f.c_locals, f.c_ret, f.is_cdef = types, self.locals, ret, is_cdef
        f.cls = self.cls.name if self.cls is not None else None
        self.locals = saved
        return f

    def s_CClassDefNode(self, n):
        ci = ClassInfo(str(n.class_name))
        saved, self.cls = self.cls, ci
        sl, self.locals = self.locals, ci.attr_types
        for st in self.s(n.body):
            if isinstance(st, ast.FunctionDef):
                ci.methods[st.name] = st
            else:
                ci.statements.append(st)
        self.cls, self.locals = saved, sl
        self.mod.classes[ci.name] = ci
        return []

    def s_PyClassDefNode(self, n):
        ci = ClassInfo(str(n.name), [self.e(b) for b in (n.bases.args if n.bases is not None else [])])
        saved, self.cls = self.cls, ci
        sl, self.locals = self.locals, {}
        for st in self.s(n.body):
            if isinstance(st, ast.FunctionDef):
                ci.methods[st.name] = st
            else:
                ci.statements.append(st)
        self.cls, self.locals = saved, sl
        self.mod.classes[ci.name] = ci
        return []

    def s_CEnumDefNode(self, n):
        raise Unsupported("enum")


def load_cython(path, name):
    mod = Module(name, path)
    tree = parse_tree(path, name)
    mod.directives = dict(getattr(tree, "directive_comments", None) or {})
    c = Conv(mod)
    c.locals = {}
    for st in c.s(tree.body):
        if isinstance(st, ast.FunctionDef):
            mod.functions[st.name] = st
        mod.toplevel.append(st)
    mod.c_globals = c.locals
    for ci in mod.classes.values():
        for m, f in ci.methods.items():
            mod.functions[ci.name + "." + m] = f
    return mod


def load_python(path, name):
    mod = Module(name, path)
    tree = ast.parse(mod.source)
    for st in tree.body:
        mod.toplevel.append(st)
        if isinstance(st, ast.FunctionDef):
            mod.functions[st.name] = st
        elif isinstance(st, ast.ClassDef):
            ci = ClassInfo(st.name, st.bases, st)
            for m in st.body:
                if isinstance(m, ast.FunctionDef):
                    ci.methods[m.name] = m
                    m.cls = st.name
                    mod.functions[st.name + "." + m.name] = m
                else:
                    ci.statements.append(m)
            mod.classes[st.name] = ci
    for f in ast.walk(tree):
        if isinstance(f, ast.FunctionDef):
            f.c_args, f.c_locals, f.c_ret, f.is_cdef = {}, {}, "object", False
            if not hasattr(f, "cls"):
                f.cls = None
    return mod


def load(path, name):
    if path.endswith(".pyx"):
        return load_cython(path, name)
    return load_python(path, name)


def package(root):
    """All modules of the package: dotted name -> Module (or the Unsupported that stopped it)."""
    out = {}
    d = os.path.join(root, "geotiepoints")
    for f in sorted(os.listdir(d)):
        if f.endswith((".py", ".pyx")) and f != "version.py":
            stem = f.rsplit(".", 1)[0]
            name = "geotiepoints" if stem == "__init__" else "geotiepoints." + stem
            try:
                out[name] = load(os.path.join(d, f), name)
            except Unsupported as e:
                out[name] = e
            except Exception as e:  # the sources do not parse: the build fails as well
                out[name] = Unsupported("parse error: %s" % e)
    return out


if __name__ == "__main__":
    for k, m in package(sys.argv[1]).items():
        print(k, m if isinstance(m, Unsupported) else (sorted(m.functions), list(m.classes)))
