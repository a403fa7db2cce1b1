"""Abstract evaluator for a (large) subset of Python, working on `ast` trees.

Each AST node is translated once into a closure `f(frame) -> value`.  Host Python values are used
for everything that is statically constant in the analysed schema; run-time unknowns are `AV`
objects (see values.py) and every operation that can meet one is routed through `self.ops`.
The analysed program is never imported, compiled or executed by the host interpreter.
"""
from __future__ import annotations
import ast
import builtins
import types
import sys


class Undecided(BaseException):
    """The analysis cannot decide (unsupported construct, budget exceeded, unknown model)."""


class Internal(BaseException):
    """A defect of the analyser itself."""


class _Sig:
    __slots__ = ("kind", "value")

    def __init__(self, kind, value=None):
        self.kind = kind
        self.value = value


BRK = _Sig("break")
CNT = _Sig("continue")
_MISSING = object()


class Frame:
    __slots__ = ("locals", "globals", "parent", "func", "exc", "line")

    def __init__(self, locals, globals, parent=None, func=None):
        self.locals = locals
        self.globals = globals
        self.parent = parent
        self.func = func
        self.exc = None
        self.line = 0


class Scope:
    """Static scope information."""

    def __init__(self, kind, parent=None):
        self.kind = kind  # module / class / function / comp
        self.parent = parent
        self.assigned = set()
        self.globals = set()
        self.nonlocals = set()
        self.has_yield = False


def _collect(body, scope):
    """Names bound in `body` (not descending into nested scopes)."""

    def target(t):
        if isinstance(t, ast.Name):
            scope.assigned.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                target(e)
        elif isinstance(t, ast.Starred):
            target(t.value)

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            scope.assigned.add(n.name)
            for d in n.decorator_list:
                visit(d)
            if isinstance(n, ast.ClassDef):
                for b in n.bases:
                    visit(b)
                for k in n.keywords:
                    visit(k.value)
            else:
                for d in n.args.defaults + [d for d in n.args.kw_defaults if d]:
                    visit(d)
            return
        if isinstance(n, ast.Lambda):
            for d in n.args.defaults + [d for d in n.args.kw_defaults if d]:
                visit(d)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # only walrus targets leak out; first iterable is evaluated in this scope
            for w in ast.walk(n):
                if isinstance(w, ast.NamedExpr):
                    scope.assigned.add(w.target.id)
            visit(n.generators[0].iter)
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            scope.has_yield = True
        if isinstance(n, ast.Assign):
            for t in n.targets:
                target(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            if not (isinstance(n, ast.AnnAssign) and n.value is None and scope.kind != "function"):
                target(n.target)
        elif isinstance(n, (ast.For, ast.AsyncFor)):
            target(n.target)
        elif isinstance(n, ast.withitem):
            if n.optional_vars:
                target(n.optional_vars)
        elif isinstance(n, ast.NamedExpr):
            target(n.target)
        elif isinstance(n, ast.ExceptHandler):
            if n.name:
                scope.assigned.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                scope.assigned.add((a.asname or a.name).split(".")[0])
        elif isinstance(n, ast.Global):
            scope.globals.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            scope.nonlocals.update(n.names)
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                target(t)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)):
            if n.name:
                scope.assigned.add(n.name)
        elif isinstance(n, ast.MatchMapping):
            if n.rest:
                scope.assigned.add(n.rest)
        for c in ast.iter_child_nodes(n):
            visit(c)

    for b in body:
        visit(b)
    scope.assigned -= scope.globals
    scope.assigned -= scope.nonlocals


class Code:
    """Static description of a function body."""

    __slots__ = ("name", "posonly", "args", "vararg", "kwonly", "kwarg", "body", "is_gen", "node",
                 "file", "params", "doc", "simple")


class AFunc:
    """An abstract function: an AST closure plus its environment."""

    __slots__ = ("_interp", "_code", "_frame", "_defaults", "_kwdefaults", "_defcls", "__dict__", "__weakref__")

    def __init__(self, interp, code, defaults, kwdefaults, frame, qualname, annotations=None):
        self._interp = interp
        self._code = code
        self._frame = frame
        self._defaults = defaults
        self._kwdefaults = kwdefaults
        self._defcls = None
        d = self.__dict__
        d["__name__"] = code.name
        d["__qualname__"] = qualname
        d["__module__"] = frame.globals.get("__name__") if frame else None
        d["__doc__"] = code.doc
        d["__annotations__"] = annotations or {}

    @property
    def __defaults__(self):
        return self._defaults or None

    @property
    def __kwdefaults__(self):
        return self._kwdefaults or None

    @property
    def __globals__(self):
        return self._frame.globals

    def __call__(self, /, *args, **kwargs):
        return self._interp.call_afunc(self, args, kwargs)

    def __get__(self, obj, owner=None):
        if obj is None:
            return self
        return types.MethodType(self, obj)

    def __repr__(self):
        return f"<function {self.__qualname__}>"

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    @property
    def site(self):
        return f"{self._code.file}:{self.__qualname__}"


_CURRENT = [None]


def tag(e):
    try:
        e.__abs_ok__ = True
        if _CURRENT[0] is not None and not hasattr(e, "__abs_where__"):
            e.__abs_where__ = _CURRENT[0].where()
    except Exception:
        pass
    return e


def is_tagged(e):
    return getattr(e, "__abs_ok__", False)


class Interp:
    def __init__(self, ops):
        self.ops = ops
        ops.interp = self
        _CURRENT[0] = self
        self.stack = []
        self.steps = 0
        self.max_depth = 220
        self.builtins = dict(vars(builtins))
        self.trace_calls = None

    # ------------------------------------------------------------------ running

    def compile_module(self, src_or_tree, filename):
        tree = src_or_tree if isinstance(src_or_tree, ast.AST) else ast.parse(src_or_tree, filename)
        sc = Scope("module")
        c = Compiler(self, filename, future=_future_annotations(tree))
        body = c.block(tree.body, sc)
        return body

    def run_module(self, tree, filename, globals, locals=None):
        body = self.compile_module(tree, filename)
        fr = Frame(globals if locals is None else locals, globals)
        body(fr)

    def eval_expr(self, src, globals):
        tree = ast.parse(src, "<expr>", mode="eval")
        c = Compiler(self, "<expr>")
        f = c.expr(tree.body, Scope("module"))
        return f(Frame(globals, globals))

    # ------------------------------------------------------------------ calls

    def call_afunc(self, fn, args, kwargs):
        code = fn._code
        if self.trace_calls is not None:
            self.trace_calls.add(fn.site)
        loc = self.bind(fn, code, args, kwargs)
        fr = Frame(loc, fn._frame.globals, fn._frame, fn)
        if code.is_gen:
            return _agen(self, fn, code, fr)
        st = self.stack
        if len(st) > self.max_depth:
            raise tag(RecursionError("maximum recursion depth exceeded"))
        st.append(fr)
        try:
            r = code.body(fr)
        finally:
            st.pop()
        if r is None:
            return None
        return r.value

    def bind(self, fn, code, args, kwargs):
        params = code.params
        n = len(args)
        if code.simple and not kwargs and n == len(params):
            return dict(zip(params, args))
        loc = {}
        np = len(params)
        if n > np:
            if code.vararg is None:
                raise tag(TypeError(f"{code.name}() takes {np} positional arguments but {n} were given"))
            loc[code.vararg] = tuple(args[np:])
            args = args[:np]
            n = np
        elif code.vararg is not None:
            loc[code.vararg] = ()
        for i in range(n):
            loc[params[i]] = args[i]
        extra = {}
        npos = len(code.posonly)
        for k, v in kwargs.items():
            if k in code.posonly:
                if code.kwarg is None:
                    raise tag(TypeError(f"{code.name}() got positional-only argument passed as keyword: {k}"))
                extra[k] = v
            elif k in code.args or k in code.kwonly:
                if k in loc:
                    raise tag(TypeError(f"{code.name}() got multiple values for argument {k!r}"))
                loc[k] = v
            elif code.kwarg is not None:
                extra[k] = v
            else:
                raise tag(TypeError(f"{code.name}() got an unexpected keyword argument {k!r}"))
        if code.kwarg is not None:
            loc[code.kwarg] = extra
        defaults = fn._defaults
        nd = len(defaults)
        missing = []
        for i, p in enumerate(params):
            if p not in loc:
                j = i - (np - nd)
                if j >= 0:
                    loc[p] = defaults[j]
                else:
                    missing.append(p)
        kd = fn._kwdefaults
        for p in code.kwonly:
            if p not in loc:
                if p in kd:
                    loc[p] = kd[p]
                else:
                    missing.append(p)
        if missing:
            raise tag(TypeError(f"{code.name}() missing required arguments: {', '.join(missing)}"))
        return loc

    def where(self):
        out = []
        for fr in self.stack[-12:]:
            if fr.func is not None:
                out.append(f"{fr.func._code.file}:{fr.func.__qualname__}:{fr.line}")
        return out

    def make_class(self, name, bases, kwds, ns):
        if bases and any(not isinstance(b, type) for b in bases):
            bases = types.resolve_bases(bases)

        def fill(d):
            d.update(ns)

        orig = kwds.pop("__orig_bases__", None)
        if orig is not None:
            ns["__orig_bases__"] = orig
        return types.new_class(name, tuple(bases), kwds, fill)


def _future_annotations(tree):
    for n in getattr(tree, "body", []):
        if isinstance(n, ast.ImportFrom) and n.module == "__future__":
            if any(a.name == "annotations" for a in n.names):
                return True
    return False


def _agen(interp, fn, code, fr):
    st = interp.stack

    def run():
        g = code.body(fr)
        send = None
        first = True
        throw = None
        while True:
            st.append(fr)
            try:
                try:
                    if throw is not None:
                        t, throw = throw, None
                        v = g.throw(t)
                    else:
                        v = next(g) if first else g.send(send)
                    first = False
                except StopIteration as e:
                    r = e.value
                    return r.value if isinstance(r, _Sig) else None
            finally:
                st.pop()
            try:
                send = yield v
            except GeneratorExit:
                g.close()
                raise
            except BaseException as e:
                throw = e

    return run()


BINOPS = {
    ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%",
    ast.Pow: "**", ast.LShift: "<<", ast.RShift: ">>", ast.BitOr: "|", ast.BitXor: "^",
    ast.BitAnd: "&", ast.MatMult: "@",
}
CMPOPS = {
    ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=",
    ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in",
}


class Compiler:
    def __init__(self, interp, filename, future=False):
        self.I = interp
        self.ops = interp.ops
        self.file = filename
        self.future = future
        self.qual = []

    def unsupported(self, node):
        msg = f"unsupported construct {type(node).__name__} at {self.file}:{getattr(node, 'lineno', '?')}"

        def f(fr):
            raise Undecided(msg)

        return f

    # ------------------------------------------------------------------ names

    def load_name(self, name, sc):
        bi = self.I.builtins
        if sc.kind in ("module", "class") and name not in sc.globals:
            # class bodies inside functions may also see enclosing function scopes
            depth = self._enclosing(name, sc)

            def f(fr):
                v = fr.locals.get(name, _MISSING)
                if v is not _MISSING:
                    return v
                if depth is not None:
                    p = fr
                    for _ in range(depth):
                        p = p.parent
                    v = p.locals.get(name, _MISSING)
                    if v is not _MISSING:
                        return v
                v = fr.globals.get(name, _MISSING)
                if v is not _MISSING:
                    return v
                v = bi.get(name, _MISSING)
                if v is not _MISSING:
                    return v
                raise tag(NameError(f"name {name!r} is not defined"))

            return f
        if name not in sc.globals:
            if name in sc.assigned and name not in sc.nonlocals:

                def f(fr):
                    v = fr.locals.get(name, _MISSING)
                    if v is _MISSING:
                        raise tag(UnboundLocalError(f"cannot access local variable {name!r}"))
                    return v

                return f
            depth = self._enclosing(name, sc)
            if depth is not None:

                def f(fr):
                    p = fr
                    for _ in range(depth):
                        p = p.parent
                    v = p.locals.get(name, _MISSING)
                    if v is _MISSING:
                        raise tag(NameError(f"free variable {name!r} referenced before assignment"))
                    return v

                return f

        def f(fr):
            v = fr.globals.get(name, _MISSING)
            if v is not _MISSING:
                return v
            b = fr.globals.get("__builtins__")
            v = bi.get(name, _MISSING)
            if v is not _MISSING:
                return v
            raise tag(NameError(f"name {name!r} is not defined"))

        return f

    def _enclosing(self, name, sc):
        depth = 0
        s = sc
        while True:
            s = s.parent
            depth += 1
            if s is None:
                return None
            if s.kind in ("function", "comp") and name in s.assigned:
                return depth
            if s.kind in ("function", "comp") and name in s.globals:
                return None

    def store_name(self, name, sc):
        if name in sc.globals:

            def f(fr, v):
                self.ops.effect("setglobal", fr.globals, name)
                fr.globals[name] = v

            return f
        if name in sc.nonlocals or (sc.kind == "comp" and name not in sc.assigned):
            depth = self._enclosing(name, sc)
            if depth is None:
                # walrus at module level comprehension
                def f(fr, v):
                    fr.globals[name] = v

                return f

            def f(fr, v):
                p = fr
                for _ in range(depth):
                    p = p.parent
                p.locals[name] = v

            return f

        def f(fr, v):
            fr.locals[name] = v

        return f

    # ------------------------------------------------------------------ expressions

    def expr(self, n, sc):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            return self.unsupported(n)
        return m(n, sc)

    def e_Constant(self, n, sc):
        v = n.value
        return lambda fr: v

    def e_Name(self, n, sc):
        return self.load_name(n.id, sc)

    def e_Attribute(self, n, sc):
        ob = self.expr(n.value, sc)
        name = n.attr
        if name.startswith("__") and not name.endswith("__") and self._cls_name():
            name = f"_{self._cls_name().lstrip('_')}{name}"
        ga = self.ops.getattr
        line = n.lineno

        def f(fr):
            fr.line = line
            return ga(ob(fr), name)

        return f

    def _cls_name(self):
        for k, v in reversed(self.qual):
            if k == "class":
                return v
        return None

    def e_Subscript(self, n, sc):
        ob = self.expr(n.value, sc)
        ix = self.expr(n.slice, sc)
        gi = self.ops.getitem
        line = n.lineno

        def f(fr):
            o = ob(fr)
            i = ix(fr)
            fr.line = line
            return gi(o, i)

        return f

    def e_Slice(self, n, sc):
        lo = self.expr(n.lower, sc) if n.lower else None
        hi = self.expr(n.upper, sc) if n.upper else None
        st = self.expr(n.step, sc) if n.step else None
        return lambda fr: slice(lo(fr) if lo else None, hi(fr) if hi else None, st(fr) if st else None)

    def e_Call(self, n, sc):
        fn = self.expr(n.func, sc)
        call = self.ops.call
        line = n.lineno
        star = any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords)
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            # zero-argument super()
            def f(fr):
                fn_frame = fr
                while fn_frame.func is None:
                    fn_frame = fn_frame.parent
                cls = fn_frame.locals.get("__class__")
                p = fn_frame
                while cls is None and p is not None:
                    cls = p.func._defcls if p.func else None
                    p = p.parent
                first = fn_frame.locals[fn_frame.func._code.params[0]]
                if cls is None:
                    raise Undecided("super() outside class")
                return super(cls, first)

            return f
        if isinstance(n.func, ast.Name) and n.func.id in ("locals", "vars", "globals") and not n.args:
            which = n.func.id
            return lambda fr: (fr.globals if which == "globals" else fr.locals)
        if not star:
            args = [self.expr(a, sc) for a in n.args]
            kws = [(k.arg, self.expr(k.value, sc)) for k in n.keywords]
            if not kws:
                if len(args) == 1:
                    a0 = args[0]

                    def f(fr):
                        fv = fn(fr)
                        a = (a0(fr),)
                        fr.line = line
                        return call(fv, a, {})

                    return f

                def f(fr):
                    fv = fn(fr)
                    a = tuple([x(fr) for x in args])
                    fr.line = line
                    return call(fv, a, {})

                return f

            def f(fr):
                fv = fn(fr)
                a = tuple([x(fr) for x in args])
                k = {name: x(fr) for name, x in kws}
                fr.line = line
                return call(fv, a, k)

            return f
        args = [(isinstance(a, ast.Starred), self.expr(a.value if isinstance(a, ast.Starred) else a, sc))
                for a in n.args]
        kws = [(k.arg, self.expr(k.value, sc)) for k in n.keywords]
        it = self.ops.iterate

        def f(fr):
            fv = fn(fr)
            a = []
            for s, x in args:
                if s:
                    a.extend(it(x(fr)))
                else:
                    a.append(x(fr))
            k = {}
            for name, x in kws:
                if name is None:
                    m = x(fr)
                    for kk in list(m.keys()):
                        if kk in k:
                            raise tag(TypeError(f"got multiple values for keyword argument {kk!r}"))
                        k[kk] = m[kk]
                else:
                    if name in k:
                        raise tag(TypeError(f"got multiple values for keyword argument {name!r}"))
                    k[name] = x(fr)
            fr.line = line
            return call(fv, tuple(a), k)

        return f

    def e_BinOp(self, n, sc):
        l, r = self.expr(n.left, sc), self.expr(n.right, sc)
        op = BINOPS[type(n.op)]
        bo = self.ops.binop
        return lambda fr: bo(op, l(fr), r(fr))

    def e_UnaryOp(self, n, sc):
        v = self.expr(n.operand, sc)
        if isinstance(n.op, ast.Not):
            tr = self.ops.truth
            return lambda fr: not tr(v(fr))
        op = {ast.USub: "-", ast.UAdd: "+", ast.Invert: "~"}[type(n.op)]
        uo = self.ops.unop
        return lambda fr: uo(op, v(fr))

    def e_BoolOp(self, n, sc):
        vs = [self.expr(v, sc) for v in n.values]
        tr = self.ops.truth
        if isinstance(n.op, ast.And):

            def f(fr):
                for v in vs[:-1]:
                    x = v(fr)
                    if not tr(x):
                        return x
                return vs[-1](fr)

        else:

            def f(fr):
                for v in vs[:-1]:
                    x = v(fr)
                    if tr(x):
                        return x
                return vs[-1](fr)

        return f

    def e_Compare(self, n, sc):
        l = self.expr(n.left, sc)
        ops = [CMPOPS[type(o)] for o in n.ops]
        cs = [self.expr(c, sc) for c in n.comparators]
        cmp = self.ops.compare
        tr = self.ops.truth
        if len(ops) == 1:
            op, c = ops[0], cs[0]
            return lambda fr: cmp(op, l(fr), c(fr))

        def f(fr):
            a = l(fr)
            r = True
            for op, c in zip(ops, cs):
                b = c(fr)
                r = cmp(op, a, b)
                if not tr(r):
                    return r
                a = b
            return r

        return f

    def e_IfExp(self, n, sc):
        t, b, o = self.expr(n.test, sc), self.expr(n.body, sc), self.expr(n.orelse, sc)
        tr = self.ops.truth
        return lambda fr: b(fr) if tr(t(fr)) else o(fr)

    def e_NamedExpr(self, n, sc):
        v = self.expr(n.value, sc)
        # binds in the nearest non-comprehension scope
        s, depth = sc, 0
        while s.kind == "comp":
            s = s.parent
            depth += 1
        st = self.store_name(n.target.id, s)

        def f(fr):
            x = v(fr)
            p = fr
            for _ in range(depth):
                p = p.parent
            st(p, x)
            return x

        return f

    def _elts(self, elts, sc):
        if not any(isinstance(e, ast.Starred) for e in elts):
            fs = [self.expr(e, sc) for e in elts]
            return lambda fr: [f(fr) for f in fs]
        fs = [(isinstance(e, ast.Starred), self.expr(e.value if isinstance(e, ast.Starred) else e, sc)) for e in elts]
        it = self.ops.iterate

        def f(fr):
            out = []
            for s, x in fs:
                if s:
                    out.extend(it(x(fr)))
                else:
                    out.append(x(fr))
            return out

        return f

    def e_Tuple(self, n, sc):
        f = self._elts(n.elts, sc)
        return lambda fr: tuple(f(fr))

    def e_List(self, n, sc):
        return self._elts(n.elts, sc)

    def e_Set(self, n, sc):
        f = self._elts(n.elts, sc)
        mk = self.ops.make_set
        return lambda fr: mk(f(fr))

    def e_Dict(self, n, sc):
        items = [(self.expr(k, sc) if k is not None else None, self.expr(v, sc)) for k, v in zip(n.keys, n.values)]
        md = self.ops.make_dict

        def f(fr):
            pairs = []
            for k, v in items:
                if k is None:
                    m = v(fr)
                    for kk in list(m.keys()):
                        pairs.append((kk, m[kk]))
                else:
                    kk = k(fr)
                    pairs.append((kk, v(fr)))
            return md(pairs)

        return f

    def e_JoinedStr(self, n, sc):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                parts.append(self.expr(v, sc))
        join = self.ops.join_str

        def f(fr):
            return join([p if isinstance(p, str) else p(fr) for p in parts])

        return f

    def e_FormattedValue(self, n, sc):
        v = self.expr(n.value, sc)
        spec = self.expr(n.format_spec, sc) if n.format_spec else None
        conv = n.conversion
        fm = self.ops.format_value
        return lambda fr: fm(v(fr), conv, spec(fr) if spec else "")

    def e_Lambda(self, n, sc):
        return self.function(n, sc, "<lambda>")

    def e_Starred(self, n, sc):
        # occurs e.g. in subscripts: tuple[*xs]
        v = self.expr(n.value, sc)
        return lambda fr: v(fr)

    def e_Await(self, n, sc):
        return self.unsupported(n)

    def e_Yield(self, n, sc):
        return self.unsupported(n)

    # comprehensions -----------------------------------------------------------

    def _comp(self, n, sc, emit):
        """emit(comp_scope) -> closure(fr, acc)"""
        cs = Scope("comp", sc)
        for g in n.generators:
            if g.is_async:
                return self.unsupported(n)
            self._targets(g.target, cs)
        # walrus targets belong to the enclosing function scope
        first = self.expr(n.generators[0].iter, sc)
        body = emit(cs)
        it = self.ops.iterate
        tr = self.ops.truth
        gens = []
        for i, g in enumerate(n.generators):
            gens.append((
                None if i == 0 else self.expr(g.iter, cs),
                self.assign_target(g.target, cs),
                [self.expr(c, cs) for c in g.ifs],
            ))
        last = len(gens) - 1

        def run(fr, acc_add, lazy_first=None):
            cf = Frame({}, fr.globals, fr, None)

            def level(i, iterable):
                _, st, ifs = gens[i]
                for v in it(iterable):
                    st(cf, v)
                    ok = True
                    for c in ifs:
                        if not tr(c(cf)):
                            ok = False
                            break
                    if not ok:
                        continue
                    if i == last:
                        acc_add(body(cf))
                    else:
                        level(i + 1, gens[i + 1][0](cf))

            level(0, first(fr) if lazy_first is None else lazy_first)

        def lazy(fr):
            """true generator semantics for generator expressions"""
            src = it(first(fr))
            cf = Frame({}, fr.globals, fr, None)

            def level(i, iterable):
                _, st, ifs = gens[i]
                for v in it(iterable):
                    st(cf, v)
                    ok = True
                    for c in ifs:
                        if not tr(c(cf)):
                            ok = False
                            break
                    if not ok:
                        continue
                    if i == last:
                        yield body(cf)
                    else:
                        yield from level(i + 1, gens[i + 1][0](cf))

            return level(0, src)

        run.lazy = lazy
        return run

    def _targets(self, t, scope):
        if isinstance(t, ast.Name):
            scope.assigned.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                self._targets(e, scope)
        elif isinstance(t, ast.Starred):
            self._targets(t.value, scope)

    def e_ListComp(self, n, sc):
        run = self._comp(n, sc, lambda cs: self.expr(n.elt, cs))

        def f(fr):
            out = []
            run(fr, out.append)
            return out

        return f

    def e_SetComp(self, n, sc):
        run = self._comp(n, sc, lambda cs: self.expr(n.elt, cs))
        mk = self.ops.make_set

        def f(fr):
            out = []
            run(fr, out.append)
            return mk(out)

        return f

    def e_GeneratorExp(self, n, sc):
        run = self._comp(n, sc, lambda cs: self.expr(n.elt, cs))
        lazy = run.lazy
        return lambda fr: lazy(fr)

    def e_DictComp(self, n, sc):
        def emit(cs):
            k, v = self.expr(n.key, cs), self.expr(n.value, cs)
            return lambda fr: (k(fr), v(fr))

        run = self._comp(n, sc, emit)
        md = self.ops.make_dict

        def f(fr):
            out = []
            run(fr, out.append)
            return md(out)

        return f

    # ------------------------------------------------------------------ functions and classes

    def function(self, n, sc, name):
        a = n.args
        fs = Scope("function", sc)
        allargs = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        fs.assigned.update(allargs)
        if a.vararg:
            fs.assigned.add(a.vararg.arg)
        if a.kwarg:
            fs.assigned.add(a.kwarg.arg)
        code = Code()
        code.name = name
        code.posonly = [x.arg for x in a.posonlyargs]
        code.args = [x.arg for x in a.args]
        code.params = code.posonly + code.args
        code.vararg = a.vararg.arg if a.vararg else None
        code.kwonly = [x.arg for x in a.kwonlyargs]
        code.kwarg = a.kwarg.arg if a.kwarg else None
        code.simple = not (code.vararg or code.kwonly or code.kwarg)
        code.node = n
        code.file = self.file
        code.doc = None
        if getattr(n, "type_params", None):
            return self.unsupported(n)
        if isinstance(n, ast.Lambda):
            self.qual.append(("func", name))
            e = self.expr(n.body, fs)
            self.qual.pop()
            code.body = lambda fr: _Sig("return", e(fr))
            code.is_gen = False
        else:
            if isinstance(n, ast.AsyncFunctionDef):
                return self.unsupported(n)
            _collect(n.body, fs)
            code.doc = ast.get_docstring(n, clean=False)
            code.is_gen = fs.has_yield
            # compile lazily: many functions are never called in a given analysis
            comp = self
            quals = list(self.qual) + [("func", name)]

            def body(fr):
                saved = comp.qual
                comp.qual = quals
                try:
                    b = comp.gen_block(n.body, fs) if code.is_gen else comp.block(n.body, fs)
                finally:
                    comp.qual = saved
                code.body = b
                return b(fr)

            code.body = body
        defaults = [self.expr(d, sc) for d in a.defaults]
        kwd = [(x.arg, self.expr(d, sc)) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        qual = ".".join([q for _, q in self.qual] + [name])
        interp = self.I
        anns = []
        if not isinstance(n, ast.Lambda):
            for x in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else []):
                if x.annotation is not None:
                    anns.append((x.arg, ast.unparse(x.annotation)))
            if n.returns is not None:
                anns.append(("return", ast.unparse(n.returns)))
        annd = dict(anns)

        def mk(fr):
            return AFunc(interp, code, tuple([d(fr) for d in defaults]), {k: v(fr) for k, v in kwd}, fr, qual, dict(annd))

        return mk

    def s_FunctionDef(self, n, sc):
        mk = self.function(n, sc, n.name)
        decs = [self.expr(d, sc) for d in n.decorator_list]
        st = self.store_name(n.name, sc)
        call = self.ops.call

        def f(fr):
            ds = [d(fr) for d in decs]
            v = mk(fr)
            for d in reversed(ds):
                v = call(d, (v,), {})
            st(fr, v)

        return f

    def s_AsyncFunctionDef(self, n, sc):
        return self.unsupported(n)

    def s_ClassDef(self, n, sc):
        if getattr(n, "type_params", None):
            return self.unsupported(n)
        cs = Scope("class", sc)
        _collect(n.body, cs)
        self.qual.append(("class", n.name))
        body = self.block(n.body, cs)
        qual = ".".join(q for _, q in self.qual)
        self.qual.pop()
        bases = [(isinstance(b, ast.Starred), self.expr(b.value if isinstance(b, ast.Starred) else b, sc)) for b in n.bases]
        kws = [(k.arg, self.expr(k.value, sc)) for k in n.keywords]
        decs = [self.expr(d, sc) for d in n.decorator_list]
        st = self.store_name(n.name, sc)
        doc = ast.get_docstring(n, clean=False)
        call = self.ops.call
        interp = self.I
        it = self.ops.iterate

        def f(fr):
            ds = [d(fr) for d in decs]
            bs = []
            for s, b in bases:
                if s:
                    bs.extend(it(b(fr)))
                else:
                    bs.append(b(fr))
            kw = {k: v(fr) for k, v in kws}
            ns = {"__module__": fr.globals.get("__name__"), "__qualname__": qual}
            if doc is not None:
                ns["__doc__"] = doc
            cf = Frame(ns, fr.globals, fr, None)
            body(cf)
            rb = types.resolve_bases(tuple(bs))
            if tuple(rb) != tuple(bs):
                ns["__orig_bases__"] = tuple(bs)

            def fill(d):
                d.update(ns)

            try:
                cls = types.new_class(n.name, tuple(rb), kw, fill)
            except Exception as e:
                raise tag(e)
            for v in ns.values():
                w = v.__func__ if isinstance(v, (classmethod, staticmethod)) else v
                if isinstance(w, property):
                    for x in (w.fget, w.fset, w.fdel):
                        if isinstance(x, AFunc):
                            x._defcls = cls
                if isinstance(w, AFunc):
                    w._defcls = cls
            v = cls
            for d in reversed(ds):
                v = call(d, (v,), {})
            st(fr, v)

        return f

    # ------------------------------------------------------------------ assignment targets

    def assign_target(self, t, sc):
        if isinstance(t, ast.Name):
            return self.store_name(t.id, sc)
        if isinstance(t, ast.Attribute):
            ob = self.expr(t.value, sc)
            name = t.attr
            sa = self.ops.setattr
            return lambda fr, v: sa(ob(fr), name, v)
        if isinstance(t, ast.Subscript):
            ob, ix = self.expr(t.value, sc), self.expr(t.slice, sc)
            si = self.ops.setitem
            return lambda fr, v: si(ob(fr), ix(fr), v)
        if isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            ts = [self.assign_target(e.value if isinstance(e, ast.Starred) else e, sc) for e in t.elts]
            it = self.ops.iterate
            n = len(ts)

            def f(fr, v):
                vals = list(it(v))
                if not star:
                    if len(vals) != n:
                        raise tag(ValueError("not enough/too many values to unpack"))
                    for g, x in zip(ts, vals):
                        g(fr, x)
                    return
                i = star[0]
                after = n - i - 1
                if len(vals) < n - 1:
                    raise tag(ValueError("not enough values to unpack"))
                for g, x in zip(ts[:i], vals[:i]):
                    g(fr, x)
                ts[i](fr, vals[i:len(vals) - after])
                for g, x in zip(ts[i + 1:], vals[len(vals) - after:]):
                    g(fr, x)

            return f
        if isinstance(t, ast.Starred):
            return self.assign_target(t.value, sc)
        raise Undecided(f"unsupported assignment target {type(t).__name__}")

    # ------------------------------------------------------------------ statements

    def block(self, body, sc):
        ss = [self.stmt(b, sc) for b in body]
        if len(ss) == 1:
            return ss[0]

        def f(fr):
            for s in ss:
                r = s(fr)
                if r is not None:
                    return r
            return None

        return f

    def stmt(self, n, sc):
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            return self.unsupported(n)
        return m(n, sc)

    def s_Pass(self, n, sc):
        return lambda fr: None

    def s_Expr(self, n, sc):
        if isinstance(n.value, ast.Constant):
            return lambda fr: None
        e = self.expr(n.value, sc)
        line = n.lineno

        def f(fr):
            fr.line = line
            e(fr)

        return f

    def s_Assign(self, n, sc):
        v = self.expr(n.value, sc)
        ts = [self.assign_target(t, sc) for t in n.targets]
        if len(ts) == 1:
            t0 = ts[0]

            def f(fr):
                t0(fr, v(fr))

            return f

        def f(fr):
            x = v(fr)
            for t in ts:
                t(fr, x)

        return f

    def s_AnnAssign(self, n, sc):
        st = self.assign_target(n.target, sc) if n.value is not None else None
        v = self.expr(n.value, sc) if n.value is not None else None
        if sc.kind in ("class", "module") and isinstance(n.target, ast.Name):
            name = n.target.id
            if self.future:
                text = ast.unparse(n.annotation)
                ann = lambda fr: text  # noqa: E731
            else:
                ann = self.expr(n.annotation, sc)
            keep = sc.kind == "class"

            def f(fr):
                a = ann(fr)
                if st:
                    st(fr, v(fr))
                if keep:
                    fr.locals.setdefault("__annotations__", {})[name] = a

            return f

        def f(fr):
            if st:
                st(fr, v(fr))

        return f

    def s_AugAssign(self, n, sc):
        op = BINOPS[type(n.op)]
        v = self.expr(n.value, sc)
        bo = self.ops.inplace
        t = n.target
        if isinstance(t, ast.Name):
            ld = self.load_name(t.id, sc)
            st = self.store_name(t.id, sc)

            def f(fr):
                st(fr, bo(op, ld(fr), v(fr)))

            return f
        if isinstance(t, ast.Attribute):
            ob = self.expr(t.value, sc)
            ga, sa = self.ops.getattr, self.ops.setattr

            def f(fr):
                o = ob(fr)
                sa(o, t.attr, bo(op, ga(o, t.attr), v(fr)))

            return f
        ob, ix = self.expr(t.value, sc), self.expr(t.slice, sc)
        gi, si = self.ops.getitem, self.ops.setitem

        def f(fr):
            o, i = ob(fr), ix(fr)
            si(o, i, bo(op, gi(o, i), v(fr)))

        return f

    def s_Return(self, n, sc):
        if n.value is None:
            r = _Sig("return", None)
            return lambda fr: r
        v = self.expr(n.value, sc)
        line = n.lineno

        def f(fr):
            fr.line = line
            return _Sig("return", v(fr))

        return f

    def s_If(self, n, sc):
        t = self.expr(n.test, sc)
        b = self.block(n.body, sc)
        o = self.block(n.orelse, sc) if n.orelse else None
        tr = self.ops.truth

        def f(fr):
            if tr(t(fr)):
                return b(fr)
            if o is not None:
                return o(fr)

        return f

    def s_For(self, n, sc):
        src = self.expr(n.iter, sc)
        st = self.assign_target(n.target, sc)
        b = self.block(n.body, sc)
        o = self.block(n.orelse, sc) if n.orelse else None
        it = self.ops.iterate

        def f(fr):
            for v in it(src(fr)):
                st(fr, v)
                r = b(fr)
                if r is not None:
                    if r is BRK:
                        return None
                    if r is CNT:
                        continue
                    return r
            if o is not None:
                return o(fr)

        return f

    def s_While(self, n, sc):
        t = self.expr(n.test, sc)
        b = self.block(n.body, sc)
        o = self.block(n.orelse, sc) if n.orelse else None
        tr = self.ops.truth

        def f(fr):
            k = 0
            while tr(t(fr)):
                k += 1
                if k > 20000:
                    raise Undecided("loop bound exceeded")
                r = b(fr)
                if r is not None:
                    if r is BRK:
                        return None
                    if r is CNT:
                        continue
                    return r
            if o is not None:
                return o(fr)

        return f

    def s_Break(self, n, sc):
        return lambda fr: BRK

    def s_Continue(self, n, sc):
        return lambda fr: CNT

    def s_Raise(self, n, sc):
        e = self.expr(n.exc, sc) if n.exc else None
        c = self.expr(n.cause, sc) if n.cause else None
        line = n.lineno
        interp = self.I
        call = self.ops.call

        def f(fr):
            fr.line = line
            if e is None:
                cur = None
                p = fr
                while p is not None and cur is None:
                    cur = p.exc
                    p = p.parent
                if cur is None:
                    raise tag(RuntimeError("No active exception to reraise"))
                raise cur
            ex = e(fr)
            if isinstance(ex, type) and issubclass(ex, BaseException):
                ex = call(ex, (), {})
            if not isinstance(ex, BaseException):
                raise tag(TypeError("exceptions must derive from BaseException"))
            if isinstance(ex, (Undecided, Internal)):
                raise ex
            tag(ex)
            if c is not None:
                cv = c(fr)
                raise ex from cv
            raise ex

        return f

    def s_Try(self, n, sc):
        b = self.block(n.body, sc)
        hs = []
        for h in n.handlers:
            hs.append((
                self.expr(h.type, sc) if h.type else None,
                self.store_name(h.name, sc) if h.name else None,
                h.name,
                self.block(h.body, sc),
            ))
        o = self.block(n.orelse, sc) if n.orelse else None
        fin = self.block(n.finalbody, sc) if n.finalbody else None

        def core(fr):
            try:
                r = b(fr)
            except (Undecided, Internal):
                raise
            except BaseException as e:
                check_exc(e)
                for ht, st, name, body in hs:
                    if ht is None:
                        ok = True
                    else:
                        t = ht(fr)
                        try:
                            ok = isinstance(e, t)
                        except TypeError:
                            raise tag(TypeError("catching classes that do not inherit from BaseException is not allowed"))
                    if ok:
                        if st:
                            st(fr, e)
                        saved = fr.exc
                        fr.exc = e
                        try:
                            return body(fr)
                        except BaseException as e2:
                            if isinstance(e2, Exception) and not is_tagged(e2):
                                check_exc(e2)
                            raise
                        finally:
                            fr.exc = saved
                            if name:
                                fr.locals.pop(name, None)
                raise
            if r is not None:
                return r
            if o is not None:
                return o(fr)
            return None

        if fin is None:
            return core

        def f(fr):
            try:
                r = core(fr) if hs or o else b(fr)
            except (Undecided, Internal):
                raise
            except BaseException as e:
                check_exc(e)
                r2 = fin(fr)
                if r2 is not None:
                    return r2
                raise
            r2 = fin(fr)
            return r2 if r2 is not None else r

        return f

    def s_With(self, n, sc):
        return self._with(list(n.items), n.body, sc)

    def _with(self, items, body, sc):
        if not items:
            return self.block(body, sc)
        it = items[0]
        cm = self.expr(it.context_expr, sc)
        st = self.assign_target(it.optional_vars, sc) if it.optional_vars else None
        inner = self._with(items[1:], body, sc)
        ops = self.ops

        def f(fr):
            m = cm(fr)
            en = ops.getattr(type(m), "__enter__")
            ex = ops.getattr(type(m), "__exit__")
            v = ops.call(en, (m,), {})
            if st:
                st(fr, v)
            try:
                r = inner(fr)
            except (Undecided, Internal):
                raise
            except BaseException as e:
                check_exc(e)
                if ops.truth(ops.call(ex, (m, type(e), e, e.__traceback__), {})):
                    return None
                raise
            ops.call(ex, (m, None, None, None), {})
            return r

        return f

    def s_Assert(self, n, sc):
        t = self.expr(n.test, sc)
        m = self.expr(n.msg, sc) if n.msg else None
        tr = self.ops.truth

        def f(fr):
            if not tr(t(fr)):
                raise tag(AssertionError(m(fr)) if m else AssertionError())

        return f

    def s_Global(self, n, sc):
        return lambda fr: None

    s_Nonlocal = s_Global

    def s_Delete(self, n, sc):
        fs = []
        for t in n.targets:
            if isinstance(t, ast.Name):
                nm = t.id
                g = nm in sc.globals

                def f(fr, nm=nm, g=g):
                    d = fr.globals if g else fr.locals
                    if nm not in d:
                        raise tag(NameError(nm))
                    del d[nm]

                fs.append(f)
            elif isinstance(t, ast.Subscript):
                ob, ix = self.expr(t.value, sc), self.expr(t.slice, sc)
                fs.append(lambda fr, ob=ob, ix=ix: self.ops.delitem(ob(fr), ix(fr)))
            elif isinstance(t, ast.Attribute):
                ob = self.expr(t.value, sc)
                fs.append(lambda fr, ob=ob, a=t.attr: self.ops.delattr(ob(fr), a))
            else:
                return self.unsupported(t)

        def run(fr):
            for f in fs:
                f(fr)

        return run

    def s_Import(self, n, sc):
        imp = self.ops.import_module
        acts = []
        for a in n.names:
            if a.asname:
                acts.append((a.name, self.store_name(a.asname, sc), False))
            else:
                acts.append((a.name, self.store_name(a.name.split(".")[0], sc), True))

        def f(fr):
            for name, st, top in acts:
                m = imp(name, fr)
                st(fr, imp(name.split(".")[0], fr) if top else m)

        return f

    def s_ImportFrom(self, n, sc):
        if n.module == "__future__":
            return lambda fr: None
        impf = self.ops.import_from
        acts = [(a.name, self.store_name(a.asname or a.name, sc) if a.name != "*" else None) for a in n.names]
        mod, lvl = n.module, n.level

        def f(fr):
            for name, st in acts:
                if st is None:
                    m = self.ops.resolve_module(mod, lvl, fr)
                    names = getattr(m, "__all__", None) or [k for k in vars(m) if not k.startswith("_")]
                    for k in names:
                        fr.locals[k] = getattr(m, k)
                else:
                    st(fr, impf(mod, lvl, name, fr))

        return f

    def s_Match(self, n, sc):
        subj = self.expr(n.subject, sc)
        cases = []
        for c in n.cases:
            cases.append((self.pattern(c.pattern, sc), self.expr(c.guard, sc) if c.guard else None, self.block(c.body, sc)))
        tr = self.ops.truth

        def f(fr):
            v = subj(fr)
            for p, g, b in cases:
                if p(fr, v) and (g is None or tr(g(fr))):
                    return b(fr)

        return f

    def pattern(self, p, sc):
        ops = self.ops
        if isinstance(p, ast.MatchValue):
            e = self.expr(p.value, sc)
            return lambda fr, v: ops.truth(ops.compare("==", v, e(fr)))
        if isinstance(p, ast.MatchSingleton):
            return lambda fr, v: ops.truth(ops.compare("is", v, p.value))
        if isinstance(p, ast.MatchAs):
            inner = self.pattern(p.pattern, sc) if p.pattern else None
            st = self.store_name(p.name, sc) if p.name else None

            def f(fr, v):
                if inner and not inner(fr, v):
                    return False
                if st:
                    st(fr, v)
                return True

            return f
        if isinstance(p, ast.MatchOr):
            ps = [self.pattern(x, sc) for x in p.patterns]
            return lambda fr, v: any(x(fr, v) for x in ps)
        if isinstance(p, ast.MatchSequence) and not any(isinstance(x, ast.MatchStar) for x in p.patterns):
            ps = [self.pattern(x, sc) for x in p.patterns]

            def f(fr, v):
                if not isinstance(v, (list, tuple)) or len(v) != len(ps):
                    return False
                return all(x(fr, y) for x, y in zip(ps, v))

            return f
        if isinstance(p, ast.MatchClass):
            cls = self.expr(p.cls, sc)
            kps = [(k, self.pattern(x, sc)) for k, x in zip(p.kwd_attrs, p.kwd_patterns)]
            pps = [self.pattern(x, sc) for x in p.patterns]

            def f(fr, v):
                c = cls(fr)
                if not ops.truth(ops.call(isinstance, (v, c), {})):
                    return False
                if pps:
                    if c in (int, str, float, bool, bytes, list, dict, set, tuple, frozenset, bytearray):
                        if not pps[0](fr, v):
                            return False
                    else:
                        ma = getattr(c, "__match_args__", ())
                        for a, x in zip(ma, pps):
                            if not x(fr, ops.getattr(v, a)):
                                return False
                for k, x in kps:
                    if not x(fr, ops.getattr(v, k)):
                        return False
                return True

            return f
        if isinstance(p, ast.MatchMapping):
            items = [(self.expr(k, sc), self.pattern(x, sc)) for k, x in zip(p.keys, p.patterns)]

            def f(fr, v):
                if not isinstance(v, dict):
                    return False
                for k, x in items:
                    kk = k(fr)
                    if kk not in v or not x(fr, v[kk]):
                        return False
                if p.rest:
                    ks = [k(fr) for k, _ in items]
                    fr.locals[p.rest] = {a: b for a, b in v.items() if a not in ks}
                return True

            return f
        raise Undecided(f"unsupported pattern {type(p).__name__}")

    # ------------------------------------------------------------------ generator-mode statements

    def gen_block(self, body, sc):
        ss = []
        for b in body:
            if self._has_yield(b):
                ss.append((True, self.gen_stmt(b, sc)))
            else:
                ss.append((False, self.stmt(b, sc)))

        def f(fr):
            for g, s in ss:
                if g:
                    r = yield from s(fr)
                else:
                    r = s(fr)
                if r is not None:
                    return r
            return None

        return f

    def _has_yield(self, n):
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            return False
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        return any(self._has_yield(c) for c in ast.iter_child_nodes(n))

    def gen_stmt(self, n, sc):
        tr = self.ops.truth
        it = self.ops.iterate
        if isinstance(n, (ast.Expr, ast.Assign, ast.Return)):
            y = n.value
            if isinstance(y, ast.Yield):
                v = self.expr(y.value, sc) if y.value else (lambda fr: None)
                ts = [self.assign_target(t, sc) for t in n.targets] if isinstance(n, ast.Assign) else []

                def f(fr):
                    x = yield v(fr)
                    for t in ts:
                        t(fr, x)
                    if isinstance(n, ast.Return):
                        return _Sig("return", x)

                return f
            if isinstance(y, ast.YieldFrom):
                v = self.expr(y.value, sc)
                ts = [self.assign_target(t, sc) for t in n.targets] if isinstance(n, ast.Assign) else []

                def f(fr):
                    x = None
                    src = v(fr)
                    if isinstance(src, types.GeneratorType):
                        x = yield from src
                    else:
                        for e in it(src):
                            yield e
                    for t in ts:
                        t(fr, x)

                return f
            raise Undecided("yield nested in expression")
        if isinstance(n, ast.If):
            if self._has_yield(n.test):
                raise Undecided("yield nested in expression")
            t = self.expr(n.test, sc)
            b = self.gen_block(n.body, sc)
            o = self.gen_block(n.orelse, sc) if n.orelse else None

            def f(fr):
                if tr(t(fr)):
                    return (yield from b(fr))
                if o:
                    return (yield from o(fr))

            return f
        if isinstance(n, (ast.For, ast.While)):
            b = self.gen_block(n.body, sc)
            o = self.gen_block(n.orelse, sc) if n.orelse else None
            if isinstance(n, ast.For):
                src = self.expr(n.iter, sc)
                st = self.assign_target(n.target, sc)

                def f(fr):
                    for v in it(src(fr)):
                        st(fr, v)
                        r = yield from b(fr)
                        if r is not None:
                            if r is BRK:
                                return None
                            if r is CNT:
                                continue
                            return r
                    if o:
                        return (yield from o(fr))

            else:
                t = self.expr(n.test, sc)

                def f(fr):
                    k = 0
                    while tr(t(fr)):
                        k += 1
                        if k > 20000:
                            raise Undecided("loop bound exceeded")
                        r = yield from b(fr)
                        if r is not None:
                            if r is BRK:
                                return None
                            if r is CNT:
                                continue
                            return r
                    if o:
                        return (yield from o(fr))

            return f
        if isinstance(n, ast.Try):
            b = self.gen_block(n.body, sc)
            hs = [(self.expr(h.type, sc) if h.type else None, self.store_name(h.name, sc) if h.name else None,
                   self.gen_block(h.body, sc)) for h in n.handlers]
            o = self.gen_block(n.orelse, sc) if n.orelse else None
            fin = self.gen_block(n.finalbody, sc) if n.finalbody else None

            def f(fr):
                try:
                    try:
                        r = yield from b(fr)
                    except (Undecided, Internal, GeneratorExit):
                        raise
                    except BaseException as e:
                        check_exc(e)
                        for ht, st, body in hs:
                            if ht is None or isinstance(e, ht(fr)):
                                if st:
                                    st(fr, e)
                                saved = fr.exc
                                fr.exc = e
                                try:
                                    return (yield from body(fr))
                                finally:
                                    fr.exc = saved
                        raise
                    if r is not None:
                        return r
                    if o:
                        return (yield from o(fr))
                    return None
                finally:
                    if fin:
                        yield from fin(fr)

            return f
        if isinstance(n, ast.With):
            ops = self.ops
            items = [(self.expr(i.context_expr, sc), self.assign_target(i.optional_vars, sc) if i.optional_vars else None) for i in n.items]
            b = self.gen_block(n.body, sc)

            def level(fr, i):
                if i == len(items):
                    return (yield from b(fr))
                m = items[i][0](fr)
                v = ops.call(ops.getattr(type(m), "__enter__"), (m,), {})
                if items[i][1]:
                    items[i][1](fr, v)
                try:
                    r = yield from level(fr, i + 1)
                except (Undecided, Internal):
                    raise
                except BaseException as e:
                    if not ops.truth(ops.call(ops.getattr(type(m), "__exit__"), (m, type(e), e, None), {})):
                        raise
                    return None
                ops.call(ops.getattr(type(m), "__exit__"), (m, None, None, None), {})
                return r

            return lambda fr: level(fr, 0)
        raise Undecided(f"yield inside {type(n).__name__}")


def check_exc(e):
    """An exception caught by analysed code must come from analysed code, not from the analyser."""
    if isinstance(e, (Undecided, Internal)):
        raise e
    if isinstance(e, RecursionError) and not is_tagged(e):
        raise Undecided("host recursion limit")
    if not is_tagged(e):
        import traceback

        raise Internal("untagged exception in analysed code: " + "".join(
            traceback.format_exception(type(e), e, e.__traceback__)[-6:]))
