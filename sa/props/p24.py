"""P24: optional dependencies stay optional and their fallbacks are complete."""
import ast
import builtins
import itertools
import symtable
from ..harness import F, Scenario, Exc
from ..interp import AFunc, Undecided, is_tagged
from ..loader import Loader, purge
from ..positions import POSITIONS
from ..shapes import *
from ..values import Foreign, resolve

RULES = ["importing serde (also with *), serde.json and serde.pickle needs no optional package; a format module needs only its own package and says so with ImportError",
         "under every set of missing packages each global name that a remaining function uses unconditionally exists, each name imported from "
         "another serde module exists there, and functions defined under several configurations take the same arguments",
         "without numpy and sqlalchemy the type predicates are False for every type and never raise",
         "dict, tuple, JSON and pickle (de)serialization give the documented results under every set of missing packages"]
EXPLANATION = ("The package is loaded by interpretation under many subsets of missing optional packages (all subsets in the thorough tier); the "
               "namespaces that result are checked by symbol resolution against the functions' own symbol tables; every type shape is "
               "(de)serialized by abstract interpretation with packages missing.")

OPTIONAL = ["numpy", "jaxtyping", "sqlalchemy", "orjson", "msgpack", "tomli_w", "tomli", "yaml", "black"]
NEEDS = {"yaml": {"yaml"}, "toml": {"tomli_w"}, "msgpack": {"msgpack"}}
MODULES = ["compat", "core", "se", "de", "json", "pickle", "numpy", "sqlalchemy", "inspect", "yaml", "toml", "msgpack"]


def subsets(tier):
    n = len(OPTIONAL)
    if tier == "thorough":
        return [c for k in range(n + 1) for c in itertools.combinations(OPTIONAL, k)]
    out = [(), tuple(OPTIONAL)] + [(o,) for o in OPTIONAL] + [tuple(p for p in OPTIONAL if p != o) for o in OPTIONAL]
    return out + list(itertools.combinations(OPTIONAL, 2))


def shape_of(f):
    """What a call of the function may look like, parameter names of positional parameters apart."""
    a = f._code.node.args if hasattr(f._code, "node") else f._code.args
    n = len(a.posonlyargs) + len(a.args)
    return (n - len(a.defaults), n, a.vararg is not None, a.kwarg is not None,
            tuple(sorted((k.arg, d is not None) for k, d in zip(a.kwonlyargs, a.kw_defaults))))


class Uses(ast.NodeVisitor):
    """Names read unconditionally in a function body, nested functions included."""

    def __init__(self):
        self.names = []

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load):
            self.names.append((n.id, n.lineno))

    def skip(self, n):
        self.visit(n.test)

    visit_If = visit_IfExp = visit_While = skip

    def visit_Try(self, n):
        if not n.handlers:
            self.generic_visit(n)
        for s in n.finalbody if n.handlers else []:
            self.visit(s)

    def visit_BoolOp(self, n):
        for v in n.values if isinstance(n.op, ast.Or) else n.values[:1]:
            self.visit(v)

    def inner(self, n):
        pass

    visit_FunctionDef = visit_AsyncFunctionDef = visit_Lambda = visit_ClassDef = inner


def globals_of(src, rel):
    """(function name, first line) -> names that are global in it."""
    out = {}

    def walk(t):
        for c in t.get_children():
            if c.get_type() == "function":
                out.setdefault((c.get_name(), c.get_lineno()), set()).update(s.get_name() for s in c.get_symbols() if s.is_global())
            walk(c)

    walk(symtable.symtable(src, rel, "exec"))
    return out


def functions(tree, present):
    """The function definitions whose code is part of the configuration (by line of definition)."""
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.lineno in present:
            yield n


def module_functions(m, seen=None):
    """Every function object of the module: top level and in its classes."""
    for k, v in list(vars(m).items()):
        f = getattr(v, "__wrapped__", v) if not isinstance(v, type) else v
        if isinstance(f, AFunc) and f.__module__ == m.__name__:
            yield k, f
        elif isinstance(v, type) and v.__module__ == m.__name__:
            for kk, vv in list(vars(v).items()):
                for g in (vv, getattr(vv, "__func__", None), getattr(vv, "fget", None), getattr(vv, "func", None)):
                    if isinstance(g, AFunc) and g.__module__ == m.__name__:
                        yield f"{k}.{kk}", g


def node_of(f):
    return f._code.node if hasattr(f._code, "node") else f._code


def viol(rule, scen, msg, **detail):
    return {"rule": rule, "scenario": scen, "msg": msg, "detail": {k: str(v) for k, v in detail.items()}, "path": [], "site": None,
            "generated": [], "calls": []}


def static(repo, tier):
    v, ob, nfun = [], 0, set()
    sigs, done = {}, set()
    for cfg in subsets(tier):
        lab = "missing:" + (",".join(cfg) or "none")
        purge()
        L = Loader(repo, missing=cfg)
        loaded = {}
        for name in ["serde"] + ["serde." + m for m in MODULES]:
            short = name.partition(".")[2]
            ob += 1
            want = NEEDS.get(short, set()) & set(cfg)
            try:
                loaded[name] = L.import_module(name)
            except Undecided:
                raise
            except Exception as e:
                if not is_tagged(e):
                    raise
                if not want or not isinstance(e, ImportError):
                    v.append(viol("import", f"{lab}:{name}", f"importing {name} raises {e!r} although the packages it needs are installed"
                                  if not want else f"importing {name} raises {e!r} instead of ImportError"))
                elif not any(w in str(e) for w in want):
                    v.append(viol("import", f"{lab}:{name}", f"the error does not name the missing package: {e!r}", missing=want))
                continue
            if want:
                v.append(viol("import", f"{lab}:{name}", f"{name} imports without {want}: its errors come later"))
        loaded = {n: m for n, m in L.loaded.items() if n == "serde" or n.startswith("serde.")}
        # from serde import *: each name is an attribute or a submodule that can be imported
        for n in getattr(loaded.get("serde"), "__all__", []):
            ob += 1
            if not hasattr(loaded["serde"], n) and "serde." + n not in loaded and ("star", n) not in done:
                done.add(("star", n))
                v.append(viol("star", f"star-import:{n}", f"'from serde import *' fails: serde.{n} cannot be imported", missing=cfg))
        for name, m in loaded.items():
            rel, src, tree = L.sources[name]
            glob = globals_of(src, rel)
            for q, f in module_functions(m):
                node = node_of(f)
                nfun.add((name, q))
                if isinstance(node, ast.Lambda) or not hasattr(node, "name"):
                    continue
                ob += 1
                sg = shape_of(f)
                old = sigs.setdefault((name, q), (sg, lab))
                if old[0] != sg and (name, q, "sig") not in done:
                    done.add((name, q, "sig"))
                    v.append(viol("signature", f"{lab}:{name}.{q}", "takes other arguments than under " + old[1], here=sg, there=old[0], line=node.lineno))
                us = Uses()
                for s in node.body:
                    us.visit(s)
                gl = glob.get((node.name, node.lineno), set()) | {n for d in node.decorator_list for n in glob.get((node.name, d.lineno), set())}
                for n, line in us.names:
                    ob += 1
                    if n in gl and not hasattr(m, n) and not hasattr(builtins, n) and (name, q, n) not in done:
                        done.add((name, q, n))
                        v.append(viol("names", f"{lab}:{name}.{q}", f"uses {n}, which does not exist in this configuration", where=f"{rel}:{line}"))
                for imp in ast.walk(node):
                    if isinstance(imp, ast.ImportFrom) and (imp.level == 1 or (imp.module or "").split(".")[0] == "serde"):
                        tgt = "serde." + imp.module if imp.level == 1 and imp.module else imp.module or "serde"
                        if tgt not in loaded:
                            continue
                        for a in imp.names:
                            ob += 1
                            if not hasattr(loaded[tgt], a.name) and tgt + "." + a.name not in loaded and (name, q, a.name) not in done:
                                done.add((name, q, a.name))
                                v.append(viol("names", f"{lab}:{name}.{q}", f"imports {a.name} from {tgt}, which does not have it in this configuration",
                                              where=f"{rel}:{imp.lineno}"))
    purge()
    return [{"rule": "symbol resolution under missing packages", "configurations": len(subsets(tier)), "functions": len(nfun), "ob": ob, "viol": v}]


# --------------------------------------------------------------------------- behaviour

SOME = [("numpy", "jaxtyping", "sqlalchemy"), tuple(OPTIONAL), ("numpy",), ("jaxtyping",), ("sqlalchemy",), ("orjson", "numpy"), ("msgpack", "tomli_w", "tomli", "yaml", "black")]


def use(sh, cfg):
    def run(ctx):
        t = sh.t(ctx)
        c = ctx.cls("C", [F("x", t), F("o", typing.Optional[t], default=None), F("l", list[t], factory=list)])
        if not ctx.ok(c, "use", missing=cfg):
            return
        for lab, v in sh.vals(ctx, "x"):
            x = ctx.make(c, v, v, [v])
            if not ctx.ok(x, "use", value=v, missing=cfg):
                continue
            for sets in (False, True):
                d = ctx.to_dict(x, reuse_instances=False, convert_sets=sets)
                if ctx.ok(d, "use", value=v):
                    e = sh.wire(ctx, v, Opts(True, False, sets))
                    ctx.check(wire_same(resolve(d)["x"], e), "use", "another output with packages missing", actual=d, expected=e, missing=cfg)
                    ctx.eq(ctx.from_dict(c, d, reuse_instances=False), x, "use", missing=cfg)
                ctx.eq(ctx.from_tuple(c, ctx.to_tuple(x, reuse_instances=False, convert_sets=sets), reuse_instances=False), x, "use", missing=cfg)
            d = ctx.to_dict(v, c=t, reuse_instances=False)
            ctx.eq(ctx.from_dict(t, d, reuse_instances=False), v, "use", missing=cfg, top=True)
            s = ctx.call(ctx.get("pickle.to_pickle"), x)
            if ctx.ok(s, "use", missing=cfg):
                ctx.eq(ctx.call(ctx.get("pickle.from_pickle"), c, s), x, "use", missing=cfg, format="pickle")

    return run


def position(pn, sh, cfg):
    """Every position of a type, generic classes and aliases included."""

    def run(ctx):
        p = POSITIONS[pn](ctx, sh.t(ctx))
        if not ctx.ok(p.type, "use", missing=cfg):
            return
        v = sh.vals(ctx, "v")[-1][1]
        w = sh.wire(ctx, v, Opts(True, False, False))
        w = w.alts[-1] if isinstance(w, OneOf) else w
        x, d = p.value(v), p.data(w)
        ctx.eq(ctx.from_dict(p.type, d, reuse_instances=False), x, "use", missing=cfg, position=pn)
        r = ctx.to_dict(x, **({} if dataclasses.is_dataclass(x) else dict(c=p.type)), reuse_instances=False)
        if ctx.ok(r, "use", missing=cfg, position=pn):
            ctx.eq(ctx.from_dict(p.type, r, reuse_instances=False), x, "use", missing=cfg, position=pn)
        ctx.ok(ctx.call(ctx.get("json.to_json"), x, **({} if dataclasses.is_dataclass(x) else dict(cls=p.type))), "use", missing=cfg, position=pn)

    return run


def generic(cfg, sh):
    """Generic classes as fields, where sqlalchemy is asked about."""

    def run(ctx):
        Tv = typing.TypeVar("Tv")
        ctx.user.Tv = Tv
        g = ctx.cls("G", [F("v", Tv), F("l", list[Tv], factory=list)], bases=(typing.Generic[Tv],))
        h = ctx.cls("H", [F("g", g[sh.t(ctx)]), F("n", typing.Optional[g[int]], default=None), F("p", g[str], default=None, opts=dict(skip_if_none=True))])
        v = sh.vals(ctx, "v")[-1][1]
        if not (ctx.ok(g, "use", missing=cfg) and ctx.ok(h, "use", missing=cfg)):
            return
        x = ctx.make(h, ctx.make(g, v, [v]), ctx.make(g, 1, [2]), ctx.make(g, "s"))
        d = ctx.to_dict(x)
        if ctx.ok(d, "use", missing=cfg):
            ctx.eq(ctx.from_dict(h, d), x, "use", missing=cfg)

    return run


def formats(fmt, cfg, sh):
    """A format still works with the packages of the others missing."""

    def run(ctx):
        c = ctx.cls("C", [F("a", str), F("x", sh.t(ctx)), F("d", dict[str, list[int]], factory=dict), F("f", float, default=0.5)])
        v = conc(sh.vals(ctx, "v")[-1][1])
        x = ctx.make(c, "a", v, {"k": [1]})
        s = ctx.call(ctx.get(f"{fmt}.to_{fmt}"), x)
        if ctx.ok(s, "format", missing=cfg, format=fmt):
            ctx.eq(ctx.call(ctx.get(f"{fmt}.from_{fmt}"), c, s), x, "format", missing=cfg, format=fmt)
        d = ctx.cls("E", [F("y", typing.Any)])
        s = ctx.call(ctx.get(f"{fmt}.to_{fmt}"), ctx.make(d, Foreign()))
        ctx.check(not isinstance(s, Exc) or not isinstance(s.e, (NameError, AttributeError, ImportError)), "format",
                  "an object that cannot be written", result=s, missing=cfg, format=fmt)

    return run


def predicates(cfg):
    def run(ctx):
        m = ctx.mod("numpy")
        ts = [s.t(ctx) for s in field_shapes("quick")] + [int, str, list, dict, tuple, set, object, type(None), None, typing.Any, typing.Union, typing.Optional[int],
                                                          list[int], typing.List, typing.TypeVar("T"), Color, D.t(ctx), "fwd", 1, ...]
        for n, f in sorted(vars(m).items()):
            if not (n.startswith("is_numpy") and isinstance(f, AFunc)):
                continue
            if n == "is_numpy_available":
                ctx.check(resolve(ctx.call(f)) is ("numpy" not in cfg), "predicate", "numpy availability", missing=cfg)
                continue
            for t in ts:
                r = ctx.call(f, t)
                ctx.check(resolve(r) is False, "predicate", f"{n} of a type that has nothing to do with numpy", type=t, result=r, missing=cfg)
        f = ctx.get("sqlalchemy.is_sqlalchemy_inspectable")
        for t in ts:
            ctx.check(resolve(ctx.call(f, t)) is False, "predicate", "sqlalchemy predicate", type=t, missing=cfg)

    return run


def unsupported(cfg):
    """Whatever numpy would have handled is refused as any other unsupported type."""

    def run(ctx):
        for t in (Foreign, typing.Callable[[], int], complex):
            c = ctx.call(ctx.get("serde"), ctx.rawcls("C", [F("x", t)]))
            if isinstance(c, Exc):
                ctx.check(ctx.is_serde_error(c), "unsupported", "at declaration", result=c, missing=cfg)
                continue
            r = ctx.from_dict(c, {"x": 1})
            ctx.check(not isinstance(r, Exc) or ctx.is_serde_error(r), "unsupported", "", result=r, missing=cfg, type=t)

    return run


def skip_default(cfg, sh):
    def run(ctx):
        v = conc(sh.vals(ctx, "v")[-1][1])
        c = ctx.cls("C", [F("a", int), F("x", sh.t(ctx), factory=lambda: v, opts=dict(skip_if_default=True))])
        if not ctx.ok(c, "skip", missing=cfg):
            return
        d = ctx.to_dict(ctx.make(c, 1, v))
        ctx.check(not isinstance(d, Exc) and list(d) == ["a"], "skip", "skip_if_default", data=d, missing=cfg)

    return run


def scenarios(tier):
    th = tier == "thorough"
    out = []
    for i, cfg in enumerate(SOME if not th else SOME + subsets("quick")[2:20]):
        cfg = tuple(cfg)
        lab = f"{i}-" + ",".join(x for x in cfg)
        shapes = field_shapes(tier if i < 2 else "quick")
        for j, sh in enumerate(shapes):
            if i < 2 or th or j % 5 == i % 5:
                out.append(Scenario(f"use:{lab}:{sh.label}", use(sh, cfg), missing=cfg))
        for k, pn in enumerate(POSITIONS):
            if i < 2 or th or k % 5 == i % 5:
                out.append(Scenario(f"position:{lab}:{pn}", position(pn, (INT, PATH, DATETIME)[k % 3], cfg), missing=cfg))
        for sh in (INT, PATH, D):
            out.append(Scenario(f"generic:{lab}:{sh.label}", generic(cfg, sh), missing=cfg))
        out.append(Scenario(f"predicates:{lab}", predicates(cfg), missing=cfg))
        out.append(Scenario(f"unsupported:{lab}", unsupported(cfg), missing=cfg))
        for sh in (INT, STR, PATH, DATETIME, D, ListT(INT), UUID_):
            out.append(Scenario(f"skip:{lab}:{sh.label}", skip_default(cfg, sh), missing=cfg))
            for fmt, need in (("json", None), ("yaml", "yaml"), ("toml", "tomli_w"), ("msgpack", "msgpack"), ("pickle", None)):
                if need not in cfg:
                    out.append(Scenario(f"format:{fmt}:{lab}:{sh.label}", formats(fmt, cfg, sh), missing=cfg))
    return out
