"""P25: untrusted data never reaches a code-executing sink."""
import ast
import os
from ..harness import F, Scenario, Exc
from ..positions import POSITIONS, HASH_POSITIONS
from ..shapes import *
from ..values import AV, has_av, resolve
from .p12 import corrupt
from .p14 import TAGS, tagging
from .p17 import methods
from .p28 import known

RULES = ["no code, template, import, attribute name or system call made while reading or writing contains any part of the data",
         "on classes that have been used once, reading and writing executes no text and renders no template at all",
         "from_json / from_yaml / from_toml / from_msgpack use their own parser only, YAML's with the safe loader; nothing but serde.pickle unpickles",
         "outside serde.pickle no module refers to pickle, marshal, shelve, subprocess, ctypes, os.system and the like or to an unsafe YAML loader"]
EXPLANATION = ("Taint analysis by abstract interpretation: the data are unknown values and marked strings at every node (keys, values, tags, extra "
               "entries); every execution, template, import, dynamic attribute access, unpickling and system call the program makes is intercepted. "
               "Call sites of forbidden primitives are enumerated over the syntax trees with import aliases resolved.")

MARK = "zqz__import__('os').system('x')"
BAD_MODULES = {"pickle", "_pickle", "cPickle", "dill", "cloudpickle", "joblib", "marshal", "shelve", "subprocess", "ctypes", "pty", "runpy", "code", "codeop",
               "socket", "webbrowser", "multiprocessing", "imp", "jsonpickle"}
BAD_OS = {"system", "popen", "exec", "spawn", "fork", "posix_spawn", "startfile", "remove", "unlink", "rmdir", "kill"}
SAFE_YAML = {"safe_load", "safe_dump", "safe_load_all", "safe_dump_all", "SafeLoader", "SafeDumper", "CSafeLoader", "CSafeDumper", "YAMLError",
             "add_representer", "representer", "nodes", "events", "scanner", "parser", "error", "MarkedYAMLError", "reader", "__version__"}
LOADERS = {"load", "load_all", "dump", "dump_all"}


# --------------------------------------------------------------------------- call sites


def dotted(n, alias):
    parts = []
    while isinstance(n, ast.Attribute):
        parts.append(n.attr)
        n = n.value
    if isinstance(n, ast.Name) and n.id in alias:
        return alias[n.id] + "".join("." + p for p in reversed(parts))
    return None


def safe_loader(call, alias):
    """yaml.load(..., Loader=SafeLoader)"""
    for a in list(call.args[1:]) + [k.value for k in call.keywords if k.arg in ("Loader", "Dumper")]:
        d = dotted(a, alias)
        if d and d.startswith("yaml.") and d.split(".")[-1] in SAFE_YAML:
            return True
    return False


def static(repo, tier):
    v, sites, files = [], 0, 0
    root = os.path.join(repo, "serde")
    for dp, dns, fns in os.walk(root):
        for fn in sorted(fns):
            if not fn.endswith(".py"):
                continue
            path = os.path.join(dp, fn)
            rel = os.path.relpath(path, repo)
            tree = ast.parse(open(path, encoding="utf-8").read(), rel)
            files += 1
            alias, scope = {}, {}
            for n in ast.walk(tree):
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    for k in ast.walk(n):
                        scope.setdefault(id(k), n.name)
                if isinstance(n, ast.Import):
                    for a in n.names:
                        alias[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
                elif isinstance(n, ast.ImportFrom) and n.module and not n.level:
                    for a in n.names:
                        alias[a.asname or a.name] = f"{n.module}.{a.name}"

            def bad(n, what):
                v.append({"rule": "call-site", "scenario": f"site:{rel}:{scope.get(id(n), '<module>')}", "msg": what,
                          "detail": {"where": f"{rel}:{getattr(n, 'lineno', 0)}"}, "path": [], "site": None, "generated": [], "calls": []})

            ok_calls = {id(c.func) for c in ast.walk(tree) if isinstance(c, ast.Call) and safe_loader(c, alias)}
            for n in ast.walk(tree):
                if isinstance(n, (ast.Import, ast.ImportFrom)):
                    mods = [a.name for a in n.names] if isinstance(n, ast.Import) else [n.module or ""] if not n.level else []
                    for m in mods:
                        sites += 1
                        if m.split(".")[0] in BAD_MODULES and not (m.split(".")[0] in ("pickle", "_pickle") and rel == os.path.join("serde", "pickle.py")):
                            bad(n, f"imports {m}")
                        if isinstance(n, ast.ImportFrom) and m == "yaml":
                            for a in n.names:
                                if a.name not in SAFE_YAML | LOADERS:
                                    bad(n, f"imports yaml.{a.name}")
                        if isinstance(n, ast.ImportFrom) and m in ("os", "posix"):
                            for a in n.names:
                                if a.name.startswith(tuple(BAD_OS)):
                                    bad(n, f"imports os.{a.name}")
                    if isinstance(n, ast.ImportFrom) and n.level and rel != os.path.join("serde", "__init__.py"):
                        sites += 1
                        if (n.module or "") == "pickle" or not n.module and any(a.name == "pickle" for a in n.names):
                            bad(n, "imports serde.pickle")
                if isinstance(n, (ast.Attribute, ast.Name)) and isinstance(getattr(n, "ctx", None), ast.Load):
                    d = dotted(n, alias)
                    if d is None:
                        continue
                    sites += 1
                    top, _, rest = d.partition(".")
                    if top == "yaml" and rest and rest.split(".")[0] not in SAFE_YAML and not (rest in LOADERS and id(n) in ok_calls):
                        bad(n, f"uses {d}")
                    if top in ("os", "posix") and rest.startswith(tuple(BAD_OS)):
                        bad(n, f"uses {d}")
                    if d in ("builtins.exec", "builtins.eval", "builtins.__import__"):
                        sites += 1
    return [{"rule": "call sites of forbidden primitives", "files": files, "sites": sites, "ob": sites, "viol": v}]


# --------------------------------------------------------------------------- taint


def tainted(x, depth=0):
    x = resolve(x)
    if isinstance(x, AV):
        return True
    if isinstance(x, str):
        return "zqz" in x
    if isinstance(x, bytes):
        return b"zqz" in x
    if isinstance(x, (list, tuple, set, frozenset)):
        return any(tainted(y, depth + 1) for y in x)
    if isinstance(x, dict):
        return any(tainted(k, depth + 1) or tainted(y, depth + 1) for k, y in x.items())
    return bool(has_av(x)) if depth == 0 else False


class Watch:
    def __init__(self, ctx, warm, **detail):
        self.ctx, self.warm, self.detail = ctx, warm, detail

    def __enter__(self):
        self.n = len(self.ctx.ops.backend_log)
        self.ctx.ops.on_event = self.on

    def on(self, kind, args):
        ops, self.ctx.ops.on_event = self.ctx.ops, None
        try:
            what = repr([a if not isinstance(a, str) else a[:200] for a in args])[:300]
            self.ctx.check(not any(tainted(a) for a in args), "taint", f"the data reach a sink: {kind}", args=what, **self.detail)
            self.ctx.check(kind not in ("unpickle", "unsafe", "system"), "sink", f"{kind} is used", args=what, **self.detail)
            if self.warm:
                self.ctx.check(kind not in ("execute", "template"), "regenerate", f"a call on generated classes makes new code: {kind}", args=what, **self.detail)
        finally:
            ops.on_event = self.on

    def __exit__(self, *a):
        self.ctx.ops.on_event = None


def poison(w):
    """The data with marked text at every node."""
    yield MARK
    if isinstance(w, dict):
        yield {**w, MARK: MARK, "__class__": MARK, "__init__": MARK}
        for k in list(w):
            if isinstance(k, str):
                yield {(MARK if a == k else a): b for a, b in w.items()}
                yield {(k + MARK if a == k else a): b for a, b in w.items()}
            for x in poison(w[k]):
                yield {a: (x if a == k else b) for a, b in w.items()}
    elif isinstance(w, (list, tuple)):
        for i in range(len(w)):
            for x in poison(w[i]):
                yield type(w)([*w[:i], x, *w[i + 1:]])
        yield type(w)([*w, MARK])
    elif isinstance(w, str):
        yield w + MARK
        yield MARK + w


def reading(ctx, t, goods, kw=({},)):
    """Reading: unknown values, corruptions and marked text, with and without a previous use of the type."""
    for named, good in goods:
        f = ctx.from_dict if named else ctx.from_tuple
        with Watch(ctx, False, type=t, first=True):
            ctx.isolated(lambda: f(t, next(conc_or(x) for x in list(poison(good))[1:] + [MARK])))
        with Watch(ctx, False, type=t, first=True):
            ctx.isolated(lambda: f(t, good))
        f(t, conc_or(good))
        for k in kw:
            base = conc_or(good)
            data = [good] + list(poison(base)) + [b for b in (known(b) for _, b in corrupt(base, few=True)) if b is not None]
            for d in data:
                with Watch(ctx, True, type=t, data=d):
                    ctx.isolated(lambda: f(t, d, **k))


def conc_or(v):
    try:
        return conc(v)
    except (KeyError, TypeError):
        return v


def writing(ctx, x, kw=({},), **c):
    y = conc_or(x)
    ctx.to_dict(y, **c), ctx.to_tuple(y, **c)
    for k in kw:
        with Watch(ctx, True, value=x):
            ctx.isolated(lambda: ctx.to_dict(x, **c, **k))
            ctx.isolated(lambda: ctx.to_tuple(x, **c, **k))


def shape(sh, opts):
    def run(ctx):
        o = dict(opts)
        if "type_check" in o:
            o["type_check"] = ctx.get("core." + o["type_check"])
        t = sh.t(ctx)
        c = ctx.cls("C", [F("a", str, opts=dict(alias=["other"])), F("x", t), F("n", typing.Optional[t], default=None)], **o)
        if not ctx.ok(c, "declare"):
            return
        for lab, v in list(sh.vals(ctx, "v"))[:2]:
            w = sh.wire(ctx, v, Opts(True, False, True))
            w = w.alts[-1] if isinstance(w, OneOf) else w
            u = sh.wire(ctx, v, Opts(False, False, True))
            u = u.alts[-1] if isinstance(u, OneOf) else u
            reading(ctx, c, [(True, {"a": "s", "x": w, "n": conc_or(w)}), (False, ("s", u, conc_or(u)))])
            reading(ctx, t, [(True, w), (False, u)])
            x = ctx.make(c, "zqz", v, conc_or(v))
            if not isinstance(x, Exc):
                writing(ctx, x, ({}, dict(reuse_instances=False, convert_sets=True), dict(skip_none=True)))
            writing(ctx, v, c=t)

    return run


def position(pn, sh):
    def run(ctx):
        p = {**POSITIONS, **HASH_POSITIONS}[pn](ctx, sh.t(ctx))
        if not ctx.ok(p.type, "declare"):
            return
        v = sh.vals(ctx, "v")[-1][1]
        w = sh.wire(ctx, v, Opts(True, False, True))
        w = w.alts[-1] if isinstance(w, OneOf) else w
        reading(ctx, p.type, [(True, p.data(w))])
        x = p.value(v)
        writing(ctx, x, **({} if dataclasses.is_dataclass(x) else dict(c=p.type)))

    return run


def tags(tn, top):
    def run(ctx):
        a = ctx.cls("A", [F("i", int), F("s", str)])
        b = ctx.cls("B", [F("i", int), F("e", Color)])
        tg = tagging(ctx, tn)
        c = ctx.cls("C", [F("u", typing.Union[a, b, None]), F("l", list[typing.Union[a, b]], factory=list)], tagging=tg)
        if top:
            k, t = TAGS[tn], typing.Union[a, b]
            if k == "external":
                pass
            elif k[0] == "internal":
                t = ctx.call(ctx.get("core.InternalTagging"), k[1], t)
            elif k[0] == "adjacent":
                t = ctx.call(ctx.get("core.AdjacentTagging"), k[1], k[2], t)
            else:
                t = ctx.call(ctx.get("core.Untagged"), t)
            d = ctx.to_dict(ctx.make(a, 1, "s"), c=t)
            if ctx.ok(d, "declare"):
                reading(ctx, t, [(True, d)])
            return
        x = ctx.make(c, ctx.make(a, var("i", int), "s"), [ctx.make(b, 2, Color.R)] if hasattr(Color, "R") else [])
        d = ctx.to_dict(x)
        if ctx.ok(d, "declare"):
            reading(ctx, c, [(True, d)])
            writing(ctx, x)

    return run


def features(name):
    def run(ctx):
        skip = ctx.get("compat.SerdeSkip")

        def ser(t, v):
            if t is int:
                return ["i", v]
            raise ctx.call(skip)

        def de(t, v):
            if t is int:
                return AV("deser", (v,), int)
            raise ctx.call(skip)

        class De:
            def deserialize(self, cls, v):
                return v

        De.deserialize = methods(De.deserialize, [(object, type[int], typing.Any)])
        d = D.t(ctx)
        inner = ctx.cls("I", [F("p", int), F("q", str, default="q")])
        fs, o = [F("a", str), F("i", int, default=1), F("d", d, default=None)], {}
        good = {"a": "s", "i": 1, "d": {"i": 1, "s": "t"}}
        good["d"] = D.wire(ctx, D.vals(ctx, "v")[0][1], Opts(True, False, True))
        if name == "legacy":
            o = dict(serializer=ser, deserializer=de)
            good["i"] = ["i", 1]
        elif name == "class":
            o = dict(class_deserializer=De())
        elif name == "field":
            fs[1] = F("i", int, opts=dict(serializer=lambda v: v, deserializer=lambda v: v))
        elif name == "deny":
            o = dict(deny_unknown_fields=True)
        elif name == "rename":
            o = dict(rename_all="camelcase")
            fs[0] = F("a", str, opts=dict(rename="R R", alias=["x-y"]))
            good["R R"] = good.pop("a")
        elif name == "flatten":
            fs.append(F("in_", inner, default=None, opts=dict(flatten=True)))
            fs.append(F("rest", dict[str, typing.Any], factory=dict, opts=dict(flatten=True)))
            good.update(p=1, q="s", unknown="zz")
        elif name == "any":
            fs.append(F("z", typing.Any, default=None))
            good["z"] = {"k": ["v"]}
        elif name == "enum":
            fs += [F("e", Color, default=list(Color)[0]), F("l", typing.Literal["a", 1], default="a"), F("n", Num, default=list(Num)[0])]
            good.update(e=list(Color)[0].value, l="a", n=list(Num)[0].value)
        elif name == "any-union":
            fs.append(F("z", typing.Union[int, str, dict[str, typing.Any], list[d]], default=None))
            good["z"] = {"k": "v"}
        elif name == "transparent":
            c = ctx.cls("T", [F("x", dict[str, str])], transparent=True)
            if ctx.ok(c, "declare"):
                reading(ctx, c, [(True, {"k": "v"})])
            return
        elif name == "string-annotations":
            ctx.user.Fwd = d
            ctx.user.typing = typing
            fs[2] = F("d", "typing.Optional[Fwd]", default=None)
        elif name == "plain":
            c = dataclasses.dataclass(ctx.rawcls("C", fs))
            reading(ctx, c, [(True, good)])
            return
        c = ctx.cls("C", fs, **o)
        if ctx.ok(c, "declare"):
            reading(ctx, c, [(True, good)], kw=({}, dict(reuse_instances=False)))

    return run


PARSERS = {"json": {"json.loads", "orjson.loads"}, "yaml": {"yaml.safe_load", "yaml.load"}, "toml": {"tomllib.loads"}, "msgpack": {"msgpack.unpackb"}}


def formats(fmt, sh):
    def run(ctx):
        t = sh.t(ctx)
        c = ctx.cls("C", [F("a", str), F("x", t)])
        v = sh.vals(ctx, "v")[-1][1]
        to, frm = ctx.get(f"{fmt}.to_{fmt}"), ctx.get(f"{fmt}.from_{fmt}")
        w = sh.wire(ctx, v, Opts(True, False, True))
        w = w.alts[-1] if isinstance(w, OneOf) else w
        good = {"a": "s", "x": w}
        s = ctx.call(to, ctx.make(c, "s", v))
        ctx.call(frm, c, s)
        for d in [good] + list(poison(good)):
            if fmt == "toml" and not isinstance(d, dict):
                continue
            doc = ctx.call(to, d)
            if isinstance(doc, Exc):
                continue

            def go():
                n = len(ctx.ops.backend_log)
                with Watch(ctx, True, format=fmt, data=d):
                    ctx.call(frm, c, doc)
                used = {f for f, _ in ctx.ops.backend_log[n:]}
                ctx.check(used and used <= PARSERS[fmt], "parser", "another parser than the format's is used", used=used, format=fmt)

            ctx.isolated(go)

    return run


def ext(ctx):
    """msgpack extension types: only the classes of ext_dict are made."""
    a = ctx.cls("A", [F("i", int), F("s", str)])
    to, frm = ctx.get("msgpack.to_msgpack"), ctx.get("msgpack.from_msgpack")
    x = ctx.make(a, 1, MARK)
    doc = ctx.call(to, x, ext_dict={a: 1})
    if not ctx.ok(doc, "declare"):
        return
    for ed in ({1: a}, {2: a}, {}):
        with Watch(ctx, False, format="msgpack", ext=ed):
            r = ctx.call(frm, None, doc, ext_dict=ed)
        if ed != {1: a}:
            ctx.raises(r, "ext")


def scenarios(tier):
    th = tier == "thorough"
    shapes = field_shapes(tier)
    out = []
    for i, sh in enumerate(shapes):
        out.append(Scenario(f"shape:{sh.label}", shape(sh, {})))
        if th or i % 3 == 0:
            out.append(Scenario(f"shape:{sh.label}:coerce", shape(sh, dict(type_check="coerce"))))
            out.append(Scenario(f"shape:{sh.label}:disabled", shape(sh, dict(type_check="disabled"))))
    for pn in {**POSITIONS, **HASH_POSITIONS}:
        for sh in (INT, STR, PATH, D) if th else (STR,):
            if pn in HASH_POSITIONS and sh is D:
                continue
            out.append(Scenario(f"position:{pn}:{sh.label}", position(pn, sh)))
    for tn in TAGS:
        for top in (False, True):
            out.append(Scenario(f"tags:{tn}:{top}", tags(tn, top)))
    for n in ("base", "legacy", "class", "field", "deny", "rename", "flatten", "any", "enum", "any-union", "transparent", "string-annotations", "plain"):
        out.append(Scenario(f"feature:{n}", features(n)))
    for fmt in PARSERS:
        for sh in shapes if th else (INT, STR, PATH, D, ListT(STR), DictT(STR, INT), FLOAT, ANY):
            out.append(Scenario(f"format:{fmt}:{sh.label}", formats(fmt, sh)))
            if fmt == "json":
                out.append(Scenario(f"format:orjson:{sh.label}", formats(fmt, sh), missing=()))
    out.append(Scenario("ext", ext))
    return out
