"""P10: absent keys take the declared default, freshly made; present keys take the input."""
import itertools
from ..harness import F, Scenario, Exc
from ..shapes import *
from .p07 import kinds, pick, optional_like

RULES = ["absent key: default value / a value made by calling the factory once for this object / None for Optional",
         "present key: the input value, also when it is falsy or None where None is allowed",
         "factories are not called for present keys, and their values are never shared between objects",
         "the default is not passed through a (de)serializer"]
EXPLANATION = ("Abstract interpretation over field types x default modes x naming/keyword-only/custom-deserializer/type-check "
               "variants x every presence vector; factories are recording closures returning distinct objects; input values "
               "are provenance terms.")


def wire(sh, ctx, v):
    w = sh.wire(ctx, v, Opts(True, False, True))
    return w.alts[-1] if isinstance(w, OneOf) else w


def build(kind, sh, mode, variant):
    def run(ctx):
        vs = [v for _, v in sh.vals(ctx, "v")]
        dflt = conc(vs[-1])
        calls = []

        def fac():
            calls.append(None)
            return conc(vs[-1])

        kw = {}
        t = sh.t(ctx)
        if mode == "default":
            try:
                mutable = type(dflt).__hash__ is None
            except Exception:
                mutable = True
            if mutable:
                return ctx.check(True, "n/a")
            kw = dict(default=dflt)
        elif mode == "factory":
            kw = dict(factory=fac)
        elif mode == "none":
            t = typing.Optional[t]
            kw = dict(default=None)
        elif mode == "optional":
            t = typing.Optional[t]
        elif mode == "opt-default":
            t = typing.Optional[t]
            kw = dict(factory=fac)
        fo, co, keys, dc = {}, {}, ["x"], {}
        if variant == "alias":
            fo = dict(alias=["al1", "al2"])
            keys = ["x", "al1", "al2"]
        elif variant == "rename":
            fo = dict(rename="R")
            keys = ["R"]
        elif variant == "kw":
            dc = dict(kw_only=True)
        elif variant == "disabled":
            co = dict(type_check=ctx.get("core.disabled"))
        elif variant == "coerce":
            co = dict(type_check=ctx.get("core.coerce"))
        elif variant == "deny":
            co = dict(deny_unknown_fields=True)
        elif variant == "skipflags":
            fo = dict(skip_if_default=True, skip_if_none=True, skip_serializing=True)
        if kw.get("factory") and fo == {} and dc == {}:
            pass
        c = ctx.cls("C", [F("a", int), F("x", t, opts=fo, dc=dc, **kw), F("z", typing.Optional[int], dc=dict(kw_only=True))], **co)
        if not ctx.ok(c, "decorate"):
            return
        deco_calls = len(calls)
        a = var("a", int)
        none_ok = mode in ("none", "optional", "opt-default")
        absent = {"default": dflt, "factory": conc(vs[-1]), "opt-default": conc(vs[-1])}.get(mode)
        # absent
        objs = []
        for _ in range(2):
            del calls[:]
            y = ctx.from_dict(c, {"a": a})
            if ctx.ok(y, "absent"):
                ctx.eq(y, ctx.make(c, a, x=absent, z=None), "absent", "the declared default is not used")
                if kw.get("factory"):
                    ctx.check(len(calls) == 1, "factory-calls", "the factory is not called exactly once per object", n=len(calls))
                if mode == "default":
                    ctx.check(y.x is dflt or same(y.x, dflt), "absent")
                objs.append(y)
        if len(objs) == 2 and kw.get("factory") and isinstance(objs[0].x, (list, dict, set, deque)):
            ctx.check(objs[0].x is not objs[1].x, "shared", "two objects share a factory value")
        # present
        vals = [(v, wire(sh, ctx, v)) for v in vs]
        if none_ok:
            vals.append((None, None))
        for k in keys:
            for v, w in vals:
                del calls[:]
                data = {"a": a, k: w}
                y = ctx.from_dict(c, data)
                if ctx.ok(y, "present", data=data):
                    ctx.eq(y, ctx.make(c, a, x=v, z=None), "present", "the input value is not used", data=data)
                    if kw.get("factory"):
                        ctx.check(not calls, "factory-unneeded", "the factory is called although the key is present")

    return run


FALSY = {"int": (int, [0]), "str": (str, [""]), "float": (float, [0.0]), "bool": (bool, [False]), "list": (list[int], [[]]),
         "dict": (dict[str, int], [{}]), "set": (set[int], [[]]), "opt-int": (typing.Optional[int], [0, None]),
         "opt-str": (typing.Optional[str], ["", None]), "opt-list": (typing.Optional[list[int]], [[], None]),
         "opt-bool": (typing.Optional[bool], [False, None]), "opt-dict": (typing.Optional[dict[str, int]], [{}, None]),
         "union": (typing.Union[int, str], [0, ""]), "union-none": (typing.Union[int, None, str], [0, "", None]),
         "tuple": (tuple[int, ...], [[]]), "any": (typing.Any, [0, "", None, False, []]), "deque": (deque[int], [[]])}


def falsy(kind):
    def run(ctx):
        t, ws = FALSY[kind]
        truthy = {"int": 5, "str": "d", "float": 1.5, "bool": True, "list": [1], "dict": {"k": 1}, "set": {1}, "tuple": (1,),
                  "deque": deque([1]), "any": 5, "union": 5}
        d = truthy[kind.split("-")[-1] if kind.startswith("opt-") else kind.split("-")[0]]
        for dc in ({}, dict(kw_only=True)):
            for fo in ({}, dict(alias=["y"]), dict(rename="y")):
                kw = dict(factory=lambda: type(d)(d)) if isinstance(d, (list, dict, set, deque)) else dict(default=d)
                c = ctx.cls("C", [F("x", t, dc=dc, opts=fo, **kw)])
                n = ctx.cls("N", [F("c", c), F("l", list[c])])
                fl = ctx.cls("Fl", [F("q", int, default=1), F("c", c, factory=lambda: ctx.make(c), opts=dict(flatten=True))])
                if not (ctx.ok(c, "decorate") and ctx.ok(n, "decorate") and ctx.ok(fl, "decorate")):
                    continue
                for w in ws:
                    v = {set: set, tuple: tuple, deque: deque}.get(typing.get_origin(t), lambda q: q)(w)
                    for k in (["x", "y"] if "alias" in fo else ["y"] if fo else ["x"]):
                        y = ctx.from_dict(c, {k: w})
                        if ctx.ok(y, "falsy"):
                            ctx.eq(y.x, v, "falsy", "a falsy input value is replaced", key=k)
                        y = ctx.from_dict(n, {"c": {k: w}, "l": [{k: w}, {}]})
                        if ctx.ok(y, "falsy-nested"):
                            ctx.check(same(y.c.x, v) and same(y.l[0].x, v) and same(y.l[1].x, d), "falsy-nested", actual=y)
                        y = ctx.from_dict(fl, {k: w})
                        if ctx.ok(y, "falsy-flat"):
                            ctx.eq(y.c.x, v, "falsy-flat")
    return run


def custom(ctx):
    """Custom deserializers see the input only; defaults are used as they are."""
    seen = []

    def des(v):
        seen.append(v)
        return AV("des", (v,), int)

    def cdes(cls, v):
        seen.append(v)
        return AV("cdes", (v,), int)

    class CD:
        def deserialize(self, cls, v):
            seen.append(v)
            return AV("CD", (v,), int)

    mk_method = lambda t: type("M", (), {"signature": type("S", (), {"types": (object, type[t], object)})})
    f = CD.deserialize
    CD.deserialize = type("Fn", (), {"__get__": lambda s, o, ow: (s if o is None else f.__get__(o, ow)), "methods": [mk_method(int)]})()
    for name, fo, co, opn in (("field", dict(deserializer=des), {}, "des"), ("legacy", {}, dict(deserializer=cdes), "cdes"),
                              ("class", {}, dict(class_deserializer=CD()), "CD")):
        for kw, dv in ((dict(default=5), 5), (dict(factory=lambda: 6), 6)):
            for al in ({}, dict(alias=["al"]), dict(rename="al")):
                c = ctx.cls("C", [F("x", int, opts={**fo, **al}, **kw)], **co)
                if not ctx.ok(c, "decorate", kind=name):
                    continue
                del seen[:]
                y = ctx.from_dict(c, {})
                if ctx.ok(y, "custom-absent", kind=name):
                    ctx.eq(y.x, dv, "custom-absent", kind=name)
                    ctx.check(not seen, "custom-absent", "the deserializer is called for a default", kind=name)
                for k in (["al"] if "rename" in al else ["x", "al"] if al else ["x"]):
                    for w in (var("w", int), 0):
                        y = ctx.from_dict(c, {k: w})
                        if ctx.ok(y, "custom-present", kind=name):
                            ctx.eq(y.x, AV(opn, (w,), int), "custom-present", kind=name)


def nested(ctx):
    """Defaults at depth, in containers, optionals, unions, inherited and generic classes, per object."""
    n = []

    def fac():
        n.append(0)
        return [len(n)]

    TV = typing.TypeVar("TV")
    leaf = ctx.cls("Leaf", [F("a", int), F("l", list[int], factory=fac), F("o", typing.Optional[int]), F("d", str, default="d")]
                   if False else [F("a", int), F("o", typing.Optional[int], dc=dict(kw_only=True)), F("l", list[int], factory=fac),
                                  F("d", str, default="d")])
    sub = ctx.cls("Sub", [F("e", list[int], factory=fac)], bases=(leaf,))
    gen = ctx.cls("Gen", [F("a", int), F("v", typing.Optional[TV], default=None), F("l", list[int], factory=fac)],
                  bases=(typing.Generic[TV],))
    oth = ctx.cls("Oth", [F("zz", int)])
    top = ctx.cls("Top", [F("x", leaf), F("xs", list[leaf]), F("m", dict[str, sub]), F("oo", typing.Optional[leaf]),
                          F("u", typing.Union[oth, leaf]), F("g", gen[str]), F("t", tuple[leaf, ...]),
                          F("fl", sub, opts=dict(flatten=True))])
    for k in (leaf, sub, gen, oth, top):
        if not ctx.ok(k, "decorate"):
            return
    w = lambda: {"a": 1}
    data = {"x": w(), "xs": [w(), w()], "m": {"k": w()}, "oo": w(), "u": {"Leaf": w()}, "g": w(), "t": [w(), w()], "a": 1}
    del n[:]
    y = ctx.from_dict(top, data)
    if ctx.ok(y, "nested"):
        leaves = [y.x, *y.xs, y.m["k"], y.oo, y.u, y.g, *y.t, y.fl]
        for o in leaves:
            ctx.check(o.a == 1 and (o.v is None if type(o) is gen else (o.o is None and o.d == "d")), "nested",
                      "a default is wrong at depth", actual=o)
        lists = [o.l for o in leaves] + [o.e for o in leaves if type(o) is sub]
        ctx.check(len({id(l) for l in lists}) == len(lists) == len(n), "nested-fresh",
                  "factory values are shared or made more than once", values=lists, calls=len(n))
    for tpe, d in ((list[leaf], [w(), w()]), (dict[str, leaf], {"k": w(), "l": w()}), (tuple[leaf, leaf], [w(), w()])):
        del n[:]
        y = ctx.from_dict(tpe, d)
        if ctx.ok(y, "nested-top"):
            os_ = list(y.values()) if isinstance(y, dict) else list(y)
            ctx.check(len(n) == 2 and os_[0].l is not os_[1].l, "nested-fresh", actual=y)


def order(ctx):
    """Factories with effects are run in field order, one per absent field."""
    log = []
    mk = lambda name: (lambda: (log.append(name), [name])[1])
    c = ctx.cls("C", [F(n, list[str], factory=mk(n)) for n in "abcd"])
    if not ctx.ok(c, "decorate"):
        return
    for mask in itertools.product((0, 1), repeat=4):
        del log[:]
        data = {n: ["in"] for n, m in zip("abcd", mask) if m}
        y = ctx.from_dict(c, data)
        if ctx.ok(y, "order"):
            ctx.check(sorted(log) == [n for n, m in zip("abcd", mask) if not m], "order", "wrong factories called", calls=list(log))
            ctx.check(all(getattr(y, n) == (["in"] if m else [n]) for n, m in zip("abcd", mask)), "order", actual=y)


def falsy_defaults(ctx):
    """Falsy defaults and None defaults are defaults too."""
    for t, d, w in ((int, 0, 5), (str, "", "x"), (bool, False, True), (typing.Optional[int], None, 5), (tuple[int, ...], (), [1]),
                    (typing.Any, None, 5), (float, 0.0, 1.5)):
        for fo in ({}, dict(alias=["al"]), dict(rename="R")):
            c = ctx.cls("C", [F("x", t, default=d, opts=fo)])
            if not ctx.ok(c, "decorate"):
                continue
            y = ctx.from_dict(c, {})
            if ctx.ok(y, "falsy-default", type=t):
                ctx.eq(y.x, d, "falsy-default", type=t)
            y = ctx.from_dict(c, {"R" if "rename" in fo else "x": w})
            if ctx.ok(y, "falsy-default", type=t):
                ctx.eq(y, ctx.make(c, tuple(w) if isinstance(w, list) else w), "falsy-default", type=t)


def flat_optional(ctx):
    """A flattened field with a default gets it exactly when none of its keys is present."""
    i = ctx.cls("I", [F("p", int, default=1), F("q", int, default=2, opts=dict(alias=["qq"]))])
    for kw, dv in ((dict(factory=lambda: ctx.make(i, 7, 8)), lambda: ctx.make(i, 7, 8)), (dict(default=None), lambda: None)):
        t = typing.Optional[i] if "default" in kw else i
        c = ctx.cls("C", [F("a", int), F("i", t, opts=dict(flatten=True), **kw)])
        if not ctx.ok(c, "decorate"):
            continue
        for keys in itertools.product((0, 1), repeat=3):
            d = {k: 50 + n for n, (k, m) in enumerate(zip(("p", "q", "qq"), keys)) if m}
            y = ctx.from_dict(c, {"a": 0, **d})
            want = dv() if not d else ctx.make(i, d.get("p", 1), d.get("q", d.get("qq", 2)))
            if ctx.ok(y, "flat", data=d):
                ctx.eq(y.i, want, "flat", data=d)


def scenarios(tier):
    out = []
    ks = kinds()
    for kn, sh in ks.items():
        for mode in ("default", "factory", "none", "optional", "opt-default"):
            if mode in ("none", "optional", "opt-default") and (optional_like(sh) or kn == "any"):
                continue
            for variant in ("plain", "alias", "rename", "kw", "disabled", "coerce", "deny", "skipflags"):
                if mode == "optional" and variant != "kw":
                    # a field without default may precede defaulted ones only
                    pass
                if tier == "quick" and variant in ("kw", "deny", "disabled") and kn not in ("int", "list", "class", "union", "path"):
                    continue
                if variant == "coerce" and kn in ("int", "str", "float", "newtype") and False:
                    continue
                out.append(Scenario(f"{kn}:{mode}:{variant}", build(kn, sh, mode, variant)))
    for k in FALSY:
        out.append(Scenario(f"falsy:{k}", falsy(k)))
    out += [Scenario("custom", custom), Scenario("nested", nested), Scenario("order", order),
            Scenario("falsy-defaults", falsy_defaults), Scenario("flat-optional", flat_optional)]
    return out
