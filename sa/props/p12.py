"""P12: malformed input gives SerdeError; user exceptions surface unchanged."""
import copy
from ..harness import F, Scenario, Exc
from ..positions import POSITIONS, HASH_POSITIONS
from ..shapes import *
from ..values import Foreign
from .p07 import kinds, pick
from .p10 import wire

RULES = ["from_dict/from_tuple of data of a wrong shape or kind either returns an instance of the class or raises SerdeError",
         "every one-node corruption of valid data (wrong kind, None, missing/extra entry, shorter/longer sequence) at every position",
         "an exception raised while user code constructs an object leaves from_dict/from_tuple as the same object with the same cause",
         "inside a union variant such an exception is reported in a SerdeError; the internal wrapper never escapes"]
EXPLANATION = ("Abstract interpretation of from_dict/from_tuple on every single-node corruption of valid input, for field kinds x "
               "positions x type-check modes x reuse; conversions of opaque values fork into success and each exception they may "
               "raise.  User exceptions are identity-tracked objects raised by constructors at every position.")


def bad():
    n = ""
    return [None, True, var("bi" + n, int), var("bf" + n, float), var("bs" + n, str), var("bb" + n, bytes), var("bx" + n, Foreign),
            [], [var("bs" + n, str)], [None], [[1]], {}, {"zz": var("bs" + n, str)}, {1: None}, (), (1, 2, 3, 4, 5), {1, 2},
            "", "x", 0]


def corrupt(w, path=(), few=False):
    """Every one-node corruption of the tree w."""
    for i, b in enumerate(bad()):
        if not few or i in (0, 2, 4, 6, 8, 12):
            yield path, b
    if isinstance(w, dict):
        for k in list(w):
            d = {a: b for a, b in w.items() if a != k}
            yield path + ("-" + str(k),), d
            for p, x in corrupt(w[k], path + (k,), few):
                yield p, {a: (x if a == k else b) for a, b in w.items()}
        yield path + ("+",), {**w, "zz": 1}
        yield path + ("+k",), {**w, 5: None}
    elif isinstance(w, (list, tuple)):
        mk = type(w)
        for i in range(len(w)):
            for p, x in corrupt(w[i], path + (i,), few):
                yield p, mk([*w[:i], x, *w[i + 1:]])
        if w:
            yield path + ("short",), mk(w[:-1])
        yield path + ("long",), mk([*w, None])
        yield path + ("set",), {i: x for i, x in enumerate(w)}


def outcome(ctx, r, cls, rule, **detail):
    if isinstance(r, Exc):
        return ctx.check(type(r.e) is ctx.SerdeError, rule, "an exception other than SerdeError escapes", result=r, **detail)
    if isinstance(cls, type) and dataclasses.is_dataclass(cls):
        return ctx.check(type(resolve(r)) is cls, rule, "something other than an instance comes out", result=r, **detail)
    return ctx.check(not isinstance(resolve(r), BaseException), rule, "an exception object comes out", result=r, **detail)


def feed(ctx, t, data, rule, kw, positional=False):
    def run():
        y = (ctx.from_tuple if positional else ctx.from_dict)(t, data, **kw)
        outcome(ctx, y, t, rule, type=t, data=data, kw=kw)

    ctx.isolated(run)


MODES = {"strict": {}, "disabled": "core.disabled", "coerce": "core.coerce"}


def mode(ctx, m):
    return {} if m == "strict" else dict(type_check=ctx.get("core." + m))


def field(kn, sh, m):
    def run(ctx):
        c = ctx.cls("C", [F("a", str), F("x", sh.t(ctx)), F("z", int, default=3)], **mode(ctx, m))
        if not ctx.ok(c, "decorate"):
            return
        v = pick(ctx, sh, "v")
        w = wire(sh, ctx, v)
        x = ctx.make(c, "a", v)
        wt = ctx.to_tuple(x) if not isinstance(x, Exc) else Exc(None, [])
        for kw in ({}, dict(reuse_instances=False)):
            for p, d in corrupt({"a": "a", "x": w, "z": 1}, few=bool(kw)):
                feed(ctx, c, d, "field", kw)
            if not isinstance(wt, Exc):
                for p, d in corrupt(wt, few=bool(kw)):
                    feed(ctx, c, d, "field-tuple", kw, True)
        for p, d in corrupt(w):
            feed(ctx, sh.t(ctx), d, "top", {})
            feed(ctx, sh.t(ctx), d, "top-tuple", {}, True)

    return run


def position(pn, build, t, m):
    def run(ctx):
        p = build(ctx, t(ctx) if callable(t) and not isinstance(t, type) else t, **mode(ctx, m))
        if not ctx.ok(p.type, "decorate"):
            return
        leaf = {"need": 1, "opt": 2} if callable(t) and not isinstance(t, type) else {int: 1, str: "s"}[t]
        d0 = p.data(leaf)
        for _, d in corrupt(d0):
            feed(ctx, p.type, d, "position", {})
        for _, d in corrupt(d0, few=True):
            feed(ctx, p.type, d, "position", dict(reuse_instances=False))
            feed(ctx, p.type, d, "position-tuple", {}, True)
        x = ctx.from_dict(p.type, d0)
        if not isinstance(x, Exc):
            wt = ctx.to_tuple(x)
            if not isinstance(wt, Exc):
                for _, d in corrupt(wt, few=True):
                    feed(ctx, p.type, d, "position-tuple", {}, True)
        if p.top is not None:
            for _, d in corrupt(p.top[1](leaf)):
                feed(ctx, p.top[0], d, "position-top", {})

    return run


def leaf(ctx):
    return ctx.cls("Leaf", [F("need", int), F("opt", int, default=1)])


def options(ctx):
    """Classes with every option that adds generated code."""
    E = ctx.get("core.AdjacentTagging")
    i = ctx.cls("I", [F("p", int), F("q", typing.Optional[str])])
    fx = dict(flatten=True)
    cs = [
        (ctx.cls("A", [F("a", int), F("b", i)], deny_unknown_fields=True), {"a": 1, "b": {"p": 1, "q": None}}),
        (ctx.cls("B", [F("a", int), F("b", i, opts=fx)]), {"a": 1, "p": 1, "q": "x"}),
        (ctx.cls("D", [F("a", int), F("b", i, opts=fx)], deny_unknown_fields=True), {"a": 1, "p": 1, "q": "x"}),
        (ctx.cls("E", [F("a", int), F("b", dict, opts=fx)]), {"a": 1, "p": 1, "q": "x"}),
        (ctx.cls("G", [F("a", int), F("b", typing.Optional[i], opts=fx)]), {"a": 1, "p": 1, "q": "x"}),
        (ctx.cls("H", [F("a", int, opts=dict(alias=["b", "c"]))]), {"b": 1}),
        (ctx.cls("J", [F("a", i)], transparent=True), {"p": 1, "q": "x"}),
        (ctx.cls("K", [F("u", typing.Union[int, i, list[str]])], tagging=ctx.get("core.Untagged")), {"u": {"p": 1, "q": "x"}}),
        (ctx.cls("L", [F("u", typing.Union[int, i, list[str]])], tagging=ctx.call(E, "t", "c")), {"u": {"t": "I", "c": {"p": 1, "q": "x"}}}),
        (ctx.cls("M", [F("u", typing.Union[int, i, list[str]])], tagging=ctx.call(ctx.get("core.InternalTagging"), "t")),
         {"u": {"t": "I", "p": 1, "q": "x"}}),
        (ctx.cls("N", [F("u", typing.Union[int, i, list[str]])]), {"u": {"I": {"p": 1, "q": "x"}}}),
        (ctx.cls("O", []), {}), (ctx.cls("P", [F("x", int, default=1)]), {"x": 1}),
        (ctx.cls("Q", [F("x", typing.Optional[int])]), {"x": 1}),
        (ctx.cls("R", [F("x", dict[int, str]), F("y", dict[Lvl, float]), F("z", Counter[int])]),
         {"x": {"1": "a"}, "y": {1: 1.5}, "z": {"3": 1}}),
        (ctx.cls("S", [F("x", set[int]), F("y", frozenset[str]), F("z", set[tuple[int, int]])]),
         {"x": [1], "y": ["a"], "z": [[1, 2]]}),
        (ctx.cls("T", [F("x", defaultdict[str, list[int]]), F("y", typing.Literal["a", 1])]), {"x": {"k": [1]}, "y": "a"}),
        (ctx.cls("U", [F("x", typing.Any), F("y", list), F("z", dict), F("s", set), F("t", tuple)]),
         {"x": 1, "y": [1], "z": {"a": 1}, "s": [1], "t": [1]}),
        (ctx.cls("V", [F("x", int)], rename_all="camelcase", reuse_instances_default=False), {"x": 1}),
    ]
    for c, d0 in cs:
        if not ctx.ok(c, "decorate"):
            continue
        for _, d in corrupt(d0):
            feed(ctx, c, d, "options", {})
        for _, d in corrupt(d0, few=True):
            feed(ctx, list[c], [d], "options-list", {})
            feed(ctx, typing.Union[c, int], {c.__name__: d}, "options-union", {})
        x = ctx.from_dict(c, d0)
        if ctx.ok(x, "options-valid", data=d0):
            wt = ctx.to_tuple(x)
            if ctx.ok(wt, "options-valid"):
                for _, d in corrupt(wt):
                    feed(ctx, c, d, "options-tuple", {}, True)


def undecorated(ctx):
    """Plain dataclasses, also nested, and other supported classes given as the type."""
    p = ctx.rawcls("P", [F("x", int)])
    p = dataclasses.dataclass(p)
    q = dataclasses.dataclass(ctx.rawcls("Q", [F("p", p), F("l", list[p])]))
    for c, d0 in ((p, {"x": 1}), (q, {"p": {"x": 1}, "l": [{"x": 1}]})):
        for _, d in corrupt(d0):
            feed(ctx, c, d, "undecorated", {})
            feed(ctx, c, d, "undecorated", {}, True)


def deserialize_numbers(ctx):
    def num(v):
        if isinstance(v, float):
            return v
        raise ValueError("no number")

    c = ctx.cls("C", [F("x", float), F("l", list[float]), F("d", dict[str, float])])
    if not ctx.ok(c, "decorate"):
        return
    for _, d in corrupt({"x": 1.5, "l": [1.5], "d": {"k": 1.5}}):
        feed(ctx, c, d, "numbers", dict(deserialize_numbers=num))


class Custom(Exception):
    pass


def excs(ctx):
    class Sub(ctx.SerdeError):
        pass

    es = [ValueError("boom"), KeyError("boom"), TypeError("boom"), AttributeError("boom"), IndexError("boom"), Custom("boom"),
          StopIteration("boom"), RuntimeError("boom"), ctx.SerdeError("boom"), Sub("boom"), AssertionError("boom"),
          ctx.get("compat.SerdeSkip")("boom")]
    es[1].__cause__ = OSError("cause")
    return es


def raiser(ctx, how, **opts):
    """A class whose construction raises what box holds."""
    box = []

    def post(self):
        if box:
            raise box[0]

    if how == "post":
        c = ctx.cls("Leaf", [F("need", int)], ns={"__post_init__": post}, **opts)
    elif how == "init":
        def init(self, need):
            post(self)
            self.need = need

        c = ctx.cls("Leaf", [F("need", int)], ns={"__init__": init}, dc=dict(init=False), **opts)
    elif how == "kw":
        c = ctx.cls("Leaf", [F("need", int, dc=dict(kw_only=True))], ns={"__post_init__": post}, **opts)
    elif how == "transparent":
        c = ctx.cls("Leaf", [F("need", int)], ns={"__post_init__": post}, transparent=True, **opts)
    elif how == "undecorated":
        c = dataclasses.dataclass(ctx.rawcls("Leaf", [F("need", int)], ns={"__post_init__": post}))
    elif how == "base":
        b = ctx.cls("Base", [F("need", int)], ns={"__post_init__": post}, **opts)
        c = ctx.cls("Leaf", [F("more", int, default=1)], bases=(b,), **opts)
    return c, box


def user(pn, build, how):
    union = pn.startswith("union")

    def run(ctx):
        c, box = raiser(ctx, how)
        if not ctx.ok(c, "decorate"):
            return
        p = build(ctx, c)
        if not ctx.ok(p.type, "decorate"):
            return
        mk = lambda: c(need=1)
        x = p.value(mk())
        if not ctx.ok(x, "make"):
            return
        jobs = [(p.type, ctx.from_dict, ctx.to_dict(x)), (p.type, ctx.from_tuple, ctx.to_tuple(x))]
        if p.top is not None:
            xt = p.top[2](mk())
            jobs.append((p.top[0], ctx.from_dict, ctx.to_dict(xt, c=p.top[0])))
            jobs.append((p.top[0], ctx.from_tuple, ctx.to_tuple(xt, c=p.top[0])))
        for t, f, d in jobs:
            if not ctx.ok(d, "serialize"):
                continue
            del box[:]
            y = f(t, d)
            if not ctx.ok(y, "valid", data=d):
                continue
            for e in excs(ctx):
                cause = e.__cause__
                box[:] = [e]
                y = f(t, d)
                box[:] = []
                if union:
                    ctx.check(ctx.is_serde_error(y) , "user-union", "an error in a union variant is not a SerdeError", result=y)
                    continue
                if ctx.check(isinstance(y, Exc) and y.e is e, "user", "the user's exception does not surface as it is", result=y, raised=e,
                             data=d, type=t):
                    ctx.check(e.__cause__ is cause, "user-cause", "the cause of the user's exception was changed", e=e, cause=e.__cause__)

    return run


def user_formats(ctx):
    for how in ("post", "transparent"):
        c, box = raiser(ctx, how)
        w = ctx.cls("W", [F("l", list[c]), F("o", typing.Optional[c])])
        if not ctx.ok(w, "decorate"):
            return
        d = 1 if how == "transparent" else {"need": 1}
        for f, mod in (("from_json", "json"), ("from_yaml", "yaml"), ("from_toml", "toml"), ("from_msgpack", "msgpack"), ("from_pickle", "pickle")):
            fn = ctx.get(f"{mod}.{f}")
            for t, dd in ((c, d), (w, {"l": [d], "o": None}), (w, {"l": [], "o": d}), (list[c], [d]), (dict[str, c], {"k": d}), (typing.Optional[c], d)):
                for e in excs(ctx)[:6]:
                    box[:] = [e]
                    de = type("De", (), {"deserialize": classmethod(lambda cls, data, _d=dd, **k: _d)})
                    y = ctx.call(fn, t, var("doc", str), de=de)
                    box[:] = []
                    ctx.check(isinstance(y, Exc) and y.e is e, "user-format", "the user's exception does not surface as it is", result=y, format=mod, type=t)


def direct_user(ctx):
    """Beside objects that fail to construct, objects that construct are built as ever; the first error wins."""
    a, ab = raiser(ctx, "post")
    w = ctx.cls("W", [F("x", a), F("y", list[a]), F("z", int)])
    if not ctx.ok(w, "decorate"):
        return
    e = KeyError("k")
    ab[:] = [e]
    for d in ({"x": {"need": 1}}, {"x": {"need": 1}, "y": [], "z": 1}, {"x": {"need": 1}, "y": 4}):
        y = ctx.from_dict(w, d)
        ctx.check(isinstance(y, Exc) and y.e is e, "user-first", "the user's exception does not surface as it is", result=y)
    y = ctx.from_dict(w, {"x": {}, "y": [], "z": 1})
    ctx.check(ctx.is_serde_error(y), "user-first", "malformed data before construction is a SerdeError", result=y)


def scenarios(tier):
    out = []
    for kn, sh in kinds().items():
        for m in MODES:
            out.append(Scenario(f"{kn}:{m}", field(kn, sh, m), budget=20000))
    for pn, b in {**POSITIONS, **HASH_POSITIONS}.items():
        h = pn in HASH_POSITIONS
        for m in MODES if tier == "thorough" else ("strict", "disabled"):
            for tn, t in (("int", int), ("str", str)) + (() if h else (("class", leaf),)):
                if pn == "flatten2" and tn != "class" and tier == "quick" and m == "disabled":
                    continue
                out.append(Scenario(f"at:{pn}:{tn}:{m}", position(pn, b, t, m), budget=20000))
    for pn, b in POSITIONS.items():
        for how in ("post", "init", "kw", "transparent", "undecorated", "base"):
            if pn == "default" and False:
                continue
            out.append(Scenario(f"user:{pn}:{how}", user(pn, b, how)))
    out += [Scenario(n, f, budget=20000) for n, f in (("options", options), ("undecorated", undecorated), ("numbers", deserialize_numbers),
            ("user-formats", user_formats), ("user-first", direct_user))]
    return out
