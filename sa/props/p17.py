"""P17: custom serializers take effect wherever they apply, in the documented order."""
import copy
import ipaddress
import itertools
from ..harness import F, Scenario, Exc
from ..shapes import *
from ..positions import POSITIONS, HASH_POSITIONS
from ..values import var, AV, Foreign

RULES = ["field-level before class-level before global before legacy class-level before built-in",
         "class-level and global functions apply at every position of their type, and to no other type",
         "each conversion calls the function exactly once with the value at that position",
         "SerdeSkip falls back to the built-in behaviour, any other exception does not",
         "a later registered global function replaces an earlier one for the same type"]
EXPLANATION = ("Abstract interpretation with recording, opaque custom functions (their results are terms naming the function and its "
               "argument) over kinds of customisation x positions x value types x APIs, and over the precedence matrix.")


class Foo3:
    """A type pyserde does not know."""

    def __eq__(self, o):
        return self is o

    __hash__ = object.__hash__


def types_(ctx):
    d = D.t(ctx)
    return {"datetime": datetime.datetime, "date": datetime.date, "int": int, "str": str, "float": float, "path": pathlib.Path,
            "ip": ipaddress.IPv4Address, "class": d, "enum": Color, "uuid": uuid.UUID, "foreign": Foo3, "decimal": decimal.Decimal}


def val(ctx, tn, t, n=""):
    if tn == "class":
        return ctx.make(t, 1, "s")
    if tn == "enum":
        return Color.BLUE
    if tn == "foreign":
        return Foo3()
    return var("v" + str(n), t)


class Log(list):
    pass


def methods(fn, kinds):
    """A function object as plum's dispatch makes them: `methods` with their signatures."""
    ms = [type("M", (), {"signature": type("S", (), {"types": k})}) for k in kinds]
    return type("Fn", (), {"__get__": lambda s, o, ow: (s if o is None else fn.__get__(o, ow)), "methods": ms})()


def new_style(log, tag, ts, skip=False):
    """(serializer object, deserializer object) for the given types."""
    class S:
        def serialize(self, v):
            log.append((tag, "se", v))
            return AV("ser", (tag, v), str)

    class De:
        def deserialize(self, cls, v):
            log.append((tag, "de", cls, v))
            return AV("deser", (tag, cls.__name__, v), cls)

    S.serialize = methods(S.serialize, [(object, t) for t in ts])
    De.deserialize = methods(De.deserialize, [(object, type[t], typing.Any) for t in ts])
    return S(), De()


def legacy(log, tag, ts, ctx):
    skip = ctx.get("compat.SerdeSkip")

    def se(cls, v):
        if cls not in ts:
            raise ctx.call(skip)
        log.append((tag, "se", v))
        return AV("ser", (tag, v), str)

    def de(cls, v):
        if cls not in ts:
            raise ctx.call(skip)
        log.append((tag, "de", cls, v))
        return AV("deser", (tag, cls.__name__, v), cls)

    return se, de


def setup(ctx, kind, log, ts, tag="c"):
    """Class options that install the customisation (global ones are registered)."""
    if kind == "class":
        s, d = new_style(log, tag, ts)
        return dict(class_serializer=s, class_deserializer=d)
    if kind == "legacy":
        s, d = legacy(log, tag, ts, ctx)
        return dict(serializer=s, deserializer=d)
    if kind == "global":
        s, d = new_style(log, tag, ts)
        ctx.call(ctx.get("core.add_serializer"), s)
        ctx.call(ctx.get("core.add_deserializer"), d)
        return {}
    return {}


def count(x, op="ser", seen=None):
    """The number of occurrences of the custom function's results in a value."""
    if isinstance(x, AV):
        return 1 if x.op == op else 0
    if isinstance(x, dict):
        return sum(count(k, op) + count(v, op) for k, v in x.items())
    if isinstance(x, (list, tuple, set, frozenset, deque)):
        return sum(count(v, op) for v in x)
    if dataclasses.is_dataclass(x) and not isinstance(x, type):
        return sum(count(getattr(x, f.name), op) for f in dataclasses.fields(x))
    return 0


def listed(x):
    """Tuples as lists: whether a sequence is written as one or the other is not a matter of this property."""
    if isinstance(x, dict):
        return {k: listed(v) for k, v in x.items()}
    return [listed(v) for v in x] if isinstance(x, (list, tuple, set, frozenset)) else x


def position(kind, pn, tn, build):
    def run(ctx):
        t = types_(ctx)[tn]
        log = Log()
        opts = setup(ctx, kind, log, [t])
        if tn == "foreign":
            opts = {**opts, "type_check": ctx.get("core.disabled")} if False else opts
        pos = build(ctx, t, **opts)
        if not ctx.ok(pos.type, "decorate", kind=kind):
            return
        v = val(ctx, tn, t)
        x = pos.value(v)
        if isinstance(x, Exc):
            return ctx.ok(x, "make")
        ser = AV("ser", ("c", v), str)
        des = AV("deser", ("c", t.__name__, ser), t)
        for api in ("dict", "tuple"):
            to, fr = (ctx.to_dict, ctx.from_dict) if api == "dict" else (ctx.to_tuple, ctx.from_tuple)
            for call in ({}, dict(reuse_instances=True), dict(reuse_instances=False, convert_sets=True, skip_none=True)):
                del log[:]
                d = to(x, **call)
                if not ctx.ok(d, "write", api=api):
                    continue
                if api == "dict" and pn != "alias-key" and not call.get("convert_sets") and not call.get("reuse_instances"):
                    ctx.eq(listed(d), listed(pos.data(ser)), "write", "the function is not applied at the position", api=api)
                n = count(d)
                ctx.check(n > 0 and all(e[0] == "c" for e in log), "write", "the function is not applied", data=d, api=api)
                ctx.check(all(e[2] is v or same(e[2], v) for e in log), "write-arg", "the function got another value", log=list(log))
                ctx.check(len(log) == n, "write-once", "the function is not called exactly once per position", calls=len(log), positions=n, data=d)
            d = to(x, reuse_instances=False, convert_sets=False)
            if isinstance(d, Exc):
                continue
            for call in ({}, dict(reuse_instances=True), dict(deserialize_numbers=float)):
                del log[:]
                y = fr(pos.type, d, **call)
                if not ctx.ok(y, "read", api=api, data=d, call=call):
                    continue
                ctx.eq(y, pos.value(des), "read", "the function is not applied at the position", api=api, data=d)
                n = count(y, "deser")
                ctx.check(len(log) == n, "read-once", "the function is not called exactly once per position", calls=len(log), positions=n, data=d)
        if kind == "global" and pos.top:
            tt, data, value = pos.top
            d = ctx.to_dict(value(v), c=tt)
            if ctx.ok(d, "top-write", type=tt):
                ctx.eq(listed(d), listed(data(ser)), "top-write", type=tt)
                y = ctx.from_dict(tt, d)
                if ctx.ok(y, "top-read", type=tt, data=d):
                    ctx.eq(y, value(des), "top-read", type=tt)

    return run


def only(kind):
    """Values of other types, also related ones, are not touched."""

    def run(ctx):
        d = D.t(ctx)
        sub = ctx.cls("SubD", [F("extra", int, default=0)], bases=(d,))
        for t, others in ((datetime.date, [(datetime.datetime, var("dt", datetime.datetime)), (datetime.time, var("tm", datetime.time))]),
                          (int, [(bool, True), (float, var("f", float)), (IntSub, IntSub(3)), (Num, Num.ONE if hasattr(Num, "ONE") else list(Num)[0]),
                                 (str, var("s", str))]),
                          (str, [(StrSub, StrSub("x")), (pathlib.Path, var("p", pathlib.Path)), (int, var("i", int))]),
                          (d, [(sub, ctx.make(sub, 1, "s", 3))]), (Color, [(Num, list(Num)[0]), (str, var("s", str))])):
            plain_log, log = Log(), Log()
            for ot, ov in others:
                for wrap, wv in ((lambda q: q, lambda q: q), (lambda q: list[q], lambda q: [q]), (lambda q: typing.Optional[q], lambda q: q),
                                 (lambda q, K=(int if t is str else str): dict[K, q], lambda q, K=(1 if t is str else "k"): {K: q}), (lambda q: tuple[q, ...], lambda q: (q,))):
                    p = ctx.cls("P", [F("x", wrap(ot))])
                    del log[:]
                    opts = {} if kind == "global" else setup(ctx, kind, log, [t])
                    c = ctx.cls("C", [F("x", wrap(ot))], **opts)
                    if not (ctx.ok(p, "decorate") and ctx.ok(c, "decorate")):
                        continue
                    a, b = ctx.to_dict(ctx.make(p, wv(ov))), ctx.to_dict(ctx.make(c, wv(ov)))
                    if ctx.ok(b, "only"):
                        ctx.eq(b, a, "only", "a function for another type is applied", type=ot)
                        ya, yb = ctx.from_dict(p, a), ctx.from_dict(c, a)
                        if not isinstance(ya, Exc) and ctx.ok(yb, "only"):
                            ctx.eq(yb.x, ya.x, "only", type=ot)
                    ctx.check(not log, "only", "a function for another type is called", log=list(log), type=ot)

    return run


def precedence(fk, dk, ck, gk, lk, wrap):
    """fk field serializer (no / own / default), ck class, gk number of globals, lk legacy (no / yes / skip)."""
    W = {"field": (lambda q: q, lambda q: q), "opt": (lambda q: typing.Optional[q], lambda q: q), "list": (lambda q: list[q], lambda q: [q]),
         "dict": (lambda q: dict[str, q], lambda q: {"k": q}), "union": (lambda q: typing.Union[q, bool], lambda q: q),
         "vtuple": (lambda q: tuple[q, ...], lambda q: (q,))}[wrap]

    def run(ctx):
        log = Log()
        t = datetime.date
        for i in range(gk):
            setup(ctx, "global", log, [t], f"g{i}")
        opts = {}
        if ck:
            opts.update(setup(ctx, "class", log, [t], "c"))
        if lk:
            opts.update(setup(ctx, "legacy", log, [t] if lk == "yes" else [bytes], "l"))
        fo = {}
        if fk == "own":
            fo["serializer"] = lambda v: AV("fser", (v,), str)
        elif fk == "default":
            fo["serializer"] = ctx.get("se.default_serializer")
        if dk == "own":
            fo["deserializer"] = lambda v: AV("fdes", (v,), W[0](t) if wrap in ("field", "opt", "union") else None)
        elif dk == "default":
            fo["deserializer"] = ctx.get("de.default_deserializer")
        c = ctx.cls("C", [F("x", W[0](t), opts=fo), F("y", W[0](t))], type_check=ctx.get("core.disabled"), **opts)
        if not ctx.ok(c, "decorate"):
            return
        v, u = var("v", t), var("u", t)
        x = ctx.make(c, W[1](v), W[1](u))
        win = "c" if ck else f"g{gk - 1}" if gk else "l" if lk == "yes" else None

        def out(v):
            return AV("ser", (win, v), str) if win else ctx.call(getattr(v, "isoformat") if False else (lambda q: q), v)

        p = ctx.cls("Pl", [F("x", W[0](t))])
        iso = None
        d = ctx.to_dict(x, reuse_instances=False)
        if not ctx.ok(d, "precedence"):
            return
        plain = ctx.cls("Q", [F("x", t, opts=dict(serializer=ctx.get("se.default_serializer")))], type_check=ctx.get("core.disabled"))
        builtin = lambda q: ctx.to_dict(ctx.make(plain, q), reuse_instances=False)["x"]
        ex = AV("fser", (W[1](v),), str) if fk == "own" else W[1](builtin(v)) if fk == "default" else W[1](AV("ser", (win, v), str) if win else builtin(v))
        ey = W[1](AV("ser", (win, u), str) if win else builtin(u))
        ctx.eq(d["x"], ex, "precedence-write", fk=fk, win=win)
        ctx.eq(d["y"], ey, "precedence-write", fk=fk, win=win)
        raw = var("raw", str) if (win or dk == "own") else datetime.date(2020, 1, 2).isoformat()
        dd = {"x": W[1](raw if dk != "default" else "2020-01-02"), "y": W[1](raw if win else "2020-01-02")}
        y = ctx.from_dict(c, dd, reuse_instances=False)
        if not ctx.ok(y, "precedence-read", data=dd):
            return
        cd = AV("deser", (win, "date", raw), t) if win else datetime.date(2020, 1, 2)
        if dk == "own":
            ctx.check(isinstance(y.x, AV) and y.x.op == "fdes" and same(y.x.args[0], W[1](raw)), "precedence-read", result=y.x)
        elif dk == "default":
            ctx.eq(y.x, W[1](datetime.date(2020, 1, 2)), "precedence-read")
        else:
            ctx.eq(y.x, W[1](cd), "precedence-read", win=win)
        ctx.eq(y.y, W[1](cd), "precedence-read", win=win)

    return run


def skip_and_raise(ctx):
    """SerdeSkip means the built-in behaviour; other exceptions are not swallowed."""
    skip = ctx.get("compat.SerdeSkip")

    class Boom(Exception):
        pass

    for how in ("skip", "raise"):
        def se(cls, v):
            raise (ctx.call(skip) if how == "skip" else Boom("b"))

        for t, v, w in ((int, var("v", int), var("v", int)), (datetime.date, datetime.date(2020, 1, 2), "2020-01-02"), (list[int], [1, 2], [1, 2]),
                        (typing.Optional[str], "a", "a"), (D.t(ctx), ctx.make(D.t(ctx), 1, "s"), None), (Color, Color.RED, Color.RED.value),
                        (dict[str, pathlib.Path], {"k": pathlib.Path("/x")}, {"k": "/x"}), (typing.Union[int, str], "q", "q"),
                        (typing.Union[D.t(ctx), int], ctx.make(D.t(ctx), 1, "s"), None), (tuple[int, datetime.date], (1, datetime.date(2020, 1, 2)), (1, "2020-01-02"))):
            c = ctx.cls("C", [F("x", t)], serializer=se, deserializer=se)
            p = ctx.cls("P", [F("x", t)])
            if not ctx.ok(c, "decorate"):
                continue
            for to, fr in ((ctx.to_dict, ctx.from_dict), (ctx.to_tuple, ctx.from_tuple)):
                a, b = to(ctx.make(c, v), reuse_instances=False), to(ctx.make(p, v), reuse_instances=False)
                if how == "skip":
                    if ctx.ok(a, "skip", type=t):
                        ctx.eq(a, b, "skip", type=t)
                else:
                    ctx.check(isinstance(a, Exc), "raise", "an exception of the function is swallowed", result=a)
                y = fr(c, b)
                if how == "skip":
                    if ctx.ok(y, "skip", type=t):
                        ctx.eq(y.x, v, "skip", type=t)
                else:
                    ctx.check(isinstance(y, Exc), "raise", "an exception of the function is swallowed", result=y)
        # field-level
        f = lambda v: se(None, v)
        c = ctx.cls("C", [F("x", int, opts=dict(serializer=f, deserializer=f))])
        if how == "raise":
            ctx.check(isinstance(ctx.to_dict(ctx.make(c, 1)), Exc), "raise")
            ctx.check(isinstance(ctx.from_dict(c, {"x": 1}), Exc), "raise")


def field_level(tn):
    """A field-level function gets the whole value of its field, whatever its type, exactly once."""

    def run(ctx):
        d = D.t(ctx)
        t, v = {"int": (int, var("v", int)), "none": (typing.Optional[int], None), "opt": (typing.Optional[int], var("v", int)),
                "list": (list[d], [ctx.make(d, 1, "s")]), "class": (d, ctx.make(d, 1, "s")), "union": (typing.Union[d, int], ctx.make(d, 1, "s")),
                "dict": (dict[str, int], {"a": 1}), "set": (set[int], {1}), "any": (typing.Any, "q"), "enum": (Color, Color.RED),
                "foreign": (Foo3, Foo3()), "tuple": (tuple[int, str], (1, "x")), "empty": (list[int], []), "falsy": (int, 0)}[tn]
        log = []

        def se(x):
            log.append(x)
            return AV("fser", (term(x),), str)

        def de(x):
            log.append(x)
            return AV("fdes", (term(x),), None)

        term = lambda x: x if isinstance(x, AV) else id(type(x))
        for only_se, only_de in ((True, True), (True, False), (False, True)):
            o = {}
            if only_se:
                o["serializer"] = se
            if only_de:
                o["deserializer"] = de
            for extra in ({}, dict(rename="R"), dict(alias=["al"])):
                if tn == "foreign" and not (only_se and only_de):
                    continue
                c = ctx.cls("C", [F("x", t, opts={**o, **extra}), F("z", int, default=0)], type_check=ctx.get("core.disabled"))
                if not ctx.ok(c, "decorate"):
                    continue
                key = extra.get("rename", "x")
                for call in ({}, dict(reuse_instances=True), dict(convert_sets=True, reuse_instances=False)):
                    del log[:]
                    r = ctx.to_dict(ctx.make(c, v), **call)
                    if only_se and ctx.ok(r, "field-write"):
                        ctx.check(len(log) == 1 and log[0] is v, "field-once", calls=len(log))
                        ctx.eq(r[key], AV("fser", (term(v),), str), "field-write")
                    del log[:]
                    r = ctx.to_tuple(ctx.make(c, v), **call)
                    if only_se and ctx.ok(r, "field-write-tuple"):
                        ctx.check(len(log) == 1 and log[0] is v, "field-once", calls=len(log))
                        ctx.eq(r[0], AV("fser", (term(v),), str), "field-write-tuple")
                if only_de:
                    for w in (var("w", str), None, 0, "", [], {"a": 1}):
                        for k in [key] + extra.get("alias", []):
                            del log[:]
                            y = ctx.from_dict(c, {k: w})
                            if ctx.ok(y, "field-read", data=w):
                                ctx.check(len(log) == 1 and log[0] is w, "field-once", calls=log, data=w)
                                ctx.check(isinstance(y.x, AV) and y.x.op == "fdes", "field-read", result=y.x)
                        del log[:]
                        y = ctx.from_tuple(c, (w, 1))
                        if ctx.ok(y, "field-read", data=w):
                            ctx.check(len(log) == 1 and log[0] is w, "field-once", calls=log, data=w)
                            ctx.check(isinstance(y.x, AV) and y.x.op == "fdes", "field-read", result=y.x)

    return run


def several(ctx):
    """Several functions, each for its type and its class only."""
    log = Log()
    s1, d1 = new_style(log, "one", [int, datetime.date])
    s2, d2 = new_style(log, "two", [str])
    g1, h1 = new_style(log, "glob", [str, float])
    g2, h2 = new_style(log, "glob2", [float, pathlib.Path])
    for s, d in ((g1, h1), (g2, h2)):
        ctx.call(ctx.get("core.add_serializer"), s)
        ctx.call(ctx.get("core.add_deserializer"), d)
    T = {"j": (int, var("i", int)), "d": (datetime.date, var("d", datetime.date)), "s": (str, var("s", str)), "g": (float, var("g", float)),
         "p": (pathlib.Path, var("p", pathlib.Path)), "b": (bool, True)}
    win = {"A": dict(j="one", d="one", s="glob", g="glob2", p="glob2"), "B": dict(s="two", g="glob2", p="glob2"), "N": dict(s="glob", g="glob2", p="glob2")}
    cl = {}
    fs = lambda: [F(n, t) for n, (t, _) in T.items()]
    ck = ctx.get("core.disabled")
    cl["A"] = ctx.cls("A", fs(), class_serializer=s1, class_deserializer=d1, type_check=ck)
    cl["B"] = ctx.cls("B", fs(), class_serializer=s2, class_deserializer=d2, type_check=ck)
    cl["N"] = ctx.cls("N", fs(), type_check=ck)
    outer = ctx.cls("O", [F("a", cl["A"]), F("b", list[cl["B"]]), F("n", typing.Optional[cl["N"]]), F("u", typing.Union[cl["A"], cl["B"]])],
                    class_serializer=s2, class_deserializer=d2, type_check=ck)
    if not ctx.ok(outer, "decorate"):
        return
    vals = {n: v for n, (_, v) in T.items()}
    ob = {k: ctx.make(c, **vals) for k, c in cl.items()}
    out = lambda k: {n: AV("ser", (win[k][n], v), str) if n in win[k] else (v if n in ("j", "b") else ctx.call(v.isoformat) if False else v) for n, v in vals.items()}
    for k in cl:
        r = ctx.to_dict(ob[k], reuse_instances=True)
        if ctx.ok(r, "several", cls=k):
            ctx.eq(r, out(k), "several", cls=k)
    x = ctx.make(outer, ob["A"], [ob["B"]], ob["N"], ob["B"])
    r = ctx.to_dict(x, reuse_instances=True)
    if ctx.ok(r, "several-nested"):
        ctx.eq(r, {"a": out("A"), "b": [out("B")], "n": out("N"), "u": {"B": out("B")}}, "several-nested")


def one_sided(ctx):
    """Only a serializer, or only a deserializer: the other direction is the built-in one."""
    t = datetime.date
    for kind in ("class", "legacy"):
        log = Log()
        o = setup(ctx, kind, log, [t])
        for part in (0, 1):
            opts = dict([list(o.items())[part]])
            for wrap, w in ((lambda q: q, lambda q: q), (lambda q: list[q], lambda q: [q]), (lambda q: typing.Optional[q], lambda q: q), (lambda q: typing.Union[int, q], lambda q: q)):
                c = ctx.cls("C", [F("x", wrap(t))], **opts)
                if not ctx.ok(c, "decorate"):
                    continue
                v = datetime.date(2020, 1, 2)
                r = ctx.to_dict(ctx.make(c, w(v)), reuse_instances=False)
                if ctx.ok(r, "one-sided"):
                    ctx.eq(r["x"], w(AV("ser", ("c", v), str)) if part == 0 else w("2020-01-02"), "one-sided", kind=kind)
                y = ctx.from_dict(c, {"x": w("2020-01-02")})
                if ctx.ok(y, "one-sided"):
                    ctx.eq(y.x, w(AV("deser", ("c", "date", "2020-01-02"), t)) if part == 1 else w(v), "one-sided", kind=kind)


def variants(kind):
    """Union variants of every kind of type, whose custom wire form is of another kind than the built-in one."""

    def run(ctx):
        ty = types_(ctx)
        for tn, t in ty.items():
            for ut, other in ((typing.Union[t, bool], "bool"), (typing.Union[bool, t], "bool"), (typing.Optional[typing.Union[t, bool]], "opt")):
                for w in ("s", 12, 1.5, ["l", 1], {"k": 1}):
                    log = Log()
                    got = []

                    class S:
                        def serialize(self, v):
                            got.append(v)
                            return copy.copy(w)

                    class De:
                        def deserialize(self, cls, x):
                            if not same(x, w):
                                raise ValueError("not mine")
                            got.append(x)
                            return AV("deser", ("c", cls.__name__, str(w)), cls)

                    S.serialize = methods(S.serialize, [(object, t)])
                    De.deserialize = methods(De.deserialize, [(object, type[t], typing.Any)])
                    if kind == "class":
                        opts = dict(class_serializer=S(), class_deserializer=De())
                    else:
                        opts = {}
                        ctx.call(ctx.get("core.add_serializer"), S())
                        ctx.call(ctx.get("core.add_deserializer"), De())
                    c = ctx.cls("C", [F("x", ut)], type_check=ctx.get("core.disabled"), **opts)
                    if not ctx.ok(c, "decorate"):
                        continue
                    v = val(ctx, tn, t)
                    tag = isinstance(v, AV) is False and dataclasses.is_dataclass(v)
                    e = {"D": w} if tag else w
                    d = ctx.to_dict(ctx.make(c, v))
                    if ctx.ok(d, "variant-write", type=t):
                        ctx.eq(d, {"x": e}, "variant-write", type=t)
                    y = ctx.from_dict(c, {"x": e})
                    if ctx.ok(y, "variant-read", type=t, data=e):
                        ctx.check(isinstance(y.x, AV) and y.x.op == "deser", "variant-read", "the function is not applied to the variant", type=t, data=e, result=y.x)

    return run


def last_wins(ctx):
    """The last of several global functions for a type is used, in fields and at top level."""
    for tn, t in types_(ctx).items():
        log = Log()
        for i in range(3):
            setup(ctx, "global", log, [t], f"{tn}{i}")
        v = val(ctx, tn, t)
        win = f"{tn}2"
        ser, des = AV("ser", (win, v), str), AV("deser", (win, t.__name__, var("w", str)), t)
        c = ctx.cls("C", [F("x", t)], type_check=ctx.get("core.disabled"))
        for ty, put in ((t, lambda q: q), (list[t], lambda q: [q]), (typing.Optional[t], lambda q: q)):
            for to, fr in ((ctx.to_dict, ctx.from_dict), (ctx.to_tuple, ctx.from_tuple)):
                d = to(put(v), c=ty)
                if ctx.ok(d, "last-write", type=ty):
                    ctx.eq(d, put(ser), "last-write", type=ty)
                y = fr(ty, put(var("w", str)))
                if t is not str and ctx.ok(y, "last-read", type=ty):
                    ctx.eq(y, put(des), "last-read", type=ty)
        if ctx.ok(c, "decorate"):
            d = ctx.to_dict(ctx.make(c, v))
            if ctx.ok(d, "last-write"):
                ctx.eq(d, {"x": ser}, "last-write")
            y = ctx.from_dict(c, {"x": var("w", str)})
            if ctx.ok(y, "last-read"):
                ctx.eq(y.x, des, "last-read")


def scenarios(tier):
    out = []
    tns = ["datetime", "int", "path", "class", "foreign"] if tier == "quick" else ["datetime", "date", "int", "str", "float", "path", "ip", "class",
                                                                                 "enum", "uuid", "foreign", "decimal"]
    for kind in ("class", "legacy", "global"):
        for tn in tns:
            for pn, b in {**POSITIONS, **HASH_POSITIONS}.items():
                if (kind, tn) == ("legacy", "foreign") or (tn == "class" and pn in HASH_POSITIONS) or (kind != "global" and pn == "generic"):
                    continue
                out.append(Scenario(f"pos:{kind}:{tn}:{pn}", position(kind, pn, tn, b)))
        out.append(Scenario(f"only:{kind}", only(kind)))
    for fk, dk in (("no", "no"), ("own", "own"), ("default", "default"), ("own", "no"), ("no", "own"), ("default", "own"), ("own", "default")):
        for ck, gk, lk in itertools.product((False, True), (0, 1, 2), (None, "yes", "skip")):
            for wrap in ("field", "opt", "list", "dict", "union", "vtuple"):
                out.append(Scenario(f"prec:{fk}:{dk}:{ck}:{gk}:{lk}:{wrap}", precedence(fk, dk, ck, gk, lk, wrap)))
    for tn in ("int", "none", "opt", "list", "class", "union", "dict", "set", "any", "enum", "foreign", "tuple", "empty", "falsy"):
        out.append(Scenario(f"field:{tn}", field_level(tn)))
    out += [Scenario("skip", skip_and_raise), Scenario("several", several), Scenario("last-wins", last_wins),
            Scenario("variants:class", variants("class")), Scenario("variants:global", variants("global")), Scenario("one-sided", one_sided)]
    return out
