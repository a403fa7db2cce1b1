"""P13: type_check modes."""
import itertools
from ..harness import F, Scenario, Exc
from ..positions import POSITIONS, HASH_POSITIONS, Pos, _in_class
from ..shapes import *
from ..values import Foreign, term
from .p07 import kinds, pick
from .p10 import wire
from .p12 import bad, corrupt

RULES = ["strict (also the default): constructing with, or reading, a value that disagrees with the annotation is a SerdeError",
         "coerce: a primitive becomes declared_type(value) on output and input at every depth; None is refused; a failing conversion is a SerdeError",
         "disabled: the very same value goes in and comes out at every depth",
         "a class keeps its own mode whatever the modes of the classes around it, below it or decorated before it"]
EXPLANATION = ("Abstract interpretation of construction, from_dict/from_tuple and to_dict/to_tuple for modes x primitive types x input "
               "kinds x positions and for every pair of modes of an outer and an inner class; conversions are provenance terms, the "
               "type checks are the interpretation of the program's own use of beartype.")

PRIMS = {"int": int, "str": str, "float": float, "bool": bool}
SRC = {"int": int, "str": str, "float": float, "bool": bool, "bytes": bytes, "foreign": Foreign}
# positions whose leaf is a primitive held by dataclasses of the given mode and checked deterministically
RANDOM = {"list2", "list-opt"}
TYPEVAR = {"generic"}
UNION = {"union-External", "union-Internal", "union-Adjacent", "union-Untagged"}


def key_position(ctx, t, **opts):
    c, d, v = _in_class(ctx, dict[t, str], lambda w: {w: "s"}, lambda x: {x: "s"}, **opts)
    return Pos(c, d, v)


def counter_position(ctx, t, **opts):
    c, d, v = _in_class(ctx, Counter[t], lambda w: {w: 1}, lambda x: Counter({x: 1}), **opts)
    return Pos(c, d, v)


ALL = {**POSITIONS, **HASH_POSITIONS}


def tc(ctx, m):
    return dict(type_check=ctx.get("core." + m)) if m else {}


def source(n):
    if n == "bool":
        return True
    return var("in_" + n, SRC[n])


def coerce(pn, build, tn, sn):
    T = PRIMS[tn]

    def run(ctx):
        p = build(ctx, T, **tc(ctx, "coerce"))
        if not ctx.ok(p.type, "decorate"):
            return
        v = source(sn)

        def go():
            c = ctx.call(T, v)
            y = ctx.from_dict(p.type, p.data(v))
            if isinstance(c, Exc):
                ctx.check(ctx.is_serde_error(y), "coerce-in", "a value that cannot be converted is accepted", result=y)
            elif ctx.ok(y, "coerce-in", "a convertible value is refused", data=p.data(v)):
                ctx.check(same(y, p.value(c)), "coerce-in", "the value is not converted by the declared type", actual=y, expected=p.value(c))

        ctx.isolated(go)

        def back():
            c = ctx.call(T, v)
            x = p.value(v)
            if not ctx.ok(x, "coerce-make"):
                return
            d, t = ctx.to_dict(x), ctx.to_tuple(x)
            if isinstance(c, Exc):
                ctx.check(ctx.is_serde_error(d), "coerce-out", "a value that cannot be converted is accepted", result=d)
                ctx.check(ctx.is_serde_error(t), "coerce-out-tuple", "a value that cannot be converted is accepted", result=t)
                return
            if ctx.ok(d, "coerce-out", "a convertible value is refused"):
                want = out(pn, p, c)
                ctx.check(wire_like(d, want), "coerce-out", "the value is not converted by the declared type", actual=d, expected=want)
            if ctx.ok(t, "coerce-out-tuple", "a convertible value is refused"):
                ctx.check(any(same(l, c) for l in flat(t)) and not any(same(l, v) and not same(v, c) for l in flat(t)), "coerce-out-tuple",
                          "the value is not converted by the declared type", actual=t)
            raw = ctx.to_tuple(build(ctx, T, **tc(ctx, "disabled")).value(v))
            if ctx.ok(raw, "coerce-raw-tuple"):
                y = ctx.from_tuple(p.type, raw)
                if ctx.ok(y, "coerce-in-tuple", data=raw):
                    ctx.check(same(y, p.value(c)), "coerce-in-tuple", "the value is not converted by the declared type", actual=y, expected=p.value(c))

        ctx.isolated(back)

    return run


def out(pn, p, v):
    d = p.data(v)
    return {"x": d["z"]} if pn == "alias-key" else d


def flat(d):
    d = resolve(d)
    if isinstance(d, dict):
        for k, v in d.items():
            yield from flat(k)
            yield from flat(v)
    elif isinstance(d, (list, tuple, set, frozenset, deque)):
        for v in d:
            yield from flat(v)
    else:
        yield d


def wire_like(a, b):
    """Sequences and mappings of a dict output compared as plain data."""
    a, b = resolve(a), resolve(b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(wire_like(x, y) for x, y in zip(a, b))
    if isinstance(a, (set, frozenset, deque)) and isinstance(b, list):
        return len(a) == len(b) and all(any(same(x, y) for y in b) for x in a)
    if isinstance(a, dict) and isinstance(b, dict):
        return len(a) == len(b) and all(any(same(x, y) and wire_like(a[x], b[y]) for y in b) for x in a)
    return same(a, b)


def none_refused(pn, build, tn):
    T = PRIMS[tn]

    def run(ctx):
        p = build(ctx, T, **tc(ctx, "coerce"))
        if not ctx.ok(p.type, "decorate"):
            return
        y = ctx.from_dict(p.type, p.data(None))
        ctx.check(ctx.is_serde_error(y), "coerce-none", "None is converted", result=y)
        x = p.value(None)
        if not isinstance(x, Exc):
            for f in (ctx.to_dict, ctx.to_tuple):
                d = f(x)
                ctx.check(ctx.is_serde_error(d), "coerce-none-out", "None is converted", result=d)

    return run


def untouched(pn, build, tn, sn):
    T = PRIMS[tn]

    def run(ctx):
        p = build(ctx, T, **tc(ctx, "disabled"))
        if not ctx.ok(p.type, "decorate"):
            return
        v = None if sn == "none" else source(sn)
        y = ctx.from_dict(p.type, p.data(v))
        if ctx.ok(y, "disabled-in"):
            ctx.eq(y, p.value(v), "disabled-in")
        x = p.value(v)
        if ctx.ok(x, "disabled-make"):
            d = ctx.to_dict(x)
            if ctx.ok(d, "disabled-out"):
                ctx.check(wire_like(d, out(pn, p, v)), "disabled-out", "the value is changed", actual=d, expected=out(pn, p, v))
            t = ctx.to_tuple(x)
            if ctx.ok(t, "disabled-out-tuple"):
                y = ctx.from_tuple(p.type, t)
                if ctx.ok(y, "disabled-in-tuple"):
                    ctx.eq(y, p.value(v), "disabled-in-tuple")

    return run


def agrees(T, v):
    t = v.typ if isinstance(v, AV) else type(v)
    return issubclass(t, T)


def strict(pn, build, tn, m):
    T = PRIMS[tn]

    def run(ctx):
        p = build(ctx, T, **tc(ctx, m))
        if not ctx.ok(p.type, "decorate"):
            return
        for sn in (*SRC, "none"):
            v = None if sn == "none" else source(sn)
            if agrees(T, v):
                y = ctx.from_dict(p.type, p.data(v))
                if ctx.ok(y, "strict-right"):
                    ctx.eq(y, p.value(v), "strict-right")
                continue

            def go():
                y = ctx.from_dict(p.type, p.data(v))
                ctx.check(ctx.is_serde_error(y), "strict-in", "a value of another type is accepted", result=y, value=v)

            ctx.isolated(go)
            x = p.value(v)
            ctx.check(ctx.is_serde_error(x), "strict-make", "an object is constructed from a value of another type", result=x, value=v)

    return run


def accepts(ctx, sh, v):
    """Whether the value may be in a field of the shape (None: unknown; its outer class only)."""
    if isinstance(sh, AnyT):
        return True
    if isinstance(sh, NoneT):
        return v is None
    if isinstance(sh, (OptT, UnionT)):
        return isinstance(sh, OptT) and v is None or any(accepts(ctx, k, v) for k in sh.kids())
    if isinstance(sh, Lit):
        return isinstance(v, (AV, str)) and (v.typ if isinstance(v, AV) else str) is str
    good = pick(ctx, sh, "g")
    G = good.typ if isinstance(good, AV) else type(good)
    t = v.typ if isinstance(v, AV) else type(v)
    return isinstance(t, type) and issubclass(t, G)


def construct(kn, sh, m, deco):
    def run(ctx):
        c = ctx.cls("C", [F("a", str), F("x", sh.t(ctx)), F("z", int, default=1)], deco=deco, **tc(ctx, m))
        if not ctx.ok(c, "decorate"):
            return
        good = pick(ctx, sh, "v")
        x = ctx.make(c, "a", good)
        ctx.ok(x, "construct-right")
        for b in bad():
            if accepts(ctx, sh, b):
                continue
            for mk in (lambda: ctx.make(c, "a", b), lambda: ctx.make(c, a="a", x=b), lambda: ctx.make(c, "a", b, z=3)):
                y = mk()
                ctx.check(ctx.is_serde_error(y), "construct", "an object is constructed from a value of another type", result=y, value=b)
        for args in ((1, good), ("a", good, "no")):
            y = ctx.make(c, *args)
            ctx.check(ctx.is_serde_error(y), "construct-other", "an object is constructed from a value of another type", result=y)

    return run


def instance_conforms(kn, sh):
    """strict: whatever from_dict returns has field values of the declared types."""

    def run(ctx):
        c = ctx.cls("C", [F("x", sh.t(ctx))])
        if not ctx.ok(c, "decorate"):
            return
        w = wire(sh, ctx, pick(ctx, sh, "v"))
        for _, d in corrupt(w):
            def go():
                y = ctx.from_dict(c, {"x": d})
                if not isinstance(y, Exc):
                    ctx.check(ctx.ops.truth(ctx.ops.conform(y.x, sh.t(ctx))), "conforms", "a value of another type is in the object", data=d,
                              value=y.x)

            ctx.isolated(go)

    return run


def isolation(om, im, order, how):
    """The inner class behaves by its own mode, the outer by its own."""

    def run(ctx):
        other = ctx.cls("Other", [F("p", int)], **tc(ctx, "coerce" if "coerce" not in (om, im) else "disabled"))

        def inner():
            return ctx.cls("I", [F("p", int)], **tc(ctx, im))

        if order == "before":
            ctx.cls("Pre", [F("p", int)], **tc(ctx, om))
        i = inner()
        wrap = {"field": lambda t: t, "list": lambda t: list[t], "dict": lambda t: dict[str, t], "opt": lambda t: typing.Optional[t],
                "union": lambda t: typing.Union[t, str], "tuple": lambda t: tuple[t, ...]}[how]
        data = {"field": lambda d: d, "list": lambda d: [d], "dict": lambda d: {"k": d}, "opt": lambda d: d, "union": lambda d: {"I": d},
                "tuple": lambda d: [d]}[how]
        o = ctx.cls("O", [F("q", int), F("i", wrap(i)), F("o", typing.Optional[other])], **tc(ctx, om))
        if not (ctx.ok(i, "decorate") and ctx.ok(o, "decorate")):
            return
        ok, w, five = var("ok", int), var("w", str), "5"
        get = {"field": lambda x: x.i.p, "list": lambda x: x.i[0].p, "dict": lambda x: x.i["k"].p, "opt": lambda x: x.i.p,
               "union": lambda x: x.i.p, "tuple": lambda x: x.i[0].p}[how]
        for who, mode_, d in (("inner", im, {"q": ok, "i": data({"p": five})}), ("outer", om, {"q": five, "i": data({"p": ok})})):
            y = ctx.from_dict(o, d)
            if mode_ == "strict":
                ctx.check(ctx.is_serde_error(y), "isolation", f"the mode of the {who} class is not applied", result=y, data=d)
            elif ctx.ok(y, "isolation", data=d):
                got = get(y) if who == "inner" else y.q
                ctx.eq(got, 5 if mode_ == "coerce" else "5", "isolation", f"the mode of the {who} class is not applied")
        for c, mode_, mk in ((i, im, lambda: ctx.make(i, five)), (o, om, lambda: ctx.make(o, five, mkval(ctx, i, how, ok), None))):
            x = mk()
            if mode_ == "strict":
                ctx.check(ctx.is_serde_error(x), "isolation-make", "the mode of the class is not applied", result=x)
            elif ctx.ok(x, "isolation-make"):
                d = ctx.to_dict(x)
                if ctx.ok(d, "isolation-out"):
                    ctx.eq(d["p" if c is i else "q"], 5 if mode_ == "coerce" else "5", "isolation-out", "the mode of the class is not applied")
        if im != "strict":
            x = ctx.make(o, ok, mkval(ctx, i, how, five), None)
            if ctx.ok(x, "isolation-make"):
                d = ctx.to_dict(x)
                if ctx.ok(d, "isolation-out"):
                    leaf = {"field": lambda: d["i"], "opt": lambda: d["i"], "list": lambda: d["i"][0], "dict": lambda: d["i"]["k"],
                            "union": lambda: d["i"]["I"], "tuple": lambda: d["i"][0]}[how]()
                    ctx.eq(leaf["p"], 5 if im == "coerce" else "5", "isolation-out", "the mode of the inner class is not applied")

    return run


def mkval(ctx, i, how, v):
    x = ctx.make(i, v)
    return {"field": x, "opt": x, "union": x, "list": [x], "dict": {"k": x}, "tuple": (x,)}[how]


def inheritance(bm, dm):
    def run(ctx):
        b = ctx.cls("B", [F("p", int)], **tc(ctx, bm))
        d = ctx.cls("D", [F("q", int)], bases=(b,), **tc(ctx, dm))
        if not (ctx.ok(b, "decorate") and ctx.ok(d, "decorate")):
            return
        for c, m, data, names in ((b, bm, {"p": "5"}, "p"), (d, dm, {"p": "5", "q": 1}, "p"), (d, dm, {"p": 1, "q": "5"}, "q")):
            y = ctx.from_dict(c, data)
            if m == "strict":
                ctx.check(ctx.is_serde_error(y), "inherit", "the mode of the class is not applied", result=y)
            elif ctx.ok(y, "inherit"):
                ctx.eq(getattr(y, names), 5 if m == "coerce" else "5", "inherit", "the mode of the class is not applied")

    return run


def decorators(ctx):
    """The mode given to either decorator, and the default."""
    for deco in ("serde", "de.deserialize", "se.serialize"):
        for m in (None, "strict", "disabled", "coerce"):
            c = ctx.cls("C", [F("x", int)], deco=deco, **tc(ctx, m))
            if not ctx.ok(c, "decorate"):
                continue
            x = ctx.make(c, "5")
            if m in (None, "strict"):
                ctx.check(ctx.is_serde_error(x), "decorators", "the mode is not applied", result=x, deco=deco, mode=m)
            elif ctx.ok(x, "decorators"):
                ctx.eq(x.x, "5", "decorators")
            if deco != "se.serialize":
                y = ctx.from_dict(c, {"x": "5"})
                if m in (None, "strict"):
                    ctx.check(ctx.is_serde_error(y), "decorators", "the mode is not applied", result=y, deco=deco, mode=m)
                elif ctx.ok(y, "decorators"):
                    ctx.eq(y.x, 5 if m == "coerce" else "5", "decorators", deco=deco)
            if deco != "de.deserialize" and m in ("disabled", "coerce"):
                d = ctx.to_dict(x)
                if ctx.ok(d, "decorators"):
                    ctx.eq(d["x"], 5 if m == "coerce" else "5", "decorators", deco=deco)


def wide_coerce(ctx):
    """Every field of a class is converted by its own declared type."""
    ts = [int, str, float, bool, int, str]
    c = ctx.cls("C", [F(f"f{i}", t, opts=dict(rename=f"r{i}") if i % 2 else {}) for i, t in enumerate(ts)], **tc(ctx, "coerce"))
    if not ctx.ok(c, "decorate"):
        return
    raw = ["1", 2, "3", 0, "5", 6.5]
    want = [1, "2", 3.0, False, 5, "6.5"]
    key = lambda i: f"r{i}" if i % 2 else f"f{i}"
    y = ctx.from_dict(c, {key(i): v for i, v in enumerate(raw)})
    if ctx.ok(y, "wide"):
        for i, w in enumerate(want):
            ctx.eq(getattr(y, f"f{i}"), w, "wide")
    d = ctx.to_dict(ctx.make(c, *raw))
    if ctx.ok(d, "wide"):
        ctx.eq(d, {key(i): w for i, w in enumerate(want)}, "wide")
    t = ctx.to_tuple(ctx.make(c, *raw))
    if ctx.ok(t, "wide"):
        ctx.eq(t, tuple(want), "wide")
    y = ctx.from_tuple(c, tuple(raw))
    if ctx.ok(y, "wide"):
        for i, w in enumerate(want):
            ctx.eq(getattr(y, f"f{i}"), w, "wide")
    for i, b in ((0, "no"), (2, "no"), (4, []), (0, {}), (2, None), (3, None), (1, None), (5, None)):
        r = list(raw)
        r[i] = b
        ctx.raises(ctx.from_dict(c, {key(j): v for j, v in enumerate(r)}), "wide-bad")
        ctx.raises(ctx.from_tuple(c, tuple(r)), "wide-bad")
        x = ctx.make(c, *r)
        ctx.raises(ctx.to_dict(x), "wide-bad")
        ctx.raises(ctx.to_tuple(x), "wide-bad")


def subclasses(ctx):
    """coerce of NewTypes and subclasses of primitives; the output is plain data."""
    for sh, raw, val, out in ((SUBS, None, None, None),) and (
            (IntSub, "5", IntSub(5), 5), (StrSub, 5, StrSub("5"), "5"), (FloatSub, "1.5", FloatSub(1.5), 1.5), (NTInt, "5", 5, 5),
            (NTStr, 5, "5", "5"), (NTFloat, "1.5", 1.5, 1.5)):
        for wrap, d, v in ((lambda t: t, lambda x: x, lambda x: x), (lambda t: list[t], lambda x: [x], lambda x: [x]),
                           (lambda t: typing.Optional[t], lambda x: x, lambda x: x), (lambda t: dict[str, t], lambda x: {"k": x}, lambda x: {"k": x})):
            c = ctx.cls("C", [F("x", wrap(sh))], **tc(ctx, "coerce"))
            if not ctx.ok(c, "decorate"):
                continue
            y = ctx.from_dict(c, {"x": d(raw)})
            if ctx.ok(y, "sub-in", type=sh):
                ctx.eq(y.x, v(val), "sub-in")
            for given in (val, raw):
                o = ctx.to_dict(ctx.make(c, v(given)))
                if ctx.ok(o, "sub-out", type=sh):
                    ctx.eq(o, {"x": d(out)}, "sub-out")


def scenarios(tier):
    out = []
    for pn, b in {**ALL, "key": key_position, "counter": counter_position}.items():
        if pn in TYPEVAR or pn in ("key", "counter") and False:
            continue
        for tn in PRIMS:
            for sn in SRC:
                if sn == "foreign" and pn in HASH_POSITIONS:
                    continue
                out.append(Scenario(f"coerce:{pn}:{tn}:{sn}", coerce(pn, b, tn, sn), budget=2000))
            if pn not in ("optional", "pipe", "opt-list", "default", "list-opt", "flatten-opt", "key", "counter"):
                out.append(Scenario(f"coerce-none:{pn}:{tn}", none_refused(pn, b, tn)))
            if pn not in ("key", "counter"):
                for sn in (*SRC, "none"):
                    if sn == "none" and pn in ("optional", "pipe", "opt-list", "default", "list-opt", "flatten-opt"):
                        continue
                    out.append(Scenario(f"disabled:{pn}:{tn}:{sn}", untouched(pn, b, tn, sn)))
            if pn not in RANDOM and pn not in ("key", "counter") and pn not in ("optional", "pipe", "opt-list", "default", "flatten-opt"):
                for m in ("strict", None):
                    out.append(Scenario(f"strict:{pn}:{tn}:{m}", strict(pn, b, tn, m), budget=2000))
    for kn, sh in kinds().items():
        for m in ("strict", None):
            for deco in ("serde", "se.serialize", "de.deserialize"):
                out.append(Scenario(f"construct:{kn}:{m}:{deco}", construct(kn, sh, m, deco)))
        out.append(Scenario(f"conforms:{kn}", instance_conforms(kn, sh), budget=20000))
    ms = ("strict", "coerce", "disabled")
    for om, im in itertools.product(ms, ms):
        for how in ("field", "list", "dict", "opt", "union", "tuple"):
            for order in ("plain", "before"):
                out.append(Scenario(f"isolation:{om}:{im}:{how}:{order}", isolation(om, im, order, how)))
        out.append(Scenario(f"inherit:{om}:{im}", inheritance(om, im)))
    out += [Scenario("decorators", decorators), Scenario("wide", wide_coerce), Scenario("subclasses", subclasses)]
    return out
