"""P05: per-call options reach every nested value."""
from ..harness import F, Scenario, Exc
from ..shapes import *

RULES = ["with convert_sets no set is left anywhere in the output; without, sets stay sets of serialized elements",
         "with reuse_instances=False no rich instance is left anywhere; with True they are kept (except below Any)",
         "skip_none removes exactly the None fields, at every depth",
         "an omitted option takes the class-level default; a given option overrides it",
         "from_dict/from_tuple with reuse_instances keep ready-made instances at every depth and rebuild them otherwise"]
EXPLANATION = ("Abstract interpretation: each wrapper (nested class, container, optional, union, generic, Any, flatten, "
               "inheritance, transparent, class variable) is put around each option-sensitive leaf, every combination of "
               "call options and class defaults is evaluated and the output is compared with the documented wire form.")

SENS = [PATH, DECIMAL, UUID_, DATE, DATETIME, TIME, STRSER[7], SetT(STR), SetT(PATH, frozenset)]


class Leafy(T):
    pass


def wrappers(leaf):
    """(name, build(ctx) -> (class, instance, expected(named, reuse, sets, skip)))"""
    t = lambda ctx: leaf.t(ctx)
    some = lambda ctx, n="x": [v for _, v in leaf.vals(ctx, n)][-1]

    def plain(ctx, fs, mk, exp, **opts):
        c = ctx.cls("C", fs, **opts)
        return c, (None if isinstance(c, Exc) else mk(c)), exp

    def w(ctx, v, o):
        return leaf.wire(ctx, v, o)

    def obj(pairs, o):
        """Wire form of a class from (name, wire)."""
        if o.named:
            return {k: x for k, x in pairs if not (o.skip_none and x is None)}
        return tuple(x for _, x in pairs)

    out = {}

    def field(ctx):
        v = some(ctx)
        c = ctx.cls("C", [F("x", t(ctx)), F("n", typing.Optional[int])])
        return c, ctx.make(c, v, None), lambda o: obj([("x", w(ctx, v, o)), ("n", None)], o)

    out["field"] = field

    def nested(deco, depth):
        def b(ctx):
            v = some(ctx)
            cur = ctx.cls("N0", [F("x", t(ctx)), F("n", typing.Optional[t(ctx)])], deco=deco)
            inst = ctx.make(cur, v, None)
            e = lambda o: obj([("x", w(ctx, v, o)), ("n", None)], o)
            for i in range(1, depth + 1):
                cur2 = ctx.cls(f"N{i}", [F("y", cur), F("m", typing.Optional[int])], deco=deco if i < depth else "serde")
                inst = ctx.make(cur2, inst, None)
                e = (lambda e: lambda o: obj([("y", e(o)), ("m", None)], o))(e)
                cur = cur2
            return cur, inst, e

        return b

    for d in (1, 2, 3):
        out[f"nested{d}"] = nested("serde", d)
    out["nested-dataclass"] = nested("dataclass", 2)

    def inherit(ctx):
        v = some(ctx)
        b = ctx.cls("B", [F("x", t(ctx)), F("n", typing.Optional[int])])
        c = ctx.cls("C", [F("z", t(ctx))], bases=(b,))
        z = some(ctx, "z")
        return c, ctx.make(c, v, None, z), lambda o: obj([("x", w(ctx, v, o)), ("n", None), ("z", w(ctx, z, o))], o)

    out["inherit"] = inherit

    def cont(mk, tt, ww):
        def b(ctx):
            i = ctx.cls("I", [F("x", t(ctx)), F("n", typing.Optional[int])])
            v1, v2 = some(ctx, "a"), some(ctx, "b")
            i1, i2 = ctx.make(i, v1, None), ctx.make(i, v2, None)
            c = ctx.cls("C", [F("l", tt(i)), F("q", typing.Optional[str])])
            e = lambda o: [obj([("x", w(ctx, v, o)), ("n", None)], o) for v in (v1, v2)]
            return c, ctx.make(c, mk(i1, i2), None), lambda o: obj([("l", ww(*e(o))), ("q", None)], o)

        return b

    out["list"] = cont(lambda a, b: [a, b], lambda i: list[i], lambda a, b: [a, b])
    out["tuple"] = cont(lambda a, b: (a, b), lambda i: tuple[i, i], lambda a, b: (a, b))
    out["vtuple"] = cont(lambda a, b: (a, b), lambda i: tuple[i, ...], lambda a, b: (a, b))
    out["deque"] = cont(lambda a, b: deque([a, b]), lambda i: deque[i], lambda a, b: [a, b])
    out["dict"] = cont(lambda a, b: {"k": a, "l": b}, lambda i: dict[str, i], lambda a, b: {"k": a, "l": b})
    out["list-dict"] = cont(lambda a, b: [{"k": a}, {"l": b}], lambda i: list[dict[str, i]],
                            lambda a, b: [{"k": a}, {"l": b}])
    out["optional"] = cont(lambda a, b: a, lambda i: typing.Optional[i], lambda a, b: a)

    for tag in ("External", "Internal", "Adjacent", "Untagged"):
        def union(ctx, tag=tag):
            v = some(ctx)
            i = ctx.cls("I", [F("x", t(ctx)), F("n", typing.Optional[int])])
            j = ctx.cls("J", [F("zz", int)])
            tg = {"External": "ExternalTagging", "Untagged": "Untagged"}.get(tag)
            tg = ctx.get("core." + tg) if tg else ctx.call(ctx.get(f"core.{tag}Tagging"), *(["t"] if tag == "Internal" else ["t", "c"]))
            c = ctx.cls("C", [F("u", typing.Union[i, j]), F("l", list[typing.Union[i, j]]), F("q", typing.Optional[int])],
                        tagging=tg)

            def e(o):
                a = obj([("x", w(ctx, v, o)), ("n", None)], o)
                r = {"External": lambda: {"I": a}, "Untagged": lambda: a,
                     "Internal": lambda: {"t": "I", **a}, "Adjacent": lambda: {"t": "I", "c": a}}[tag]()
                return obj([("u", r), ("l", [r]), ("q", None)], o)

            x = ctx.make(i, v, None)
            e.named_only = True
            return c, ctx.make(c, x, [x], None), e

        out[f"union-{tag}"] = union

    def union_leaf(ctx):
        v = some(ctx)
        c = ctx.cls("C", [F("u", typing.Union[int, t(ctx)])])
        return c, ctx.make(c, v), lambda o: obj([("u", w(ctx, v, o))], o)

    out["union-leaf"] = union_leaf

    TV = typing.TypeVar("TV")

    def generic(ctx):
        v = some(ctx)
        g = ctx.cls("G", [F("x", TV), F("l", list[TV]), F("n", typing.Optional[int])], bases=(typing.Generic[TV],))
        c = ctx.cls("C", [F("g", g[t(ctx)])])
        e = lambda o: obj([("g", obj([("x", w(ctx, v, o)), ("l", [w(ctx, v, o)]), ("n", None)], o))], o)
        e.lax = True
        return c, ctx.make(c, ctx.make(g, v, [v], None)), e

    out["generic"] = generic

    def anyf(ctx):
        v = some(ctx)
        i = ctx.cls("I", [F("x", t(ctx)), F("n", typing.Optional[int])])
        c = ctx.cls("C", [F("a", typing.Any), F("d", dict[str, typing.Any])])
        x = ctx.make(i, v, None)
        y = some(ctx, "y")

        def e(o):
            p = dataclasses.replace(o, reuse=False)
            return obj([("a", obj([("x", w(ctx, v, p)), ("n", None)], p)), ("d", {"k": w(ctx, y, p)})], o)

        e.lax = True
        return c, ctx.make(c, x, {"k": y}), e

    out["any"] = anyf

    def flat(opt, depth):
        def b(ctx):
            v = some(ctx)
            i = ctx.cls("I", [F("x", t(ctx)), F("n", typing.Optional[int])])
            x = ctx.make(i, v, None)
            if depth == 2:
                i = ctx.cls("M", [F("i", i, opts=dict(flatten=True)), F("mm", typing.Optional[int])])
                x = ctx.make(i, x, None)
            c = ctx.cls("C", [F("a", int), F("i", typing.Optional[i] if opt else i, opts=dict(flatten=True))])
            e = lambda o: obj([("a", 1), ("x", w(ctx, v, o)), ("n", None)] + ([("mm", None)] if depth == 2 else []), o)
            return c, ctx.make(c, 1, x), e

        return b

    out["flatten"] = flat(False, 1)
    out["flatten-opt"] = flat(True, 1)
    out["flatten-2"] = flat(False, 2)

    def transparent(ctx):
        v = some(ctx)
        i = ctx.cls("W", [F("x", t(ctx))], transparent=True)
        c = ctx.cls("C", [F("w", i), F("l", list[i])])
        x = ctx.make(i, v)
        return c, ctx.make(c, x, [x]), lambda o: obj([("w", w(ctx, v, o)), ("l", [w(ctx, v, o)])], o)

    out["transparent"] = transparent

    def top(mk, ww):
        def b(ctx):
            v = some(ctx)
            i = ctx.cls("I", [F("x", t(ctx)), F("n", typing.Optional[int])])
            x = ctx.make(i, v, None)
            return None, mk(x), lambda o: ww(obj([("x", w(ctx, v, o)), ("n", None)], o))

        return b

    out["top-list"] = top(lambda x: [x], lambda e: [e])
    out["top-dict"] = top(lambda x: {"k": [x]}, lambda e: {"k": [e]})
    out["top-tuple"] = top(lambda x: (x,), lambda e: (e,))
    out["top-deque"] = top(lambda x: deque([x]), lambda e: [e])
    return out


def se(leaf, build):
    def run(ctx):
        c, x, exp = build(ctx)
        if not (ctx.ok(c, "decorate") and ctx.ok(x, "construct")):
            return
        for named in (True, False):
            if not named and getattr(exp, "named_only", False):
                continue
            f = ctx.to_dict if named else ctx.to_tuple
            for reuse in (True, False, None):
                for sets in (True, False, None):
                    for sk in (True, False, None):
                        kw = {}
                        if reuse is not None:
                            kw["reuse_instances"] = reuse
                        if sets is not None:
                            kw["convert_sets"] = sets
                        if sk is not None:
                            kw["skip_none"] = sk
                        o = Opts(named, True if reuse is None else reuse, bool(sets), bool(sk))
                        d = f(x, **kw)
                        if ctx.ok(d, "serialize", kw=kw, value=x):
                            e = exp(o)
                            ctx.check(wire_same(d, e, lax=getattr(exp, "lax", False)), "options",
                                      "the output does not follow the options", actual=d, expected=e, kw=kw, named=named)

    return run


def defaults(leaf):
    """Class-level defaults, alone and overridden by the call."""

    def run(ctx):
        v = [v for _, v in leaf.vals(ctx, "x")][-1]
        for rd in (True, False, None):
            for sd in (True, False, None):
                opts = {}
                if rd is not None:
                    opts["reuse_instances_default"] = rd
                if sd is not None:
                    opts["convert_sets_default"] = sd
                i = ctx.cls("I", [F("x", leaf.t(ctx))], **opts)
                c = ctx.cls("C", [F("i", i), F("l", list[i]), F("y", leaf.t(ctx)), F("u", typing.Union[leaf.t(ctx), int])],
                            **opts)
                if not ctx.ok(c, "decorate", opts=opts):
                    continue
                x = ctx.make(c, ctx.make(i, v), [ctx.make(i, v)], v, v)
                for named in (True, False):
                    for reuse in (True, False, None):
                        for sets in (True, False, None):
                            kw = {}
                            if reuse is not None:
                                kw["reuse_instances"] = reuse
                            if sets is not None:
                                kw["convert_sets"] = sets
                            r = reuse if reuse is not None else rd if rd is not None else True
                            s = sets if sets is not None else sd if sd is not None else False
                            o = Opts(named, r, s)
                            w = leaf.wire(ctx, v, o)
                            iw = {"x": w} if named else (w,)
                            e = {"i": iw, "l": [iw], "y": w, "u": w} if named else (iw, [iw], w, w)
                            d = (ctx.to_dict if named else ctx.to_tuple)(x, **kw)
                            if ctx.ok(d, "serialize", kw=kw):
                                ctx.check(wire_same(d, e), "defaults", "class defaults and call options do not combine",
                                          actual=d, expected=e, kw=kw, class_options=opts)
                            # several instances, and the instance inside a container
                            d = (ctx.to_dict if named else ctx.to_tuple)([x.i], **kw)
                            if ctx.ok(d, "serialize", kw=kw):
                                ctx.check(wire_same(d, [iw]), "defaults", actual=d, expected=[iw], kw=kw, class_options=opts)
                # deserialization: a ready-made instance is kept exactly when reuse_instances is in force
                raw = leaf.wire(ctx, v, Opts(True, False, False))
                keep = leaf.wire(ctx, v, Opts(True, True, False))
                if isinstance(raw, AnySet):
                    continue
                for reuse in (True, False, None):
                    kw = {} if reuse is None else {"reuse_instances": reuse}
                    r = reuse if reuse is not None else rd if rd is not None else True
                    for nm, d in (("serialized", raw), ("instance", keep)):
                        if nm == "instance" and not r and not isinstance(leaf, DT):
                            continue
                        y = ctx.from_dict(c, {"i": {"x": d}, "l": [{"x": d}], "y": d, "u": d}, **kw)
                        if nm == "instance" and not r:
                            ctx.check(isinstance(y, Exc) or same(y, x), "reuse-off", actual=y)
                        elif ctx.ok(y, "reuse-de", kw=kw, data=d, opts=opts):
                            ctx.eq(y, x, "reuse-de", "reading depends on reuse_instances", kw=kw, data=d)

    return run


def scenarios(tier):
    out = []
    leaves = [DATETIME, PATH, SetT(PATH, frozenset), SetT(STR)] if tier == "quick" else SENS
    for leaf in leaves:
        for n, b in wrappers(leaf).items():
            out.append(Scenario(f"{n}:{leaf.label}", se(leaf, b)))
    for leaf in SENS:
        out.append(Scenario(f"defaults:{leaf.label}", defaults(leaf)))
    return out
