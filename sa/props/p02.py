"""P02: tuple round trip and positional alignment."""
from ..harness import F, Scenario, Exc
from ..shapes import *

RULES = ["to_tuple(x) lists exactly the serialized fields in declaration order, each in its documented tuple form",
         "from_tuple(C, to_tuple(x)) is exactly x: every position reaches the field that produced it"]
EXPLANATION = ("Abstract interpretation of decorator, generated to_iter/from_iter and the entry points over every field "
               "shape and over declaration layouts (kw_only, init=False, skip, rename, alias, defaults, inheritance, "
               "flatten, transparent); every field holds a distinct provenance term, so any positional mix-up is "
               "visible as a different term.")


def one(shape, optsets):
    def run(ctx):
        t = shape.t(ctx)
        c = ctx.cls("C", [F("before", int), F("x", t), F("after", str)])
        if not ctx.ok(c, "decorate"):
            return
        for lab, v in shape.vals(ctx, "x"):
            x = ctx.make(c, var("b", int), v, var("a", str))
            if not ctx.ok(x, "construct", value=v):
                continue
            for reuse, sets, dr in optsets:
                o = Opts(False, bool(reuse) if reuse is not None else True, bool(sets))
                d = ctx.to_tuple(x, reuse_instances=reuse, convert_sets=sets)
                if not ctx.ok(d, "to_tuple", value=x, reuse=reuse, sets=sets):
                    continue
                exp = (x.before, shape.wire(ctx, v, o), x.after)
                ctx.check(wire_same(d, exp), "wire", f"to_tuple output for {shape.label}", actual=d, expected=exp,
                          reuse=reuse, sets=sets)
                y = ctx.from_tuple(c, d, reuse_instances=dr)
                if ctx.ok(y, "from_tuple", data=d, reuse=dr, value=x):
                    ctx.eq(y, x, "roundtrip", f"value of {shape.label} is not restored", data=d, reuse=dr)

    return run


def layout(fields, order, build, bases=(), opts=None, dc=None, restored=None, base_fields=None):
    """fields: declarations; order: names expected in the tuple."""

    def run(ctx):
        bs = ()
        if base_fields is not None:
            b = ctx.cls("Base", base_fields(ctx) if callable(base_fields) else base_fields, dc=dc)
            if not ctx.ok(b, "decorate"):
                return
            bs = (b,)
        c = ctx.cls("C", fields(ctx) if callable(fields) else fields, bases=bs, dc=dc, **(opts or {}))
        if not ctx.ok(c, "decorate"):
            return
        x = build(ctx, c)
        if not ctx.ok(x, "construct"):
            return
        d = ctx.to_tuple(x)
        if not ctx.ok(d, "to_tuple", value=x):
            return
        exp = []
        for n in order:
            obj = x
            for p in n.split("."):
                obj = getattr(obj, p)
            exp.append(ctx.to_tuple(obj) if dataclasses.is_dataclass(obj) else obj)
        ctx.eq(d, tuple(exp), "positions", "to_tuple lists other values than the serialized fields in order")
        y = ctx.from_tuple(c, d)
        if not ctx.ok(y, "from_tuple", data=d, value=x):
            return
        want = restored(ctx, c, x) if restored else x
        ctx.eq(y, want, "alignment", "a position reached another field", data=d)

    return run


def _v(**k):
    return lambda ctx, c: ctx.make(c, **{n: (var(n, t) if isinstance(t, type) else t) for n, t in k.items()})


def layouts():
    kw = dict(kw_only=True)
    out = {
        "kw-last": layout([F("a", int), F("b", str), F("c", float, dc=kw)], ["a", "b", "c"], _v(a=int, b=str, c=float)),
        "kw-first": layout([F("a", int, dc=kw), F("b", str), F("c", float)], ["a", "b", "c"], _v(a=int, b=str, c=float)),
        "kw-middle": layout([F("a", int), F("b", str, dc=kw), F("c", float)], ["a", "b", "c"],
                            _v(a=int, b=str, c=float)),
        "kw-same-types": layout([F("a", int, dc=kw), F("b", int), F("c", int, dc=kw), F("d", int)],
                                ["a", "b", "c", "d"], _v(a=int, b=int, c=int, d=int)),
        "kw-all": layout([F("a", int), F("b", int)], ["a", "b"], _v(a=int, b=int), dc=dict(kw_only=True)),
        "rename": layout([F("a", int, opts=dict(rename="z")), F("b", int, opts=dict(rename="a"))], ["a", "b"],
                         _v(a=int, b=int)),
        "alias-int": layout([F("a", int, opts=dict(alias=["b"])), F("b", int)], ["a", "b"], _v(a=int, b=int)),
        "alias-float": layout([F("a", float, opts=dict(alias=["b", "q"])), F("b", float)], ["a", "b"],
                              _v(a=float, b=float)),
        "alias-enum": layout([F("a", Color, opts=dict(alias=["q"])), F("b", int)], ["b"],
                             _v(a=Color.RED, b=int)) if False else None,
        "rename-all": layout([F("field_a", int), F("field_b", int)], ["field_a", "field_b"],
                             _v(field_a=int, field_b=int), opts=dict(rename_all="camelcase")),
        "defaults": layout([F("a", int), F("b", int, default=7), F("c", list, factory=list)], ["a", "b", "c"],
                           _v(a=int, b=int, c=[])),
        "skip-last": layout([F("a", int), F("b", int, default=7, opts=dict(skip=True))], ["a"], _v(a=int)),
        "skip-first": layout([F("b", int, default=7, opts=dict(skip=True)), F("a", int, default=3)], ["a"], _v(a=int)),
        "skip-middle": layout([F("a", int), F("b", int, default=7, opts=dict(skip=True)), F("c", int, default=1)],
                              ["a", "c"], _v(a=int, c=int)),
        "skip-ser-middle": layout([F("a", int), F("b", int, default=7, opts=dict(skip_serializing=True)),
                                   F("c", int, default=1)], ["a", "c"], _v(a=int, c=int)),
        "skip-de-middle": layout([F("a", int), F("b", int, default=7, opts=dict(skip_deserializing=True)),
                                  F("c", int, default=1)], ["a", "b", "c"], _v(a=int, b=int, c=int),
                                 restored=lambda ctx, c, x: ctx.make(c, a=x.a, c=x.c)),
        "init-false-default": layout([F("a", int), F("b", int, default=7, dc=dict(init=False)),
                                      F("c", int, default=1)], ["a", "b", "c"], _v(a=int, c=int)),
        "init-false-skip": layout([F("a", int), F("b", int, default=7, dc=dict(init=False), opts=dict(skip=True)),
                                   F("c", int, default=1)], ["a", "c"], _v(a=int, c=int)),
        "inherit": layout([F("c", int), F("d", int)], ["a", "b", "c", "d"], _v(a=int, b=int, c=int, d=int),
                          base_fields=[F("a", int), F("b", int)]),
        "inherit-override": layout([F("c", int), F("a", int, opts=dict(rename="zz"))], ["a", "b", "c"],
                                   _v(a=int, b=int, c=int), base_fields=[F("a", int), F("b", int)]),
        "inherit-kw": layout([F("c", int), F("d", int)], ["a", "b", "c", "d"], _v(a=int, b=int, c=int, d=int),
                             base_fields=[F("a", int, dc=kw), F("b", int)]),
        "optional-none": layout([F("a", typing.Optional[int]), F("b", typing.Optional[int])], ["a", "b"],
                                _v(a=None, b=int)),
        "falsy": layout([F("a", int), F("b", str, default="dflt"), F("c", typing.Optional[str], default="q")],
                        ["a", "b", "c"], _v(a=0, b="", c=None)),
        "many": layout([F(f"f{i}", int) for i in range(12)], [f"f{i}" for i in range(12)],
                       _v(**{f"f{i}": int for i in range(12)})),
    }

    def nested(ctx):
        i = ctx.cls("I", [F("p", int), F("q", int, dc=kw), F("r", int, opts=dict(rename="p2"))])
        return [F("a", int), F("i", i), F("j", i, opts=dict(rename="jj"))]

    out["nested"] = layout(nested, ["a", "i", "j"], lambda ctx, c: ctx.make(
        c, a=var("a", int), i=ctx.user.I(p=var("p", int), q=var("q", int), r=var("r", int)),
        j=ctx.user.I(p=var("p2", int), q=var("q2", int), r=var("r2", int))))

    def nested_skip(ctx):
        i = ctx.cls("I", [F("p", int), F("s", int, default=5, opts=dict(skip=True)), F("r", int, default=1)])
        return [F("a", int), F("i", i), F("l", list[i])]

    out["nested-skip"] = layout(nested_skip, ["a", "i"], lambda ctx, c: None)
    del out["nested-skip"]

    def flat(ctx, last=True):
        i = ctx.cls("I", [F("p", int), F("q", int)])
        return [F("a", int), F("i", i, opts=dict(flatten=True))] + ([] if last else [F("z", int)])

    mk = lambda **e: (lambda ctx, c: ctx.make(c, a=var("a", int), i=ctx.user.I(p=var("p", int), q=var("q", int)),
                                              **{k: var(k, t) for k, t in e.items()}))
    out["flatten-last"] = layout(flat, ["a", "i.p", "i.q"], mk())
    out["flatten-middle"] = layout(lambda ctx: flat(ctx, False), ["a", "i.p", "i.q", "z"], mk(z=int))

    def transp(ctx):
        i = ctx.cls("W", [F("v", int)], transparent=True)
        return [F("a", i), F("b", int)]

    def run_transp(ctx):
        c = ctx.cls("C", transp(ctx))
        x = ctx.make(c, a=ctx.user.W(v=var("v", int)), b=var("b", int))
        d = ctx.to_tuple(x)
        if ctx.ok(d, "to_tuple"):
            ctx.eq(d, (x.a.v, x.b), "positions")
            y = ctx.from_tuple(c, d)
            ctx.ok(y, "from_tuple", data=d) and ctx.eq(y, x, "alignment", data=d)

    out["transparent"] = run_transp

    def classvar(ctx):
        c = ctx.cls("C", [F("a", int), F("k", typing.ClassVar[int], default=9), F("b", int)])
        x = ctx.make(c, a=var("a", int), b=var("b", int))
        d = ctx.to_tuple(x)
        if ctx.ok(d, "to_tuple"):
            ctx.eq(d, (x.a, x.b), "positions")
            y = ctx.from_tuple(c, d)
            ctx.ok(y, "from_tuple", data=d) and ctx.eq(y, x, "alignment", data=d)

    out["classvar"] = classvar

    def listed(ctx):
        i = ctx.cls("I", [F("p", int), F("q", int, dc=kw)])
        c = ctx.cls("C", [F("a", list[i]), F("m", dict[str, i]), F("o", typing.Optional[i]), F("t", tuple[i, int])])
        I = lambda n: ctx.make(i, p=var(n + "p", int), q=var(n + "q", int))
        for o in (None, I("o")):
            x = ctx.make(c, [I("l0"), I("l1")], {"k": I("m")}, o, (I("t"), var("n", int)))
            d = ctx.to_tuple(x)
            if not ctx.ok(d, "to_tuple"):
                return
            tp = lambda v: None if v is None else (v.p, v.q)
            ctx.eq(d, ([tp(v) for v in x.a], {"k": tp(x.m["k"])}, tp(x.o), (tp(x.t[0]), x.t[1])), "positions")
            y = ctx.from_tuple(c, d)
            ctx.ok(y, "from_tuple", data=d) and ctx.eq(y, x, "alignment", data=d)
            # a list in place of the tuple, as the formats deliver it
            y = ctx.from_tuple(c, list(d))
            ctx.ok(y, "from_tuple", data=d) and ctx.eq(y, x, "alignment", data=d)

    out["containers"] = listed
    return {k: v for k, v in out.items() if v is not None}


def enum_alias(ctx):
    c = ctx.cls("C", [F("a", Color, opts=dict(alias=["q"])), F("b", int)])
    x = ctx.make(c, Color.RED, var("b", int))
    d = ctx.to_tuple(x)
    if ctx.ok(d, "to_tuple"):
        ctx.eq(d, ("red", x.b), "positions")
        y = ctx.from_tuple(c, d)
        ctx.ok(y, "from_tuple", data=d) and ctx.eq(y, x, "alignment", data=d)


def alias_everywhere(shape):
    def run(ctx):
        c = ctx.cls("C", [F("b", int), F("x", shape.t(ctx), opts=dict(alias=["b", "other"])),
                          F("y", shape.t(ctx), opts=dict(rename="x"))])
        if not ctx.ok(c, "decorate"):
            return
        for lab, v in shape.vals(ctx, "x"):
            w = shape.vals(ctx, "y")[0][1]
            x = ctx.make(c, var("b", int), v, w)
            d = ctx.to_tuple(x)
            if not ctx.ok(d, "to_tuple", value=x):
                continue
            y = ctx.from_tuple(c, d)
            ctx.ok(y, "from_tuple", data=d) and ctx.eq(y, x, "alignment", data=d)

    return run


def scenarios(tier):
    optsets = [(False, False, False), (True, True, True), (None, None, None)]
    if tier == "thorough":
        optsets.append((False, True, True))
    out = [Scenario(f"field:{s.label}", one(s, optsets)) for s in field_shapes(tier)]
    out += [Scenario(f"layout:{k}", f) for k, f in layouts().items()]
    out.append(Scenario("layout:alias-enum", enum_alias))
    for s in [INT, FLOAT, STR, BOOL, PATH, DATETIME, EnumT(Color), LITS[0], D, ListT(INT), DictT(STR, D), OptT(INT),
              OptT(D), SetT(STR), TupleT(INT, D), VTupleT(INT), UnionT(INT, STR), UnionT(D, D2), ANY, NEWTS[0], SUBS[0]]:
        out.append(Scenario(f"alias:{s.label}", alias_everywhere(s)))
    return out
