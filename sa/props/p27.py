"""P27: debug mode and introspection do not change behaviour."""
import types
from ..harness import F, Scenario, Exc, same
from ..shapes import *
from ..positions import POSITIONS
from ..values import AV, Foreign, resolve
from .p12 import corrupt
from .p14 import TAGS, tagging
from .p18 import graph

RULES = ["every operation gives the same result whether the code was generated with debug mode on or off, with black installed, missing or failing",
         "switching debug mode between generation and use, or between generating two classes, changes nothing",
         "is_serializable / is_deserializable are True for decorated classes and their instances",
         "the predicates, repr of the scope and the inspection function write nothing and change no later result"]
EXPLANATION = ("Differential abstract interpretation: the same declarations are generated in every debug configuration and all their operations, "
               "on abstract values and on one-node corruptions of the data, are compared; the introspection functions run under the effect log.")


def norm(x):
    """A form of a result that can be compared between two declarations of the same classes."""
    x = resolve(x)
    if isinstance(x, Exc):
        return ("raises", type(x.e).__name__)
    if isinstance(x, (AV, enum.Enum, type)):
        return x
    if dataclasses.is_dataclass(x):
        return ("object", type(x).__name__, {k: norm(v) for k, v in vars(x).items()} if hasattr(x, "__dict__") else
                {f.name: norm(getattr(x, f.name)) for f in dataclasses.fields(x)})
    if isinstance(x, (list, tuple)):
        return type(x)([norm(v) for v in x]) if type(x) in (list, tuple) else (type(x).__name__, [norm(v) for v in x])
    if isinstance(x, deque):
        return ("deque", x.maxlen, [norm(v) for v in x])
    if isinstance(x, dict):
        return (type(x).__name__, [(norm(k), norm(v)) for k, v in x.items()])
    if isinstance(x, (set, frozenset)):
        return ("set", type(x).__name__, sorted((repr(norm(v)) for v in x)))
    return x


# --------------------------------------------------------------------------- declarations


def shape(sh):
    def b(ctx, **o):
        c = ctx.cls("C", [F("a", str), F("x", sh.t(ctx)), F("n", typing.Optional[int], default=None)], **o)
        return c, [lambda v=v: ctx.make(c, "a", v) for _, v in sh.vals(ctx, "v")]

    return b


def posn(pn, sh):
    def b(ctx, **o):
        pos = POSITIONS[pn](ctx, sh.t(ctx), **o)
        v = sh.vals(ctx, "v")[-1][1]
        return pos.type, [lambda: pos.value(v)] if isinstance(pos.type, type) or typing.get_origin(pos.type) else []

    return b


def union(tn):
    def b(ctx, **o):
        c = ctx.cls("C", [F("u", typing.Union[D.t(ctx), D2.t(ctx), int]), F("o", typing.Union[str, list[int], None])], tagging=tagging(ctx, tn), **o)
        return c, [lambda v=v, w=w: ctx.make(c, v, w) for v in (ctx.make(D.t(ctx), 1, "s"), 5) for w in ("q", [1], None)]

    return b


def classopt(name):
    def b(ctx, **o):
        opts = {"camel": dict(rename_all="camelcase"), "deny": dict(deny_unknown_fields=True), "coerce": dict(type_check=ctx.get("core.coerce")),
                "disabled": dict(type_check=ctx.get("core.disabled")), "reuse": dict(reuse_instances_default=False),
                "sets": dict(convert_sets_default=True), "skipnone": dict(skip_if_none=True), "skipdef": dict(skip_if_default=True),
                "classvar": dict(serialize_class_var=True)}[name]
        c = ctx.cls("C", [F("my_a", int), F("my_b", typing.Optional[str], default=None), F("my_c", set[int], factory=set), F("my_d", pathlib.Path, default=pathlib.Path("z")),
                          F("my_v", typing.ClassVar[int], default=7)], **opts, **o)
        return c, [lambda: ctx.make(c, 1), lambda: ctx.make(c, 1, "x", {3}, pathlib.Path("/p"))]

    return b


def fieldopt(name):
    def b(ctx, **o):
        fo = {"rename": dict(rename="R-x"), "alias": dict(alias=["x1", "x2"]), "skip": dict(skip=True), "skip_s": dict(skip_serializing=True),
              "skip_d": dict(skip_deserializing=True), "skip_if": dict(skip_if=lambda v: v is None), "skip_if_false": dict(skip_if_false=True),
              "skip_if_default": dict(skip_if_default=True), "skip_if_none": dict(skip_if_none=True),
              "ser": dict(serializer=lambda v: [v], deserializer=lambda v: v[0])}[name]
        c = ctx.cls("C", [F("a", int), F("x", typing.Optional[int], default=None, opts=fo), F("k", int, default=4, dc=dict(kw_only=True))], **o)
        return c, [lambda: ctx.make(c, 1), lambda: ctx.make(c, 1, 5, k=9), lambda: ctx.make(c, 1, 0)]

    return b


def misc(name):
    def b(ctx, **o):
        if name == "flatten":
            i = ctx.cls("I", [F("p", int), F("q", typing.Optional[str], default=None)], **o)
            c = ctx.cls("C", [F("a", int), F("i", i, opts=dict(flatten=True)), F("rest", dict[str, typing.Any], factory=dict, opts=dict(flatten=True))], **o)
            return c, [lambda: ctx.make(c, 1, ctx.make(i, 2)), lambda: ctx.make(c, 1, ctx.make(i, 2, "q"), {"z": 1})]
        if name == "transparent":
            c = ctx.cls("C", [F("p", pathlib.Path)], transparent=True, **o)
            return c, [lambda: ctx.make(c, pathlib.Path("/p"))]
        if name == "generic":
            T = typing.TypeVar("T")
            g = ctx.cls("G", [F("v", T), F("l", list[T])], bases=(typing.Generic[T],), **o)
            c = ctx.cls("C", [F("g", g[pathlib.Path])], **o)
            return c, [lambda: ctx.make(c, ctx.make(g, pathlib.Path("a"), [pathlib.Path("b")]))]
        if name == "plain":
            p = dataclasses.dataclass(ctx.rawcls("P", [F("p", pathlib.Path), F("u", typing.Union[int, str])]))
            c = ctx.cls("C", [F("a", p), F("l", list[p])], **o)
            return c, [lambda: ctx.make(c, ctx.make(p, pathlib.Path("a"), "u"), [])]
        if name == "inherit":
            p = ctx.cls("P", [F("p", pathlib.Path)], **o)
            c = ctx.cls("C", [F("u", typing.Union[int, str])], bases=(p,), **o)
            return c, [lambda: ctx.make(c, pathlib.Path("a"), "u")]
        if name == "legacy":
            skip = ctx.get("compat.SerdeSkip")

            def ser(t, v):
                if t is int:
                    return [v]
                raise ctx.call(skip)

            def de(t, v):
                if t is int:
                    return v[0] if isinstance(v, list) else v
                raise ctx.call(skip)

            c = ctx.cls("C", [F("a", int), F("l", list[int]), F("s", str)], serializer=ser, deserializer=de, **o)
            return c, [lambda: ctx.make(c, 1, [2], "s")]
        if name == "literal":
            c = ctx.cls("C", [F("a", typing.Literal[1, "x"]), F("b", Color), F("c", Lvl)], **o)
            return c, [lambda: ctx.make(c, 1, Color.RED, Lvl.HI), lambda: ctx.make(c, "x", Color.BLUE, Lvl.LO)]
        if name == "postinit":
            c = ctx.cls("C", [F("a", int)], ns={"__post_init__": lambda self: None}, **o)
            return c, [lambda: ctx.make(c, 1)]
        if name == "empty":
            c = ctx.cls("C", [], **o)
            return c, [lambda: ctx.make(c)]
        if name == "frozen-slots":
            c = ctx.cls("C", [F("a", int), F("b", typing.Optional[int], default=None)], dc=dict(frozen=True, slots=True), **o)
            return c, [lambda: ctx.make(c, 1)]
        if name == "odd-names":
            c = ctx.cls("C", [F("data", int), F("obj", str, opts=dict(rename="it's \"q\" \\ {{x}}\n")), F("cls_", list[int])], **o)
            return c, [lambda: ctx.make(c, 1, "s", [2])]
        raise AssertionError(name)

    return b


MISC = ["flatten", "transparent", "generic", "plain", "inherit", "legacy", "literal", "postinit", "empty", "frozen-slots", "odd-names"]
CLASSOPTS = ["camel", "deny", "coerce", "disabled", "reuse", "sets", "skipnone", "skipdef", "classvar"]
FIELDOPTS = ["rename", "alias", "skip", "skip_s", "skip_d", "skip_if", "skip_if_false", "skip_if_default", "skip_if_none", "ser"]
CALLS = [{}, dict(reuse_instances=False, convert_sets=True), dict(skip_none=True)]


def declarations(tier):
    for sh in field_shapes(tier):
        yield f"shape:{sh.label}", shape(sh)
    for pn in POSITIONS:
        yield f"pos:{pn}", posn(pn, PATH)
    for tn in TAGS:
        yield f"union:{tn}", union(tn)
    for n in CLASSOPTS:
        yield f"class:{n}", classopt(n)
    for n in FIELDOPTS:
        yield f"field:{n}", fieldopt(n)
    for n in MISC:
        yield f"misc:{n}", misc(n)


def observe(ctx, c, mk, corrupting=True):
    """Every operation of a class, in a form comparable with another declaration of it."""
    if isinstance(c, Exc):
        return [("declare", norm(c))]
    out = []
    inputs = []
    for i, m in enumerate(mk):
        v = m()
        if isinstance(v, Exc):
            out.append((f"make{i}", norm(v)))
            continue
        kw = {} if dataclasses.is_dataclass(type(v)) else dict(c=c)
        for call in CALLS:
            for n, to, fr in (("dict", ctx.to_dict, ctx.from_dict), ("tuple", ctx.to_tuple, ctx.from_tuple)):
                d = to(v, **call, **kw)
                out.append((f"to_{n}{i}{call}", norm(d)))
                if not isinstance(d, Exc) and not any(same(d, e) and fr is g for e, g, _ in inputs):
                    inputs.append((d, fr, n))
    for i, (d, fr, n) in enumerate(inputs):
        out.append((f"from_{n}{i}", norm(fr(c, d))))
        out.append((f"from_{n}{i}r", norm(fr(c, d, reuse_instances=True))))
    if corrupting and inputs:
        d, fr, n = inputs[0]
        for p, b in list(corrupt(d, few=True))[:12]:
            out.append((f"corrupt{p}", norm(fr(c, b))))
    return out


def compare(ctx, rule, a, b, **detail):
    da, db = dict((k, v) for k, v in a), dict((k, v) for k, v in b)
    ctx.check(list(da) == list(db), rule, "different operations succeed", a=list(da), b=list(db), **detail)
    for k in da:
        if k in db:
            ctx.check(same(da[k], db[k]), rule, "a result differs", operation=k, a=da[k], b=db[k], **detail)


def init(ctx, on):
    ctx.call(ctx.get("core.init"), on)


def modes(decl, cfg):
    def run(ctx):
        init(ctx, False)
        a = observe(ctx, *decl(ctx))
        ctx.ops.black_fails = cfg == "fails"
        init(ctx, True)
        c, mk = decl(ctx)
        if cfg == "off-again":
            init(ctx, False)
        compare(ctx, "debug", a, observe(ctx, c, mk), config=cfg)
        if cfg == "present":
            init(ctx, False)
            compare(ctx, "debug", a, observe(ctx, *decl(ctx)), config="off after on")

    return run


def mixed(decl):
    """The decorators run under different settings."""

    def run(ctx):
        init(ctx, False)
        a = observe(ctx, *decl(ctx), corrupting=False)
        for first in (True, False):
            c, mk = decl(ctx)
            if isinstance(c, Exc) or not isinstance(c, type):
                return
            init(ctx, not first)
            b = observe(ctx, c, mk, corrupting=False)
            compare(ctx, "debug", a, b, config=f"used with debug {not first}")

    return run


def quiet(decl):
    def run(ctx):
        c, mk = decl(ctx)
        a = observe(ctx, c, mk)
        if isinstance(c, Exc) or not dataclasses.is_dataclass(c):
            return
        x = mk[0]() if mk else None
        inspect = ctx.get("inspect.inspect")
        for dbg in (False, True):
            init(ctx, dbg)
            g = watched(ctx, [c, x])
            ctx.ops.effects = []
            try:
                for n in ("se.is_serializable", "de.is_deserializable"):
                    for o in (c, x):
                        if o is None or isinstance(o, Exc):
                            continue
                        r = ctx.call(ctx.get(n), o)
                        ctx.check(r is True, "predicate", f"{n} is not True", result=r, on=o)
                r = ctx.call(repr, getattr(c, "__serde__"))
                ctx.ok(r, "introspect", "repr of the scope fails")
                r = ctx.call(inspect, c)
                ctx.ok(r, "introspect", "inspection fails")
                for o in (1, "x", int, None, [c], Foreign):
                    for n in ("se.is_serializable", "de.is_deserializable"):
                        r = ctx.call(ctx.get(n), o)
                        ctx.check(r is False, "predicate", f"{n} is not False", result=r, on=o)
                hits = [(k, type(o).__name__, repr(d)[:80]) for k, o, d, *_ in ctx.ops.effects if id(o) in g]
            finally:
                ctx.ops.effects = None
            ctx.check(not hits, "introspect", "an introspection function writes to the class or to generator state", writes=hits)
            compare(ctx, "introspect", a, observe(ctx, c, mk), after="introspection")

    return run


def watched(ctx, roots):
    from .p23 import shared

    return shared(ctx, [r for r in roots if isinstance(r, type)])


def predicates(ctx):
    for d in ("serde", ("serialize", "deserialize"), ("deserialize", "serialize")):
        c = ctx.cls("C", [F("a", int)], deco=d)
        for n in ("se.is_serializable", "de.is_deserializable"):
            ctx.check(ctx.call(ctx.get(n), c) is True, "predicate", on="class", deco=d)
            ctx.check(ctx.call(ctx.get(n), ctx.make(c, 1)) is True, "predicate", on="instance", deco=d)
    c = ctx.cls("C", [F("a", int)], deco="serialize")
    ctx.check(ctx.call(ctx.get("se.is_serializable"), c) is True and ctx.call(ctx.get("se.is_serializable"), ctx.make(c, 1)) is True, "predicate", deco="serialize")
    c = ctx.cls("C", [F("a", int)], deco="deserialize")
    ctx.check(ctx.call(ctx.get("de.is_deserializable"), c) is True and ctx.call(ctx.get("de.is_deserializable"), ctx.make(c, 1)) is True, "predicate", deco="deserialize")
    s = ctx.cls("S", [F("b", int)], bases=(c,), deco=None)
    ctx.check(ctx.call(ctx.get("de.is_deserializable"), s) is True, "predicate", "subclass of a decorated class")
    p = dataclasses.dataclass(ctx.rawcls("P", [F("a", int)]))
    for n in ("se.is_serializable", "de.is_deserializable"):
        r = ctx.call(ctx.get(n), p)
        ctx.check(r in (True, False), "predicate", result=r)
    ctx.check(not any(k.startswith("__serde") for k in vars(p)), "introspect", "a predicate generates code", attributes=list(vars(p)))
    v = ctx.make(p, 1)
    ctx.eq(ctx.to_dict(v), {"a": 1}, "introspect")
    for n in ("se.is_serializable", "de.is_deserializable"):
        ctx.ok(ctx.call(ctx.get(n), p), "predicate")
    ctx.eq(ctx.from_dict(p, {"a": 1}), v, "introspect")


def scenarios(tier):
    out = [Scenario("predicates", predicates)]
    for n, d in declarations(tier):
        out.append(Scenario(f"modes:present:{n}", modes(d, "present")))
        out.append(Scenario(f"modes:fails:{n}", modes(d, "fails")))
        out.append(Scenario(f"modes:off-again:{n}", modes(d, "off-again")))
        out.append(Scenario(f"modes:missing:{n}", modes(d, "missing"), missing=("orjson", "black")))
        out.append(Scenario(f"mixed:{n}", mixed(d)))
        out.append(Scenario(f"quiet:{n}", quiet(d)))
    return out
