"""P28: the decorators are equivalent compositions and honour every option."""
from ..harness import F, Scenario, Exc, same
from ..shapes import *
from ..values import AV
from .p12 import corrupt
from .p14 import TAGS, tagging
from .p17 import methods
from .p27 import norm, compare

RULES = ["@serde(options), @serialize + @deserialize and @deserialize + @serialize with the same options behave the same, with and without @dataclass and parentheses",
         "an option given to one of the two decorators takes effect for its direction, whatever options the other one has and whichever runs first",
         "a decorated subclass behaves as a class with the same fields and options but no base; its base behaves as before",
         "an undecorated dataclass subclass keeps its own fields"]
EXPLANATION = ("Differential abstract interpretation: one declaration is decorated in every composition, with every option, pair of options and "
               "pair of different options for the two directions; all operations on abstract values, on the written data and on one-node "
               "corruptions of it are compared.")

OPTS = {
    "none": lambda ctx: {},
    "camel": lambda ctx: dict(rename_all="camelcase"),
    "kebab": lambda ctx: dict(rename_all="kebabcase"),
    "deny": lambda ctx: dict(deny_unknown_fields=True),
    "coerce": lambda ctx: dict(type_check=ctx.get("core.coerce")),
    "disabled": lambda ctx: dict(type_check=ctx.get("core.disabled")),
    "noreuse": lambda ctx: dict(reuse_instances_default=False),
    "sets": lambda ctx: dict(convert_sets_default=True),
    "skipnone": lambda ctx: dict(skip_if_none=True),
    "skipdef": lambda ctx: dict(skip_if_default=True),
    "classvar": lambda ctx: dict(serialize_class_var=True),
    "internal": lambda ctx: dict(tagging=tagging(ctx, "Internal")),
    "adjacent": lambda ctx: dict(tagging=tagging(ctx, "Adjacent")),
    "untagged": lambda ctx: dict(tagging=tagging(ctx, "Untagged")),
    "legacy": lambda ctx: legacy(ctx),
    "classser": lambda ctx: classser(ctx),
}
ONLY_SE = {"serializer", "class_serializer", "serialize_class_var"}
ONLY_DE = {"deserializer", "class_deserializer", "deny_unknown_fields"}
CLASH = [{"camel", "kebab"}, {"coerce", "disabled"}, {"internal", "adjacent"}, {"internal", "untagged"}, {"adjacent", "untagged"}, {"legacy", "classser"}]
TYPECHECK = {"coerce", "disabled"}


def legacy(ctx):
    skip = ctx.get("compat.SerdeSkip")

    def ser(t, v):
        if t is int:
            return ["i", v]
        raise ctx.call(skip)

    def de(t, v):
        if t is int and isinstance(v, list):
            return v[1]
        raise ctx.call(skip)

    return dict(serializer=ser, deserializer=de)


def classser(ctx):
    class S:
        def serialize(self, v):
            return {"i": v}

    class De:
        def deserialize(self, cls, v):
            return v["i"] if isinstance(v, dict) else v

    S.serialize = methods(S.serialize, [(object, int)])
    De.deserialize = methods(De.deserialize, [(object, type[int], typing.Any)])
    return dict(class_serializer=S(), class_deserializer=De())


def decl(ctx, name="C", bases=(), own=True, extra=()):
    """An undecorated declaration whose behaviour shows every option."""
    fs = [F("my_int", int), F("my_path", pathlib.Path, default=pathlib.Path("dflt")), F("my_opt", typing.Optional[str], default=None),
          F("my_set", set[str], factory=set), F("my_var", typing.ClassVar[str], default="cv"),
          F("my_u", typing.Union[D.t(ctx), D2.t(ctx), str], default="u"), F("my_al", int, default=3, opts=dict(alias=["other"]))]
    return ctx.rawcls(name, (fs if own else []) + list(extra), tuple(bases))


def values(ctx, c, *more):
    d = D.t(ctx)
    return [ctx.make(c, 0, **dict(more)), ctx.make(c, 1, pathlib.Path("p"), "o", {"s"}, ctx.make(d, 1, "s"), 5, **dict(more)),
            ctx.make(c, 2, pathlib.PurePosixPath("q"), "", {"t"}, "uu", **dict(more))]


CALLS = [{}, dict(reuse_instances=True), dict(reuse_instances=False, convert_sets=True), dict(skip_none=True)]


def se(ctx, c, *more):
    if isinstance(c, Exc):
        return [("declare", norm(c))]
    out = []
    for i, v in enumerate(values(ctx, c, *more)):
        out.append((f"make{i}", norm(v)))
        if isinstance(v, Exc):
            continue
        for k in CALLS:
            out.append((f"to_dict{i}{k}", norm(ctx.to_dict(v, **k))))
            out.append((f"to_tuple{i}{k}", norm(ctx.to_tuple(v, **k))))
    return out


def inputs(ctx, c, *more):
    """Data for the reading direction: what a reference class writes, with corruptions."""
    out = []
    for i, v in enumerate(values(ctx, c, *more)):
        for k in ({}, dict(reuse_instances=False, convert_sets=True)):
            for n, to in (("dict", ctx.to_dict), ("tuple", ctx.to_tuple)):
                d = to(v, **k)
                if not isinstance(d, Exc) and not any(same(d, e) and m == n for m, e in out):
                    out.append((n, d))
    d = next((d for n, d in out if n == "dict"), None)
    if isinstance(d, dict):
        bs = [b for b in (known(b) for p, b in corrupt(d, few=True)) if b is not None]
        out += [("dict", b) for b in bs[:3] + bs[3::max(1, len(bs) // 7)]]
        out += [("dict", {**d, "zz": 1}), ("dict", {**d, "other": 9}), ("dict", {k: v for k, v in d.items() if "al" not in k.lower()} | {"other": 8}),
                ("dict", {k: ("7" if "nt" in k else v) for k, v in d.items()})]
    return out


def known(v):
    try:
        return conc(v)
    except (KeyError, TypeError):
        return None  # a corruption that has no fixed counterpart


def de(ctx, c, ins):
    if isinstance(c, Exc):
        return [("declare", norm(c))]
    out = []
    for i, (n, d) in enumerate(ins):
        f = ctx.from_dict if n == "dict" else ctx.from_tuple
        for k in ({}, dict(reuse_instances=True), dict(reuse_instances=False)):
            out.append((f"from_{n}{i}{k}", norm(f(c, d, **k))))
    return out


def apply(ctx, c, comp, so, do):
    """Decorate c: so / do are the options of the serializing / deserializing direction."""
    so = {"reuse_instances_default": True, **{k: v for k, v in so.items() if k not in ONLY_DE}}
    do = {k: v for k, v in do.items() if k not in ONLY_SE}
    for step in comp.split(">"):
        if step == "dc":
            c = dataclasses.dataclass(c)
            continue
        n, par = step.rstrip("()"), step.endswith("()")
        o = so if n == "serialize" else do if n == "deserialize" else {**do, **so}
        f = ctx.get(n)
        if o:
            c = ctx.call(ctx.call(f, **o), c) if par else ctx.call(f, c, **o)
        else:
            c = ctx.call(ctx.call(f), c) if par else ctx.call(f, c)
        if isinstance(c, Exc):
            return c
    return c


COMPS = ["serde", "serde()", "dc>serde", "dc>serde()", "serialize>deserialize", "deserialize>serialize", "serialize()>deserialize()", "deserialize()>serialize()",
         "dc>serialize>deserialize", "dc>deserialize()>serialize()", "serialize()>deserialize", "dc>deserialize>serialize()"]


def reference(ctx, names):
    o = {}
    for n in names:
        o.update(OPTS[n](ctx))
    return o


def compositions(names, comps):
    def run(ctx):
        o = reference(ctx, names)
        ref = apply(ctx, decl(ctx), "serde", o, o)
        if not ctx.ok(ref, "composition", options=names):
            return
        a, ins = se(ctx, ref), inputs(ctx, ref)
        b = de(ctx, ref, ins)
        for comp in comps:
            c = apply(ctx, decl(ctx), comp, o, o)
            compare(ctx, "composition", a, se(ctx, c), decorators=comp, options=names)
            compare(ctx, "composition", b, de(ctx, c, ins), decorators=comp, options=names)

    return run


def directions(n1, n2, comps):
    """Different options for the two directions."""

    def run(ctx):
        o1, o2 = OPTS[n1](ctx), OPTS[n2](ctx)
        r1, r2 = apply(ctx, decl(ctx), "serde", o1, o1), apply(ctx, decl(ctx), "serde", o2, o2)
        ins = inputs(ctx, r2)
        a, b = se(ctx, r1), de(ctx, r2, ins)
        for comp in comps:
            c = apply(ctx, decl(ctx), comp, o1, o2)
            compare(ctx, "direction", a, se(ctx, c), decorators=comp, serialize=n1, deserialize=n2)
            compare(ctx, "direction", b, de(ctx, c, ins), decorators=comp, serialize=n1, deserialize=n2)

    return run


def single(n):
    """One decorator only."""

    def run(ctx):
        o = OPTS[n](ctx)
        ref = apply(ctx, decl(ctx), "serde", o, o)
        ins = inputs(ctx, ref)
        a, b = se(ctx, ref), de(ctx, ref, ins)
        for pre in ("", "dc>"):
            for par in ("", "()"):
                compare(ctx, "direction", a, se(ctx, apply(ctx, decl(ctx), pre + "serialize" + par, o, o)), options=n, decorators="serialize")
                compare(ctx, "direction", b, de(ctx, apply(ctx, decl(ctx), pre + "deserialize" + par, o, o), ins), options=n, decorators="deserialize")

    return run


def transparent(comps):
    def run(ctx):
        def mk(comp):
            c = ctx.rawcls("C", [F("x", pathlib.Path)])
            return apply(ctx, c, comp, dict(transparent=True), dict(transparent=True))

        def obs(c):
            if isinstance(c, Exc):
                return [("declare", norm(c))]
            v = ctx.make(c, pathlib.Path("p"))
            return [(f"{k}", norm(ctx.to_dict(v, **k))) for k in CALLS] + [(f"t{k}", norm(ctx.to_tuple(v, **k))) for k in CALLS] + \
                [(f"f{i}", norm(ctx.from_dict(c, d))) for i, d in enumerate(["q", pathlib.Path("q"), {"x": "q"}, None, ["q"]])] + \
                [(f"g{i}", norm(ctx.from_tuple(c, d))) for i, d in enumerate(["q", ("q",)])]

        ref = mk("serde")
        if not ctx.ok(ref, "composition"):
            return
        a = obs(ref)
        for comp in comps:
            compare(ctx, "composition", a, obs(mk(comp)), decorators=comp, options="transparent")

    return run


def again(n1, n2, comp):
    """Decorating once more with other options: the last decoration counts."""

    def run(ctx):
        o1, o2 = OPTS[n1](ctx), OPTS[n2](ctx)
        ref = apply(ctx, decl(ctx), comp, o2, o2)
        ins = inputs(ctx, ref)
        a, b = se(ctx, ref), de(ctx, ref, ins)
        c = apply(ctx, decl(ctx), comp, o1, o1)
        if not ctx.ok(c, "again"):
            return
        se(ctx, c)
        c = apply(ctx, c, comp, o2, o2)
        compare(ctx, "again", a, se(ctx, c), first=n1, second=n2, decorators=comp)
        compare(ctx, "again", b, de(ctx, c, ins), first=n1, second=n2, decorators=comp)

    return run


def subclass(n1, n2, comp, mid=None):
    """Base decorated with n1, subclass with n2."""

    def run(ctx):
        o1, o2 = OPTS[n1](ctx), OPTS[n2](ctx)
        extra = [F("own_f", typing.Optional[pathlib.Path], default=None)]
        more = (("own_f", pathlib.Path("own")),)
        ref = apply(ctx, decl(ctx, "S", extra=extra), comp, o2, o2)
        if not ctx.ok(ref, "inherit"):
            return
        ins = inputs(ctx, ref, *more)
        a, b = se(ctx, ref, *more), de(ctx, ref, ins)
        base = apply(ctx, decl(ctx, "B"), comp, o1, o1)
        if not ctx.ok(base, "inherit"):
            return
        bins = inputs(ctx, base)
        ba, bb = se(ctx, base), de(ctx, base, bins)
        up = base
        if mid:
            om = OPTS[mid](ctx)
            up = apply(ctx, decl(ctx, "M", bases=(base,), own=False), comp, om, om)
        if mid == "plain":
            up = decl(ctx, "M", bases=(base,), own=False)
        c = apply(ctx, decl(ctx, "S", bases=(up,), own=False, extra=extra), comp, o2, o2)
        compare(ctx, "inherit", a, se(ctx, c, *more), base=n1, sub=n2, decorators=comp)
        compare(ctx, "inherit", b, de(ctx, c, ins), base=n1, sub=n2, decorators=comp)
        compare(ctx, "inherit", ba, se(ctx, base), base=n1, sub=n2, decorators=comp, of="base")
        compare(ctx, "inherit", bb, de(ctx, base, bins), base=n1, sub=n2, decorators=comp, of="base")

    return run


def family(ctx, n, kind):
    """A decorated base, a subclass without decorator and values of it."""
    o = OPTS[n](ctx)
    b = apply(ctx, ctx.rawcls("B", [F("a", int), F("b", typing.Optional[str], default=None)]), "serde", o, o)
    if isinstance(b, Exc):
        return b, None, None
    if kind == "field":
        s = dataclasses.dataclass(ctx.rawcls("S", [F("c", list[int], factory=list), F("d", typing.Optional[int], default=None)], (b,)))
        xs = [s(1, "b", [2], 3), s(1)]
    elif kind == "redeclared":
        s = dataclasses.dataclass(ctx.rawcls("S", [F("b", typing.Optional[int], default=None), F("d", int, default=0)], (b,)))
        xs = [s(1, 5, 3), s(1)]
    else:
        m = dataclasses.dataclass(ctx.rawcls("M", [F("c", list[int], factory=list)], (b,)))
        s = dataclasses.dataclass(ctx.rawcls("S", [F("d", typing.Optional[int], default=None)], (m,)))
        xs = [s(1, "b", [2], 3), s(1)]
    return b, s, xs


def undecorated(n, kind):
    """A dataclass subclass without decorator keeps its fields."""

    def run(ctx):
        b, s, xs = family(ctx, n, kind)
        if not ctx.ok(b, "undecorated"):
            return
        names = [f.name for f in dataclasses.fields(s)]
        for use in ("first", "second"):
            for x in xs:
                d = ctx.to_dict(x)
                if not ctx.ok(d, "undecorated"):
                    return
                if n in ("none", "deny", "camel", "noreuse", "sets"):
                    ctx.check(list(d) == names, "undecorated", "a field is lost", data=d, options=n)
                    ctx.check(len(ctx.to_tuple(x)) == len(names), "undecorated", "a field is lost", data=ctx.to_tuple(x), options=n)
                    ctx.eq(ctx.from_tuple(s, ctx.to_tuple(x)), x, "undecorated", options=n)
                ctx.eq(ctx.from_dict(s, d), x, "undecorated", options=n)
        # reading is what a fresh subclass is used for first
        for tup in (False, True) if n in ("none", "deny", "camel") else (False,):
            _, s2, xs2 = family(ctx, n, kind)
            for x, x2 in zip(xs, xs2):
                d = ctx.to_tuple(x) if tup else ctx.to_dict(x)
                ctx.eq((ctx.from_tuple if tup else ctx.from_dict)(s2, d), x2, "undecorated", options=n, first="reading")
        # in a field and in a container of another class
        for first in ("writing", "reading"):
            b2, s2, xs2 = family(ctx, n, kind)
            h = ctx.cls("H", [F("s", s2), F("l", list[s2])])
            d = {"s": ctx.to_dict(xs[0]), "l": [ctx.to_dict(xs[1])]}
            v = ctx.make(h, xs2[0], [xs2[1]])
            if first == "writing":
                ctx.eq(ctx.to_dict(v), d, "undecorated", options=n)
            ctx.eq(ctx.from_dict(h, d), v, "undecorated", options=n, first=first)
        # the base is as before
        y = ctx.make(b, 1, "x")
        ctx.eq(ctx.from_dict(b, ctx.to_dict(y)), y, "undecorated", options=n)
        ctx.check(len(ctx.to_dict(y)) == 2, "undecorated", "the base gets the subclass's fields", data=ctx.to_dict(y))

    return run


def scenarios(tier):
    th = tier == "thorough"
    out = []
    names = list(OPTS)
    chunks = [COMPS[1:5], COMPS[5:9], COMPS[9:]]
    for n in names:
        for i, ch in enumerate(chunks):
            out.append(Scenario(f"comp:{n}:{i}", compositions([n], ch)))
        out.append(Scenario(f"single:{n}", single(n)))
    for i, a in enumerate(names[1:]):
        for j, b in enumerate(names[1:]):
            if a < b and {a, b} not in CLASH:
                for k, ch in enumerate(chunks if th else [[COMPS[4 + (i + j) % 8]]]):
                    out.append(Scenario(f"pair:{a}+{b}:{k}", compositions([a, b], ch)))
    for a in names:
        for b in names:
            if a != b and not {a, b} & TYPECHECK:
                for k, ch in enumerate(chunks[0][3:] + chunks[1] + chunks[2] if th else ["serialize>deserialize", "deserialize()>serialize()"]):
                    out.append(Scenario(f"dir:{a}/{b}:{ch}", directions(a, b, [ch])))
            if a != b:
                cs = ("serde", "serialize>deserialize", "deserialize>serialize")
                for comp in cs if th else (cs[(names.index(a) + names.index(b)) % 3],):
                    out.append(Scenario(f"sub:{a}:{b}:{comp}", subclass(a, b, comp)))
        out.append(Scenario(f"sub:{a}:{a}:serde", subclass(a, a, "serde")))
        for b in ("none", "camel", "skipnone"):
            for mid in ("none", "deny", "noreuse"):
                if b != a:
                    out.append(Scenario(f"sub3:{a}:{mid}:{b}", subclass(a, b, "serde", mid)))
        for comp in ("serde", "serialize>deserialize"):
            for b in ("none", "camel", "sets"):
                if a != b and not {a, b} & TYPECHECK:
                    out.append(Scenario(f"again:{a}:{b}:{comp}", again(a, b, comp)))
        for kind in ("field", "redeclared", "two"):
            if a not in ("legacy", "classser"):
                out.append(Scenario(f"undecorated:{a}:{kind}", undecorated(a, kind)))
    out.append(Scenario("transparent", transparent(COMPS[1:])))
    return out
