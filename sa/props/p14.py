"""P14: union tagging."""
import copy
import itertools
from ..harness import F, Scenario, Exc
from ..shapes import *
from ..values import Foreign
from .p12 import bad, corrupt

RULES = ["a union value is written under the configured tagging with its variant's class name; non-dataclass variants untagged",
         "reading that back gives the same variant and value, in fields, nested, in containers and at top level",
         "a tag that names no variant (any other string, other kinds, missing) and content of another variant are SerdeErrors",
         "whatever is read conforms to one variant: the input is never forced into a variant it is not",
         "a value of no variant is not serialized: SerdeError"]
EXPLANATION = ("Abstract interpretation of the generated union functions (and the top-level wrapper cache) over union shapes x taggings "
               "x positions, round trip and wire form; decode inputs range over near-miss tags (including an unknown string, split on "
               "every comparison) and one-node corruptions.")

TAGS = {"External": "external", "Internal": ("internal", "type"), "Internal2": ("internal", "__t"), "Adjacent": ("adjacent", "type", "content"),
        "Adjacent2": ("adjacent", "c", "t"), "Untagged": ("untagged",)}
VA = DCT("VA", [("a", INT), ("x", STR)])
VB = DCT("VB", [("b", INT), ("x", STR)])
VC = DCT("VC", [("c", OptT(INT)), ("cc", ListT(STR))])
VN = DCT("VN", [("n", VA), ("m", OptT(VB))])


def tagging(ctx, tn):
    k = TAGS[tn]
    if k == "external":
        return ctx.get("core.ExternalTagging")
    if k[0] == "internal":
        return ctx.call(ctx.get("core.InternalTagging"), k[1])
    if k[0] == "adjacent":
        return ctx.call(ctx.get("core.AdjacentTagging"), k[1], k[2])
    return ctx.get("core.Untagged")


def U(tn, *es, **k):
    return UnionT(*es, tagging=TAGS[tn], **k)


def retag(sh, tn):
    """The same shape with every union under the tagging."""
    s = copy.copy(sh)
    if isinstance(s, UnionT):
        s.es = tuple(retag(e, tn) for e in s.es)
        s.tagging = TAGS[tn]
        return s
    if isinstance(s, DCT):
        return s
    for a in ("e", "es", "k", "v"):
        x = getattr(s, a, None)
        if isinstance(x, T):
            setattr(s, a, retag(x, tn))
        elif isinstance(x, (list, tuple)) and x and all(isinstance(y, T) for y in x):
            setattr(s, a, type(x)(retag(y, tn) for y in x))
    return s


def classes_alike(sh):
    """Dataclass variants an untagged reader cannot tell apart."""
    if isinstance(sh, UnionT):
        d = [e for e in sh.es if isinstance(e, DCT)]
        if any(set(n for n, t in a.fields) >= set(n for n, t in b.fields if not isinstance(t, OptT)) for a in d for b in d if a is not b):
            return True
        if len([e for e in sh.es if isinstance(e, AliasT) and isinstance(e.e, DCT)]) and d:
            return True
        # a dataclass (written as a mapping) next to a mapping
        if d and any(isinstance(e, DictT) for e in sh.es):
            return True
    return any(classes_alike(k) for k in sh.kids())


def shapes():
    out = list(unions())
    out += [UnionT(VA, VB), UnionT(VB, VA, VC), UnionT(VA, INT, ListT(VB)), UnionT(VN, VA), UnionT(NoneT(), VA, VB), OptT(UnionT(VC, VB)),
            ListT(UnionT(VA, VB)), DictT(STR, UnionT(VA, VB)), TupleT(UnionT(VA, VB), UnionT(VB, VA)), UnionT(ListT(VA), ListT(INT), VB),
            UnionT(DictT(STR, VA), ListT(VB)), DictT(STR, ListT(UnionT(VA, STR, VB))), UnionT(VA, VB, style="pipe"), DequeT(UnionT(VA, VB)),
            UnionT(UnionT(VA, INT), VB) if False else UnionT(VA, VB, INT, STR, FLOAT)]
    seen, res = set(), []
    for s in out:
        if s.label not in seen:
            seen.add(s.label)
            res.append(s)
    return res


def roundtrip(sh, tn):
    def run(ctx):
        t = sh.t(ctx)
        c = ctx.cls("Holder", [F("before", int), F("x", t), F("after", str)], tagging=tagging(ctx, tn))
        o = ctx.cls("Outer", [F("h", c), F("l", list[c])])
        if not (ctx.ok(c, "decorate") and ctx.ok(o, "decorate")):
            return
        for lab, v in sh.vals(ctx, "v"):
            for named, reuse in ((True, False), (True, True), (False, False)):
                x = ctx.make(c, var("p", int), v, var("q", str))
                w = sh.wire(ctx, v, Opts(named, reuse, False))
                d = (ctx.to_dict if named else ctx.to_tuple)(x, reuse_instances=reuse)
                if not ctx.ok(d, "serialize", value=v):
                    continue
                ctx.check(wire_same(d["x"] if named else d[1], w, lax=True), "wire", "the union is not written as configured",
                          actual=d, expected=w, value=v)
                if tn == "Untagged" and classes_alike(sh):
                    continue
                y = (ctx.from_dict if named else ctx.from_tuple)(c, d, reuse_instances=reuse)
                if ctx.ok(y, "roundtrip", data=d):
                    ctx.eq(y.x, v, "roundtrip", "another value or variant comes back", data=d)
                d = (ctx.to_dict if named else ctx.to_tuple)(ctx.make(o, x, [x, x]), reuse_instances=reuse)
                if ctx.ok(d, "nested"):
                    y = (ctx.from_dict if named else ctx.from_tuple)(o, d, reuse_instances=reuse)
                    if ctx.ok(y, "nested", data=d):
                        ctx.eq((y.h, y.l), (x, [x, x]), "nested", "another value or variant comes back", data=d)

    return run


def top(sh, tn):
    """Top-level unions given with their tagging, before and after the same union under other taggings."""

    def run(ctx):
        t = sh.t(ctx)
        order = [tn] + [k for k in TAGS if k != tn]
        for rnd in range(2):
            for k in order:
                s = retag(sh, k)
                tt = ctx.call(tagging(ctx, k), t) if k != "External" or rnd else t
                if not ctx.ok(tt, "top"):
                    continue
                for lab, v in s.vals(ctx, "v"):
                    d = ctx.to_dict(v, c=tt, reuse_instances=False)
                    if not ctx.ok(d, "top-serialize", value=v, tagging=k):
                        continue
                    w = s.wire(ctx, v, Opts(True, False, False))
                    ctx.check(wire_same(d, w, lax=True), "top-wire", "the union is not written as configured", actual=d, expected=w, tagging=k)
                    if k == "Untagged" and classes_alike(sh):
                        continue
                    y = ctx.from_dict(tt, d, reuse_instances=False)
                    if ctx.ok(y, "top-roundtrip", data=d, tagging=k):
                        ctx.eq(y, v, "top-roundtrip", "another value or variant comes back", data=d, tagging=k)
                if rnd == 0 and k == tn and tn == "External":
                    continue

    return run


def put(tn, name, body):
    k = TAGS[tn]
    if k == "external":
        return {name: body}
    if k[0] == "internal":
        return {**body, k[1]: name}
    if k[0] == "adjacent":
        return {k[1]: name, k[2]: body}
    return body


def misses(name):
    return [name.lower(), name.swapcase(), name + "x", name[:-1], " " + name, name + " ", "", f"abs_user.{name}", f"'{name}'", "Union", "None",
            "str", "int", "object", "UnionABC"]


def wrong_tags(tn, where):
    """Every tag but a variant's own name is refused; content is read by the tagged variant only."""

    def run(ctx):
        es = (VA, VB) if where != "mixed" else (VA, INT, VB, ListT(INT))
        un = U(tn, *es)
        t = un.t(ctx)
        c = ctx.cls("C", [F("u", t)], tagging=tagging(ctx, tn))
        if not ctx.ok(c, "decorate"):
            return
        tt = ctx.call(tagging(ctx, tn), t)
        bodies = {"VA": {"a": var("a", int), "x": var("x", str)}, "VB": {"b": var("b", int), "x": var("x", str)}}
        va, vb = VA.t(ctx), VB.t(ctx)

        def reads(d):
            yield ctx.from_dict(c, {"u": d}), "field", lambda y: y.u
            yield ctx.from_dict(tt, d), "top", lambda y: y
            yield ctx.from_dict(list[t] if tn == "External" else c, [d] if tn == "External" else {"u": d}), "list", (
                (lambda y: y[0]) if tn == "External" else lambda y: y.u)

        for n, body in bodies.items():
            good = ctx.make(va if n == "VA" else vb, *body.values())
            for y, pos, g in reads(put(tn, n, body)):
                if ctx.ok(y, f"right-{pos}"):
                    ctx.eq(g(y), good, f"right-{pos}")
            for bn in bodies:
                if bn == n:
                    continue
                # tagged as n, content of the other variant
                if tn == "Untagged":
                    continue
                for y, pos, g in reads(put(tn, n, bodies[bn])):
                    ctx.check(ctx.is_serde_error(y), f"other-content-{pos}", "content is read by a variant that is not tagged", result=y)
            if tn == "Untagged":
                continue
            for m in misses(n):
                for y, pos, g in reads(put(tn, m, body)):
                    ctx.check(ctx.is_serde_error(y), f"tag-{pos}", "a tag that names no variant is accepted", result=y, tag=m)
            if TAGS[tn] != "external":
                for m in (None, 1, True, [], {}, [n], var("ft", Foreign), ctx.make(va, 1, "s"), va):
                    for y, pos, g in reads(put(tn, m, body)):
                        ctx.check(ctx.is_serde_error(y), f"tag-kind-{pos}", "a tag that names no variant is accepted", result=y, tag=m)
                d = put(tn, n, body)
                for k in [x for x in d if x in TAGS[tn][1:]]:
                    for y, pos, g in reads({a: b for a, b in d.items() if a != k}):
                        ctx.check(ctx.is_serde_error(y), f"no-tag-{pos}", "input without tag or content is accepted", result=y, missing=k)
                # the tag as an unknown string: accepted only where it is the name
                def unknown():
                    tag = var("tag", str)
                    y = ctx.from_dict(c, {"u": put(tn, tag, body)})
                    tag = resolve(tag)
                    if isinstance(y, Exc):
                        ctx.check(ctx.is_serde_error(y) and not same(tag, n), "unknown-tag", "the right tag is refused", result=y, tag=tag)
                    else:
                        ctx.check(same(tag, n), "unknown-tag", "a string other than the name is accepted as tag", result=y, tag=tag)
                        ctx.eq(y.u, good, "unknown-tag")

                ctx.isolated(unknown)
            # under another tagging's form
            for other in TAGS:
                if other == tn or TAGS[other] in (TAGS[tn],) or other == "Untagged":
                    continue
                d = put(other, n, body)
                if tn.startswith("Internal") and other.startswith("Internal"):
                    pass
                for y, pos, g in reads(d):
                    ctx.check(ctx.is_serde_error(y), f"form-{pos}", "the form of another tagging is accepted", result=y, data=d)
            for d in ({}, None, "VA", n, [n, body], [body], body, {n: None}, {n: []}):
                for y, pos, g in reads(d):
                    ctx.check(ctx.is_serde_error(y), f"shape-{pos}", "input without the tagging is accepted", result=y, data=d)

    return run


def conforming(sh, tn):
    """Whatever the input, a result is a value of one of the variants."""

    def run(ctx):
        t = sh.t(ctx)
        c = ctx.cls("C", [F("u", t)], tagging=tagging(ctx, tn), type_check=ctx.get("core.disabled"))
        if not ctx.ok(c, "decorate"):
            return
        ds = list(bad())
        for lab, v in sh.vals(ctx, "v"):
            w = sh.wire(ctx, v, Opts(True, False, True))
            for w in w.alts if isinstance(w, OneOf) else [w]:
                ds += [d for _, d in corrupt(w, few=True)]
        for d in ds:
            def go():
                y = ctx.from_dict(c, {"u": d}, reuse_instances=False)
                if not isinstance(y, Exc):
                    ctx.check(ctx.ops.truth(ctx.ops.conform(y.u, t)), "conform", "the result is a value of no variant", data=d, value=y.u)
                    scalar(ctx, d, y.u, sh)

            ctx.isolated(go)

    return run


def scalar(ctx, d, v, sh):
    """A scalar read for a union of scalars is that scalar."""
    if not isinstance(sh, UnionT) or not all(isinstance(e, Prim) for e in sh.es):
        return
    ctx.eq(v, d, "scalar", "a scalar was turned into another one")


def not_a_variant(tn):
    def run(ctx):
        a, b, other = VA.t(ctx), VB.t(ctx), VC.t(ctx)
        c = ctx.cls("C", [F("u", typing.Union[a, b, int])], tagging=tagging(ctx, tn), type_check=ctx.get("core.disabled"))
        if not ctx.ok(c, "decorate"):
            return
        t = ctx.call(tagging(ctx, tn), typing.Union[a, b, int])
        for v in (None, var("s", str), var("f", float), [1], {}, ctx.make(other, None, []), [ctx.make(a, 1, "x")], a, var("z", Foreign)):
            ctx.raises(ctx.to_dict(ctx.make(c, v)), "not-a-variant")
            ctx.raises(ctx.to_tuple(ctx.make(c, v)), "not-a-variant")
            if v is not None:
                ctx.raises(ctx.to_dict(v, c=t), "not-a-variant-top")

    return run


def levels(tn, im):
    """A class used inside a union keeps the tagging of its own unions."""

    def run(ctx):
        inner = U(im, VA, VB)
        i = ctx.cls("I", [F("u", inner.t(ctx)), F("l", list[inner.t(ctx)])], tagging=tagging(ctx, im))
        o = ctx.cls("O", [F("w", typing.Union[i, VC.t(ctx)]), F("d", inner.t(ctx))], tagging=tagging(ctx, tn))
        if not (ctx.ok(i, "decorate") and ctx.ok(o, "decorate")):
            return
        for (_, a), (_, b) in itertools.product(inner.vals(ctx, "p"), U(tn, VA, VB).vals(ctx, "q")):
            x = ctx.make(o, ctx.make(i, a, [a, a]), b)
            wi = lambda v: inner.wire(ctx, v, Opts(True, False, False))
            want = {"w": put(tn, "I", {"u": wi(a), "l": [wi(a), wi(a)]}), "d": U(tn, VA, VB).wire(ctx, b, Opts(True, False, False))}
            d = ctx.to_dict(x)
            if ctx.ok(d, "levels"):
                ctx.check(wire_same(d, want, lax=True), "levels", "not written as configured", actual=d, expected=want)
                y = ctx.from_dict(o, d)
                if ctx.ok(y, "levels", data=d):
                    ctx.eq(y, x, "levels")

    return run


def related(tn):
    """Variants that inherit from each other, and names that contain each other."""

    def run(ctx):
        b = ctx.cls("Shape", [F("a", int)])
        d = ctx.cls("ShapeX", [F("c", int)], bases=(b,))
        e = ctx.cls("XShape", [F("a", int), F("c", int)])
        s = ctx.cls("Same", [], bases=(b,))
        for vs in ((b, d), (d, b), (b, d, e), (e, d, b), (b, s), (s, b), (b, e, d, s)):
            c = ctx.cls("C", [F("u", typing.Union[vs]), F("l", list[typing.Union[vs]])], tagging=tagging(ctx, tn))
            if not ctx.ok(c, "decorate"):
                continue
            t = ctx.call(tagging(ctx, tn), typing.Union[vs])
            for k in vs:
                o = ctx.make(k, *([1, 2] if k in (d, e) else [1]))
                body = {"a": 1, "c": 2} if k in (d, e) else {"a": 1}
                x = ctx.make(c, o, [o])
                w = ctx.to_dict(x)
                want = put(tn, k.__name__, body)
                if ctx.ok(w, "related"):
                    ctx.check(wire_same(w, {"u": want, "l": [want]}, lax=True), "related", "not written as configured", actual=w, expected=want)
                    y = ctx.from_dict(c, w)
                    if tn != "Untagged" and ctx.ok(y, "related", data=w):
                        ctx.eq(y, x, "related", "another variant comes back")
                w = ctx.to_dict(o, c=t)
                if ctx.ok(w, "related-top"):
                    ctx.check(wire_same(w, want, lax=True), "related-top", "not written as configured", actual=w, expected=want)

    return run


def bad_tagging(ctx):
    """A tagging without its names is refused where it is given."""
    T_, K = ctx.get("core.Tagging"), ctx.get("core.Tagging").Kind
    for tg in (ctx.call(T_, kind=K.Internal), ctx.call(T_, kind=K.Adjacent), ctx.call(T_, "t", kind=K.Adjacent)):
        for deco in ("serde", "se.serialize", "de.deserialize"):
            c = ctx.cls("C", [F("u", typing.Union[int, str])], deco=deco, tagging=tg)
            ctx.raises(c, "bad-tagging")


def generic(tn):
    def run(ctx):
        TV = typing.TypeVar("TV")
        g = ctx.cls("G", [F("g", TV)], bases=(typing.Generic[TV],))
        c = ctx.cls("C", [F("u", typing.Union[g[int], VB.t(ctx)]), F("o", typing.Union[str, g[str]])], tagging=tagging(ctx, tn))
        if not ctx.ok(c, "decorate"):
            return
        for u in (ctx.make(g, var("i", int)), VB.vals(ctx, "b")[0][1]):
            for o in (var("s", str), ctx.make(g, var("z", str))):
                x = ctx.make(c, u, o)
                d = ctx.to_dict(x)
                if ctx.ok(d, "generic"):
                    y = ctx.from_dict(c, d)
                    if ctx.ok(y, "generic", data=d):
                        ctx.eq(y, x, "generic", data=d)

    return run


def scenarios(tier):
    out = []
    for s0 in shapes():
        for tn in TAGS:
            if tn.endswith("2") and tier == "quick" and not any(isinstance(e, DCT) for e in (s0.kids() or [])):
                continue
            s = retag(s0, tn)
            out.append(Scenario(f"{tn}:{s0.label}", roundtrip(s, tn)))
            if not isinstance(s0, TupleT) and (tn in ("External", "Adjacent", "Untagged") or tier == "thorough"):
                out.append(Scenario(f"conform:{tn}:{s0.label}", conforming(s, tn), budget=20000))
        if isinstance(s0, UnionT):
            for tn in ("External", "Internal", "Untagged"):
                out.append(Scenario(f"top:{tn}:{s0.label}", top(s0, tn)))
    for tn in TAGS:
        for w in ("plain", "mixed"):
            out.append(Scenario(f"tags:{tn}:{w}", wrong_tags(tn, w), budget=20000))
        out.append(Scenario(f"none:{tn}", not_a_variant(tn)))
        out.append(Scenario(f"related:{tn}", related(tn)))
        if tn != "Untagged":
            out.append(Scenario(f"generic:{tn}", generic(tn)))
        for im in TAGS:
            out.append(Scenario(f"levels:{tn}:{im}", levels(tn, im)))
    out.append(Scenario("bad-tagging", bad_tagging))
    return out
