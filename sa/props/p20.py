"""P20: a transparent class is represented by its single inner value."""
import itertools
from ..harness import F, Scenario, Exc, same
from ..positions import POSITIONS, HASH_POSITIONS
from ..shapes import *
from ..values import var, AV
from .p07 import kinds, pick
from .p12 import bad
from .p13 import tc

RULES = ["a transparent object is written, as dict, tuple and in every format, at top level and at every position, exactly as its inner value is there",
         "it is read from what its inner value is read from; what its inner type rejects is rejected",
         "options and attributes (skip_none, reuse, convert_sets, numbers, custom functions, type check, tagging) act on the inner value as they do on a plain field",
         "a class without exactly one init=True, non-skipped field, or with further fields that are init=True or not skipped, is rejected with SerdeError"]
EXPLANATION = ("Abstract interpretation.  Oracle: the documented wire form of the inner type, and the same program's treatment of the inner type in "
               "a plain field.  Every field shape x layouts x options; every position; every layout of up to three fields of twelve kinds.")


def plain(x):
    if isinstance(x, OneOf):
        return plain(x.alts[-1])
    if isinstance(x, dict):
        return {plain(k): plain(v) for k, v in x.items()}
    return type(x)(map(plain, x)) if isinstance(x, (list, tuple)) else x


def wire(sh, ctx, v):
    return plain(sh.wire(ctx, v, Opts(True, False, True)))


def tcls(ctx, t, name="Tr", layout="one", fo=None, **opts):
    x = F("x", t, opts=fo or {})
    pad = lambda n: F(n, int, default=5, opts=dict(skip=True), dc=dict(init=False))
    fs = {"one": [x], "after": [x, pad("y")], "before": [pad("y"), x], "both": [pad("y"), x, pad("z")],
          "kw": [pad("y"), F("x", t, opts=fo or {}, dc=dict(kw_only=True))], "rename": [F("x", t, opts=dict(rename="R", **(fo or {})))],
          "alias": [F("x", t, opts=dict(alias=["a", "b"], **(fo or {})))]}[layout]
    return ctx.cls(name, fs, transparent=True, **opts)


LAYOUTS = ["one", "after", "before", "both", "kw", "rename", "alias"]


def top(sh, layout, **opts):
    def run(ctx):
        t = sh.t(ctx)
        c = tcls(ctx, t, layout=layout, **opts)
        if not ctx.ok(c, "decorate"):
            return
        for lab, v in sh.vals(ctx, "x"):
            x = ctx.make(c, x=v)
            if not ctx.ok(x, "construct"):
                continue
            for kw in ({}, dict(reuse_instances=False), dict(reuse_instances=False, convert_sets=True), dict(reuse_instances=True, convert_sets=True)):
                o = Opts(True, kw.get("reuse_instances", True), kw.get("convert_sets", False))
                d = ctx.to_dict(x, **kw)
                if ctx.ok(d, "write", options=kw):
                    ctx.check(wire_same(d, sh.wire(ctx, v, o)), "write", "not written as the inner value", actual=d, expected=sh.wire(ctx, v, o), options=kw)
                tp = ctx.to_tuple(x, **kw)
                ot = Opts(False, o.reuse, o.sets)
                if ctx.ok(tp, "write", options=kw):
                    ctx.check(wire_same(tp, sh.wire(ctx, v, ot)), "write", "tuple form is not that of the inner value", actual=tp, expected=sh.wire(ctx, v, ot), options=kw)
                y = ctx.from_dict(c, d, reuse_instances=o.reuse)
                if ctx.ok(y, "read", data=d):
                    ctx.eq(y, x, "read", "not restored from the form of the inner value", data=d)
                y = ctx.from_tuple(c, tp, reuse_instances=o.reuse)
                if ctx.ok(y, "read", data=tp):
                    ctx.eq(y, x, "read", "not restored from the tuple form of the inner value", data=tp)

    return run


def beside(sh, mode):
    """The inner type as field, and wrapped: same output and acceptance under every option, also for wrong data."""

    def run(ctx):
        t = sh.t(ctx)
        o = tc(ctx, mode)
        w = tcls(ctx, t, **o)
        plain = ctx.cls("P", [F("f", t), F("l", list[t])], **o)
        box = ctx.cls("B", [F("f", w), F("l", list[w])], **o)
        if not ctx.ok(w, "decorate") or not ctx.ok(box, "decorate"):
            return
        tr = lambda v: ctx.make(w, v)
        for lab, v in sh.vals(ctx, "x"):
            a, b = ctx.make(plain, v, [v]), ctx.make(box, tr(v), [tr(v)])
            for kw in ({}, dict(skip_none=True), dict(reuse_instances=False), dict(convert_sets=True), dict(reuse_instances=False, convert_sets=True, skip_none=True)):
                p, q = ctx.to_dict(a, **kw), ctx.to_dict(b, **kw)
                ctx.check(isinstance(p, Exc) == isinstance(q, Exc) and (isinstance(p, Exc) or wire_same(q, p)), "same", "written differently from the inner value",
                          wrapped=q, plain=p, options=kw)
                kw = {k: x for k, x in kw.items()}
                p, q = ctx.to_tuple(a, **kw), ctx.to_tuple(b, **kw)
                ctx.check(isinstance(p, Exc) == isinstance(q, Exc) and (isinstance(p, Exc) or wire_same(q, p)), "same", "written differently from the inner value",
                          wrapped=q, plain=p, options=kw)
        good = wire(sh, ctx, pick(ctx, sh, "g"))
        for x in [*bad(), good]:
            for kw in ({}, dict(reuse_instances=False)):
                def one():
                    p, q = ctx.from_dict(plain, {"f": x, "l": [x]}, **kw), ctx.from_dict(box, {"f": x, "l": [x]}, **kw)
                    if isinstance(p, Exc):
                        ctx.check(ctx.is_serde_error(q), "rejects", "accepts what the inner type rejects", data=x, wrapped=q, plain=p)
                    elif ctx.ok(q, "accepts", data=x, plain=p):
                        ctx.check(same(q.f.x, p.f) and [same(e.x, f) for e, f in zip(q.l, p.l)] == [True], "same", "read differently from the inner value",
                                  data=x, wrapped=q, plain=p)
                    t1 = ctx.from_dict(w, x, **kw)
                    if isinstance(p, Exc):
                        ctx.check(ctx.is_serde_error(t1), "rejects", "accepts at top level what the inner type rejects", data=x, wrapped=t1, plain=p)
                    elif ctx.ok(t1, "accepts", data=x):
                        ctx.check(same(t1.x, p.f), "same", "read differently from the inner value", data=x, wrapped=t1, plain=p)
                ctx.isolated(one)

    return run


def position(pn, build, sh):
    def run(ctx):
        t = sh.t(ctx)
        w = tcls(ctx, t)
        p = build(ctx, w)
        if not ctx.ok(p.type, "decorate"):
            return
        v = pick(ctx, sh, "x")
        ww = wire(sh, ctx, v)
        x = p.value(ctx.make(w, v))
        if not ctx.ok(x, "construct"):
            return
        tops = [(p.type, p.data(ww), x, False)]
        if p.top is not None:
            tops.append((p.top[0], p.top[1](ww), p.top[2](ctx.make(w, v)), True))
        for tt, d0, val, istop in tops:
            d = ctx.to_dict(val, reuse_instances=False, convert_sets=True, **(dict(c=tt) if istop else {}))
            if ctx.ok(d, "position") and pn != "alias-key":
                ctx.check(wire_same(_l(d), _l(d0)), "position", "not written as the inner value", actual=d, expected=d0, top=istop)
            y = ctx.from_dict(tt, d0, reuse_instances=False)
            if ctx.ok(y, "position", data=d0, top=istop):
                ctx.eq(y, val, "position", "not read from the form of the inner value", data=d0, top=istop)
            if not istop:
                tp = ctx.to_tuple(val, reuse_instances=False, convert_sets=True)
                if ctx.ok(tp, "position"):
                    y = ctx.from_tuple(tt, tp, reuse_instances=False)
                    if ctx.ok(y, "position", data=tp):
                        ctx.eq(y, val, "position", "tuple form is not restored", data=tp)

    return run


def _l(x):
    if isinstance(x, dict):
        return {k: _l(v) for k, v in x.items()}
    return [_l(v) for v in x] if isinstance(x, (list, tuple)) else x


def stacked(sh, depth):
    """Transparent in transparent."""

    def run(ctx):
        t = sh.t(ctx)
        cs = [t]
        for i in range(depth):
            cs.append(tcls(ctx, cs[-1], f"Tr{i}", layout=LAYOUTS[i % len(LAYOUTS)]))
            if not ctx.ok(cs[-1], "decorate"):
                return
        for lab, v in sh.vals(ctx, "x"):
            x = v
            for c in cs[1:]:
                x = ctx.make(c, x=x)
            w = sh.wire(ctx, v, Opts(True, False, True))
            d = ctx.to_dict(x, reuse_instances=False, convert_sets=True)
            if ctx.ok(d, "stack"):
                ctx.check(wire_same(d, w), "stack", actual=d, expected=w)
                y = ctx.from_dict(cs[-1], d, reuse_instances=False)
                if ctx.ok(y, "stack", data=d):
                    ctx.eq(y, x, "stack", data=d)

    return run


def generic(sh):
    def run(ctx):
        TV = typing.TypeVar("TV")
        t = sh.t(ctx)
        g = ctx.cls("G", [F("x", TV)], bases=(typing.Generic[TV],), transparent=True)
        gl = ctx.cls("GL", [F("x", list[TV])], bases=(typing.Generic[TV],), transparent=True)
        box = ctx.cls("Bx", [F("a", g[t]), F("b", list[g[t]]), F("c", gl[t])])
        if not ctx.ok(box, "decorate"):
            return
        v = pick(ctx, sh, "x")
        w = wire(sh, ctx, v)
        x = ctx.make(box, ctx.make(g, v), [ctx.make(g, v)], ctx.make(gl, [v]))
        y = ctx.from_dict(box, {"a": w, "b": [w], "c": [w]}, reuse_instances=False)
        if ctx.ok(y, "generic"):
            ctx.eq(y, x, "generic", data=w)
        for tt, ww, vv in ((g[t], w, x.a), (gl[t], [w], x.c), (list[g[t]], [w], x.b)):
            y = ctx.from_dict(tt, ww, reuse_instances=False)
            if ctx.ok(y, "generic", type=tt):
                ctx.eq(y, vv, "generic", data=ww)

    return run


FORMATS = {"json": ("to_json", "from_json"), "yaml": ("to_yaml", "from_yaml"), "toml": ("to_toml", "from_toml"), "msgpack": ("to_msgpack", "from_msgpack"), "pickle": ("to_pickle", "from_pickle")}


def formats(fmt, sh):
    """Every format, at top level and in a field."""

    def run(ctx):
        se, de = (ctx.get(f"{fmt}.{n}") for n in FORMATS[fmt])
        t = sh.t(ctx)
        w = tcls(ctx, t)
        box = ctx.cls("B", [F("f", w), F("l", list[w]), F("d", dict[str, w])])
        for lab, v in sh.vals(ctx, "x"):
            if v is None and fmt == "toml":
                continue
            x = ctx.make(w, v)
            b = ctx.make(box, x, [x], {"k": x})
            for c, val in ((w, x), (box, b)):
                if c is w and fmt == "toml" and not (dataclasses.is_dataclass(v) or isinstance(v, dict)):
                    continue
                s = ctx.call(se, val)
                if ctx.ok(s, "format", value=val):
                    y = ctx.call(de, c, s)
                    if ctx.ok(y, "format", document=s):
                        ctx.eq(y, val, "format", document=s)
            if fmt in ("json", "yaml", "msgpack"):
                plain = ctx.cls("P", [F("f", t), F("l", list[t]), F("d", dict[str, t])])
                s1, s2 = ctx.call(se, b), ctx.call(se, ctx.make(plain, v, [v], {"k": v}))
                ctx.check(same(s1, s2), "format", "the document differs from that of the inner value", wrapped=s1, plain=s2)

    return run


def attributes(ctx):
    """Attributes of the field and options of the class act on the inner value."""
    up = lambda v: AV("up", (v,), str)
    down = lambda v: AV("down", (v,), int)
    i, s = var("i", int), var("s", str)
    c = tcls(ctx, int, fo=dict(serializer=up, deserializer=down))
    x = ctx.make(c, i)
    ctx.eq(ctx.to_dict(x), up(i), "attribute")
    ctx.eq(ctx.to_tuple(x), up(i), "attribute")
    y = ctx.from_dict(c, s)
    if ctx.ok(y, "attribute"):
        ctx.eq(y.x, down(s), "attribute")
    y = ctx.from_tuple(c, s)
    if ctx.ok(y, "attribute"):
        ctx.eq(y.x, down(s), "attribute")
    box = ctx.cls("B", [F("w", c), F("l", list[c])])
    b = ctx.make(box, x, [x])
    ctx.eq(ctx.to_dict(b), {"w": up(i), "l": [up(i)]}, "attribute")
    y = ctx.from_dict(box, {"w": s, "l": [s]})
    if ctx.ok(y, "attribute"):
        ctx.eq([y.w.x, y.l[0].x], [down(s), down(s)], "attribute")
    for rn in ("camelcase", "uppercase", "pascalcase"):
        c = ctx.cls("Rn", [F("foo_bar", int)], transparent=True, rename_all=rn)
        ctx.eq(ctx.to_dict(ctx.make(c, i)), i, "attribute", rename_all=rn)
        y = ctx.from_dict(c, i)
        if ctx.ok(y, "attribute"):
            ctx.eq(y.foo_bar, i, "attribute")
    for du in (True, False):
        c = ctx.cls("Du", [F("x", dict[str, int])], transparent=True, deny_unknown_fields=du)
        y = ctx.from_dict(c, {"any": i, "x": i})
        if ctx.ok(y, "attribute", deny=du):
            ctx.eq(y.x, {"any": i, "x": i}, "attribute", deny=du)
    d = D.t(ctx)
    from .p14 import TAGS, tagging
    for tn, k in TAGS.items():
        c = ctx.cls("Tg", [F("x", typing.Union[d, int])], transparent=True, tagging=tagging(ctx, tn))
        plain = ctx.cls("Pl", [F("x", typing.Union[d, int])], tagging=tagging(ctx, tn))
        v = ctx.make(d, 1, "s")
        a, b = ctx.to_dict(ctx.make(c, v)), ctx.to_dict(ctx.make(plain, v))
        if ctx.ok(a, "attribute", tagging=tn) and ctx.ok(b, "attribute"):
            ctx.eq(a, b["x"], "attribute", tagging=tn)
            y = ctx.from_dict(c, a)
            if ctx.ok(y, "attribute", data=a):
                ctx.eq(y, ctx.make(c, v), "attribute", data=a)
    c = tcls(ctx, int, type_check=ctx.get("core.coerce"))
    y = ctx.from_dict(c, s)
    p = ctx.from_dict(ctx.cls("Pc", [F("x", int)], type_check=ctx.get("core.coerce")), {"x": s})
    ctx.check(isinstance(y, Exc) == isinstance(p, Exc) and (isinstance(y, Exc) or same(y.x, p.x)), "attribute", actual=y, expected=p)
    for sets in (True, False):
        c = tcls(ctx, set[int], convert_sets_default=sets)
        r = ctx.to_dict(ctx.make(c, {i}))
        ctx.check(type(r) is (list if sets else set), "attribute", "convert_sets_default", actual=r)
    for re in (True, False):
        c = tcls(ctx, pathlib.Path, reuse_instances_default=re)
        p = var("p", pathlib.Path)
        r = ctx.to_dict(ctx.make(c, p))
        if re:
            ctx.eq(r, p, "attribute")
        else:
            ctx.check(not same(r, p), "attribute", "reuse_instances_default", actual=r)
    fn = lambda v: AV("num", (v,), float)
    c = tcls(ctx, float)
    y = ctx.call(ctx.get("de.from_dict"), c, s, deserialize_numbers=fn)
    if ctx.ok(y, "attribute"):
        ctx.eq(y.x, fn(s), "attribute", "number mode is not applied to the inner value")
    # defaults belong to construction, not to the form
    for kw in (dict(default=3), dict(factory=lambda: 3)):
        c = ctx.cls("Df", [F("x", int, **kw)], transparent=True)
        if ctx.ok(c, "attribute"):
            y = ctx.from_dict(c, i)
            if ctx.ok(y, "attribute"):
                ctx.eq(y.x, i, "attribute", "the default replaces the value read")
            ctx.eq(ctx.to_dict(ctx.make(c)), 3, "attribute")
            y = ctx.from_tuple(c, i)
            if ctx.ok(y, "attribute"):
                ctx.eq(y.x, i, "attribute")
    c = ctx.cls("Op", [F("x", typing.Optional[int], default=4)], transparent=True)
    y = ctx.from_dict(c, None)
    if ctx.ok(y, "attribute"):
        ctx.eq(y.x, None, "attribute", "an explicit None takes the default")
    # inheritance: a class derived from a transparent one has a form of its own
    b0 = tcls(ctx, int, name="B0")
    d0 = ctx.cls("D0", [F("y", str)], bases=(b0,))
    ctx.eq(ctx.to_dict(ctx.make(d0, i, s)), {"x": i, "y": s}, "attribute", "a derived class of its own became transparent")
    y = ctx.from_dict(d0, {"x": i, "y": s})
    if ctx.ok(y, "attribute"):
        ctx.eq(y, ctx.make(d0, i, s), "attribute")
    b1 = ctx.cls("B1", [F("x", int)])
    d1 = ctx.cls("D1", [], bases=(b1,), transparent=True)
    ctx.eq(ctx.to_dict(ctx.make(d1, i)), i, "attribute", "an inherited field")
    ctx.eq(ctx.to_dict(ctx.make(b1, i)), {"x": i}, "attribute", "the base class became transparent")
    # post_init sees the inner value once
    log = []
    ns = dict(__post_init__=lambda self: log.append(self.x))
    c = ctx.cls("Pi", [F("x", int)], ns=ns, transparent=True)
    ctx.from_dict(c, i)
    ctx.eq(log, [i], "attribute", "not constructed exactly once")


KINDS = {
    "plain": (dict(), dict()), "kw": (dict(), dict(kw_only=True)), "skip": (dict(skip=True), dict()), "skip-se": (dict(skip_serializing=True), dict()),
    "skip-de": (dict(skip_deserializing=True), dict()), "skip-both": (dict(skip_serializing=True, skip_deserializing=True), dict()),
    "noinit": (dict(), dict(init=False)), "noinit-skip": (dict(skip=True), dict(init=False)),
    "noinit-skip-se": (dict(skip_serializing=True), dict(init=False)), "noinit-skip-de": (dict(skip_deserializing=True), dict(init=False)),
    "noinit-both": (dict(skip_serializing=True, skip_deserializing=True), dict(init=False)), "skip-if": (dict(skip_if=bool), dict()),
}


def layout(ks, deco):
    def run(ctx):
        init = lambda k: not k.startswith("noinit")
        full = lambda k: k in ("skip", "skip-both", "noinit-skip", "noinit-both")
        eligible = [k for k in ks if init(k) and not full(k)]
        others_ok = all(not init(k) and full(k) for k in ks if k not in eligible[:1])
        partial = eligible[:1] and eligible[0] in ("skip-se", "skip-de", "skip-if")
        fs = []
        for n, k in enumerate(ks):
            so, dc = KINDS[k]
            fs.append(F(f"f{n}", int, default=n, opts=so, dc=dc))
        c = ctx.cls("L", fs, deco=deco, transparent=True)
        if len(eligible) == 1 and others_ok:
            if partial and eligible[0] != "skip-if":
                # skipped in one direction only: rejected or usable
                return ctx.check(not isinstance(c, Exc) or ctx.is_serde_error(c), "layout", "an error other than SerdeError", fields=ks, result=c)
            if ctx.ok(c, "layout", fields=ks):
                n = ks.index(eligible[0])
                if deco != "deserialize" and eligible[0] != "skip-if":
                    ctx.eq(ctx.to_dict(ctx.make(c, **{f"f{n}": 77})), 77, "layout", fields=ks)
                if deco != "serialize":
                    y = ctx.from_dict(c, 77)
                    if ctx.ok(y, "layout", fields=ks):
                        ctx.eq(getattr(y, f"f{n}"), 77, "layout", fields=ks)
        else:
            ctx.check(ctx.is_serde_error(c), "layout", "a class that is not transparent is not rejected with SerdeError", fields=ks, result=c)

    return run


def scenarios(tier):
    out = []
    for s in field_shapes(tier):
        out.append(Scenario(f"top:one:{s.label}", top(s, "one")))
        out.append(Scenario(f"generic:{s.label}", generic(s)))
    for lo in LAYOUTS[1:]:
        for kn, s in kinds().items():
            out.append(Scenario(f"top:{lo}:{kn}", top(s, lo)))
    for kn, s in kinds().items():
        for m in ("strict", "disabled", "coerce"):
            out.append(Scenario(f"beside:{kn}:{m}", beside(s, m)))
        for depth in (2, 3):
            out.append(Scenario(f"stack:{depth}:{kn}", stacked(s, depth)))
    pk = ["int", "path", "list", "class", "union", "opt-class", "enum", "dict"] if tier != "thorough" else list(kinds())
    for kn in pk:
        for pn, b in POSITIONS.items():
            if pn.startswith("flatten") and kn not in ("int", "path"):
                pass
            out.append(Scenario(f"position:{pn}:{kn}", position(pn, b, kinds()[kn])))
    for kn in ("int", "str", "list", "class", "opt", "dict", "float", "enum", "datetime", "path", "union"):
        for fmt in FORMATS:
            out.append(Scenario(f"format:{fmt}:{kn}", formats(fmt, kinds()[kn])))
    out.append(Scenario("attributes", attributes))
    for r in (1, 2, 3):
        for ks in itertools.product(KINDS, repeat=r):
            if r == 3 and tier != "thorough" and not (ks[0] in ("plain", "noinit-skip", "skip-de") and ks[1] in ("plain", "noinit-skip", "noinit", "skip")):
                continue
            for deco in (("serde", "serialize", "deserialize") if r < 3 else ("serde",)):
                out.append(Scenario(f"layout:{','.join(ks)}:{deco}", layout(list(ks), deco)))
    return out
