"""P11: a missing required key is a SerdeError naming the field."""
import itertools
from ..harness import F, Scenario, Exc
from ..positions import POSITIONS
from ..shapes import *
from .p07 import kinds, pick, optional_like
from .p10 import wire

RULES = ["input without the key of a field that has neither default nor Optional type: SerdeError that names the key",
         "for every field type, naming option, (de)serializer option, depth, container, union tagging and flattening",
         "neither a value nor another exception comes out; with the key present the same input is accepted"]
EXPLANATION = ("Abstract interpretation of the generated from_dict over field types x options x positions of the incomplete "
               "mapping x every subset of missing required keys; the outcome must be SerdeError whose message contains the "
               "missing key.")


def text(e, depth=0):
    if isinstance(e, BaseException):
        return " ".join(text(a, depth + 1) for a in e.args) if depth < 6 else ""
    return e if isinstance(e, str) else repr(e)


def missing(ctx, r, names, rule, **detail):
    if not ctx.check(ctx.is_serde_error(r), rule, "a missing required key does not raise SerdeError", result=r, **detail):
        return
    t = text(r.e)
    ctx.check(any(f"'{n}'" in t or f'"{n}"' in t or n in t.split() for n in names), rule,
              "the error does not name the missing key", message=t, missing=names, **detail)


def field(kn, sh, variant):
    def run(ctx):
        fo, co, dc, key = {}, {}, {}, "need_it"
        if variant == "rename":
            fo, key = dict(rename="R-key"), "R-key"
        elif variant == "alias":
            fo = dict(alias=["al1", "al2"])
        elif variant == "rename+alias":
            fo, key = dict(rename="R-key", alias=["need_it"]), "R-key"
        elif variant == "rename_all":
            co, key = dict(rename_all="camelcase"), "needIt"
        elif variant == "kw":
            dc = dict(kw_only=True)
        elif variant == "disabled":
            co = dict(type_check=ctx.get("core.disabled"))
        elif variant == "coerce":
            co = dict(type_check=ctx.get("core.coerce"))
        elif variant == "deny":
            co = dict(deny_unknown_fields=True)
        elif variant == "skipflags":
            fo = dict(skip_if_default=True, skip_if_none=True, skip_if_false=True, skip_serializing=True)
        elif variant == "reuse":
            co = dict(reuse_instances_default=False, convert_sets_default=True, skip_if_none=True, skip_if_default=True)
        elif variant == "sub":
            pass
        bases = ()
        if variant == "sub":
            b = ctx.cls("B", [F("need_it", sh.t(ctx))])
            c = ctx.cls("C", [F("b", int), F("c", typing.Optional[int]), F("d", int, default=1)], bases=(b,))
        else:
            c = ctx.cls("C", [F("need_it", sh.t(ctx), opts=fo, dc=dc), F("b", int), F("c", typing.Optional[int]),
                              F("d", int, default=1)], **co)
        if not ctx.ok(c, "decorate"):
            return
        v = pick(ctx, sh, "v")
        w = wire(sh, ctx, v)
        decoys = {} if variant == "deny" else {"needit": w, "NeedIt": w, "Need_it": w, "": w}
        if variant in ("rename", "rename_all"):
            decoys["need_it"] = w
        for extra in ({}, decoys):
            for reuse in (None, True, False):
                y = ctx.from_dict(c, {"b": 1, **extra}, reuse_instances=reuse)
                missing(ctx, y, [key], "missing", data=extra)
        y = ctx.from_dict(c, {key: w})
        missing(ctx, y, ["b"], "missing-other")
        y = ctx.from_dict(c, {})
        missing(ctx, y, [key, "b"], "missing-all")
        y = ctx.from_dict(c, {key: w, "b": 1})
        ctx.ok(y, "present")

    return run


def position(pn, build, req):
    """An incomplete mapping of a class at every position."""

    def run(ctx):
        for t in (int, str, list[int], typing.Any, datetime.date, typing.Union[int, str], dict[str, int], Color,
                  typing.Literal["r"]):
            i = ctx.cls("Leaf", [F("need", t, opts=dict(rename=req) if req != "need" else {}), F("opt", int, default=1)])
            if not ctx.ok(i, "decorate"):
                return
            p = build(ctx, i)
            if not ctx.ok(p.type, "decorate"):
                return
            for w in ({}, {"opt": 4}, {"zzz": 4}):
                y = ctx.from_dict(p.type, p.data(w))
                missing(ctx, y, [req], "depth", data=p.data(w))
                if p.top is not None:
                    tt, td, _ = p.top
                    y = ctx.from_dict(tt, td(w))
                    missing(ctx, y, [req], "depth-top", data=td(w), type=tt)

    return run


def subsets(n):
    """Every subset of missing required keys of a wide class; only complete inputs are accepted."""

    def run(ctx):
        names = [f"f{i}" for i in range(n)]
        c = ctx.cls("C", [F(k, [int, str, float][i % 3]) for i, k in enumerate(names)])
        w = ctx.cls("W", [F("l", list[c])])
        if not (ctx.ok(c, "decorate") and ctx.ok(w, "decorate")):
            return
        for mask in itertools.product((0, 1), repeat=n):
            data = {k: var(k, [int, str, float][i % 3]) for i, (k, m) in enumerate(zip(names, mask)) if m}
            y = ctx.from_dict(c, data)
            if all(mask):
                ctx.ok(y, "complete")
            else:
                missing(ctx, y, [k for k, m in zip(names, mask) if not m], "subset", data=data)

    return run


def flat(ctx):
    """Flattened classes: the missing key of the child is named; Optional children with some keys present too."""
    O = typing.Optional
    g = ctx.cls("G", [F("g1", int), F("g2", int, opts=dict(rename="G2"))])
    i = ctx.cls("I", [F("p", int), F("q", int, opts=dict(alias=["qq"])), F("g", g, opts=dict(flatten=True))], rename_all="uppercase")
    c = ctx.cls("C", [F("a", int), F("i", i, opts=dict(flatten=True))])
    o = ctx.cls("O", [F("a", int), F("i", O[i], opts=dict(flatten=True))])
    e = ctx.cls("E", [F("a", int), F("i", i, opts=dict(flatten=True)), F("ex", dict[str, typing.Any], opts=dict(flatten=True))])
    for k in (g, i, c, o, e):
        if not ctx.ok(k, "decorate"):
            return
    keys = ["P", "Q", "g1", "G2"]
    for mask in itertools.product((0, 1), repeat=4):
        d = {k: 1 for k, m in zip(keys, mask) if m}
        miss = [k for k, m in zip(keys, mask) if not m]
        for k in (c, e):
            y = ctx.from_dict(k, {"a": 1, **d})
            if miss:
                missing(ctx, y, miss, "flat", data=d)
            else:
                ctx.ok(y, "flat")
        y = ctx.from_dict(o, {"a": 1, **d})
        if not d:
            if ctx.ok(y, "flat-opt"):
                ctx.eq(y.i, None, "flat-opt")
        elif miss:
            missing(ctx, y, miss, "flat-opt", data=d)
        else:
            ctx.ok(y, "flat-opt")
        y = ctx.from_dict(c, d)
        missing(ctx, y, ["a"] + miss, "flat-parent", data=d)


def custom(ctx):
    des = lambda v: AV("des", (v,), int)

    def legacy(cls, v):
        raise ctx.serde.SerdeSkip() if False else ctx.get("compat.SerdeSkip")()

    for name, fo, co in (("field", dict(deserializer=des), {}), ("ser", dict(serializer=des), {}),
                         ("rename", dict(deserializer=des, rename="R"), {}), ("alias", dict(deserializer=des, alias=["al"]), {}),
                         ("legacy", {}, dict(deserializer=legacy)), ("legacy-se", {}, dict(serializer=legacy))):
        for t in (int, str, list[int], float, datetime.date, typing.Any):
            c = ctx.cls("C", [F("need", t, opts=fo), F("b", str, default="b")], **co)
            if not ctx.ok(c, "decorate", kind=name):
                continue
            for d in ({}, {"b": "x"}):
                y = ctx.from_dict(c, d)
                missing(ctx, y, [fo.get("rename", "need")], "custom", kind=name, type=t)


def legacy_runs(ctx):
    """A legacy class deserializer that accepts anything must not turn a missing key into a value."""
    c = ctx.cls("C", [F("need", int), F("b", str, default="b")], deserializer=lambda cls, v: v)
    if ctx.ok(c, "decorate"):
        y = ctx.from_dict(c, {"b": "x"})
        missing(ctx, y, ["need"], "legacy")


def formats(ctx):
    c = ctx.cls("C", [F("need", int), F("b", int, default=1)])
    w = ctx.cls("W", [F("c", c)])
    for f, mod in (("from_json", "json"), ("from_yaml", "yaml"), ("from_toml", "toml"), ("from_msgpack", "msgpack")):
        fn = ctx.get(f"{mod}.{f}")
        for cc, d in ((c, {"b": 2}), (w, {"c": {"b": 2}}), (w, {})):
            de = type("De", (), {"deserialize": classmethod(lambda cls, data, _d=d, **k: _d)})
            y = ctx.call(fn, cc, var("doc", str), de=de)
            missing(ctx, y, ["c"] if d == {} else ["need"], "format", format=mod)


def scenarios(tier):
    out = []
    ks = {k: s for k, s in kinds().items() if not optional_like(s)}
    vs = ("plain", "rename", "alias", "rename+alias", "rename_all", "kw", "disabled", "coerce", "deny", "skipflags", "reuse", "sub")
    for kn, sh in ks.items():
        for v in vs:
            if tier == "quick" and v in ("kw", "deny", "reuse") and kn not in ("int", "any", "list", "class", "enum"):
                continue
            out.append(Scenario(f"{kn}:{v}", field(kn, sh, v)))
    for pn, b in POSITIONS.items():
        if pn in ("default", "flatten-opt"):
            if pn == "flatten-opt":
                continue
        out.append(Scenario(f"at:{pn}", position(pn, b, "need")))
        out.append(Scenario(f"at:{pn}:rename", position(pn, b, "N-d")))
    for n in ((4, 6) if tier == "quick" else (4, 6, 9)):
        out.append(Scenario(f"subsets:{n}", subsets(n)))
    out += [Scenario("flat", flat), Scenario("custom", custom), Scenario("legacy-runs", legacy_runs), Scenario("formats", formats)]
    return out
