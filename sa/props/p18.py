"""P18: inputs are never modified."""
import copy
import types
from collections import OrderedDict
from ..harness import F, Scenario, Exc, same
from ..shapes import *
from ..positions import POSITIONS, HASH_POSITIONS
from ..values import var, AV, Foreign, resolve
from .p12 import corrupt, bad
from .p14 import TAGS, tagging, retag
from .p17 import methods

RULES = ["no write (not even one undone later) hits an object reachable from the argument of a (de)serialization call",
         "the argument is the same graph of the same objects after the call, whether it returns or raises",
         "decorating and declaring fields leaves metadata, default values, alias lists, tagging objects and option dictionaries alone",
         "values returned by the user's own (de)serializers, factories and properties are not written to either"]
EXPLANATION = ("Abstract interpretation with an effect log: every write the interpreted program makes is matched against the objects "
               "reachable from the inputs before the call, and snapshots of the input graph are compared afterwards; for every field "
               "shape, tagging, position, option combination and one-node corruption of the input.")


def graph(o, seen=None):
    """id -> (object, content) of every mutable object reachable from o."""
    seen = {} if seen is None else seen
    o = resolve(o)
    if isinstance(o, (AV, type, enum.Enum, str, int, float, bytes, bool, type(None), types.ModuleType, types.FunctionType)) or id(o) in seen:
        return seen
    if isinstance(o, (list, tuple, deque)):
        kids, content = list(o), [id(x) for x in o]
    elif isinstance(o, Mapping):
        kids = [k for k in o] + [o[k] for k in list(o)]
        content = [(id(k), id(o[k])) for k in list(o)]
    elif isinstance(o, Set):
        kids, content = list(o), frozenset(id(x) for x in o)
    elif type(o).__module__.startswith(("abs_user", "sa", "serde")) or dataclasses.is_dataclass(o):
        d = dict(getattr(o, "__dict__", {}))
        for c in type(o).__mro__:
            s = c.__dict__.get("__slots__", ())
            for n in ([s] if isinstance(s, str) else s):
                if n not in ("__dict__", "__weakref__") and hasattr(o, n):
                    d[n] = getattr(o, n)
        kids, content = list(d.values()), sorted((k, id(v)) for k, v in d.items())
    else:
        kids, content = [], repr(o)
    seen[id(o)] = (o, (type(o), content))
    for k in kids:
        graph(k, seen)
    return seen


def watch(ctx, rule, objs, fn, **detail):
    g = graph(objs)
    g.pop(id(objs), None)
    keep = ctx.ops.effects
    ctx.ops.effects = []
    try:
        r = fn()
        eff = ctx.ops.effects
    finally:
        ctx.ops.effects = keep
    hits = [(k, type(o).__name__, show_(d), list(w)[-3:] if isinstance(w, (list, tuple)) else w) for k, o, d, _, w in eff if id(o) in g]
    ctx.check(not hits, rule, "an input is written to", writes=hits, inputs=objs, **detail)
    now = {}
    for o, c in g.values():
        now.update(graph(o))
    bad_ = [o for i, (o, c) in g.items() if now.get(i, (None, None))[1] != c]
    ctx.check(not bad_, rule, "an input is different after the call", changed=bad_, **detail)
    return r


def show_(d):
    return d if isinstance(d, (str, int, type(None))) else repr(d)


CALLS = [{}, dict(reuse_instances=True), dict(reuse_instances=False, convert_sets=True), dict(convert_sets=False, skip_none=True)]


def drive(ctx, t, x, few=True, malformed=True, top=None):
    """Every operation on x (of type t) and on every form of its data."""
    datas = []
    for to, fr, api in ((ctx.to_dict, ctx.from_dict, "dict"), (ctx.to_tuple, ctx.from_tuple, "tuple")):
        for call in CALLS:
            d = watch(ctx, "serialize", [x], lambda: to(x, c=t, **call) if top else to(x, **call), api=api, call=call)
            if not isinstance(d, Exc):
                datas.append((d, fr, api))
    seen = []
    for d, fr, api in datas:
        if any(same(d, e) and api == a for e, a in seen):
            continue
        seen.append((d, api))
        for call in ({}, dict(reuse_instances=True), dict(deserialize_numbers=float)):
            watch(ctx, "deserialize", [d], lambda: fr(t, d, **call), api=api, call=call)
        if malformed and len(seen) <= 1:
            for p, b in corrupt(d, few=few):
                ctx.isolated(lambda: watch(ctx, "deserialize", [b], lambda: fr(t, b), api=api, path=p))
    return datas


def field(sh):
    def run(ctx):
        c = ctx.cls("C", [F("a", str), F("x", sh.t(ctx)), F("n", typing.Optional[int])])
        if not ctx.ok(c, "decorate"):
            return
        vs = [v for _, v in sh.vals(ctx, "v")]
        for i, v in enumerate(vs):
            drive(ctx, c, ctx.make(c, "a", v, None), malformed=False)
            if sh.label not in ("none",):
                drive(ctx, sh.t(ctx), v, malformed=False, top=True)

    return run


def place(pn, b, tn):
    def run(ctx):
        T = {"class": D.t(ctx), "list": list[int], "dict": dict[str, pathlib.Path], "path": pathlib.Path}
        V = {"class": lambda: ctx.make(D.t(ctx), 1, "s"), "list": lambda: [1, 2], "dict": lambda: {"k": pathlib.Path("/a")}, "path": lambda: var("p", pathlib.Path)}
        pos = b(ctx, T[tn])
        if not ctx.ok(pos.type, "decorate"):
            return
        drive(ctx, pos.type, pos.value(V[tn]()))

    return run


def unions_(tn):
    """Tags are written into the result only, also when a variant hands out one of the user's own mappings."""

    def run(ctx):
        tg = tagging(ctx, tn)
        own = {"k": 1, "l": {"m": 2}}
        shared = {"cs": 1}
        tr = ctx.cls("Tr", [F("d", dict)], transparent=True)
        tr2 = ctx.cls("Tr2", [F("d", dict[str, int])], transparent=True)
        tra = ctx.cls("TrA", [F("d", typing.Any)], transparent=True)
        fl = ctx.cls("Fl", [F("a", int), F("rest", dict[str, typing.Any], opts=dict(flatten=True))])
        fs = ctx.cls("Fs", [F("d", int, opts=dict(serializer=lambda v: shared, deserializer=lambda v: 1))], transparent=True)
        cu = ctx.cls("Cu", [F("z", int)])
        d = D.t(ctx)

        class S:
            def serialize(self, v):
                return shared

        class De:
            def deserialize(self, cls, v):
                return ctx.make(cu, 1)

        S.serialize = methods(S.serialize, [(object, cu)])
        De.deserialize = methods(De.deserialize, [(object, type[cu], typing.Any)])
        vals = [ctx.make(tr, own), ctx.make(tr2, {"k": 1}), ctx.make(tra, own), ctx.make(fl, 1, {"x": own}), ctx.make(cu, 3), ctx.make(d, 1, "s"), ctx.make(fs, 1)]
        ts = (tr, tr2, tra, fl, cu, d, fs)
        for opts in ({}, dict(class_serializer=S(), class_deserializer=De())):
            for ut in [typing.Union[a, int] for a in ts] + [typing.Union[ts]]:
                c = ctx.cls("C", [F("u", ut), F("l", list[ut])], tagging=tg, **opts)
                if not ctx.ok(c, "decorate"):
                    continue
                for v in vals:
                    if type(v) not in typing.get_args(ut):
                        continue
                    for to in (ctx.to_dict, ctx.to_tuple):
                        for call in CALLS:
                            r = watch(ctx, "variant", [v, own, shared], lambda: to(ctx.make(c, v, [v]), **call), call=call)
                            if not isinstance(r, Exc) and to is ctx.to_dict:
                                watch(ctx, "variant", [r, own, shared], lambda: ctx.from_dict(c, r), call=call)
                    w = ctx.call(ctx.get("core.Tagging.is_taggable"), int) if False else None
                    r = watch(ctx, "variant", [v, own, shared], lambda: ctx.to_dict(v, c=ut))
                    if not isinstance(r, Exc):
                        watch(ctx, "variant", [r, own, shared], lambda: ctx.from_dict(ut, r))

    return run


def union_shapes(sh, tn):
    def run(ctx):
        t = sh.t(ctx)
        c = ctx.cls("C", [F("x", t), F("n", typing.Optional[int])], tagging=tagging(ctx, tn))
        if not ctx.ok(c, "decorate"):
            return
        for _, v in sh.vals(ctx, "v"):
            drive(ctx, c, ctx.make(c, v, None), malformed=False)

    return run


def flatten(deny):
    def run(ctx):
        k = ctx.cls("K", [F("p", int), F("q", typing.Optional[str]), F("deep", dict[str, typing.Any], opts=dict(flatten=True))])
        k2 = ctx.cls("K2", [F("r", int), F("s", list[int], factory=list)])
        kd = ctx.cls("KD", [F("t", D.t(ctx))], transparent=True)
        for fs, mk in (([F("x", int), F("k", k, opts=dict(flatten=True))], lambda: (1, ctx.make(k, 2, None, {"z": {"y": 1}}))),
                       ([F("x", int), F("k", typing.Optional[k2], opts=dict(flatten=True))], lambda: (1, ctx.make(k2, 2, [1]))),
                       ([F("x", int), F("k", typing.Optional[k2], opts=dict(flatten=True))], lambda: (1, None)),
                       ([F("x", int), F("k", k2, opts=dict(flatten=True)), F("m", dict[str, typing.Any], opts=dict(flatten=True))],
                        lambda: (1, ctx.make(k2, 2, []), {"free": [1], "x": 5})),
                       ([F("m", dict, opts=dict(flatten=True)), F("x", int, opts=dict(alias=["al"]))], lambda: ({"free": {"q": 1}}, 4)),
                       ([F("m", dict[str, typing.Any], opts=dict(flatten=True))], lambda: ({"free": [1]},))):
            c = ctx.cls("C", fs, deny_unknown_fields=deny)
            o = ctx.cls("O", [F("c", c), F("l", list[c])])
            if not (ctx.ok(c, "decorate") and ctx.ok(o, "decorate")):
                continue
            x = ctx.make(c, *mk())
            drive(ctx, c, x)
            drive(ctx, o, ctx.make(o, x, [x]), malformed=False)
            for d in ({"x": 1, "al": 2, "unknown": [1]}, {"x": 1, "p": 2, "r": 3, "m": {"a": 1}, "zz": None}):
                for kw in ({}, dict(reuse_instances=True)):
                    watch(ctx, "deserialize", [d], lambda: ctx.from_dict(c, d, **kw))

    return run


def mappings(ctx):
    """Input mappings of other kinds."""
    c = ctx.cls("C", [F("a", int), F("b", D.t(ctx)), F("o", typing.Optional[int]), F("l", list[D.t(ctx)]), F("e", dict[str, int]),
                      F("df", int, default=4), F("al", int, default=1, opts=dict(alias=["a1", "a2"])), F("r", str, default="", opts=dict(rename="R"))])
    if not ctx.ok(c, "decorate"):
        return
    plain = {"a": 1, "b": {"i": 1, "s": "s"}, "l": [{"i": 1, "s": "s"}], "e": {"k": 1}, "a1": 3, "R": "r"}
    for d in (plain, OrderedDict(plain), types.MappingProxyType(plain), {**plain, "l": tuple(plain["l"])}, {**plain, "l": deque(plain["l"])},
              {**plain, "b": OrderedDict(plain["b"])}, {**plain, "extra": object()}, {k: v for k, v in plain.items() if k != "a"}):
        for kw in ({}, dict(reuse_instances=True), dict(deserialize_numbers=float)):
            watch(ctx, "deserialize", [d], lambda: ctx.from_dict(c, d, **kw), kind=type(d))


def sharing(ctx):
    """The same object at several places, and the results of serialization used again."""
    l, d = [1, 2], {"k": [1]}
    i = D.t(ctx)
    x0 = ctx.make(i, 1, "s")
    c = ctx.cls("C", [F("a", list[int]), F("b", list[int]), F("m", dict[str, list[int]]), F("n", dict), F("p", i), F("q", i), F("z", typing.Any), F("y", list)])
    if not ctx.ok(c, "decorate"):
        return
    x = ctx.make(c, l, l, d, d, x0, x0, d, [d, l])
    for to, fr in ((ctx.to_dict, ctx.from_dict), (ctx.to_tuple, ctx.from_tuple)):
        for call in CALLS:
            r = watch(ctx, "serialize", [x], lambda: to(x, **call))
            if not ctx.ok(r, "serialize"):
                continue
            y = watch(ctx, "deserialize", [r, x], lambda: fr(c, r))
            y2 = watch(ctx, "deserialize", [r, x, y], lambda: fr(c, r, reuse_instances=True))
            if ctx.ok(y, "deserialize") and ctx.ok(y2, "deserialize"):
                watch(ctx, "serialize", [r, x, y, y2], lambda: to(y2, **call))


def declarations(ctx):
    """What the user passes to field() and the decorators stays theirs."""
    md = {"mine": 1, "list": [1]}
    alias, alias2 = ["a1", "a2"], []
    ro = types.MappingProxyType({"x": 1})
    dflt, dl, inner = {"k": [1]}, [1, 2], D.t(ctx)
    di = ctx.make(FZ.t(ctx), 1, "s")
    fo = ctx.call(ctx.get("core.FlattenOpts"))
    tg = ctx.call(ctx.get("core.InternalTagging"), "t")
    sk = ctx.get("core.strict")
    s, de = (lambda v: dl), (lambda v: dl)
    things = [md, alias, alias2, ro, dflt, dl, di, fo, tg, sk]

    def build():
        out = []
        for deco in ("serde", ["se.serialize"], ["de.deserialize"], ["de.deserialize", "se.serialize"]):
            c = ctx.cls("C", [F("a", int, dc=dict(metadata=md), opts=dict(rename="A", alias=alias, skip_if=lambda v: False)),
                              F("b", int, default=2, dc=dict(metadata=md), opts=dict(skip=True)),
                              F("c", inner, dc=dict(metadata=md), opts=dict(flatten=fo), factory=lambda: ctx.make(inner, 1, "s")),
                              F("d", dict, factory=lambda: dflt, dc=dict(metadata=ro), opts=dict(alias=alias2)),
                              F("e", FZ.t(ctx), default=di, dc=dict(metadata=md)),
                              F("f", list[int], factory=lambda: dl, dc=dict(metadata=md), opts=dict(serializer=s, deserializer=de)),
                              F("g", typing.Union[inner, int], default=1, dc=dict(metadata=md), opts=dict(skip_if_default=True))],
                        deco=deco, tagging=tg, type_check=sk, rename_all="camelcase", skip_if_default=True)
            out.append(c)
        return out

    cs = watch(ctx, "declare", things, build)
    for c in cs:
        if not ctx.ok(c, "declare"):
            continue
        for f in dataclasses.fields(c):
            if f.name in "abcefg":
                ctx.check(f.metadata.get("mine") == 1 and f.metadata.get("list") is md["list"], "declare", "the user's metadata is lost", field=f.name)
    for c in (cs[0], cs[3]):
        if isinstance(c, Exc):
            continue
        x = ctx.make(c, 1)
        for call in CALLS:
            r = watch(ctx, "declare", things + [x], lambda: ctx.to_dict(x, **call))
            watch(ctx, "declare", things + [x], lambda: ctx.to_tuple(x, **call))
        for d in ({"A": 1, "i": 1, "s": "s"}, {"a1": 1, "i": 3, "s": "s", "f": [1], "g": {"i": 1, "s": "s", "t": "D"}}, {}):
            watch(ctx, "declare", things + [d], lambda: ctx.from_dict(c, d))
    # one metadata mapping for several fields: each field has its own options
    for c in (cs[0], cs[3]):
        if isinstance(c, Exc):
            continue
        d = ctx.to_dict(ctx.make(c, 1))
        if ctx.ok(d, "declare"):
            ctx.check("A" in d and "b" not in d and "B" not in d, "declare", "the options of one field reach another", data=d)


def options(ctx):
    """Option dictionaries and extension tables given to the formats."""
    d = D.t(ctx)
    c = ctx.cls("C", [F("x", d)])
    x = ctx.make(c, ctx.make(d, 1, "s"))
    ext, rev = {c: 1, d: 2}, {1: c, 2: d}
    o = {"indent": 2, "nested": {"a": [1]}}

    class Se:
        @classmethod
        def serialize(cls, obj, **opts):
            return var("out", str)

    for fmt in ("json", "yaml", "toml", "msgpack", "pickle"):
        to, fr = ctx.get(f"{fmt}.to_{fmt}"), ctx.get(f"{fmt}.from_{fmt}")
        data = {"x": {"i": 1, "s": "s"}}

        class De:
            @classmethod
            def deserialize(cls, doc, **opts):
                return data

        watch(ctx, "options", [x, o, ext], lambda: ctx.call(to, x, se=Se, **o))
        watch(ctx, "options", [x, o, ext, data], lambda: ctx.call(fr, c, "doc", de=De, **o))
        if fmt == "msgpack":
            for named in (True, False):
                watch(ctx, "options", [x, ext], lambda: ctx.call(to, x, se=Se, named=named, ext_dict=rev))
                watch(ctx, "options", [x, ext, rev, data], lambda: ctx.call(fr, c, b"doc", de=De, named=named, ext_dict=rev))
                watch(ctx, "options", [x, ext], lambda: ctx.call(to, x, named=named))


def user_code(ctx):
    """Objects handed out by the user's functions."""
    own = {"k": {"n": 1}, "none": None}
    lst = [1, {"a": None}]
    d = D.t(ctx)
    fl = ctx.cls("K", [F("p", int)])
    c = ctx.cls("C", [F("a", int, opts=dict(serializer=lambda v: own, deserializer=lambda v: lst)),
                      F("b", list[int], factory=lambda: lst), F("m", dict[str, typing.Any], factory=lambda: own, opts=dict(flatten=True)),
                      F("z", typing.Any, default=None), F("cv", typing.ClassVar[dict], default=own)],
                type_check=ctx.get("core.disabled"), serialize_class_var=True)
    if not ctx.ok(c, "decorate"):
        return
    for x in (ctx.make(c, 1), ctx.make(c, 1, lst, own, own), ctx.make(c, 1, [], {"a": 3}, lst)):
        for to in (ctx.to_dict, ctx.to_tuple):
            for call in CALLS:
                watch(ctx, "user-code", [x, own, lst], lambda: to(x, **call))
    for data in ({"a": own}, {"a": 1, "b": lst, "z": own, "k": own}, {"a": lst, "none": 3}):
        for kw in ({}, dict(reuse_instances=True)):
            y = watch(ctx, "user-code", [data, own, lst], lambda: ctx.from_dict(c, data, **kw))
            if not isinstance(y, Exc):
                watch(ctx, "user-code", [data, own, lst, y], lambda: ctx.to_dict(y))


def scenarios(tier):
    out = [Scenario(f"field:{s.label}", field(s)) for s in field_shapes(tier)]
    for pn, b in {**POSITIONS, **HASH_POSITIONS}.items():
        for tn in ("class", "list", "dict", "path"):
            if pn in HASH_POSITIONS and tn != "path":
                continue
            out.append(Scenario(f"pos:{pn}:{tn}", place(pn, b, tn)))
    for tn in TAGS:
        out.append(Scenario(f"variant:{tn}", unions_(tn)))
        for sh in unions():
            r = retag(sh, tn)
            if tn != "External":
                out.append(Scenario(f"union:{tn}:{sh.label}", union_shapes(r, tn)))
    out += [Scenario("flatten:deny", flatten(True)), Scenario("flatten:open", flatten(False)), Scenario("mappings", mappings),
            Scenario("sharing", sharing), Scenario("declarations", declarations), Scenario("options", options), Scenario("user-code", user_code)]
    return out
