"""P04: format front-ends."""
from ..harness import F, Scenario, Exc
from ..shapes import *

RULES = ["to_<format> hands se.serialize exactly to_dict/to_tuple(obj, c=cls, <options>) and exactly the caller's other "
         "keywords, and returns what it returns",
         "from_<format> hands de.deserialize exactly the document and the other keywords and returns "
         "from_dict/from_tuple(cls, parsed, reuse_instances=False, deserialize_numbers=<format's>)",
         "from_<format>(T, to_<format>(v)) is v for every supported type with the default backend",
         "the default backends are called with the documented settings and the caller's keywords win"]
EXPLANATION = ("Abstract interpretation of the front-ends with recording (uninterpreted) serializers: the term handed to "
               "the backend is compared with the term the core produces for the same arguments; the default backends "
               "are modelled by their documented type tables and the round trip is decided per field-type shape.")

FMTS = ["json", "yaml", "toml", "msgpack", "pickle"]
CONV = {"json": "deserialize_json_numbers", "yaml": "deserialize_yaml_numbers"}
DOC = {"json": str, "yaml": str, "toml": str, "msgpack": bytes, "pickle": bytes}


def fn(ctx, fmt, which):
    return ctx.get(f"{fmt}.{which}_{fmt}")


def recorder(ret):
    log = []

    class Se:
        @classmethod
        def serialize(cls, obj, *a, **opts):
            log.append((obj, a, opts))
            return ret

    class De:
        @classmethod
        def deserialize(cls, data, *a, **opts):
            log.append((data, a, opts))
            return ret

    return Se, De, log


def sample(ctx):
    """A class whose wire form differs under every option."""
    i = ctx.cls("I", [F("p", pathlib.Path), F("o", typing.Optional[int]), F("st", set[str])])
    c = ctx.cls("C", [F("when", datetime.datetime), F("tags", set[int]), F("none", typing.Optional[str]), F("i", i),
                      F("l", list[i]), F("f", float), F("u", typing.Union[int, str])])
    mk = lambda n: ctx.make(i, var(n + "p", pathlib.PosixPath), None, {var(n + "s", str)})
    x = ctx.make(c, var("w", datetime.datetime), {var("t", int)}, None, mk("i"), [mk("j")], var("f", float),
                 var("u", str))
    return c, x


def forward(fmt):
    def run(ctx):
        c, x = sample(ctx)
        to = fn(ctx, fmt, "to")
        base = dict(reuse_instances=False, convert_sets=True, skip_none=(fmt == "toml"))
        cases = [{}]
        for k in base:
            for b in (True, False):
                cases.append({k: b})
        cases += [dict(reuse_instances=a, convert_sets=b, skip_none=d) for a in (True, False) for b in (True, False)
                  for d in (True, False)]
        if fmt == "msgpack":
            cases += [{**k, "named": n} for k in list(cases) for n in (True, False)]
        for case in cases:
            for extra in ({}, {"indent": 2, "zz": var("zz", str)}):
                ret = var("out", DOC[fmt])
                Se, _, log = recorder(ret)
                kw = {**base, **case}
                named = kw.pop("named", True)
                exp = ctx.call(ctx.serde.to_dict if named else ctx.serde.to_tuple, x, **kw)
                r = ctx.call(to, x, se=Se, **case, **extra)
                if not ctx.ok(r, "call", case=case):
                    continue
                ctx.check(r is ret, "result", "the backend's result is not what is returned", result=r, case=case)
                if not ctx.check(len(log) == 1, "backend-call", "the serializer is not called exactly once", log=log):
                    continue
                obj, a, opts = log[0]
                ctx.check(same(obj, exp), "options", f"to_{fmt} does not pass its options on to the core", case=case,
                          actual=obj, expected=exp)
                ctx.check(a == (), "positional", "unexpected positional arguments to the backend", args=a)
                want = dict(extra)
                got = dict(opts)
                if fmt == "msgpack" and got.get("ext_type_code", 0) is None:
                    got.pop("ext_type_code")
                ctx.check(same(got, want), "keywords", "keywords for the backend are not passed on exactly",
                          actual=opts, expected=want, case=case)

    return run


def forward_cls(fmt):
    def run(ctx):
        a = ctx.cls("A", [F("i", int)])
        b = ctx.cls("B", [F("i", int)])
        to = fn(ctx, fmt, "to")
        U = typing.Union[a, b]
        for t, v in [(U, ctx.make(a, var("i", int))), (list[U], [ctx.make(b, var("j", int))]),
                     (dict[str, U], {"k": ctx.make(a, var("k", int))})]:
            for form in ("keyword", "positional"):
                for named in ((True, False) if fmt == "msgpack" else (True,)):
                    ret = var("out", DOC[fmt])
                    Se, _, log = recorder(ret)
                    kw = dict(named=named) if fmt == "msgpack" else {}
                    exp = ctx.call(ctx.serde.to_dict if named else ctx.serde.to_tuple, v, c=t, reuse_instances=False,
                                   convert_sets=True)
                    r = (ctx.call(to, v, cls=t, se=Se, **kw) if form == "keyword" else ctx.call(to, v, t, Se, **kw))
                    if ctx.ok(r, "cls-call", value=v):
                        ctx.check(len(log) == 1 and same(log[0][0], exp), "cls",
                                  "the class argument is not passed on to the core", actual=log, expected=exp)

    return run


def backward(fmt):
    def run(ctx):
        c, x = sample(ctx)
        frm = fn(ctx, fmt, "from")
        core = ctx.serde.from_dict
        conv = ctx.get(f"{fmt}.{CONV[fmt]}") if fmt in CONV else None
        trees = []
        for reuse in (False, True):
            d = ctx.to_dict(x, reuse_instances=reuse, convert_sets=True)
            if not ctx.ok(d, "to_dict"):
                return
            trees.append((True, d))
            trees.append((True, {**d, "f": var("int-for-float", int)}))
            trees.append((True, {**d, "f": var("str-for-float", str)}))
            if fmt == "msgpack":
                trees.append((False, ctx.to_tuple(x, reuse_instances=reuse, convert_sets=True)))
        for named, tree in trees:
            for kw in ([{}, {"coerce_numbers": True}, {"coerce_numbers": False}] if conv else
                       [{"named": named}] if fmt == "msgpack" else [{}]):
                for extra in ({}, {"zz": var("zz", str)}):
                    data = var("doc", DOC[fmt])
                    _, De, log = recorder(tree)
                    use = conv if kw.get("coerce_numbers", True) else None
                    exp = ctx.call(core if named else ctx.serde.from_tuple, c, tree, reuse_instances=False,
                                   deserialize_numbers=use)
                    r = ctx.call(frm, c, data, de=De, **kw, **extra)
                    ctx.check(len(log) == 1 and log[0][0] is data and log[0][1] == () and same(log[0][2], extra),
                              "backend-args", "the document or keywords are not passed on exactly", actual=log,
                              expected=(data, extra))
                    if isinstance(exp, Exc):
                        ctx.check(isinstance(r, Exc) and type(r.e) is type(exp.e), "core",
                                  "another outcome than the core's", result=r, expected=exp, kw=kw)
                    else:
                        ctx.check(not isinstance(r, Exc) and same(r, exp), "core",
                                  f"from_{fmt} differs from from_dict with the documented options", actual=r,
                                  expected=exp, tree=tree, kw=kw)

    return run


def ext(ctx):
    """msgpack ext_dict."""
    a = ctx.cls("A", [F("i", int)])
    b = ctx.cls("B", [F("p", pathlib.Path), F("t", set[int])])
    to, frm = fn(ctx, "msgpack", "to"), fn(ctx, "msgpack", "from")
    xs = [ctx.make(a, var("i", int)), ctx.make(b, var("p", pathlib.PosixPath), {var("t", int)})]
    enc = {a: 1, b: 0}
    dec = {1: a, 0: b}
    for x in xs:
        for named in (True, False):
            d = ctx.call(to, x, named=named, ext_dict=enc)
            if ctx.ok(d, "ext-to", value=x):
                y = ctx.call(frm, None, d, named=named, ext_dict=dec)
                if ctx.ok(y, "ext-from", doc=d):
                    ctx.eq(y, x, "ext", "ext_dict does not restore the value", named=named)
            for k in ({"use_list": True}, {"raw": False}):
                n = len(ctx.ops.backend_log)
                y = ctx.call(frm, None, d, named=named, ext_dict=dec, **k)
                seen = [o for f, o in ctx.ops.backend_log[n:] if f == "msgpack.unpackb"]
                if ctx.ok(y, "ext-from", doc=d):
                    ctx.check(len(seen) == 2 and all(o.get(kk) == vv for o in seen for kk, vv in k.items()),
                              "ext-keywords", "keywords are dropped when unpacking the extension", actual=seen, kw=k)
    ctx.raises(ctx.call(to, xs[0], ext_dict={b: 1}), "ext-unknown-type")
    d = ctx.call(to, xs[0], ext_dict=enc)
    ctx.raises(ctx.call(frm, None, d, ext_dict={7: a}), "ext-unknown-code")


def settings(fmt):
    """Keyword settings of the default backend."""

    def run(ctx):
        c = ctx.cls("C", [F("i", int)])
        x = ctx.make(c, var("i", int))
        to, frm = fn(ctx, fmt, "to"), fn(ctx, fmt, "from")
        want = {
            "json": [({}, {"ensure_ascii": False, "separators": (",", ":")}, None),
                     ({"ensure_ascii": True}, {"ensure_ascii": True, "separators": (",", ":")}, None),
                     ({"separators": (", ", ": "), "indent": 3},
                      {"ensure_ascii": False, "separators": (", ", ": "), "indent": 3}, None)],
            "yaml": [({}, {}, None), ({"sort_keys": False}, {"sort_keys": False}, None)],
            "toml": [({}, {}, None), ({"multiline_strings": True}, {"multiline_strings": True}, None)],
            "msgpack": [({}, {"use_bin_type": True}, None), ({"use_bin_type": False}, {"use_bin_type": False}, None),
                        ({"strict_types": False}, {"use_bin_type": True, "strict_types": False}, None)],
            "pickle": [({}, {}, None), ({"protocol": 2}, {"protocol": 2}, None)],
        }[fmt]
        for kw, exp, _ in want:
            n = len(ctx.ops.backend_log)
            d = ctx.call(to, x, **kw)
            if not ctx.ok(d, "dumps", kw=kw):
                continue
            got = [dict(o) for _, o in ctx.ops.backend_log[n:]]
            for o in got:
                o.pop("default", None)
                o.pop("option", None)
            ctx.check(len(got) == 1 and got[0] == exp, "settings", "backend called with other settings", actual=got,
                      expected=exp)
            y = ctx.call(frm, c, d)
            if ctx.ok(y, "loads"):
                ctx.eq(y, x, "settings-roundtrip")
        if fmt == "msgpack":
            d = ctx.call(to, x)
            for kw, exp in [({}, {"raw": False, "use_list": False}), ({"use_list": True}, {"raw": False, "use_list": True}),
                            ({"raw": True}, {"raw": True, "use_list": False})]:
                n = len(ctx.ops.backend_log)
                ctx.call(frm, c, d, **kw)
                got = [o for _, o in ctx.ops.backend_log[n:]]
                ctx.check(len(got) == 1 and got[0] == exp, "settings", "backend called with other settings",
                          actual=got, expected=exp)
        # a caller-supplied default reaches the backend
        if fmt in ("json", "msgpack"):
            mine = lambda o: "x"
            n = len(ctx.ops.backend_log)
            d = ctx.call(to, x, default=mine)
            if ctx.ok(d, "dumps", kw="default"):
                got = [o for _, o in ctx.ops.backend_log[n:]]
                ctx.check(len(got) == 1 and got[0].get("default") is mine, "default-hook",
                          "the caller's default hook is replaced", actual=got)

    return run


def orjson_opts(ctx):
    c = ctx.cls("C", [F("i", int), F("d", dict[int, str])])
    x = ctx.make(c, var("i", int), {3: var("s", str)})
    for kw, need in [({}, 4 | 16), ({"option": 1}, 4 | 1), ({"option": 32 | 16}, 4 | 32 | 16)]:
        n = len(ctx.ops.backend_log)
        d = ctx.call(fn(ctx, "json", "to"), x, **kw)
        if ctx.ok(d, "dumps", kw=kw):
            got = [o for _, o in ctx.ops.backend_log[n:]]
            ctx.check(len(got) == 1 and got[0]["option"] == need, "orjson-option", actual=got, expected=need)
            ctx.check(ctx.ops.typeof(d) is str, "json-str", "to_json returns something else than str", actual=d)
            y = ctx.call(fn(ctx, "json", "from"), c, d)
            if ctx.ok(y, "loads"):
                ctx.eq(y, x, "orjson-roundtrip")


def none_inside(s, top=True, skipping=True):
    """None can occur where TOML cannot express it."""
    if isinstance(s, (OptT, NoneT)):
        return not top or any(none_inside(k, False) for k in s.kids())
    if isinstance(s, DCT):
        return any(none_inside(k, True) for k in s.kids())
    if isinstance(s, AnyT):
        return True
    if isinstance(s, UnionT):
        return any(isinstance(k, NoneT) for k in s.kids()) and not top or any(none_inside(k, False) for k in s.kids() if not isinstance(k, NoneT))
    return any(none_inside(k, False) for k in s.kids())


def walk(s):
    yield s
    for k in s.kids():
        yield from walk(k)


def str_keys(s):
    """All mapping keys have a string wire form."""
    for x in walk(s):
        if isinstance(x, (DictT, CounterT)):
            k = x.kids()[0]
            if not str_form(k):
                return False
    return True


def str_form(k):
    if isinstance(k, AliasT):
        return str_form(k.e)
    if isinstance(k, Prim):
        return k is STR
    if isinstance(k, (StrSer, DT)):
        return True
    if isinstance(k, EnumT):
        return k.e in (Color, SE, Nested)
    if isinstance(k, Lit):
        return all(isinstance(a, str) for a in k.values)
    if isinstance(k, NewT):
        return k.label.endswith("Str")
    if isinstance(k, PrimSub):
        return k.label.startswith("Str")
    return False


def ok_for(fmt, s, top):
    if fmt == "toml" and (none_inside(s, not top) or not str_keys(s) or top):
        return False
    if fmt in ("json", "orjson"):
        for x in walk(s):
            if isinstance(x, (DictT, CounterT)) and not (str_form(x.kids()[0]) or x.kids()[0] in (INT, FLOAT) or
                                                         isinstance(x.kids()[0], EnumT)):
                return False
    return True


def trip(fmt, s, top):
    def run(ctx):
        t = s.t(ctx)
        to, frm = fn(ctx, fmt, "to"), fn(ctx, fmt, "from")
        kw = {}
        if fmt == "msgpack" and not str_keys(s):
            kw = {"strict_map_key": False}
        if not top:
            c = ctx.cls("C", [F("before", int), F("x", t), F("after", str)])
            if not ctx.ok(c, "decorate"):
                return
        for lab, v in s.vals(ctx, "x"):
            x = v if top else ctx.make(c, var("b", int), v, var("a", str))
            T = t if top else c
            for named in ((True, False) if fmt == "msgpack" else (True,)):
                nk = {"named": named} if fmt == "msgpack" else {}
                d = ctx.call(to, x, cls=T, **nk) if top else ctx.call(to, x, **nk)
                if not ctx.ok(d, "to", value=x):
                    continue
                ctx.check(ctx.ops.typeof(d) is DOC[fmt], "doc-type", actual=d)
                y = ctx.call(frm, T, d, **nk, **kw)
                if ctx.ok(y, "from", doc=d, value=x):
                    ctx.eq(y, x, "roundtrip", f"{fmt} round trip of {s.label}", doc=d)

    return run


def scenarios(tier):
    out = []
    for f in FMTS:
        out += [Scenario(f"forward:{f}", forward(f)), Scenario(f"forward-cls:{f}", forward_cls(f)),
                Scenario(f"backward:{f}", backward(f)), Scenario(f"settings:{f}", settings(f))]
    out += [Scenario("msgpack-ext", ext), Scenario("orjson-options", orjson_opts, missing=())]
    for s in field_shapes(tier):
        for f in FMTS + ["orjson"]:
            for top in (False, True):
                if ok_for(f, s, top):
                    g = "json" if f == "orjson" else f
                    out.append(Scenario(f"{'top' if top else 'field'}:{f}:{s.label}", trip(g, s, top),
                                        missing=() if f == "orjson" else ("orjson",)))
    return out
