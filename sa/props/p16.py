"""P16: flatten merges and re-splits fields without loss."""
import itertools
from ..harness import F, Scenario, Exc, _UNSET
from ..shapes import *
from ..values import var, AV

RULES = ["a flattened field contributes exactly the entries its class produces on its own, in place",
         "reading gives the flattened field what its class gives for those entries, for every subset of them being present",
         "an Optional flattened field restores None and a value; a defaulted one its default",
         "a flattened dict gets exactly the keys no declared field claims and never overrides a declared field",
         "the tuple form splices the entries of the flattened class"]
EXPLANATION = ("Abstract interpretation; the oracle is relational: the flattened class (de)serialized on its own by the same program. "
               "Child configurations x parent configurations x depth x Optional/default x every subset of the child's entries.")

O = typing.Optional
UP = lambda v: AV("up", (v,), str)
DOWN = lambda v: AV("down", (v,), int)


def kids():
    """name -> (fields(ctx), class options, extra)"""
    k = {}
    k["plain"] = (lambda c: [F("p", int), F("q", str)], {})
    k["one"] = (lambda c: [F("p", int)], {})
    k["rename"] = (lambda c: [F("p", int, opts=dict(rename="P-p")), F("q", str, opts=dict(rename="a2"))], {})
    k["camel"] = (lambda c: [F("foo_bar", int), F("baz_qux", O[str])], dict(rename_all="camelcase"))
    k["alias"] = (lambda c: [F("p", int, opts=dict(alias=["p1", "p2"])), F("q", str, default="dq", opts=dict(alias=["q1"])),
                             F("r", O[int], opts=dict(alias=["r1"], rename="R"))], {})
    k["defaults"] = (lambda c: [F("p", int), F("q", str, default="dq"), F("r", list[int], factory=lambda: [7]), F("s", O[int])], {})
    k["all-default"] = (lambda c: [F("p", int, default=1), F("q", O[str], default="dq")], {})
    k["optional"] = (lambda c: [F("p", O[int]), F("q", O[str])], {})
    k["skip"] = (lambda c: [F("p", int), F("q", str, default="dq", opts=dict(skip=True)), F("r", int, default=4, opts=dict(skip_serializing=True)),
                            F("s", int, default=5, opts=dict(skip_deserializing=True))], {})
    k["skip-if"] = (lambda c: [F("p", int), F("q", O[str], default=None, opts=dict(skip_if_none=True)),
                               F("r", list[int], factory=list, opts=dict(skip_if_false=True)),
                               F("s", int, default=3, opts=dict(skip_if=lambda v: v == 3)), F("t", int, default=8, opts=dict(skip_if_default=True))], {})
    k["class-skip"] = (lambda c: [F("p", int), F("q", O[str], default=None), F("r", int, default=3)], dict(skip_if_none=True, skip_if_default=True))
    k["custom"] = (lambda c: [F("p", int, opts=dict(serializer=UP, deserializer=DOWN)), F("q", str)], {})
    k["conv"] = (lambda c: [F("p", pathlib.Path), F("q", set[int]), F("r", O[datetime.date]), F("s", Color), F("t", tuple[int, pathlib.Path])], {})
    k["reuse"] = (lambda c: [F("p", pathlib.Path), F("q", set[int])], dict(reuse_instances_default=True, convert_sets_default=True))
    k["nested"] = (lambda c: [F("p", D.t(c)), F("q", list[D.t(c)]), F("r", dict[str, D.t(c)])], {})
    k["union"] = (lambda c: [F("p", typing.Union[D.t(c), int]), F("q", list[typing.Union[int, str]])], {})
    k["kw"] = (lambda c: [F("p", int, dc=dict(kw_only=True)), F("q", str)], {})
    k["init"] = (lambda c: [F("p", int), F("q", str, default="i", dc=dict(init=False))], {})
    k["disabled"] = (lambda c: [F("p", int), F("q", str)], dict(type_check="disabled"))
    k["coerce"] = (lambda c: [F("p", int), F("q", str)], dict(type_check="coerce"))
    k["names"] = (lambda c: [F("data", int), F("k", str), F("v", int), F("res", int), F("subres", int), F("obj", int), F("known_fields", int)], {})
    k["classvar"] = (lambda c: [F("p", int)], dict(serialize_class_var=True))
    k["legacy"] = (lambda c: [F("p", int), F("q", str)], dict(serializer=lambda t, v: AV("ls", (t.__name__, v), str),
                                                            deserializer=lambda t, v: AV("ld", (t.__name__, v), t)))
    k["empty"] = (lambda c: [], {})
    return k


def value(ctx, t, n, name):
    """A well-typed abstract value of the field types used above."""
    if t in (int, str, float):
        return var(f"{name}{n}", t)
    if t is pathlib.Path:
        return var(f"{name}{n}", pathlib.Path)
    if t == set[int]:
        return {var(f"{name}{n}", int)}
    if t == datetime.date:
        return var(f"{name}{n}", datetime.date)
    if t is Color:
        return Color.BLUE
    if t == tuple[int, pathlib.Path]:
        return (var(f"{name}a{n}", int), var(f"{name}b{n}", pathlib.Path))
    if t is D.t(ctx):
        return ctx.make(t, var(f"{name}i{n}", int), var(f"{name}s{n}", str))
    o, a = typing.get_origin(t), typing.get_args(t)
    if o is typing.Union and type(None) in a:
        return value(ctx, a[0], n, name)
    if o is typing.Union:
        return value(ctx, a[n % 2], n, name)
    if o is list:
        return [value(ctx, a[0], n, name), value(ctx, a[0], n + 1, name)]
    if o is dict:
        return {"k1": value(ctx, a[1], n, name)}
    raise KeyError(t)


def build(ctx, kn, name="K", marked=True):
    fs, opts = kids()[kn]
    opts = dict(opts)
    if "type_check" in opts:
        opts["type_check"] = ctx.get("core." + opts["type_check"])
    fields = fs(ctx)
    fields.sort(key=lambda f: f.default is not _UNSET or f.factory is not _UNSET)
    if kn == "classvar":
        fields = fields + [F("cv", typing.ClassVar[int], default=9)]
    c = ctx.cls(name, fields, **opts) if marked else dataclasses.dataclass(ctx.rawcls(name, fields))
    fields = [f for f in fields if f.name != "cv"]

    def mk(n):
        """n-th value: 0 all values, 1 defaults where there are, 2 None where optional"""
        kw = {}
        for f in fields:
            if f.dc.get("init") is False:
                continue
            hasd = f.default is not _UNSET or f.factory is not _UNSET
            if n == 1 and hasd:
                continue
            opt = typing.get_origin(f.type) is typing.Union and type(None) in typing.get_args(f.type)
            kw[f.name] = None if n == 2 and opt else value(ctx, f.type, n, name + f.name)
        return ctx.make(c, **kw)

    return c, mk


def entries(d):
    return list(d.items())


def splice(parts):
    d = {}
    for p in parts:
        d.update(p)
    return d


PARENTS = {
    "first": (["k", "a", "z"], {}), "middle": (["a", "k", "z"], {}), "last": (["a", "z", "k"], {}), "only": (["k"], {}),
    "camel": (["a_long", "k", "z"], dict(rename_all="camelcase")), "pascal": (["k", "a_long"], dict(rename_all="pascalcase")),
    "skips": (["a", "k", "z"], dict(skip_if_none=True, skip_if_default=True)),
    "reuse": (["a", "k", "z"], dict(reuse_instances_default=True, convert_sets_default=True)),
    "coerce": (["a", "k", "z"], dict(type_check="coerce")), "disabled": (["a", "k", "z"], dict(type_check="disabled")),
    "decos": (["a", "k", "z"], dict(deco=["se.serialize", "de.deserialize"])),
    "decos2": (["a", "k", "z"], dict(deco=["de.deserialize", "se.serialize"])),
}
PKEY = {"a": "a", "z": "z", "a_long": {"camelcase": "aLong", "pascalcase": "ALong"}}


def parent(ctx, names, opts, kt, kopt, name="C", kname="k", kdef=None, bases=(), extra=None):
    opts = dict(opts)
    if "type_check" in opts:
        opts["type_check"] = ctx.get("core." + opts["type_check"])
    fs = []
    for n in names:
        if n == "k":
            kw = {} if kdef is None else dict(factory=kdef)
            fs.append(F(kname, O[kt] if kopt else kt, opts=dict(flatten=True), dc=dict(kw_only=True), **kw))
        else:
            fs.append(F(n, int if n != "z" else O[int], dc=dict(kw_only=True)))
    return ctx.cls(name, fs, bases=bases, **opts)


def pkeys(names, opts):
    return {n: PKEY[n] if isinstance(PKEY[n], str) else PKEY[n][opts["rename_all"]] for n in names if n != "k"}


def relation(pn, kn, kopt, depth=1, marked=True, kdef=False):
    names, opts = PARENTS[pn]

    def run(ctx):
        k, mk = build(ctx, kn, marked=marked)
        if not ctx.ok(k, "decorate"):
            return
        if depth == 2:
            k0, mk0 = k, mk
            k = ctx.cls("M", [F("mm", int, dc=dict(kw_only=True)), F("inner", O[k0] if kopt else k0, opts=dict(flatten=True), dc=dict(kw_only=True))])
            mk = lambda n: ctx.make(k, mm=var(f"mm{n}", int), inner=mk0(n))
            if not ctx.ok(k, "decorate"):
                return
        dflt = mk(1)
        c = parent(ctx, names, opts, k, kopt, kdef=(lambda: mk(1)) if kdef else None)
        if not ctx.ok(c, "decorate"):
            return
        pk = pkeys(names, opts)
        own = {n: var("own_" + n, int) for n in pk}
        for n in (0, 1, 2):
            for call in ({}, dict(skip_none=True), dict(reuse_instances=True), dict(convert_sets=True), dict(reuse_instances=False, convert_sets=False)):
                if n and call not in ({}, dict(skip_none=True)):
                    continue
                inner = mk(n)
                if isinstance(inner, Exc):
                    ctx.ok(inner, "make")
                    continue
                x = ctx.make(c, k=inner, **own)
                e = ctx.to_dict(inner, **{**class_opts(pn), **call})
                d = ctx.to_dict(x, **call)
                if not (ctx.ok(e, "child") and ctx.ok(d, "write")):
                    continue
                exp = splice([e if f == "k" else {pk[f]: own[f]} for f in names])
                ctx.check(same(d, exp, ordered=True), "merge", "the entries differ from those of the class on its own", actual=d, expected=exp, n=n)
                if call in ({}, dict(skip_none=True)):
                    back(ctx, c, k, kopt, kdef and dflt, d, e, own, pk, inner, True)
        if kopt:
            x = ctx.make(c, k=None, **own)
            d = ctx.to_dict(x)
            exp = {pk[f]: own[f] for f in names if f != "k"}
            if ctx.ok(d, "none"):
                ctx.check(same(d, exp, ordered=True), "none", actual=d, expected=exp)
                y = ctx.from_dict(c, d)
                if ctx.ok(y, "none"):
                    if not kdef:
                        ctx.eq(y, x, "none")
                    else:
                        ctx.eq(y.k, dflt, "default")

    return run


def class_opts(pn):
    """The options in force in a class when the call gives none."""
    return dict(reuse_instances="decos" not in pn, convert_sets=pn == "reuse")


def back(ctx, c, k, kopt, dflt, d, e, own, pk, inner, reuse):
    alias = {"p": ["p1", "p2"], "q": ["q1"], "R": ["r1"]}
    keys = list(e)
    for r in range(len(keys) + 1):
        for drop in itertools.combinations(keys, r):
            if len(keys) > 4 and 1 < r < len(keys):
                continue
            rest = {a: b for a, b in e.items() if a not in drop}
            full = {a: b for a, b in d.items() if a not in drop}
            one(ctx, c, k, kopt, dflt, rest, full, own, pk, reuse)
            if not drop:
                rev = dict(reversed(list(full.items())))
                one(ctx, c, k, kopt, dflt, rest, rev, own, pk, reuse)
    if "p" in e and isinstance(getattr(inner, "q", None), object) and hasattr(k, "__serde__") and "p1" in k.__serde__.de_known_fields:
        for a in alias:
            for al in alias[a]:
                if a in e:
                    ren = lambda m: {al if x == a else x: y for x, y in m.items()}
                    one(ctx, c, k, kopt, dflt, ren(e), ren(d), own, pk, reuse)


def one(ctx, c, k, kopt, dflt, rest, full, own, pk, reuse):
    y = ctx.from_dict(c, full)
    exp = ctx.from_dict(k, rest, reuse_instances=reuse)
    if (kopt or dflt) and not set(rest) - {"cv"}:
        if ctx.ok(y, "absent", data=full):
            ctx.eq(y.k, dflt or None, "absent", data=full)
        return
    if isinstance(exp, Exc):
        ctx.check(ctx.is_serde_error(y), "same-refusal", "the class refuses its entries, the flattening class does not", result=y, data=full, alone=exp)
        return
    if ctx.ok(y, "read", data=full):
        ctx.eq(y.k, exp, "split", "the flattened field is not what its class gives on its own", data=full)
        for n, v in own.items():
            ctx.eq(getattr(y, n), v, "own", data=full)


def tuples(pn, kn, kopt, depth):
    names, opts = PARENTS[pn]

    def run(ctx):
        k, mk = build(ctx, kn)
        if depth == 2:
            k0, mk0 = k, mk
            k = ctx.cls("M", [F("mm", int, dc=dict(kw_only=True)), F("inner", O[k0] if kopt else k0, opts=dict(flatten=True), dc=dict(kw_only=True))])
            mk = lambda n: ctx.make(k, mm=var(f"mm{n}", int), inner=mk0(n))
        c = parent(ctx, names, opts, k, kopt)
        if not ctx.ok(c, "decorate"):
            return
        own = {n: var("own_" + n, int) for n in names if n != "k"}
        for n in (0, 2):
            inner = mk(n)
            x = ctx.make(c, k=inner, **own)
            e, t = ctx.to_tuple(inner, **class_opts(pn)), ctx.to_tuple(x)
            if not (ctx.ok(e, "child") and ctx.ok(t, "tuple")):
                continue
            exp = []
            for f in names:
                exp += list(e) if f == "k" else [own[f]]
            ctx.eq(t, tuple(exp), "tuple-splice")
            if not e or all(v is None for v in e):
                continue
            y, alone = ctx.from_tuple(c, t), ctx.from_tuple(k, e, reuse_instances=True)
            if isinstance(alone, Exc):
                continue
            if ctx.ok(y, "tuple-read"):
                ctx.eq(y.k, alone, "tuple-split")
                for f, v in own.items():
                    ctx.eq(getattr(y, f), v, "tuple-own")

    return run


def siblings(ka, kb, oa, ob):
    """Two flattened fields next to each other, and the one class flattened by two classes."""

    def run(ctx):
        a, mka = build(ctx, ka, "KA")
        b0 = ctx.cls("KB", [F("s1", int), F("s2", O[str])])
        mkb = lambda n: ctx.make(b0, var(f"s1{n}", int), None if n == 2 else var(f"s2{n}", str))
        c = ctx.cls("C", [F("x", int), F("f", O[a] if oa else a, opts=dict(flatten=True)), F("g", O[b0] if ob else b0, opts=dict(flatten=True)), F("y", int)])
        e = ctx.cls("E", [F("g", b0, opts=dict(flatten=True)), F("w", int)])
        if not (ctx.ok(c, "decorate") and ctx.ok(e, "decorate")):
            return
        X, Y = var("x", int), var("y", int)
        for n, m in itertools.product((0, 1, 2, None), (0, 2, None)):
            if (n is None and not oa) or (m is None and not ob):
                continue
            va, vb = None if n is None else mka(n), None if m is None else mkb(m)
            x = ctx.make(c, X, va, vb, Y)
            d = ctx.to_dict(x)
            ea, eb = {} if va is None else ctx.to_dict(va, **class_opts("")), {} if vb is None else ctx.to_dict(vb)
            if not ctx.ok(d, "siblings"):
                continue
            ctx.check(same(d, {"x": X, **ea, **eb, "y": Y}, ordered=True), "siblings", actual=d, expected=(ea, eb))
            y = ctx.from_dict(c, d)
            if ctx.ok(y, "siblings"):
                if ea or not oa:
                    ctx.eq(y.f, ctx.from_dict(a, ea), "siblings-first")
                ctx.eq(y.g, vb, "siblings-second")
                ctx.eq((y.x, y.y), (X, Y), "siblings-own")
            if vb is not None:
                z = ctx.make(e, vb, X)
                ctx.eq(ctx.from_dict(e, ctx.to_dict(z)), z, "siblings-shared")

    return run


def inherited(kn, kopt):
    def run(ctx):
        k, mk = build(ctx, kn)
        b = ctx.cls("B", [F("a", int), F("k", O[k] if kopt else k, opts=dict(flatten=True))])
        c = ctx.cls("C", [F("z", int)], bases=(b,))
        if not ctx.ok(c, "decorate"):
            return
        for n in (0, 2):
            v = mk(n)
            x = ctx.make(c, var("a", int), v, var("z", int))
            e, d = ctx.to_dict(v, **class_opts("")), ctx.to_dict(x)
            if ctx.ok(d, "inherit"):
                ctx.check(same(d, {"a": var("a", int), **e, "z": var("z", int)}, ordered=True), "inherit", actual=d)
                y = ctx.from_dict(c, d)
                if ctx.ok(y, "inherit") and (e or not kopt):
                    ctx.eq(y.k, ctx.from_dict(k, e), "inherit")
        # the flattened class inherits its fields
        k2 = ctx.cls("K2", [F("own2", int, dc=dict(kw_only=True))], bases=(k,))
        c2 = ctx.cls("C2", [F("a", int), F("k", O[k2] if kopt else k2, opts=dict(flatten=True))])
        if not ctx.ok(c2, "decorate"):
            return
        base = ctx.to_dict(mk(0))
        v = ctx.from_dict(k2, {**base, "own2": 5})
        if isinstance(v, Exc):
            return
        x = ctx.make(c2, var("a", int), v)
        e, d = ctx.to_dict(v), ctx.to_dict(x)
        if ctx.ok(d, "inherit-child"):
            ctx.check(same(d, {"a": var("a", int), **e}, ordered=True), "inherit-child", actual=d, expected=e)
            y = ctx.from_dict(c2, d)
            if ctx.ok(y, "inherit-child"):
                ctx.eq(y.k, ctx.from_dict(k2, e), "inherit-child")

    return run


WRAPS = {"list": (lambda t: list[t], lambda v: [v, v], lambda w: [w, w]), "dict": (lambda t: dict[str, t], lambda v: {"q": v}, lambda w: {"q": w}),
         "opt": (lambda t: O[t], lambda v: v, lambda w: w), "class": (lambda t: t, lambda v: v, lambda w: w),
         "union": (lambda t: typing.Union[t, int], lambda v: v, lambda w: {"C": w}),
         "tuple": (lambda t: tuple[t, int], lambda v: (v, 1), lambda w: (w, 1))}


def wrapped(kn, wn, kopt):
    tt, vv, ww = WRAPS[wn]

    def run(ctx):
        k, mk = build(ctx, kn)
        c = ctx.cls("C", [F("a", int), F("k", O[k] if kopt else k, opts=dict(flatten=True)), F("z", O[int])])
        p = ctx.cls("P", [F("f", tt(c))])
        if not (ctx.ok(c, "decorate") and ctx.ok(p, "decorate")):
            return
        for n in (0, 2) + ((None,) if kopt else ()):
            v = None if n is None else mk(n)
            x = ctx.make(c, var("a", int), v, None)
            e = {} if v is None else ctx.to_dict(v)
            w = {"a": var("a", int), **e, "z": None}
            d = ctx.to_dict(ctx.make(p, vv(x)))
            if ctx.ok(d, "wrapped"):
                ctx.eq(d, {"f": ww(w)}, "wrapped")
                y = ctx.from_dict(p, d)
                alone = ctx.from_dict(c, w)
                if not isinstance(alone, Exc) and ctx.ok(y, "wrapped"):
                    ctx.eq(y.f, vv(alone), "wrapped")
            if wn not in ("class",):
                d = ctx.to_dict(vv(x), c=tt(c))
                if ctx.ok(d, "wrapped-top"):
                    ctx.eq(d, ww(w), "wrapped-top")

    return run


# --- flattened dicts ---------------------------------------------------------------------------

DT_ = {"any": dict[str, typing.Any], "bare": dict, "tdict": typing.Dict[str, typing.Any]}


def extras(dt, pos, kid):
    """One flattened dict next to declared fields of every kind."""
    names = {"first": ["ex", "a", "r", "s", "t", "u", "o"], "middle": ["a", "r", "ex", "s", "t", "u", "o"],
             "last": ["a", "r", "s", "t", "u", "o", "ex"]}[pos]

    def run(ctx):
        kw = dict(kw_only=True)
        mk = {"a": F("a", int, dc=kw), "r": F("r_f", str, opts=dict(rename="R", alias=["r1", "r2"]), dc=kw),
              "s": F("s", int, default=4, opts=dict(skip_serializing=True), dc=kw), "t": F("t", int, default=5, opts=dict(skip_if_default=True), dc=kw),
              "u": F("u", int, default=6, opts=dict(skip=True), dc=kw), "o": F("o", O[int], dc=kw),
              "ex": F("ex", DT_[dt], opts=dict(flatten=True), dc=kw)}
        fs = [mk[n] for n in names]
        k = ctx.cls("K", [F("kp", int), F("kq", int, default=2, opts=dict(alias=["kq1"]))])
        if kid:
            fs.append(F("k", k, opts=dict(flatten=True), dc=kw))
        c = ctx.cls("C", fs)
        if not ctx.ok(c, "decorate"):
            return
        key = {"a": "a", "r": "R", "s": "s", "t": "t", "u": "u", "o": "o"}
        claimed = set(key.values()) | {"r1", "r2"} | ({"kp", "kq", "kq1"} if kid else set())
        base = {"a": var("a", int), "R": var("r", str), **({"kp": var("kp", int)} if kid else {})}
        cands = ["zz", "r_f", "ex", "k", "A", "data", "__flatten_extra", "", "é", "s", "t", "u", "o", "r1", "r2", "kq", "kq1"]
        for n in range(0, 4):
            for ks in itertools.combinations(cands, n):
                if n == 3 and not {"zz", "s"} <= set(ks):
                    continue
                d = {**base, **{x: 70 + i for i, x in enumerate(ks)}}
                y = ctx.from_dict(c, d)
                if not ctx.ok(y, "extra-read", data=d):
                    continue
                exp = {x: d[x] for x in ks if x not in claimed}
                ctx.check(same(y.ex, exp, ordered=True), "extra", "the flattened dict has not exactly the unclaimed keys", actual=y.ex, expected=exp, data=d)
                ctx.eq((y.a, y.r_f), (base["a"], base["R"]), "extra-own", data=d)
                if n < 3:
                    out = ctx.to_dict(y)
                    if ctx.ok(out, "extra-write"):
                        for x in exp:
                            ctx.check(x in out and same(out[x], exp[x]), "extra-write", "a captured entry is lost", actual=out, expected=exp)
                        ctx.check(set(out) == set(exp) | {"a", "R", "o"} | ({"t"} if y.t != 5 else set()) | ({"kp", "kq"} if kid else set()),
                                  "extra-write", "entries are missing or added", actual=out, expected=exp)
                        z = ctx.from_dict(c, out)
                        if ctx.ok(z, "extra-back"):
                            ctx.eq(z.ex, exp, "extra-back")
        # the dict has keys of declared fields: they are never overridden
        for x in ["a", "R", "o"] + (["kp", "kq"] if kid else []):
            own = dict(a=1, r_f="r", o=None)
            if kid:
                own["k"] = ctx.make(k, 11, 12)
            v = ctx.make(c, ex={x: 99, "zz": 1}, **own)
            out = ctx.to_dict(v)
            if ctx.ok(out, "override"):
                full = {"a": 1, "R": "r", "o": None, "kp": 11, "kq": 12}
                ctx.eq(out[x], full[x], "override", "a flattened dict overrides a declared field", key=x, out=out)
                ctx.eq(out.get("zz"), 1, "override")
        v = ctx.make(c, ex={}, **{"a": 1, "r_f": "r", "o": None, **({"k": ctx.make(k, 11, 12)} if kid else {})})
        out = ctx.to_dict(v)
        if ctx.ok(out, "empty"):
            ctx.eq(out, {"a": 1, "R": "r", "o": None, **({"kp": 11, "kq": 12} if kid else {})}, "empty")
            y = ctx.from_dict(c, out)
            if ctx.ok(y, "empty"):
                ctx.eq(y, v, "empty")

    return run


def extra_values(dt):
    """The values of a flattened dict are (de)serialized as those of a dict field, with the call options."""

    def run(ctx):
        d = D.t(ctx)
        c = ctx.cls("C", [F("a", int), F("ex", DT_[dt], opts=dict(flatten=True))])
        p = ctx.cls("P", [F("ex", DT_[dt])])
        vals = [1, "x", None, [1, 2], {"n": {"m": 1}}, var("v", int)]
        if dt != "bare":
            vals += [ctx.make(d, 1, "s"), {1, 2}, pathlib.Path("/x"), Color.RED, [ctx.make(d, 1, "s")]]
        for v in vals:
            for call in ({}, dict(convert_sets=True), dict(reuse_instances=True), dict(skip_none=True)):
                a, b = ctx.to_dict(ctx.make(c, 1, {"k": v, "j": 2}), **call), ctx.to_dict(ctx.make(p, {"k": v, "j": 2}), **call)
                if ctx.ok(a, "values") and ctx.ok(b, "values"):
                    ctx.check(same(a, {"a": 1, **b["ex"]}, ordered=True), "values", actual=a, expected=b)
        x = ctx.from_dict(c, {"k": [1], "a": 1})
        if ctx.ok(x, "values"):
            ctx.eq(x.ex, {"k": [1]}, "values")

    return run


def child_extra(depth, kopt, pdict):
    """A dict flattened in a flattened class captures what neither class claims."""

    def run(ctx):
        k = ctx.cls("K", [F("p", int, opts=dict(alias=["pp"])), F("ex", dict[str, typing.Any], opts=dict(flatten=True))])
        mk = lambda ex: ctx.make(k, 5, ex)
        get = lambda y: y.k.ex
        inner = k
        if depth == 2:
            m = ctx.cls("M", [F("mm", int, default=3), F("k", k, factory=lambda: ctx.make(k, 0, {}), opts=dict(flatten=True))])
            inner, mk = m, lambda ex: ctx.make(m, 3, ctx.make(k, 5, ex))
            get = lambda y: y.k.k.ex
        fs = [F("a", int, opts=dict(rename="A", alias=["a1"])), F("z", int, default=0), F("k", O[inner] if kopt else inner, opts=dict(flatten=True), **({"default": None} if kopt else dict(factory=lambda: None)))]
        c = ctx.cls("C", fs)
        if not ctx.ok(c, "decorate"):
            return
        known = {"A", "a1", "z", "p", "pp"} | ({"mm"} if depth == 2 else set())
        for ks in [(), ("zz",), ("zz", "a"), ("k", "ex"), ("a1",), ("z", "zz"), ("pp", "q")]:
            d = {"A": 1, "p": 5, **{x: 70 + i for i, x in enumerate(ks)}}
            y = ctx.from_dict(c, d)
            if ctx.ok(y, "child-extra", data=d):
                ctx.eq(get(y), {x: d[x] for x in ks if x not in known}, "child-extra", data=d)
                out = ctx.to_dict(y)
                if ctx.ok(out, "child-extra-write"):
                    z = ctx.from_dict(c, out)
                    if ctx.ok(z, "child-extra-back"):
                        ctx.eq(z, y, "child-extra-back", data=out)
        # the child's dict does not override the declared fields of the parent
        for x in ("A", "z", "p"):
            v = ctx.make(c, 1, 2, mk({x: 99, "zz": 1}))
            out = ctx.to_dict(v)
            if ctx.ok(out, "child-override"):
                ctx.eq(out[x], {"A": 1, "z": 2, "p": 5}[x], "child-override", out=out)
                ctx.eq(out.get("zz"), 1, "child-override", out=out)

    return run


def not_flattenable(ctx):
    """Anything else cannot be flattened: SerdeError at decoration."""
    for t in (int, str, list[int], dict[str, int], dict[int, typing.Any], O[int], typing.Union[int, str], tuple[int, ...], set[int], Color, O[dict[str, typing.Any]]):
        c = ctx.cls("C", [F("a", int), F("k", t, opts=dict(flatten=True))])
        if isinstance(c, Exc):
            ctx.check(ctx.is_serde_error(c), "unsupported", result=c, type=t)


def flag(ctx):
    """flatten=False is no flatten; FlattenOpts() is."""
    d = D.t(ctx)
    fo = ctx.get("core.FlattenOpts")
    for fl, yes in ((False, False), (None, False), (True, True), (ctx.call(fo), True)):
        c = ctx.cls("C", [F("a", int), F("k", d, opts=dict(flatten=fl))])
        if ctx.ok(c, "flag"):
            v = ctx.make(d, 1, "s")
            x = ctx.make(c, 7, v)
            e = ctx.to_dict(v)
            out = ctx.to_dict(x)
            if ctx.ok(out, "flag"):
                ctx.eq(out, {"a": 7, **e} if yes else {"a": 7, "k": e}, "flag")
                ctx.eq(ctx.from_dict(c, out), x, "flag")


def scenarios(tier):
    out = []
    K = list(kids())
    for kn in K:
        for kopt in (False, True):
            for pn in PARENTS:
                if tier == "quick" and pn not in ("middle", "camel", "only", "skips", "decos2") and kn not in ("plain", "skip-if", "alias", "defaults"):
                    continue
                out.append(Scenario(f"rel:{pn}:{kn}:{kopt}", relation(pn, kn, kopt)))
            out.append(Scenario(f"rel2:{kn}:{kopt}", relation("middle", kn, kopt, depth=2)))
            out.append(Scenario(f"default:{kn}:{kopt}", relation("middle", kn, kopt, kdef=True)))
            for pn in ("first", "middle", "last"):
                for depth in (1, 2):
                    out.append(Scenario(f"tuple:{pn}:{kn}:{kopt}:{depth}", tuples(pn, kn, kopt, depth)))
            out.append(Scenario(f"inherit:{kn}:{kopt}", inherited(kn, kopt)))
            for wn in WRAPS:
                if tier == "quick" and kn not in ("plain", "rename", "skip-if", "conv", "nested"):
                    continue
                out.append(Scenario(f"wrap:{wn}:{kn}:{kopt}", wrapped(kn, wn, kopt)))
            for ob in (False, True):
                out.append(Scenario(f"siblings:{kn}:{kopt}{ob}", siblings(kn, "plain", kopt, ob)))
        if kn in ("plain", "one", "defaults", "optional", "conv", "nested", "kw"):
            out.append(Scenario(f"unmarked:{kn}", relation("middle", kn, False, marked=False)))
            out.append(Scenario(f"unmarked-opt:{kn}", relation("middle", kn, True, marked=False)))
    for dt in DT_:
        for pos in ("first", "middle", "last"):
            for kid in (False, True):
                out.append(Scenario(f"extra:{dt}:{pos}:{kid}", extras(dt, pos, kid)))
        out.append(Scenario(f"extra-values:{dt}", extra_values(dt)))
    for depth in (1, 2):
        for kopt in (False, True):
            out.append(Scenario(f"child-extra:{depth}:{kopt}", child_extra(depth, kopt, False)))
    out += [Scenario("not-flattenable", not_flattenable), Scenario("flag", flag)]
    return out
