"""P09: skip attributes decide exactly which fields are written and read."""
import itertools
from ..harness import F, Scenario, Exc
from ..shapes import *

RULES = ["skip / skip_serializing remove the field (and only it) from the dict and the tuple output",
         "skip / skip_deserializing ignore the field in the input; it gets its default, a factory value is fresh",
         "a field is omitted exactly when skip_if (else skip_if_false), skip_if_none, skip_if_default or the skip_none "
         "call option says so; a field-level flag replaces the class-level one",
         "predicates get the value of their own field"]
EXPLANATION = ("Abstract interpretation of the generated serializers over the full matrix of field-level flags x class-level "
               "flags x call option x field types x {None, falsy, default, other, unknown} values; predicates are opaque and "
               "both of their results are explored; the expected output is computed from the declared flags only.")


def pred(name):
    def p(v):
        return AV("pred", (name, v), bool)

    return p


# type, default (conc or factory), values
def kinds(ctx):
    d = D.t(ctx)
    mk = lambda *a: ctx.make(d, *a)
    P_ = pathlib.Path
    o = typing.Optional
    return {
        "int": (o[int], 5, [None, 0, 5, var("v", int)]),
        "str": (o[str], "d", [None, "", "d", var("v", str)]),
        "bool": (o[bool], True, [None, False, True]),
        "float": (o[float], 1.5, [None, 0.0, 1.5, var("v", float)]),
        "list": (o[list[int]], lambda: [1], [None, [], [1], [var("v", int)], [1, 2]]),
        "dict": (o[dict[str, int]], lambda: {"k": 1}, [None, {}, {"k": 1}, {"k": var("v", int)}]),
        "set": (o[set[int]], lambda: {1}, [None, set(), {1}, {1, 2}]),
        "path": (o[P_], P_("/d"), [None, P_("/d"), P_("/e"), var("v", P_)]),
        "date": (o[datetime.date], datetime.date(2020, 1, 2), [None, datetime.date(2020, 1, 2), var("v", datetime.date)]),
        "enum": (o[Color], Color.RED, [None, Color.RED, Color.BLUE]),
        "class": (o[d], lambda: mk(1, "x"), [None, mk(1, "x"), mk(2, "x"), mk(var("v", int), "x")]),
        "list-class": (o[list[d]], lambda: [mk(1, "x")], [None, [], [mk(1, "x")], [mk(var("v", int), "x")]]),
        "union": (o[typing.Union[int, d]], 5, [None, 0, 5, mk(1, "x"), var("v", int)]),
        "union-str": (o[typing.Union[P_, str]], "d", [None, "", "d", P_("d"), P_("e")]),
        "any": (typing.Any, 5, [None, 0, 5, [], "x"]),
        "tuple": (o[tuple[int, str]], (1, "x"), [None, (1, "x"), (2, "x"), (var("v", int), "x")]),
        "literal": (o[typing.Literal["r", "w"]], "r", [None, "r", "w"]),
        "newtype": (o[NTInt], 5, [None, 0, 5, var("v", int)]),
        "deque": (o[deque[int]], lambda: deque([1]), [None, deque(), deque([1]), deque([2])]),
        "decimal": (o[decimal.Decimal], decimal.Decimal("1.50"), [None, decimal.Decimal("1.50"), decimal.Decimal("2")]),
        "nodefault": (o[int], None, [None, 0, var("v", int)]),
    }


def shape_wire(ctx, v):
    """The plain documented output form of the values used here (reuse False, sets converted)."""
    if isinstance(v, AV):
        if v.typ in (int, str, float):
            return v
        return None
    return v


def expected_omit(ctx, v, flags, default, has_default):
    tr = lambda c: c if isinstance(c, bool) else ctx.ops.truth(c)
    if flags["skip_none"] and v is None:
        return True
    if flags["none"] and v is None:
        return True
    if flags["default"] and has_default and tr(ctx.ops.eq(v, default)):
        return True
    if flags["skip_if"]:
        if tr(AV("pred", ("p", v), bool)):
            return True
    elif flags["false"] and not ctx.ops.truth(v):
        return True
    return False


def matrix(kind, si, sf, cls_none, cls_def, rename):
    def run(ctx):
        t, default, values = kinds(ctx)[kind]
        has_default = kind != "nodefault"
        raw_is_wire = kind in ("int", "str", "bool", "float", "nodefault", "newtype", "literal")
        n = 0
        for fn, fd in itertools.product((None, True, False), repeat=2):
            opts = {}
            if si:
                opts["skip_if"] = pred("p") if raw_is_wire else (lambda v: AV("pred", ("p", None), bool))
            if sf is not None:
                opts["skip_if_false"] = sf
            if fn is not None:
                opts["skip_if_none"] = fn
            if fd is not None:
                opts["skip_if_default"] = fd
            if rename:
                opts["rename"] = "R"
            kw = {}
            if has_default:
                kw = dict(factory=default) if callable(default) else dict(default=default)
            n += 1
            c = ctx.cls(f"C{n}", [F("first", str), F("x", t, opts=opts, **kw), F("last", str, default="l"),
                                  F("other", typing.Optional[int], default=None, opts=dict(skip_if_none=False, skip_if_default=False))],
                        skip_if_none=cls_none, skip_if_default=cls_def)
            if not ctx.ok(c, "decorate", opts=list(opts)):
                continue
            dflt = default() if callable(default) else default
            none = fn if fn is not None else cls_none
            dflg = fd if fd is not None else cls_def
            for v in values:
                for call in (False, True):
                    flags = dict(none=none, default=dflg, skip_if=si, false=bool(sf), skip_none=call)
                    pv = v if raw_is_wire else None
                    x = ctx.make(c, "f", v, "z", None)
                    d = ctx.to_dict(x, skip_none=call, convert_sets=True)
                    if not ctx.ok(d, "to_dict", value=v, flags=flags):
                        continue
                    if si and not raw_is_wire:
                        omit = expected_omit_opaque(ctx, v, flags, dflt, has_default)
                    else:
                        omit = expected_omit(ctx, v, flags, dflt, has_default)
                    key = "R" if rename else "x"
                    want = ["first"] + ([] if omit else [key]) + ["last"] + ([] if call else ["other"])
                    ctx.check(isinstance(d, dict) and list(d) == want, "omit",
                              "the keys written are not those the skip settings call for", actual=d, expected=want,
                              value=v, flags=flags, field=opts.keys())

    return run


def expected_omit_opaque(ctx, v, flags, default, has_default):
    tr = lambda c: c if isinstance(c, bool) else ctx.ops.truth(c)
    if (flags["skip_none"] or flags["none"]) and v is None:
        return True
    if flags["default"] and has_default and tr(ctx.ops.eq(v, default)):
        return True
    return tr(AV("pred", ("p", None), bool))


def static_skip(kind, which, extra):
    """skip, skip_serializing, skip_deserializing."""

    def run(ctx):
        t, default, values = kinds(ctx)[kind]
        calls = []
        kw = {}
        if kind == "nodefault":
            default = 7
        if callable(default):
            def fac():
                calls.append(1)
                return default()

            kw = dict(factory=fac)
        else:
            kw = dict(default=default)
        dv = default() if callable(default) else default
        c = ctx.cls("C", [F("a", int), F("x", t, opts={which: True, **extra}, **kw), F("y", int, default=3)])
        if not ctx.ok(c, "decorate"):
            return
        a = var("a", int)
        y = var("y", int)
        key = extra.get("rename", "x")
        ser = which == "skip_deserializing"
        de = which == "skip_serializing"
        for v in values:
            x = ctx.make(c, a, v, y)
            for so in (False, True):
                d = ctx.to_dict(x, skip_none=so)
                if ctx.ok(d, "to_dict"):
                    want = ["a"] + ([key] if ser and not (so and v is None) else []) + ["y"]
                    ctx.check(list(d) == want, "skip-out", "wrong keys", actual=d, expected=want)
            tp = ctx.to_tuple(x)
            if ctx.ok(tp, "to_tuple"):
                ctx.check(len(tp) == (3 if ser else 2) and same(tp[0], a) and same(tp[-1], y), "skip-tuple", actual=tp)
            # what was written reads back with the default in place of the field
            d = ctx.to_dict(x, reuse_instances=True)
            if ctx.ok(d, "to_dict"):
                z = ctx.from_dict(c, d, reuse_instances=True)
                if ctx.ok(z, "from_dict", data=d):
                    ctx.eq(z, ctx.make(c, a, dv, y), "skip-in", "the field did not get its default", data=d)
            # a key in the input
            w = ctx.to_dict(v, c=t) if v is not None else None
            for k in {key, "x"} | set(extra.get("alias", [])):
                data = {"a": a, k: w, "y": y}
                z = ctx.from_dict(c, data)
                if ctx.ok(z, "from_dict", data=data):
                    readable = de and (k == key or k in extra.get("alias", []))
                    ctx.eq(z, ctx.make(c, a, v if readable else dv, y), "skip-in", "the input key was not treated as declared",
                           data=data)
        z1, z2 = ctx.from_dict(c, {"a": 1}), ctx.from_dict(c, {"a": 1})
        if ctx.ok(z1, "from_dict") and ctx.ok(z2, "from_dict") and callable(default):
            ctx.check(z1.x is not z2.x, "fresh", "two objects share the factory's value")

    return run


def all_kinds_of_skip(ctx):
    """Several skipped fields in one class do not affect one another."""
    names = ["skip", "skip_serializing", "skip_deserializing", "skip_if", "skip_if_false", "skip_if_none", "skip_if_default",
             None]
    for perm in ([0, 1, 2, 3, 4, 5, 6, 7], [7, 6, 5, 4, 3, 2, 1, 0], [3, 0, 5, 2, 7, 1, 6, 4]):
        fs = []
        for i in perm:
            n = names[i]
            o = {} if n is None else {n: pred("p") if n == "skip_if" else True}
            fs.append(F(f"f{i}", typing.Optional[int], default=-i, opts=o))
        c = ctx.cls("C", fs)
        if not ctx.ok(c, "decorate"):
            return
        for vs in ([None] * 8, [0] * 8, [-i for i in range(8)], [var(f"v{i}", int) for i in range(8)] if perm[0] == 0 else [9] * 8):
            x = ctx.make(c, **{f"f{i}": vs[i] for i in range(8)})
            d = ctx.to_dict(x)
            if not ctx.ok(d, "to_dict"):
                continue
            t = lambda b: b if isinstance(b, bool) else ctx.ops.truth(b)
            om = {0: True, 1: True, 2: False, 3: t(pred("p")(vs[3])), 4: not ctx.ops.truth(vs[4]), 5: vs[5] is None,
                  6: t(ctx.ops.eq(vs[6], -6)), 7: False}
            want = {f"f{i}": vs[i] for i in perm if not om[i]}
            ctx.check(same(d, want, ordered=True), "mix", "skip settings of different fields affect one another",
                      actual=d, expected=want)
        data = {f"f{i}": var(f"w{i}", int) for i in range(8)}
        y = ctx.from_dict(c, data)
        if ctx.ok(y, "from_dict"):
            ctx.eq(y, ctx.make(c, **{k: (v if k not in ("f0", "f2") else -int(k[1:])) for k, v in data.items()}), "mix-in")


def classes(ctx):
    """Class-level flags stay in their class: nested, inherited, flattened, containers."""
    O = typing.Optional
    plain = ctx.cls("Plain", [F("p", O[int], default=1)])
    sn = ctx.cls("SN", [F("p", O[int], default=1)], skip_if_none=True)
    sd = ctx.cls("SD", [F("p", O[int], default=1)], skip_if_default=True)
    both = ctx.cls("Both", [F("p", O[int], default=1)], skip_if_default=True, skip_if_none=True)
    dc = ctx.cls("Dc", [F("p", O[int], default=1)], deco="dataclass")
    inner = {"plain": plain, "sn": sn, "sd": sd, "both": both, "dc": dc}
    for oname, oo in {"plain": {}, "sn": dict(skip_if_none=True), "sd": dict(skip_if_default=True)}.items():
        o = ctx.cls("O" + oname, [F(k, v) for k, v in inner.items()] + [F("l" + k, list[v]) for k, v in inner.items()]
                    + [F("own", O[int], default=1)], **oo)
        if not ctx.ok(o, "decorate"):
            continue
        for v in (None, 1, 2):
            for call in (False, True):
                om = {"plain": call and v is None, "dc": call and v is None, "sn": v is None, "sd": v == 1 or (call and v is None),
                      "both": v in (None, 1)}
                w = {k: ({} if om[k] else {"p": v}) for k in inner}
                x = ctx.make(o, *[ctx.make(c, v) for c in inner.values()], *[[ctx.make(c, v)] for c in inner.values()], v)
                own_om = {"plain": call and v is None, "sn": v is None, "sd": v == 1 or (call and v is None)}[oname]
                want = {**w, **{"l" + k: [w[k]] for k in inner}, **({} if own_om else {"own": v})}
                d = ctx.to_dict(x, skip_none=call)
                if ctx.ok(d, "to_dict"):
                    ctx.check(same(d, want, ordered=True), "class-level", "class-level skip flags reach other classes",
                              actual=d, expected=want)
    # inheritance: flags of the decorated class apply to all of its fields, base unaffected
    for bo, co in itertools.product(({}, dict(skip_if_none=True), dict(skip_if_default=True)), repeat=2):
        b = ctx.cls("B", [F("b", O[int], default=1), F("bb", O[int], default=None, opts=dict(skip_if_none=False))], **bo)
        c = ctx.cls("C", [F("c", O[int], default=1)], bases=(b,), **co)
        if not (ctx.ok(b, "decorate") and ctx.ok(c, "decorate")):
            continue
        for v in (None, 1, 2):
            def om(o, v, d, noneflag=None):
                return (v is None and (o.get("skip_if_none", False) if noneflag is None else noneflag)) or (
                    o.get("skip_if_default", False) and v == d)

            d = ctx.to_dict(ctx.make(c, v, v, v))
            want = {k: v for k, dd, nf in (("b", 1, None), ("bb", None, False), ("c", 1, None)) if not om(co, v, dd, nf)}
            if ctx.ok(d, "to_dict"):
                ctx.check(same(d, want, ordered=True), "inherit", actual=d, expected=want, base=bo, child=co)
            d = ctx.to_dict(ctx.make(b, v, v))
            want = {k: v for k, dd, nf in (("b", 1, None), ("bb", None, False)) if not om(bo, v, dd, nf)}
            if ctx.ok(d, "to_dict"):
                ctx.check(same(d, want, ordered=True), "inherit", actual=d, expected=want, base=bo, child=co)


def same_name(ctx):
    """Equally named fields of different classes (parent, nested, inherited) keep their own predicates."""
    O = typing.Optional
    a = ctx.cls("A", [F("x", int, opts=dict(skip_if=lambda v: v == 1)), F("y", int, default=4, opts=dict(skip_if_default=True))])
    b = ctx.cls("B", [F("x", int, opts=dict(skip_if=lambda v: v == 2)), F("a", a),
                      F("y", int, default=5, opts=dict(skip_if_default=True))])
    c = ctx.cls("C", [F("x", int, opts=dict(skip_if=lambda v: v == 3))], bases=(a,))
    u = ctx.cls("U", [F("x", typing.Union[a, b], opts=dict(skip_if=lambda v: v is None))])
    for k in (a, b, c, u):
        if not ctx.ok(k, "decorate"):
            return
    for xv in (1, 2, 3, 4):
        for yv in (4, 5):
            wa = {k: v for k, v in (("x", xv), ("y", yv)) if not (k == "x" and xv == 1 or k == "y" and yv == 4)}
            wb = {k: v for k, v in (("x", xv), ("y", yv)) if not (k == "x" and xv == 2 or k == "y" and yv == 5)}
            wc = {k: v for k, v in (("x", xv), ("y", yv)) if not (k == "x" and xv == 3 or k == "y" and yv == 4)}
            wb["a"] = wa
            xa = ctx.make(a, xv, yv)
            for o, w in ((xa, wa), (ctx.make(b, xv, xa, yv), wb), (ctx.make(c, xv, yv), wc)):
                d = ctx.to_dict(o)
                if ctx.ok(d, "to_dict"):
                    ctx.eq(d, w, "same-name", "the predicate of another field is used")


def flattened(ctx):
    """Skip settings of a flattened class and of the flattening field."""
    O = typing.Optional
    i = ctx.cls("I", [F("s", int, default=0, opts=dict(skip=True)), F("n", O[int], default=None, opts=dict(skip_if_none=True)),
                      F("d", int, default=3, opts=dict(skip_if_default=True)), F("k", O[int], default=None)])
    c = ctx.cls("C", [F("a", int), F("i", i, opts=dict(flatten=True)), F("z", O[int], default=None)])
    s = ctx.cls("S", [F("a", int), F("i", i, factory=lambda: ctx.make(i), opts=dict(flatten=True, skip_if_default=True))])
    e = ctx.cls("E", [F("a", int), F("ex", dict[str, typing.Any], factory=dict, opts=dict(
        flatten=True, skip_if=lambda v: "drop" in v))])
    for k in (c, s, e):
        if not ctx.ok(k, "decorate"):
            return
    for n, dd, kk, call in itertools.product((None, 1), (3, 4), (None, 2), (False, True)):
        iv = ctx.make(i, 9, n, dd, kk)
        w = {}
        if n is not None:
            w["n"] = n
        if dd != 3:
            w["d"] = dd
        if not (call and kk is None):
            w["k"] = kk
        d = ctx.to_dict(ctx.make(c, 1, iv, None), skip_none=call)
        if ctx.ok(d, "to_dict"):
            ctx.check(same(d, {"a": 1, **w, **({} if call else {"z": None})}, ordered=True), "flatten", actual=d, expected=w)
        d = ctx.to_dict(ctx.make(s, 1, ctx.make(i, 0, n, dd, kk)), skip_none=call)
        dflt = n is None and dd == 3 and kk is None
        if ctx.ok(d, "to_dict"):
            ctx.eq(d, {"a": 1, **({} if dflt else w)}, "flatten-skip-default")
    for ex in ({}, {"q": 1}, {"drop": 1, "q": 2}):
        d = ctx.to_dict(ctx.make(e, 1, dict(ex)))
        if ctx.ok(d, "to_dict"):
            ctx.eq(d, {"a": 1, **({} if "drop" in ex else ex)}, "flatten-dict-skip")


def no_default(ctx):
    """skip_deserializing without a default is rejected at decoration; init=False is fine."""
    r = ctx.cls("C", [F("x", int, opts=dict(skip_deserializing=True))])
    ctx.raises(r, "no-default", "a skipped constructor parameter without default is accepted")
    c = ctx.cls("D2", [F("x", int, default=3, opts=dict(skip_deserializing=True), dc=dict(init=False))])
    if ctx.ok(c, "decorate"):
        y = ctx.from_dict(c, {"x": 9})
        if ctx.ok(y, "from_dict"):
            ctx.eq(y.x, 3, "init-false")


def scenarios(tier):
    out = []
    ks = ["int", "str", "bool", "float", "list", "dict", "set", "path", "date", "enum", "class", "list-class", "union", "union-str",
          "any", "tuple", "literal", "newtype", "deque", "decimal", "nodefault"]
    for k in ks:
        for si, sf, cn, cd in itertools.product((False, True), (None, True, False), (False, True), (False, True)):
            if sf is False and tier == "quick" and k not in ("int", "list"):
                continue
            # wire truthiness may differ from the value's for these; not claimed
            if sf and k in ("enum", "decimal", "class", "date", "path"):
                if k in ("decimal",):
                    continue
            if tier == "quick" and cn != cd and k not in ("int", "list", "path", "class", "union"):
                continue
            out.append(Scenario(f"matrix:{k}:si{int(si)}:sf{sf}:cn{int(cn)}:cd{int(cd)}", matrix(k, si, sf, cn, cd, k == "str")))
        if k == "union-str":  # a str reads back as the first variant that accepts it
            continue
        for w in ("skip", "skip_serializing", "skip_deserializing"):
            out.append(Scenario(f"{w}:{k}", static_skip(k, w, {})))
            out.append(Scenario(f"{w}:{k}:rename", static_skip(k, w, dict(rename="R", alias=["al"]))))
    out += [Scenario("mix", all_kinds_of_skip), Scenario("class-level", classes), Scenario("same-name", same_name),
            Scenario("flattened", flattened), Scenario("no-default", no_default)]
    return out
