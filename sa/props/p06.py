"""P06: number coercion."""
from ..harness import F, Scenario, Exc
from ..shapes import *
from ..positions import POSITIONS, HASH_POSITIONS
from ..values import term, Foreign

RULES = ["a float target at any position receives exactly converter(value), called once per target",
         "no other target is given to the converter",
         "without a converter (coerce_numbers=False) the value is used as is",
         "the JSON converter maps int and float to float(value) and raises SerdeError on bool, str, None, containers",
         "the YAML converter also maps numeric strings to float(value) and raises SerdeError otherwise",
         "JSON and YAML use their own converter by default, and none with coerce_numbers=False; other formats use none"]
EXPLANATION = ("Abstract interpretation with an uninterpreted converter: the float leaf is put at every position of the "
               "schema grammar, the terms reaching the float targets must be conv(wire value), and a converter that "
               "raises shows that no non-float target is handed to it.  The two converters are evaluated on every "
               "kind of input with branches on the kind explored separately.")

NON = [INT, STR, BOOL, DECIMAL, PATH, DATETIME, EnumT(Color), EnumT(Lvl), Lit("r", "w"), NEWTS[0], NEWTS[1], SUBS[0],
       SUBS[1], AnyT(), SetT(STR), DictT(INT, STR), DictT(STR, INT), ListT(INT), CounterT(STR)]
NTF = NEWTS[2]
FSUB = SUBS[2]


def conv(log):
    def f(v):
        log.append(v)
        return term("conv", v, typ=float)

    return f


def refuse(v):
    raise RuntimeError("converter called")


def floats(name, build, leaf):
    """Every float target gets conv(value)."""

    def run(ctx):
        t = leaf.t(ctx)
        pos = build(ctx, t)
        if not ctx.ok(pos.type, "decorate"):
            return
        for kind in (int, float):
            w = var("w", kind)
            cv = term("conv", w, typ=float)
            exp = ctx.make(t, cv) if leaf is FSUB else cv
            want = pos.value(exp)
            todo = [(pos.type, pos.data(w), want, n) for n in (True,)]
            if pos.top:
                tt, d, v = pos.top
                todo.append((tt, d(w), v(exp), True))
            for tt, data, want, _ in todo:
                log = []
                y = ctx.from_dict(tt, data, deserialize_numbers=conv(log))
                if ctx.ok(y, "float", data=data, kind=kind.__name__):
                    ctx.eq(y, want, "float", "a float target did not receive converter(value)", data=data)
                if kind is float and leaf is FLOAT:
                    y = ctx.from_dict(tt, data)
                    if ctx.ok(y, "off", data=data):
                        same_v = pos.value(w) if tt is pos.type else pos.top[2](w)
                        ctx.eq(y, same_v, "off", "without converter the value is not used as is", data=data)
                y = ctx.from_dict(tt, data, deserialize_numbers=lambda v: (_ for _ in ()).throw(ctx.SerdeError("no")))
                ctx.check(isinstance(y, Exc), "refusal", "a refusing converter is ignored", result=y, data=data)

    return run


def tuples(leaf):
    def run(ctx):
        t = leaf.t(ctx)
        n = ctx.cls("N", [F("a", t), F("s", str)])
        c = ctx.cls("C", [F("a", t), F("i", int), F("l", list[t]), F("o", typing.Optional[t]), F("n", n),
                          F("nl", list[n])])
        a, b, e, g, h = (var(x, int) for x in "abegh")
        w = lambda x: ctx.make(t, term("conv", x, typ=float)) if leaf is FSUB else term("conv", x, typ=float)
        i = var("i", int)
        y = ctx.from_tuple(c, (a, i, [b], e, (g, "s"), [(h, "s")]), deserialize_numbers=conv([]))
        if ctx.ok(y, "tuple"):
            ctx.eq(y, ctx.make(c, w(a), i, [w(b)], w(e), ctx.make(n, w(g), "s"), [ctx.make(n, w(h), "s")]), "tuple")
        y = ctx.from_tuple(list[c], [(a, i, [], None, (g, "s"), [])], deserialize_numbers=conv([]))
        if ctx.ok(y, "tuple"):
            ctx.eq(y, [ctx.make(c, w(a), i, [], None, ctx.make(n, w(g), "s"), [])], "tuple")

    return run


def others(name, build, leaf):
    """No non-float target is handed to the converter."""

    def run(ctx):
        t = leaf.t(ctx)
        pos = build(ctx, t)
        if not ctx.ok(pos.type, "decorate"):
            return
        v = [v for _, v in leaf.vals(ctx, "x")][-1]
        w = leaf.wire(ctx, v, Opts(True, False, True))
        w = w.alts[-1] if isinstance(w, OneOf) else w
        y0 = ctx.from_dict(pos.type, pos.data(w))
        y = ctx.from_dict(pos.type, pos.data(w), deserialize_numbers=refuse)
        if ctx.ok(y0, "plain", data=w) and ctx.ok(y, "converted", "a non-float target was handed to the converter",
                                                  data=pos.data(w)):
            ctx.eq(y, y0, "converted", "the converter changed a non-float target")
        if pos.top:
            tt, d, _ = pos.top
            y = ctx.from_dict(tt, d(w), deserialize_numbers=refuse)
            ctx.ok(y, "converted", "a non-float target was handed to the converter", data=d(w))

    return run


KINDS = {
    "int": lambda: var("v", int), "float": lambda: var("v", float), "true": lambda: True, "false": lambda: False,
    "none": lambda: None, "list": lambda: [1.0], "dict": lambda: {"a": 1}, "bytes": lambda: var("v", bytes),
    "foreign": lambda: var("v", Foreign), "intsub": lambda: Lvl.HI, "decimal": lambda: var("v", decimal.Decimal),
    "str": lambda: var("v", str), "num-str": lambda: "1e3", "bad-str": lambda: "1e3x", "empty-str": lambda: "",
    "int-lit": lambda: 7, "float-lit": lambda: 2.5, "big": lambda: 10 ** 30, "zero": lambda: 0, "nan": lambda: float("nan"),
    "inf-str": lambda: "inf", "tuple": lambda: (1.0,), "bool-str": lambda: "true",
}


def converter(fmt):
    """Decide the converter on every input kind."""
    strs = fmt == "yaml"

    def run(ctx, kind):
        v = KINDS[kind]()
        f = ctx.get(f"{fmt}.deserialize_{fmt}_numbers")
        r = ctx.call(f, v)
        accept = kind in ("int", "float", "intsub", "int-lit", "float-lit", "big", "zero", "nan") or (
            strs and kind in ("num-str", "inf-str"))
        if kind == "str" and strs:
            # an unknown string: either float(value) or SerdeError, nothing else
            if isinstance(r, Exc):
                ctx.raises(r, "converter-kind", value=v)
            else:
                ctx.eq(r, term("ctor", float, v, typ=float), "converter-value", value=v)
            return
        if accept:
            if ctx.ok(r, "converter-kind", f"{kind} is rejected by the {fmt} converter", value=v):
                if isinstance(v, AV):
                    e = v if v.typ is float else term("ctor", float, v, typ=float)
                    ctx.check(same(r, e) or same(r, term("ctor", float, v, typ=float)), "converter-value", actual=r, expected=e)
                else:
                    ctx.eq(r, float(v), "converter-value")
        else:
            ctx.raises(r, "converter-kind", f"{kind} is not rejected with SerdeError by the {fmt} converter", value=v)

    return run


def front(fmt):
    """Which converter the front-end hands to the core, through the public function."""

    def run(ctx):
        n = ctx.cls("N", [F("f", float)], type_check=ctx.get("core.disabled"))
        c = ctx.cls("C", [F("f", float), F("l", list[n]), F("i", int), F("s", str)], type_check=ctx.get("core.disabled"))
        frm = ctx.get(f"{fmt}.from_{fmt}")
        i, s, a, b = var("i", int), var("s", str), var("a", int), var("b", int)

        def rec(tree):
            class De:
                @classmethod
                def deserialize(cls, data, **opts):
                    return tree

            return De

        fl = lambda x: term("ctor", float, x, typ=float)
        has = fmt in ("json", "yaml")
        for coerce in ((None, True, False) if has else (None,)):
            kw = {} if coerce is None else dict(coerce_numbers=coerce)
            y = ctx.call(frm, c, "doc", de=rec({"f": a, "l": [{"f": b}], "i": i, "s": s}), **kw)
            g = fl if has and coerce is not False else (lambda x: x)
            if ctx.ok(y, "front", kw=kw):
                ctx.eq(y, ctx.make(c, g(a), [ctx.make(n, g(b))], i, s), "front",
                       f"from_{fmt} does not use its number converter as documented", kw=kw)
            # top-level targets
            y = ctx.call(frm, list[float], "doc", de=rec([a, b]), **kw)
            if ctx.ok(y, "front-top", kw=kw):
                w = [g(a), g(b)] if has and coerce is not False else [fl(a), fl(b)]
                ctx.check(same(y, w) or same(y, [a, b]) and not (has and coerce is not False), "front-top",
                          "top-level floats", actual=y, expected=w, kw=kw)
            y = ctx.call(frm, c, "doc", de=rec({"f": True, "l": [], "i": i, "s": s}), **kw)
            if has and coerce is not False:
                ctx.raises(y, "front-bool", kw=kw)
            y = ctx.call(frm, c, "doc", de=rec({"f": "1.5", "l": [], "i": i, "s": s}), **kw)
            if has and coerce is not False:
                if fmt == "json":
                    ctx.raises(y, "front-str", kw=kw)
                elif ctx.ok(y, "front-str", kw=kw):
                    ctx.eq(y.f, 1.5, "front-str")
            # ints are never turned into floats and strings never into numbers
            y = ctx.call(frm, c, "doc", de=rec({"f": a, "l": [], "i": "1", "s": i}), **kw)
            if ctx.ok(y, "front-other", kw=kw):
                ctx.check(same(y.i, "1") and same(y.s, i), "front-other", actual=y)

    return run


def scenarios(tier):
    out = []
    pos = {**POSITIONS, **HASH_POSITIONS}
    for n, b in pos.items():
        for leaf in (FLOAT, NTF, FSUB):
            out.append(Scenario(f"float:{leaf.label}@{n}", floats(n, b, leaf)))
        leaves = NON if tier != "quick" or n in ("field", "list", "dict", "class-list", "generic", "flatten") else NON[:4] + NON[8:13]
        for leaf in leaves:
            if n in HASH_POSITIONS and not leaf.hashable:
                continue
            out.append(Scenario(f"other:{leaf.label}@{n}", others(n, b, leaf)))
    for leaf in (FLOAT, NTF, FSUB):
        out.append(Scenario(f"tuple:{leaf.label}", tuples(leaf)))
    for fmt in ("json", "yaml"):
        for k in KINDS:
            out.append(Scenario(f"converter:{fmt}:{k}", lambda ctx, f=converter(fmt), k=k: f(ctx, k)))
    for fmt in ("json", "yaml", "toml", "msgpack", "pickle"):
        out.append(Scenario(f"front:{fmt}", front(fmt)))
    return out
