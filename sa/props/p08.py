"""P08: each value reaches the constructor parameter of its own field."""
import itertools
from ..harness import F, Scenario, Exc
from ..shapes import *

RULES = ["from_dict/from_tuple of a class pass the value found under a field's key to that field's parameter only",
         "init=False fields are never passed to the constructor",
         "skipped fields get their default"]
EXPLANATION = ("Abstract interpretation of the generated constructors over every declaration order of the field kinds "
               "(positional, defaulted, factory, keyword-only, init=False, skipped, renamed), class-level kw_only, the "
               "KW_ONLY marker, and one- and two-level inheritance with overridden fields; every key carries its own "
               "provenance term, so a value in another field is a different term; a recording constructor shows the "
               "parameters that are passed.")

KINDS = {
    "p": lambda n, i: F(n, int),
    "d": lambda n, i: F(n, int, default=-i),
    "f": lambda n, i: F(n, list[int], factory=lambda: [-i]),
    "k": lambda n, i: F(n, int, dc=dict(kw_only=True)),
    "K": lambda n, i: F(n, int, default=-i, dc=dict(kw_only=True)),
    "n": lambda n, i: F(n, int, default=-i, dc=dict(init=False)),
    "s": lambda n, i: F(n, int, default=-i, opts=dict(skip=True)),
    "z": lambda n, i: F(n, int, default=-i, opts=dict(skip_deserializing=True)),
    "r": lambda n, i: F(n, int, opts=dict(rename=f"ren_{n}")),
    "S": lambda n, i: F(n, int, default=-i, opts=dict(skip=True), dc=dict(kw_only=True)),
    "o": lambda n, i: F(n, typing.Optional[int]),
    "w": lambda n, i: F(n, int, opts=dict(skip_serializing=True)),
}


def valid(fs, kw=False):
    seen = False
    for k, f in fs:
        if f.dc.get("kw_only") or kw or f.dc.get("init") is False:
            continue
        d = f.default is not F.__dataclass_fields__["default"].default or f.factory is not F.__dataclass_fields__["factory"].default
        if seen and not d:
            return False
        seen = seen or d
    return True


def expect(fs, data_present):
    """name -> expected value given the fields and the set of present keys."""
    out = {}
    for (k, f), present in zip(fs, data_present):
        i = -int(f.name[1:])
        v = [var(f"v{f.name}", int)] if k == "f" else var(f"v{f.name}", int)
        d = [i] if k == "f" else i
        if k in "nszS":
            out[f.name] = d
        elif present:
            out[f.name] = v
        else:
            out[f.name] = None if k == "o" else d
    return out


def key(k, f):
    return f"ren_{f.name}" if k == "r" else f.name


def decode(ctx, c, fs, rec=None):
    optional = [k in "dfKo" for k, _ in fs]
    patterns = [tuple(True for _ in fs)]
    patterns += [tuple(not o for o in optional)]
    if sum(optional) > 1:
        idx = [i for i, o in enumerate(optional) if o]
        for j in idx:
            patterns.append(tuple(not (i == j) for i in range(len(fs))))
    for pat in dict.fromkeys(patterns):
        want = expect(fs, pat)
        data = {}
        for (k, f), present in reversed(list(zip(fs, pat))):
            if present or k in "nszS":
                data[key(k, f)] = [var(f"v{f.name}", int)] if k == "f" else var(f"v{f.name}", int)
        if rec is not None:
            rec.clear()
        y = ctx.from_dict(c, data)
        if not ctx.ok(y, "from_dict", "constructing the object fails", data=data, fields=[k for k, _ in fs]):
            continue
        got = {f.name: getattr(y, f.name) for _, f in fs}
        ctx.check(type(y) is c and same(got, want), "param", "a value reached another field", actual=got, expected=want,
                  data=data, fields=[(k, f.name) for k, f in fs])
        if rec is not None:
            ctx.check(len(rec) == 1 and not any(n in rec[0] for (k, f) in fs if k == "n" for n in [f.name]), "init-false",
                      "an init=False field is passed to the constructor", params=rec, fields=[k for k, _ in fs])


def order(prefix, n, kw):
    def run(ctx):
        for rest in itertools.product(KINDS, repeat=n - len(prefix)):
            ks = prefix + "".join(rest)
            fs = [(k, KINDS[k](f"a{i + 1}", i + 1)) for i, k in enumerate(ks)]
            if not valid(fs, kw):
                continue
            c = ctx.cls("C", [f for _, f in fs], dc=dict(kw_only=True) if kw else None)
            if ctx.ok(c, "decorate", "decorating the class fails", fields=ks):
                decode(ctx, c, fs)

    return run


def inherit(spec):
    """spec: list of strings, base first; names continue across classes; '=' in front overrides the first base field."""

    def run(ctx):
        bases = ()
        fs = {}
        n = 0
        for lv, s in enumerate(spec):
            own = []
            for k in s:
                if k == "=":
                    nm = "a1"
                    own.append(("r", F("a1", int, opts=dict(rename="ren_a1"))))
                    fs["a1"] = own[-1]
                    continue
                n += 1
                own.append((k, KINDS[k](f"a{n}", n)))
                fs[f"a{n}"] = own[-1]
            if not valid(list(fs.values())):
                return
            c = ctx.cls(f"L{lv}", [f for _, f in own], bases=bases)
            if not ctx.ok(c, "decorate", spec=spec):
                return
            bases = (c,)
            decode(ctx, c, list(fs.values()))
        # the base still works after the subclass was made
        b = c.__mro__[1]
        if len(spec) == 2 and "=" not in spec[1]:
            decode(ctx, b, list(fs.values())[: len(spec[0])])

    return run


def recording(ks):
    """The constructor is a recording stand-in: exactly the right parameters are passed, once."""

    def run(ctx):
        fs = [(k, KINDS[k](f"a{i + 1}", i + 1)) for i, k in enumerate(ks)]
        if not valid(fs):
            return
        c = ctx.rawcls("C", [f for _, f in fs])
        c = dataclasses.dataclass(c)
        rec = []
        orig = c.__init__
        import inspect
        sig = inspect.signature(orig)

        def __init__(self, *a, **k):
            rec.append(dict(sig.bind(self, *a, **k).arguments))
            orig(self, *a, **k)

        __init__.__signature__ = sig
        c.__init__ = __init__
        c = ctx.decorate(c, "serde", type_check=ctx.get("core.disabled"))
        if ctx.ok(c, "decorate"):
            decode(ctx, c, fs, rec)

    return run


def marker(ctx):
    """The KW_ONLY marker and class-level kw_only with inheritance."""
    d = {"__module__": "abs_user", "__qualname__": "C", "__annotations__": {
        "a1": int, "_": dataclasses.KW_ONLY, "a2": int, "a3": int}, "a2": dataclasses.field(default=-2)}
    c = types_new("C", d)
    c = ctx.decorate(c)
    if ctx.ok(c, "decorate"):
        decode(ctx, c, [("p", KINDS["p"]("a1", 1)), ("K", KINDS["K"]("a2", 2)), ("k", KINDS["k"]("a3", 3))])
    b = ctx.cls("B", [F("a1", int), F("a2", int, default=-2)], dc=dict(kw_only=True))
    e = ctx.cls("E", [F("a3", int), F("a4", int, default=-4)], bases=(b,), dc={})
    if ctx.ok(e, "decorate"):
        decode(ctx, e, [("k", KINDS["k"]("a1", 1)), ("K", KINDS["K"]("a2", 2)), ("p", KINDS["p"]("a3", 3)),
                        ("d", KINDS["d"]("a4", 4))])
    b = ctx.cls("B", [F("a1", int)], dc={})
    e = ctx.cls("E", [F("a2", int), F("a3", int, default=-3)], bases=(b,), dc=dict(kw_only=True))
    if ctx.ok(e, "decorate"):
        decode(ctx, e, [("p", KINDS["p"]("a1", 1)), ("k", KINDS["k"]("a2", 2)), ("K", KINDS["K"]("a3", 3))])


def types_new(name, d):
    import types
    c = types.new_class(name, (), {}, lambda n: n.update(d))
    setattr(USER, name, c)
    return c


def multiple(ctx):
    """Diamond and mixin inheritance."""
    a = ctx.cls("A", [F("a1", int)])
    b = ctx.cls("B", [F("a2", int)], bases=(a,))
    c = ctx.cls("Cc", [F("a3", int)], bases=(a,))
    d = ctx.cls("D", [F("a4", int)], bases=(b, c))
    if ctx.ok(d, "decorate"):
        decode(ctx, d, [("p", KINDS["p"](f"a{i}", i)) for i in (1, 3, 2, 4)])
    m = ctx.rawcls("M", [F("a5", int)])
    m = dataclasses.dataclass(m)
    e = ctx.cls("E", [F("a6", int)], bases=(b, m))
    if ctx.ok(e, "decorate"):
        decode(ctx, e, [("p", KINDS["p"](f"a{i}", i)) for i in (5, 1, 2, 6)])


def nested_types(ctx):
    """The same discipline for fields of nested and container types."""
    i = ctx.cls("I", [F("x", int), F("y", int, dc=dict(kw_only=True)), F("z", int)])
    c = ctx.cls("C", [F("k1", list[i], dc=dict(kw_only=True)), F("p1", i), F("k2", dict[str, i], dc=dict(kw_only=True)),
                      F("n", int, default=5, dc=dict(init=False)), F("p2", typing.Optional[i]),
                      F("u", typing.Union[int, str], dc=dict(kw_only=True)), F("p3", tuple[int, int])])
    if not ctx.ok(c, "decorate"):
        return
    cnt = itertools.count()

    def inst():
        v = [var(f"q{next(cnt)}", int) for _ in range(3)]
        return dict(x=v[0], y=v[1], z=v[2]), ctx.make(i, v[0], v[2], y=v[1])

    (d1, o1), (d2, o2), (d3, o3), (d4, o4) = inst(), inst(), inst(), inst()
    u, t1, t2 = var("u", str), var("t1", int), var("t2", int)
    y = ctx.from_dict(c, {"p3": [t1, t2], "u": u, "p2": d4, "n": 77, "k2": {"a": d3}, "p1": d2, "k1": [d1]})
    if ctx.ok(y, "from_dict"):
        want = ctx.make(c, o2, o4, (t1, t2), k1=[o1], k2={"a": o3}, u=u)
        ctx.eq(y, want, "param")


def frozen_slots(ctx):
    for dc in (dict(frozen=True), dict(slots=True), dict(order=True), dict(eq=False), dict(frozen=True, slots=True)):
        c = ctx.cls("C", [F("a1", int), F("a2", int, dc=dict(kw_only=True)), F("a3", int, default=-3)], dc=dc)
        if ctx.ok(c, "decorate", dc=dc):
            decode(ctx, c, [("p", KINDS["p"]("a1", 1)), ("k", KINDS["k"]("a2", 2)), ("d", KINDS["d"]("a3", 3))])


def scenarios(tier):
    out = []
    n = 3 if tier == "quick" else 4
    for kw in (False, True):
        out.append(Scenario(f"order1{'-kw' if kw else ''}", order("", 1, kw)))
        out.append(Scenario(f"order2{'-kw' if kw else ''}", order("", 2, kw)))
    for k in KINDS:
        out.append(Scenario(f"order3:{k}", order(k, 3, False)))
        if tier != "quick":
            for j in KINDS:
                out.append(Scenario(f"order4:{k}{j}", order(k + j, 4, False)))
    specs = [["pp", "p"], ["pd", "k"], ["pk", "pk"], ["pp", "=p"], ["ps", "dk"], ["kp", "kp"], ["p", "p", "p"],
             ["pk", "dk", "Kn"], ["np", "p"], ["pn", "pk"], ["zk", "=k"], ["p", "k", "=p"], ["Kp", "n", "pS"], ["wp", "pk"],
             ["pd", "df", "s"], ["po", "d"], ["rk", "rk"], ["pK", "K", "K"], ["pf", "f"], ["ppp", "==" [:1] + "k"]]
    for s in specs:
        out.append(Scenario("inherit:" + "<".join(s), inherit(s)))
    for ks in ["p", "pk", "kp", "pn", "np", "pnk", "kpn", "psk", "pdK", "nkp", "pndK", "zpk"[:1] + "dk", "pSk", "rkp", "pnn", "nnp"]:
        out.append(Scenario(f"record:{ks}", recording(ks)))
    out += [Scenario("marker", marker), Scenario("multiple", multiple), Scenario("nested", nested_types),
            Scenario("frozen-slots", frozen_slots)]
    return out
