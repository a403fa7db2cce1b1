"""P07: key naming."""
import itertools
import casefy
from ..harness import F, Scenario, Exc
from ..shapes import *

RULES = ["the output key is rename, else rename_all(name), else the name; nothing else appears in the output",
         "reading takes the first present of [key, *aliases]; other spellings of the name are not read",
         "with none present the field is missing (SerdeError / default / None)",
         "rename_all applies to inherited fields and class variables of the class it is given to, not to nested classes"]
EXPLANATION = ("Abstract interpretation over field kinds x naming options x every presence vector of the candidate keys, "
               "each present key holding a distinct provenance term; the case conversions are those of the casefy "
               "package, applied by the oracle on its own.")

CASES = ["camelcase", "snakecase", "pascalcase", "kebabcase", "constcase", "dotcase", "pathcase", "lowercase", "uppercase",
         "capitalcase", "titlecase", "upperkebabcase", "separatorcase" if False else "sentencecase"]
CASES = [c for c in CASES if hasattr(casefy, c)]
NAMES = ["foo_bar_baz", "x", "fooBar", "foo_1", "_lead", "trail_", "HTTPServer"]


def kinds():
    dd = DCT("D", [("i", INT), ("s", STR)])
    return {
        "int": INT, "str": STR, "float": FLOAT, "any": AnyT(), "path": PATH, "datetime": DATETIME, "enum": EnumT(Color),
        "literal": Lit("r", "w"), "list": ListT(INT), "set": SetT(STR), "dict": DictT(STR, INT), "tuple": TupleT(INT, STR),
        "vtuple": VTupleT(INT), "deque": DequeT(INT), "counter": CounterT(STR), "opt": OptT(INT), "class": dd,
        "opt-class": OptT(dd), "union": UnionT(INT, STR), "union-none": UnionT(INT, STR, NoneT()), "opt-list": OptT(ListT(INT)),
        "newtype": NEWTS[1], "primsub": SUBS[0], "list-class": ListT(dd), "bare-list": BareT(list, list) if False else ListT(STR),
        "defaultdict": DictT(STR, INT, defaultdict), "frozenset": SetT(INT, frozenset), "pd": PD, "decimal": DECIMAL,
    }


def pick(ctx, sh, n):
    vs = sh.vals(ctx, n)
    return vs[-1][1]


def optional_like(sh):
    return isinstance(sh, OptT) or (isinstance(sh, UnionT) and any(isinstance(k, NoneT) for k in sh.kids()))


def naming(kind, sh, opts, key, aliases, mode):
    """mode: required / default / factory"""

    def run(ctx):
        dflt = conc(pick(ctx, sh, "dflt"))
        kw = {}
        if mode == "default":
            kw = dict(factory=lambda: dflt) if isinstance(dflt, (list, dict, set, deque)) or (
                dataclasses.is_dataclass(dflt) and type(dflt).__hash__ is None) else dict(default=dflt)
        rn = opts.get("rename_all")
        fo = {k: v for k, v in opts.items() if k != "rename_all"}
        c = ctx.cls("C", [F("other_field", int), F("foo_bar", sh.t(ctx), opts=fo, **kw)],
                    **(dict(rename_all=rn) if rn else {}))
        if not ctx.ok(c, "decorate"):
            return
        ok = getattr(casefy, rn)("other_field") if rn else "other_field"
        o = var("o", int)
        v = pick(ctx, sh, "v")
        x = ctx.make(c, o, v)
        d = ctx.to_dict(x, reuse_instances=False, convert_sets=True)
        if ctx.ok(d, "to_dict"):
            ctx.check(isinstance(d, dict) and list(d) == [ok, key], "out-key", "output keys differ from the declared naming",
                      actual=d, expected=[ok, key])
            if isinstance(d, dict) and key in d:
                ctx.check(wire_same(d[key], sh.wire(ctx, v, Opts(True, False, True))), "out-value", actual=d)
        cand = [key] + [a for a in aliases if a != key]
        wires, vals = {}, {}
        for i, k in enumerate(cand):
            vals[k] = pick(ctx, sh, f"in{i}")
            if sh.label == "Color" or sh.label.startswith("Literal"):
                vals[k] = sh.vals(ctx, "q")[i % len(sh.vals(ctx, "q"))][1]
            w = sh.wire(ctx, vals[k], Opts(True, False, True))
            wires[k] = w.alts[-1] if isinstance(w, OneOf) else w
        decoys = [n for n in ("foo_bar", "fooBar", "FooBar", "FOO_BAR", "zz") if n not in cand]
        for mask in itertools.product((True, False), repeat=len(cand)):
            present = [k for k, m in zip(cand, mask) if m]
            for noise in (False, True):
                data = {ok: o}
                # insertion order of the keys must not matter
                for k in reversed(present):
                    data[k] = wires[k]
                if noise:
                    for n in decoys:
                        data[n] = wires[cand[0]]
                y = ctx.from_dict(c, data)
                if present:
                    if ctx.ok(y, "in", data=data):
                        ctx.eq(y, ctx.make(c, o, vals[present[0]]), "in", "the value was read from another key", data=data)
                elif mode == "default":
                    if ctx.ok(y, "in-default", data=data):
                        ctx.eq(y, ctx.make(c, o, dflt), "in-default", "default not used although no key is present",
                               data=data)
                elif optional_like(sh):
                    if ctx.ok(y, "in-none", data=data):
                        ctx.eq(y, ctx.make(c, o, None), "in-none", data=data)
                elif not isinstance(sh, NoneT):
                    ctx.raises(y, "in-missing", "no key is present but no SerdeError was raised", data=data)

    return run


def custom(opts, key, aliases):
    """Fields with custom (de)serializers use the same keys."""

    def run(ctx):
        ser = lambda v: AV("ser", (v,), str)
        des = lambda v: AV("des", (v,), int)
        for extra in (dict(serializer=ser, deserializer=des), dict(deserializer=des), dict(serializer=ser)):
            for dflt in (False, True):
                kw = dict(default=5) if dflt else {}
                c = ctx.cls("C", [F("foo_bar", int, opts={**{k: v for k, v in opts.items() if k != "rename_all"}, **extra}, **kw)],
                            **(dict(rename_all=opts["rename_all"]) if "rename_all" in opts else {}))
                if not ctx.ok(c, "decorate"):
                    continue
                x = ctx.make(c, var("x", int))
                d = ctx.to_dict(x)
                if ctx.ok(d, "to_dict"):
                    ctx.eq(d, {key: ser(x.foo_bar) if "serializer" in extra else x.foo_bar}, "custom-out")
                for k in [key] + aliases:
                    w = var(f"w{k}", int)
                    y = ctx.from_dict(c, {k: w})
                    if ctx.ok(y, "custom-in", key=k):
                        ctx.eq(y.foo_bar, des(w) if "deserializer" in extra else w, "custom-in", key=k)
                if aliases:
                    a, b = var("a", int), var("b", int)
                    y = ctx.from_dict(c, {aliases[0]: a, key: b})
                    if ctx.ok(y, "custom-in"):
                        ctx.eq(y.foo_bar, des(b) if "deserializer" in extra else b, "custom-in")
                y = ctx.from_dict(c, {"unrelated": 1})
                if dflt:
                    if ctx.ok(y, "custom-default"):
                        ctx.eq(y.foo_bar, 5, "custom-default")
                else:
                    ctx.raises(y, "custom-missing")

    return run


def case(c):
    def run(ctx):
        f = getattr(casefy, c)
        names = []
        for n in NAMES:
            if n.isidentifier() and f(n) not in [f(m) for m in names]:
                names.append(n)
        k = ctx.cls("C", [F(n, int) for n in names], rename_all=c)
        if not ctx.ok(k, "decorate"):
            return
        vs = [var(n, int) for n in names]
        x = ctx.make(k, *vs)
        want = {f(n): v for n, v in zip(names, vs)}
        d = ctx.to_dict(x)
        if ctx.ok(d, "to_dict"):
            ctx.check(same(d, want, ordered=True), "case", f"{c} is not applied to the names", actual=d, expected=want)
        y = ctx.from_dict(k, dict(reversed(list(want.items()))))
        if ctx.ok(y, "from_dict"):
            ctx.eq(y, x, "case")

    return run


def leak(c):
    """rename_all of a class stays in that class."""

    def run(ctx):
        f = getattr(casefy, c)
        cn = "constcase" if c != "constcase" else "camelcase"
        g = getattr(casefy, cn)
        plain = ctx.cls("Plain", [F("in_plain", int)])
        other = ctx.cls("Other", [F("in_other", int)], rename_all=cn)
        dc = ctx.cls("Dc", [F("in_dc", int)], deco="dataclass")
        base = ctx.cls("Base", [F("in_base", int), F("ren_base", int, opts=dict(rename="RB"))], rename_all=cn)
        o = ctx.cls("Outer", [F("the_plain", plain), F("the_other", other), F("the_dc", dc), F("the_list", list[plain]),
                              F("the_map", dict[str, other]), F("the_opt", typing.Optional[plain]),
                              F("the_union", typing.Union[plain, other])], bases=(base,), rename_all=c)
        u = ctx.cls("User", [F("the_outer", o)])
        if not (ctx.ok(o, "decorate") and ctx.ok(u, "decorate")):
            return
        n = iter(range(99))
        i = lambda: var(f"v{next(n)}", int)
        p, q, r = ctx.make(plain, i()), ctx.make(other, i()), ctx.make(dc, i())
        x = ctx.make(o, i(), i(), p, q, r, [p], {"a_key": q}, p, q)
        wp, wq, wr = {"in_plain": p.in_plain}, {g("in_other"): q.in_other}, {"in_dc": r.in_dc}
        want = {f("in_base"): x.in_base, "RB": x.ren_base, f("the_plain"): wp, f("the_other"): wq, f("the_dc"): wr,
                f("the_list"): [wp], f("the_map"): {"a_key": wq}, f("the_opt"): wp, f("the_union"): {"Other": wq}}
        d = ctx.to_dict(x)
        if ctx.ok(d, "to_dict"):
            ctx.check(same(d, want, ordered=True), "leak", "rename_all reaches other classes or misses inherited fields",
                      actual=d, expected=want)
        d = ctx.to_dict(ctx.make(u, x))
        if ctx.ok(d, "to_dict"):
            ctx.eq(d, {"the_outer": want}, "leak")
        y = ctx.from_dict(o, want)
        if ctx.ok(y, "from_dict", data=want):
            ctx.eq(y, x, "leak")
        b = ctx.make(base, 1, 2)
        d = ctx.to_dict(b)
        if ctx.ok(d, "to_dict"):
            ctx.eq(d, {g("in_base"): 1, "RB": 2}, "leak", "the subclass changed the base class")
        y = ctx.from_dict(base, {g("in_base"): 1, "RB": 2})
        if ctx.ok(y, "from_dict"):
            ctx.eq(y, b, "leak")

    return run


def unknown_case(ctx):
    for bad in ("nosuchcase", "__init__x"):
        c = ctx.rawcls("C", [F("a", int)])
        r = ctx.decorate(c, "serde", rename_all=bad)
        ctx.raises(r, "bad-case", "an unknown case is accepted", case=bad)


def several(ctx):
    """Aliases of different fields do not mix, and a key of one field may be the alias of another."""
    c = ctx.cls("C", [F("a", int, opts=dict(alias=["b", "c"])), F("b", int, opts=dict(alias=["a", "d"])),
                      F("c", typing.Optional[int], opts=dict(rename="e", alias=["f"]))])
    if not ctx.ok(c, "decorate"):
        return
    keys = ["a", "b", "c", "d", "e", "f"]
    for mask in itertools.product((True, False), repeat=6):
        data = {k: var(k, int) for k, m in zip(keys, mask) if m}
        first = lambda *ks: next((data[k] for k in ks if k in data), None)
        ea, eb, ec = first("a", "b", "c"), first("b", "a", "d"), first("e", "f")
        y = ctx.from_dict(c, data)
        if ea is None or eb is None:
            ctx.raises(y, "several", data=data)
        elif ctx.ok(y, "several", data=data):
            ctx.eq(y, ctx.make(c, ea, eb, ec), "several", "aliases of different fields are mixed up", data=data)


def classvars(ctx):
    c = ctx.rawcls("C", [F("a_b", int)])
    c.__annotations__["cv_x"] = typing.ClassVar[int]
    c.cv_x = 7
    c = ctx.decorate(c, "serde", rename_all="camelcase", serialize_class_var=True)
    if ctx.ok(c, "decorate"):
        d = ctx.to_dict(ctx.make(c, 1))
        if ctx.ok(d, "to_dict"):
            ctx.eq(d, {"aB": 1, "cvX": 7}, "classvar")


def scenarios(tier):
    out = []
    combos = {
        "plain": ({}, "foo_bar", []),
        "rename": (dict(rename="renamed-key"), "renamed-key", []),
        "rename_all": (dict(rename_all="camelcase"), "fooBar", []),
        "alias": (dict(alias=["al1", "al2"]), "foo_bar", ["al1", "al2"]),
        "rename+alias": (dict(rename="R", alias=["al1", "al2"]), "R", ["al1", "al2"]),
        "rename_all+alias": (dict(rename_all="pascalcase", alias=["foo_bar", "al2"]), "FooBar", ["foo_bar", "al2"]),
        "rename_all+rename": (dict(rename_all="camelcase", rename="r_x"), "r_x", []),
        "rename_all+rename+alias": (dict(rename_all="camelcase", rename="r_x", alias=["fooBar"]), "r_x", ["fooBar"]),
        "empty-rename": (dict(rename=""), "", []),
    }
    for kn, sh in kinds().items():
        for cn, (o, key, al) in combos.items():
            if tier == "quick" and kn in ("pd", "defaultdict", "frozenset", "decimal", "vtuple", "primsub") and cn not in (
                    "alias", "rename", "rename_all+rename+alias"):
                continue
            for mode in ("required", "default"):
                out.append(Scenario(f"{kn}:{cn}:{mode}", naming(kn, sh, o, key, al, mode)))
    for cn, (o, key, al) in combos.items():
        out.append(Scenario(f"custom:{cn}", custom(o, key, al)))
    for c in CASES:
        out.append(Scenario(f"case:{c}", case(c)))
    for c in ("camelcase", "pascalcase", "kebabcase", "constcase"):
        out.append(Scenario(f"leak:{c}", leak(c)))
    out += [Scenario("unknown-case", unknown_case), Scenario("several", several), Scenario("class-var", classvars)]
    return out
