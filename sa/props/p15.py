"""P15: deny_unknown_fields rejects exactly the unknown keys."""
import itertools
from ..harness import F, Scenario, Exc
from ..shapes import *
from .p11 import missing

RULES = ["with deny_unknown_fields a key that is no field's key or alias, own or of a flattened class, is a SerdeError",
         "a key or alias of a field is never refused, also of skipped, init=False, defaulted and inherited fields",
         "without the option, and for classes that capture unknown keys, no key is refused and unknown keys change no field",
         "the option of a class concerns the mapping of that class only (its own and what is flattened into it)"]
EXPLANATION = ("Abstract interpretation of from_dict over class layouts (naming, inheritance, skips, flattened classes and dicts at two "
               "levels, the option on every subset of the classes) x every set of up to two (thorough: four) candidate extra keys; the "
               "set of known keys comes from an independent model of the documentation.")

SPECIAL = ["zz", "", "A", "a ", "data", "cls", "__class__", "self", "unknown_fields", "é", "a.b", 5, None, ("t",)]


@dataclasses.dataclass
class M:
    """Model of a class: its own fields (name, key, aliases), flattened children, flattened dict."""

    name: str
    fields: list
    kids: list = dataclasses.field(default_factory=list)   # (field name, M, optional)
    extra: str = ""
    deny: bool = False
    opts: dict = dataclasses.field(default_factory=dict)

    def own(self):
        return {k for f in self.fields for k in (f[1], *f[2])}

    def known(self):
        s = self.own()
        for _, m, _ in self.kids:
            s |= m.known()
        return s

    def captures(self):
        return bool(self.extra) or any(m.captures() for _, m, _ in self.kids)

    def refuses(self, keys):
        if self.deny and not self.captures() and keys - self.known():
            return True
        for _, m, opt in self.kids:
            seen = keys & m.known()
            if m.captures() or not self.extra:
                seen |= keys - self.known()
            if opt and not keys & m.known():
                continue
            if m.refuses(seen):
                return True
        return False

    def required(self):
        r = {f[1]: i for i, f in enumerate(self.fields) if len(f) < 4}
        for _, m, opt in self.kids:
            if not opt:
                r.update(m.required())
        return r

    def names(self):
        s = {f[0] for f in self.fields} | {n for n, _, _ in self.kids} | ({self.extra} if self.extra else set())
        for _, m, _ in self.kids:
            s |= m.names()
        return s

    def build(self, ctx):
        fs = []
        for f in self.fields:
            n, key, al = f[:3]
            o, kw, dc = {}, {}, {}
            if key != n and "rename_all" not in self.opts:
                o["rename"] = key
            if al:
                o["alias"] = list(al)
            how = f[3] if len(f) > 3 else None
            if how == "default":
                kw["default"] = -1
            elif how == "opt":
                pass
            elif how in ("skip", "skip_serializing", "skip_deserializing"):
                kw["default"] = -2
                o[how] = True
            elif how == "init":
                kw["default"] = -3
                dc["init"] = False
            fs.append(F(n, typing.Optional[int] if how == "opt" else int, opts=o, dc=dc, **kw))
        for n, m, opt in self.kids:
            c = m.build(ctx)
            if isinstance(c, Exc):
                return c
            fs.append(F(n, typing.Optional[c] if opt else c, opts=dict(flatten=True)))
        if self.extra:
            fs.append(F(self.extra, dict[str, typing.Any], opts=dict(flatten=True)))
        fs.sort(key=lambda f: f.default is not F("x", int).default)
        opts = dict(self.opts)
        if self.deny:
            opts["deny_unknown_fields"] = True
        return ctx.cls(self.name, fs, **opts)


def layouts():
    out = {}
    plain = [("a", "a", ()), ("b", "b", ())]
    nam = [("a", "R-a", ()), ("b", "b", ("b1", "b2")), ("c", "R-c", ("c", "cc"))]
    opt = [("a", "a", ()), ("d", "d", (), "default"), ("o", "o", ("oo",), "opt"), ("s", "s", (), "skip"), ("t", "t", (), "skip_serializing"),
           ("u", "U", ("u1",), "skip_deserializing"), ("i", "i", (), "init")]
    for deny in (True, False):
        n = "deny" if deny else "allow"
        out[f"plain:{n}"] = M("C", plain, deny=deny)
        out[f"naming:{n}"] = M("C", nam, deny=deny)
        out[f"case:{n}"] = M("C", [("foo_bar", "fooBar", ("x_y",)), ("b", "b", ())], deny=deny, opts=dict(rename_all="camelcase"))
        out[f"options:{n}"] = M("C", opt, deny=deny)
        out[f"empty:{n}"] = M("C", [], deny=deny)
        out[f"extra:{n}"] = M("C", plain, extra="ex", deny=deny)
    kid = lambda deny, extra="", nm="K": M(nm, [("p", "P", ("pp",)), ("q", "q", (), "default")], extra=extra, deny=deny)
    for pd, kd in itertools.product((True, False), repeat=2):
        for ex in ("", "ex"):
            for opt_ in (False, True):
                out[f"kid:{pd}{kd}{ex}{opt_}"] = M("C", plain, [("k", kid(kd), opt_)], extra=ex, deny=pd)
            out[f"kid-extra:{pd}{kd}{ex}"] = M("C", plain, [("k", kid(kd, "kex"), False)], extra=ex, deny=pd)
        for gd in (True, False):
            g = M("G", [("g", "g", ("gg",))], deny=gd)
            out[f"grand:{pd}{kd}{gd}"] = M("C", plain, [("k", M("K", [("p", "P", ())], [("g", g, False)], deny=kd), False)], deny=pd)
            out[f"siblings:{pd}{kd}{gd}"] = M("C", plain, [("k", kid(kd), False), ("g", g, False)], deny=pd)
        out[f"grand-extra:{pd}{kd}"] = M("C", plain, [("k", M("K", [("p", "P", ())], [("g", M("G", [("g", "g", ())], extra="gex"), False)], deny=kd),
                                                       False)], deny=pd)
    return out


def layout(m, depth):
    def run(ctx):
        c = m.build(ctx)
        if not ctx.ok(c, "decorate"):
            return
        base = {k: 100 + i for i, k in enumerate(sorted(m.required()))}
        y0 = ctx.from_dict(c, base)
        if not ctx.ok(y0, "accepts", "input with known keys only is refused", data=base):
            return
        cand = sorted(m.known() - set(base)) + sorted(m.names() - m.known()) + SPECIAL
        cand = list(dict.fromkeys(k for k in cand if k not in base and (isinstance(k, str) or not m.captures())))
        for n in range(1, depth + 1):
            for ks in itertools.combinations(cand, n):
                d = {**base, **{k: -50 - i for i, k in enumerate(ks)}}
                y = ctx.from_dict(c, d)
                if incomplete(m, set(d)):
                    continue
                if m.refuses(set(d)):
                    ctx.check(ctx.is_serde_error(y), "refuse", "an unknown key is accepted", result=y, data=d)
                elif ctx.ok(y, "accept", "a known key is refused", data=d) and not (set(ks) & m.known()):
                    check_fields(ctx, m, y, y0, {k: v for k, v in d.items()}, set(d))
        # unknown keys first, and with the values of any kind
        for v in (None, {}, [], "s", var("x", int)):
            y = ctx.from_dict(c, {"zz": v, **base})
            if m.refuses(set(base) | {"zz"}):
                ctx.check(ctx.is_serde_error(y), "refuse", "an unknown key is accepted", result=y)
            elif ctx.ok(y, "accept"):
                check_fields(ctx, m, y, y0, {"zz": v, **base}, set(base) | {"zz"})

    return run


def incomplete(m, keys):
    """An Optional flattened class of which only a part is there."""
    return any((opt and keys & k.known() and set(k.required()) - keys) or incomplete(k, keys) for _, k, opt in m.kids)


def check_fields(ctx, m, y, y0, d, keys):
    for f in m.fields:
        ctx.eq(getattr(y, f[0]), getattr(y0, f[0]), "influence", "an unknown key changes a field", data=d, field=f[0])
    for n, k, _ in m.kids:
        if getattr(y0, n) is None:
            ctx.eq(getattr(y, n), None, "influence", "an unknown key changes a field", data=d, field=n)
        else:
            check_fields(ctx, k, getattr(y, n), getattr(y0, n), d, keys)


def inherited(bd, dd):
    def run(ctx):
        o = lambda f: dict(deny_unknown_fields=True) if f else {}
        b = ctx.cls("B", [F("a", int), F("b", int, default=1, opts=dict(alias=["bb"]))], **o(bd))
        d = ctx.cls("D", [F("c", int, default=2)], bases=(b,), **o(dd))
        for c, deny, known in ((b, bd, {"a", "b", "bb"}), (d, dd, {"a", "b", "bb", "c"})):
            if not ctx.ok(c, "decorate"):
                return
            for k in ("b", "bb", "c", "zz", "A"):
                y = ctx.from_dict(c, {"a": 1, k: 5})
                if deny and k not in known:
                    ctx.check(ctx.is_serde_error(y), "inherit-refuse", "an unknown key is accepted", result=y, key=k)
                else:
                    ctx.ok(y, "inherit-accept", key=k)

    return run


WRAPS = {"field": (lambda t: t, lambda d: d), "list": (lambda t: list[t], lambda d: [d]), "dict": (lambda t: dict[str, t], lambda d: {"any": d}),
         "opt": (lambda t: typing.Optional[t], lambda d: d), "tuple": (lambda t: tuple[t, ...], lambda d: [d]),
         "union": (lambda t: typing.Union[t, int], lambda d: {"I": d})}


def nested(od, idn, wn):
    """Inside a field, the inner class decides on its own keys only."""

    def run(ctx):
        o = lambda f: dict(deny_unknown_fields=True) if f else {}
        i = ctx.cls("I", [F("a", int)], **o(idn))
        w, d = WRAPS[wn]
        c = ctx.cls("C", [F("i", w(i)), F("z", int, default=0)], **o(od))
        if not (ctx.ok(i, "decorate") and ctx.ok(c, "decorate")):
            return
        for inner in ({}, {"z": 1}, {"zz": 1}):
            for outer in ({}, {"z": 1}, {"a": 1}, {"zz": 1}):
                x = {"i": d({"a": 1, **inner}), **outer}
                y = ctx.from_dict(c, x)
                bad = (od and set(outer) - {"z"}) or (idn and inner)
                if bad:
                    ctx.check(ctx.is_serde_error(y), "nested-refuse", "an unknown key is accepted", result=y, data=x)
                else:
                    ctx.ok(y, "nested-accept", "a known key is refused", data=x)
                if wn != "field":
                    y = ctx.from_dict(w(i), d({"a": 1, **inner}))
                    if idn and inner:
                        ctx.check(ctx.is_serde_error(y), "top-refuse", "an unknown key is accepted", result=y, data=x)
                    else:
                        ctx.ok(y, "top-accept", data=x)

    return run


def tagged(tn, deny):
    """The tag and content keys of a union are no unknown keys of the variant."""

    def run(ctx):
        o = dict(deny_unknown_fields=True) if deny else {}
        i = ctx.cls("I", [F("a", int)], **o)
        j = ctx.cls("J", [F("b", int), F("ex", dict[str, typing.Any], opts=dict(flatten=True))])
        g = ctx.cls("G", [F("i", i, opts=dict(flatten=True)), F("c", int)], **o)
        tg = {"External": lambda: ctx.get("core.ExternalTagging"), "Untagged": lambda: ctx.get("core.Untagged"),
              "Internal": lambda: ctx.call(ctx.get("core.InternalTagging"), "t"),
              "Adjacent": lambda: ctx.call(ctx.get("core.AdjacentTagging"), "t", "c")}[tn]()
        c = ctx.cls("C", [F("u", typing.Union[g, i, j, int]), F("l", list[typing.Union[g, i, j]])], tagging=tg, **o)
        if not ctx.ok(c, "decorate"):
            return
        vs = [ctx.make(i, 1), ctx.make(g, ctx.make(i, 2), 3), ctx.make(j, 1, {}), ctx.make(j, 1, {"k": 4})]
        for v in vs:
            x = ctx.make(c, v, [v, v])
            d = ctx.to_dict(x)
            if not ctx.ok(d, "tagged"):
                continue
            y = ctx.from_dict(c, d)
            if ctx.ok(y, "tagged", "the output is refused as input", data=d):
                if tn != "Untagged" or not isinstance(v, j):
                    ctx.eq(y, x, "tagged", "a value with its tag is not restored", data=d)
            body = d["u"]
            deep = body if tn in ("Internal", "Untagged") else body["I" if type(v) is i else type(v).__name__] if tn == "External" else body["c"]
            deep["zz"] = 9
            y = ctx.from_dict(c, d)
            if deny and type(v) is not j and tn != "Untagged":
                ctx.check(ctx.is_serde_error(y), "tagged-refuse", "an unknown key is accepted", result=y, data=d)
            elif tn != "Untagged":
                ctx.ok(y, "tagged-accept", data=d)

    return run


def decorators(ctx):
    for deco in ("serde", "de.deserialize", ["se.serialize", "de.deserialize"], ["de.deserialize", "se.serialize"]):
        for deny in (True, False):
            c = ctx.cls("C", [F("a", int)], deco=deco if isinstance(deco, str) else deco, **({"deny_unknown_fields": deny}))
            if not ctx.ok(c, "decorate"):
                continue
            y = ctx.from_dict(c, {"a": 1, "b": 2})
            if deny:
                ctx.check(ctx.is_serde_error(y), "decorators", "an unknown key is accepted", result=y)
            else:
                ctx.ok(y, "decorators")


def transparent(ctx):
    """A transparent class has the keys of its inner value."""
    i = ctx.cls("I", [F("a", int)], deny_unknown_fields=True)
    t = ctx.cls("T", [F("i", i)], transparent=True, deny_unknown_fields=True)
    e = ctx.cls("E", [F("d", dict[str, int])], transparent=True, deny_unknown_fields=True)
    for c in (t, e):
        if not ctx.ok(c, "decorate"):
            return
    ctx.ok(ctx.from_dict(t, {"a": 1}), "transparent")
    ctx.raises(ctx.from_dict(t, {"a": 1, "b": 2}), "transparent")
    ctx.ok(ctx.from_dict(e, {"a": 1, "b": 2}), "transparent")


def scenarios(tier):
    out = []
    for n, m in layouts().items():
        big = len(m.known()) > 8
        out.append(Scenario(n, layout(m, (1 if big else 2) if tier == "quick" else (2 if big else 3))))
    for a, b in itertools.product((True, False), repeat=2):
        out.append(Scenario(f"inherit:{a}{b}", inherited(a, b)))
        for w in WRAPS:
            out.append(Scenario(f"nested:{a}{b}:{w}", nested(a, b, w)))
    for tn in ("External", "Internal", "Adjacent", "Untagged"):
        for d in (True, False):
            out.append(Scenario(f"tagged:{tn}:{d}", tagged(tn, d)))
    out += [Scenario("decorators", decorators), Scenario("transparent", transparent)]
    return out
