"""P22: names given by the user cannot alter the generated code."""
import ast
import dataclasses
import enum
import keyword
import typing
from ..harness import F, Scenario, Exc, same
from ..shapes import *
from ..values import var, AV
from .p14 import tagging

RULES = ["whatever string is used as rename, alias, tag, content key or class name, the class decorates and exactly that string is the key",
         "the generated code for one name is the generated code for another with only string constants and that identifier changed",
         "a field or class whose name is one the generator uses itself works like any other"]
EXPLANATION = ("Every kind of field, tagging and option is generated with hazardous names; the generated syntax trees are compared, constants aside, with those of a "
               "harmless name, and the behaviour with the exact strings.  Colliding identifiers are computed from the generated code and the globals it runs in: "
               "every identifier that a field or class name could be turned into by the generator's own naming patterns is used as such a name.")

HAZARDS = {
    "dquote": 'a"b', "squote": "a'b", "quotes": "a'b\"c", "dquote-end": 'a"', "dquote-start": '"a', "squote-end": "a'", "triple": '"""', "triple-s": "'''", "bslash": "a\\b",
    "bslash-end": "a\\", "bslash-quote": 'a\\"b', "bslash-squote": "a\\'b", "bslash2-quote": 'a\\\\"', "newline": "a\nb", "newline-end": "a\n", "cr": "a\rb", "tab": "a\tb", "nul": "a\0b", "braces": "{x}",
    "brace": "a{b", "brace-close": "a}b", "braces2": "{{x}}", "jinja-stmt": "{% raw %}", "jinja-comment": "{# c #}", "percent": "%s %d %", "hash": "a # b", "unicode": "ünï-코드",
    "emoji": "\U0001f600", "surrogate": "\ud800", "ls": "a\u2028b", "bom": "\ufeffa", "rtl": "\u202eabc", "esc-n": "\\n", "esc-x": "\\x41", "esc-name": "\\N{BULLET}", "esc-u": "\\u0041",
    "inject": '"]; raise SystemError("x"); #', "inject2": '" in data or True or "', "inject3": "'); import os #", "space": " ", "spaces": "a b", "dot": "a.b", "bracket": "a]b", "paren": "a)b",
    "comma": 'a", "b', "empty": "", "dollar": "$ref", "at": "@type", "minus": "a-b", "digits": "123", "None": "None", "True": "True", "dunder": "__class__", "proto": "__proto__",
    "transparent": "__serde_transparent__", "flatten": "__FLATTEN_DICT__", "fake_key": "fake_key", "keyword": "class", "res": "res", "data": "data", "semicolon": "a;b", "backtick": "`a`",
    "long": "n" * 400, "nfd": "e\u0301", "nfc": "\u00e9",
}
PLAIN = "zqplain"


class E(enum.Enum):
    A = "ea"


E.__module__ = "abs_user"


def kinds():
    return {
        "int": (int, 5, 5), "str": (str, "s", "s"), "float": (float, 1.5, 1.5), "opt": (typing.Optional[int], 5, 5), "list": (list[int], [1], [1]), "dict": (dict[str, int], {"k": 1}, {"k": 1}),
        "tuple": (tuple[int, str], (1, "a"), [1, "a"]), "set": (set[int], {1}, [1]), "union": (typing.Union[int, str], "u", "u"), "enum": (E, E.A, "ea"), "lit": (typing.Literal["x", 1], "x", "x"),
        "path": (pathlib.Path, pathlib.PurePosixPath, None), "any": (typing.Any, {"k": 1}, {"k": 1}),
    }


OPTIONS = {
    "plain": {}, "coerce": {"mode": "coerce"}, "disabled": {"mode": "disabled"}, "deny": {"deny_unknown_fields": True}, "skip_none": {"skip_if_none": True}, "skip_default": {"skip_if_default": True},
    "camel": {"rename_all": "camelcase"}, "legacy": {"serializer": True},
}


def skipper(ctx):
    """A class-level (de)serializer that leaves everything to the built-in behaviour."""
    skip = ctx.get("compat.SerdeSkip")

    def f(t, v):
        raise ctx.call(skip)

    return f


def opts(ctx, on):
    o = dict(OPTIONS[on])
    m = o.pop("mode", None)
    if m:
        o["type_check"] = ctx.get("core." + m)
    if o.get("serializer"):
        o["serializer"] = o["deserializer"] = skipper(ctx)
    return o


class Norm(ast.NodeTransformer):
    def __init__(self, name):
        self.name = name

    def visit_Constant(self, n):
        if isinstance(n.value, str):
            # a message may hold the name itself, or as shown by repr
            v = n.value
            for form in sorted({self.name, repr(self.name), str.__repr__(self.name)[1:-1]}, key=len, reverse=True):
                if form:
                    v = v.replace(form, "NAME")
            v = "*"
            return ast.Constant(v)
        return n

    def visit_JoinedStr(self, n):
        return ast.Constant("*") if all(isinstance(v, ast.Constant) for v in n.values) else self.generic_visit(n)

    def visit_Set(self, n):
        self.generic_visit(n)
        n.elts = sorted(n.elts, key=ast.dump)
        return n


def shape(ctx, start, name):
    out = []
    for _, src, _ in ctx.ops.generated[start:]:
        try:
            out.append(ast.dump(Norm(name).visit(ast.parse(src))))
        except SyntaxError as e:
            out.append(f"does not parse: {e}")
    return out


def keyed(ctx, cls, name, kn, w, v, opt=True):
    """The key of field x is exactly the name."""
    x = ctx.make(cls, "b", v, "a")
    if not ctx.ok(x, "construct"):
        return
    d = ctx.to_dict(x, reuse_instances=False, convert_sets=True)
    if ctx.ok(d, "key"):
        ctx.check(isinstance(d, dict) and sorted(map(repr, d)) == sorted(map(repr, ["before", name, "after"])), "key", "the key written is not the exact string", name=name, actual=d)
        ctx.check(same(list(d[name]) if isinstance(d[name], tuple) else d[name], w) if name in d else False, "key", "the value is not at the key", name=name, actual=d)
    y = ctx.from_dict(cls, {"before": "b", name: w, "after": "a"})
    if ctx.ok(y, "key", name=name):
        ctx.eq(y, x, "key", "not read from the exact string", name=name)
    z = ctx.from_dict(cls, {"before": "b", "after": "a"})
    if kn == "opt":
        ctx.eq(z, ctx.make(cls, "b", None, "a"), "missing")
    else:
        ctx.check(ctx.is_serde_error(z), "missing", "a missing key does not raise SerdeError", name=name, result=z)


def rename(hn, on):
    name = HAZARDS[hn]

    def run(ctx):
        for kn, (t, v, w) in kinds().items():
            if kn == "path":
                v = w = conc_path()
                w = str(w)
            shapes_ = []
            for nm in (name, PLAIN):
                n = len(ctx.ops.generated)
                f = F("x", t, opts=dict(rename=nm))
                if hn == "surrogate" and nm == name and kn == "path":
                    pass
                c = ctx.cls("C", [F("before", str), f, F("after", str)], **opts(ctx, on))
                if not ctx.ok(c, "decorate", name=nm, kind=kn):
                    return
                shapes_.append(shape(ctx, n, nm))
                if nm == name and name not in ("before", "after"):
                    keyed(ctx, c, name, kn, w, v)
            ctx.check(shapes_[0] == shapes_[1], "shape", "the code generated for the name differs in more than constants", name=name, kind=kn,
                      differs=[(a, b) for a, b in zip(*shapes_) if a != b][:1])

    return run


def pathpair(ctx):
    v = AV("Path", "p") if False else conc_path()
    return v, str(v)


def conc_path():
    return pathlib.Path("/tmp/x")


def field_kinds(hn):
    """Defaults, factories, skips, custom functions, flatten."""
    name = HAZARDS[hn]

    def run(ctx):
        def mk(fields, **kw):
            shapes_, first = [], None
            for nm in (name, PLAIN):
                n = len(ctx.ops.generated)
                c = ctx.cls("C", fields(nm), **kw)
                if not ctx.ok(c, "decorate", name=nm):
                    return None
                shapes_.append(shape(ctx, n, nm))
                first = first or c
            ctx.check(shapes_[0] == shapes_[1], "shape", name=name, differs=[(a, b) for a, b in zip(*shapes_) if a != b][:1])
            return first

        def rt(c, x, d, rule="key"):
            e = ctx.to_dict(x)
            if ctx.ok(e, rule, name=name):
                ctx.check(same(e, d) and list(map(repr, e)) == list(map(repr, d)), rule, "not written under the exact strings", name=name, actual=e, expected=d)
            y = ctx.from_dict(c, d)
            if ctx.ok(y, rule, name=name, data=d):
                ctx.eq(y, x, rule, name=name, data=d)

        c = mk(lambda nm: [F("x", int, default=7, opts=dict(rename=nm))])
        if c:
            rt(c, ctx.make(c, 3), {name: 3})
            ctx.eq(ctx.from_dict(c, {}), ctx.make(c, 7), "default")
        c = mk(lambda nm: [F("x", list[int], factory=list, opts=dict(rename=nm))])
        if c:
            rt(c, ctx.make(c, [3]), {name: [3]})
            ctx.eq(ctx.from_dict(c, {}), ctx.make(c, []), "default")
        c = mk(lambda nm: [F("x", int, opts=dict(rename=nm, serializer=lambda v: v + 1, deserializer=lambda v: v - 1, skip_if=lambda v: v == 0))])
        if c:
            rt(c, ctx.make(c, 3), {name: 4})
        c = mk(lambda nm: [F("x", typing.Optional[int], default=None, opts=dict(rename=nm, skip_if_false=True))])
        if c:
            rt(c, ctx.make(c, 3), {name: 3})
            rt(c, ctx.make(c, None), {})
        # aliases
        for t, v, extra in ((int, 3, {}), (int, 3, dict(default=9)), (typing.Optional[int], 3, {}), (list[int], [1], {}), (typing.Union[int, str], "q", {})):
            c = mk(lambda nm: [F("x", t, opts=dict(alias=[nm, "other"]), **extra)])
            if c:
                for k in ("x", name, "other"):
                    y = ctx.from_dict(c, {k: v})
                    if ctx.ok(y, "alias", key=k):
                        ctx.eq(y, ctx.make(c, v), "alias", key=k)
        # a nested class, flattened or not
        i = ctx.cls("I", [F("y", int, opts=dict(rename=name)), F("z", int)])
        if not ctx.ok(i, "decorate", name=name):
            return
        for t in (i, typing.Optional[i]):
            c = ctx.cls("C", [F("i", t), F("k", int)])
            rt(c, ctx.make(c, ctx.make(i, 1, 2), 3), {"i": {name: 1, "z": 2}, "k": 3})
            c = ctx.cls("C", [F("i", t, opts=dict(flatten=True)), F("k", int)])
            rt(c, ctx.make(c, ctx.make(i, 1, 2), 3), {name: 1, "z": 2, "k": 3}, "flatten")
            c = ctx.cls("C", [F("i", t, opts=dict(flatten=True)), F("k", int), F("rest", dict[str, typing.Any], opts=dict(flatten=True))])
            rt(c, ctx.make(c, ctx.make(i, 1, 2), 3, {"q": 1}), {name: 1, "z": 2, "k": 3, "q": 1}, "flatten")
            c = ctx.cls("C", [F("i", t, opts=dict(flatten=True)), F("k", int)], deny_unknown_fields=True)
            rt(c, ctx.make(c, ctx.make(i, 1, 2), 3), {name: 1, "z": 2, "k": 3}, "flatten")
        c = mk(lambda nm: [F("x", int, opts=dict(rename=nm)), F("rest", dict[str, typing.Any], opts=dict(flatten=True))])
        if c:
            rt(c, ctx.make(c, 1, {"q": 2}), {name: 1, "q": 2}, "flatten")
        c = mk(lambda nm: [F("x", int, opts=dict(rename=nm)), F("rest", dict, opts=dict(flatten=True))])
        if c:
            rt(c, ctx.make(c, 1, {name + "?": 2}), {name: 1, name + "?": 2}, "flatten")
        # the string as data
        c = ctx.cls("C", [F("x", dict[str, str])])
        rt(c, ctx.make(c, {name: name}), {"x": {name: name}})
        c = ctx.cls("C", [F("x", typing.Literal[name]), F("y", typing.Union[typing.Literal[name], int]), F("z", typing.Optional[typing.Literal[name, "b"]])])
        if ctx.ok(c, "literal", name=name):
            rt(c, ctx.make(c, name, name, name), {"x": name, "y": name, "z": name}, "literal")
            ctx.check(ctx.is_serde_error(ctx.from_dict(c, {"x": name + "?", "y": 1, "z": None})), "literal")
        c = ctx.cls("C", [F("x", str, default=name), F("y", list[str], factory=lambda: [name])])
        if ctx.ok(c, "default"):
            ctx.eq(ctx.from_dict(c, {}), ctx.make(c, name, [name]), "default")

    return run


def tags(hn):
    name = HAZARDS[hn]

    def run(ctx):
        a = ctx.cls("A", [F("p", int)])
        b = ctx.cls("B", [F("q", int)])
        i, adj, ext = ctx.get("core.InternalTagging"), ctx.get("core.AdjacentTagging"), ctx.get("core.ExternalTagging")
        for tg, wire in ((lambda nm: ctx.call(i, nm), lambda t, w: {name: t, **w}), (lambda nm: ctx.call(adj, nm, "c"), lambda t, w: {"c": w, name: t}), (lambda nm: ctx.call(adj, "t", nm), lambda t, w: {name: w, "t": t})):
            shapes_ = []
            if name in ("",):
                continue  # refused
            for nm in (name, PLAIN):
                n = len(ctx.ops.generated)
                t = tg(nm)
                if not ctx.ok(t, "tag", name=nm):
                    return
                c = ctx.cls("C", [F("u", typing.Union[a, b]), F("l", list[typing.Union[a, b]]), F("o", typing.Optional[typing.Union[a, b]])], tagging=t)
                if not ctx.ok(c, "tag", name=nm):
                    return
                shapes_.append(shape(ctx, n, nm))
                if nm == name:
                    x = ctx.make(c, ctx.make(a, 1), [ctx.make(b, 2)], ctx.make(b, 3))
                    d0 = {"u": wire("A", {"p": 1}), "l": [wire("B", {"q": 2})], "o": wire("B", {"q": 3})}
                    d = ctx.to_dict(x)
                    if ctx.ok(d, "tag"):
                        ctx.check(same(d, d0), "tag", "the tag is not written under the exact string", name=name, actual=d, expected=d0)
                    y = ctx.from_dict(c, d0)
                    if ctx.ok(y, "tag", name=name):
                        ctx.eq(y, x, "tag", name=name)
                    bad = ctx.from_dict(c, {**d0, "u": {"p": 1}})
                    ctx.check(ctx.is_serde_error(bad), "tag", "a missing tag does not raise SerdeError", result=bad)
            ctx.check(shapes_[0] == shapes_[1], "shape", "the code generated for the tag differs in more than constants", name=name, differs=[(p, q) for p, q in zip(*shapes_) if p != q][:1])

    return run


def class_names(hn):
    """Classes whose name is not an identifier, as made by make_dataclass or type()."""
    name = HAZARDS[hn]

    def run(ctx):
        if not name or hn in ("nul", "surrogate", "dunder"):  # not a class name for Python either
            return
        a = ctx.cls(name, [F("p", int)])
        if not ctx.ok(a, "class-name", name=name):
            return
        b = ctx.cls("B", [F("q", int)])
        e = enum.Enum(name, {"M": "m"}, module="abs_user")
        nt = typing.NewType(name, int)
        sub = type(name, (str,), {"__module__": "abs_user"})

        for tn in ("External", "Internal", "Adjacent", "Untagged"):
            for m in ("strict", "coerce"):
                c = ctx.cls("C", [F("f", a), F("u", typing.Union[a, b]), F("l", list[a]), F("o", typing.Optional[a]), F("e", e), F("n", nt), F("s", sub), F("eu", typing.Union[e, int]),
                                  F("d", defaultdict[str, a])], tagging=tagging(ctx, tn), type_check=ctx.get("core." + m))
                if not ctx.ok(c, "class-name", name=name):
                    continue
                A = lambda v: ctx.make(a, v)
                dd = ctx.ops.interp and defaultdict(a, {"k": A(5)})
                x = ctx.make(c, A(1), A(2), [A(3)], A(4), e.M, 6, sub("t"), e.M, dd)
                if not ctx.ok(x, "class-name", name=name):
                    continue
                d = ctx.to_dict(x)
                if not ctx.ok(d, "class-name", name=name):
                    continue
                if tn == "External":
                    ctx.check(same(d["u"], {name: {"p": 2}}), "class-name", "the tag is not the exact class name", actual=d["u"], name=name)
                elif tn == "Internal":
                    ctx.check(same(d["u"], {"type": name, "p": 2}), "class-name", "the tag is not the exact class name", actual=d["u"], name=name)
                y = ctx.from_dict(c, d)
                if ctx.ok(y, "class-name", name=name):
                    ctx.eq(y, x, "class-name", name=name)
                for k in ("f", "l", "e"):
                    bad = ctx.from_dict(c, {**d, k: 5})
                    ctx.check(ctx.is_serde_error(bad), "class-name", result=bad)
        # errors naming the class
        m = ctx.from_dict(a, {})
        ctx.check(ctx.is_serde_error(m), "class-name", "a missing field does not raise SerdeError", result=m)

    return run


# --- identifiers -----------------------------------------------------------------------------------------------------

def idents(src):
    out = set()
    for n in ast.walk(ast.parse(src)):
        for a in ("id", "arg", "attr", "name"):
            v = getattr(n, a, None)
            if isinstance(v, str):
                out.add(v)
    return out


def build(ctx, fname, cname="Zqc", iname="Zqi", second="zqother"):
    """A class with every construct that makes names of field and class names: fields named fname, fname_2 …"""
    inner = ctx.cls(iname, [F("u", int), F("w", int)])
    if isinstance(inner, Exc):
        return inner, None, None
    other = ctx.cls("Zqo", [F("s", str)])
    f2 = fname
    variants = {}
    for kind in ("plain", "default", "factory", "opt", "flat", "flatopt", "flatdict", "union", "conv", "skip", "kwonly", "coerce", "legacy", "list", "transparent", "around"):
        kw, dc, o, t, extra = {}, {}, {}, int, {}
        v, w = 5, 5
        if kind == "default":
            extra = dict(default=9)
        elif kind == "factory":
            t, extra, v, w = list[int], dict(factory=list), [1], [1]
        elif kind == "opt":
            t = typing.Optional[int]
        elif kind in ("flat", "flatopt"):
            t, o = (inner if kind == "flat" else typing.Optional[inner]), dict(flatten=True)
            v, w = (lambda: ctx.make(inner, 1, 2)), {"u": 1, "w": 2}
        elif kind == "flatdict":
            t, o, v, w = dict[str, typing.Any], dict(flatten=True), {"extra": 3}, {"extra": 3}
        elif kind == "union":
            t, v, w = typing.Union[inner, other, int], (lambda: ctx.make(inner, 1, 2)), {iname: {"u": 1, "w": 2}}
        elif kind == "conv":
            o, w = dict(serializer=lambda v: v + 1, deserializer=lambda v: v - 1), 6
        elif kind == "skip":
            o = dict(skip_if=lambda v: v == 0, skip_if_default=True)
            extra = dict(default=4)
        elif kind == "kwonly":
            dc = dict(kw_only=True)
        elif kind == "list":
            t, v, w = list[inner], (lambda: [ctx.make(inner, 1, 2)]), [{"u": 1, "w": 2}]
        if kind == "coerce":
            kw["type_check"] = ctx.get("core.coerce")
        if kind == "legacy":
            kw.update(serializer=skipper(ctx), deserializer=skipper(ctx))
        if kind == "transparent":
            kw["transparent"] = True
        fs = [F(fname, t, opts=o, dc=dc, **extra)]
        if kind != "transparent":
            second_t = int
            fs = [F(second, int), F("zqflat", other, opts=dict(flatten=True))] + fs
        if kind == "around":
            fs = [fs[2], fs[0], fs[1], F("zqrest", dict[str, typing.Any], opts=dict(flatten=True))]
        variants[kind] = (fs, kw, v, w)
    return inner, other, variants


def exercise(ctx, fname, cname="Zqc", iname="Zqi", second="zqother", rule="field-name", kinds_=None):
    if second == fname:
        second = "zqother2"
    inner, other, variants = build(ctx, fname, cname, iname, second)
    if not ctx.ok(inner, rule, name=iname):
        return
    flat_w = {"s": "S"}
    for kind, (fs, kw, v, w) in variants.items():
        if kinds_ and kind not in kinds_:
            continue
        c = ctx.cls(cname, fs, **kw)
        if not ctx.ok(c, rule, field=fname, cls=cname, inner=iname, kind=kind):
            continue
        val = v() if callable(v) else v
        if kind == "transparent":
            x, d0, tp0 = ctx.make(c, val), w, w
        elif kind == "around":
            x = ctx.make(c, val, 77, ctx.make(other, "S"), {"extra": 1})
            d0 = {fname: w, second: 77, **flat_w, "extra": 1}
        elif kind == "kwonly":
            x = ctx.make(c, 77, ctx.make(other, "S"), **{fname: val})
            d0 = {second: 77, **flat_w, fname: w}
        else:
            x = ctx.make(c, 77, ctx.make(other, "S"), val)
            d0 = {second: 77, **flat_w, **(w if kind in ("flat", "flatopt", "flatdict") else {fname: w})}
        if not ctx.ok(x, rule, field=fname, kind=kind):
            continue
        d = ctx.to_dict(x)
        if ctx.ok(d, rule, field=fname, cls=cname, inner=iname, kind=kind):
            ctx.check(same(d, d0), rule, "not written as under any other name", field=fname, cls=cname, inner=iname, kind=kind, actual=d, expected=d0)
        y = ctx.from_dict(c, d0)
        if ctx.ok(y, rule, field=fname, cls=cname, inner=iname, kind=kind, data=d0):
            ctx.eq(y, x, rule, "not read as under any other name", field=fname, cls=cname, inner=iname, kind=kind)
        tp = ctx.to_tuple(x)
        if ctx.ok(tp, rule, field=fname, cls=cname, kind=kind):
            y = ctx.from_tuple(c, tp)
            if ctx.ok(y, rule, field=fname, cls=cname, inner=iname, kind=kind, data=tp):
                ctx.eq(y, x, rule, "not read as under any other name", field=fname, cls=cname, inner=iname, kind=kind, data=tp)
        if kind == "plain":
            bad = ctx.from_dict(c, {second: 77, **flat_w})
            ctx.check(ctx.is_serde_error(bad), rule, "a missing key does not raise SerdeError", field=fname, result=bad)
            bad = ctx.from_dict(c, {**d0, fname: "wrong"})
            ctx.check(ctx.is_serde_error(bad), rule, "a wrong type does not raise SerdeError", field=fname, result=bad)


def usable(n):
    return n.isidentifier() and not keyword.iskeyword(n) and n not in ("__dataclass_fields__",) and not (n.startswith("__serde") or n.startswith("__dataclass"))


def used(ctx, probe, fname, cname, iname):
    """Identifiers in the code generated for probe() and the globals it runs in."""
    n = len(ctx.ops.generated)
    probe()
    names = set()
    for _, src, g in ctx.ops.generated[n:]:
        names |= idents(src)
        names |= {k for k in g if isinstance(k, str)}
    return {x for x in names if x.isidentifier() and not (x.startswith("__") and x.endswith("__"))}


def collisions(names, base):
    """What base would have to be for one of the generator's names made of it to be another identifier in use."""
    pats = {(x[:i], x[i + len(base):]) for x in names for i in [x.find(base)] if i >= 0}
    out = {base + s for _, s in pats} | {p + base for p, _ in pats}
    for p, s in pats:
        for x in names:
            if x.startswith(p) and x.endswith(s) and len(x) > len(p) + len(s):
                out.add(x[len(p):len(x) - len(s)])
    return {x for x in out if usable(x) and x not in (base, "s", "u", "w", "extra", "zqflat", "zqother", "zqrest")}


FIXED_FIELDS = ["data", "cls", "res", "obj", "v", "k", "self", "e", "typing", "fake_dict", "fake_data", "fake_key", "x_flatten_data", "zqflat_flatten_data", "flatten_known_fields", "flatten_extra", "flatten_data_zqflat", "known_fields",
                "unknown_fields", "errors", "subres", "serde_scope", "reuse_instances", "convert_sets", "skip_none", "deserialize_numbers", "maybe_generic", "maybe_generic_type_vars", "variable_type_args",
                "int", "str", "list", "dict", "set", "tuple", "len", "isinstance", "KeyError", "Exception", "None_", "func", "named", "default", "type", "match", "case", "_", "__", "_x", "x_", "__k", "__v",
                "debug__", "class__", "copy", "collections", "SerdeError", "UserError", "to_obj", "from_obj", "coerce_object", "enum_value", "ensure", "is_bearable", "datavar", "funcs", "union_args",
                "serde_legacy_custom_class", "ünï", "フィールド", "init", "name", "alias", "rename", "metadata", "zqother_skip_if", "to_dict", "from_dict", "to_iter", "from_iter", "parent", "index", "case", "serialize"]
FIXED_CLASSES = ["UserError", "SerdeError", "Literal", "TypeCheck", "typename", "collections", "list", "dict", "Path", "typing", "Any", "Optional", "Union", "cls", "data", "obj", "res", "e", "v", "k", "errors", "int", "str",
                 "float", "bool", "Exception", "KeyError", "isinstance", "serde_scope", "deque", "Counter", "copy", "fake_dict", "coerce_object", "to_obj", "from_obj", "is_dataclass", "set", "frozenset", "tuple",
                 "defaultdict", "datetime", "Decimal", "ensure", "is_bearable", "is_instance", "enum_value", "numpy", "object", "type", "args", "builtin", "Ü", "クラス", "_", "__C", "disabled", "strict", "NoneType", "None_",
                 "deserialize_numbers", "maybe_generic", "reuse_instances", "func", "len", "any", "known_fields", "UnionCache", "Cache", "WrapperClass"]


def fields_fixed(fn):
    def run(ctx):
        exercise(ctx, fn)

    return run


def classes_fixed(cn):
    def run(ctx):
        exercise(ctx, "zqf", cname=cn, rule="class-name-id", kinds_=("plain", "flat", "union", "conv", "list", "transparent", "legacy"))
        exercise(ctx, "zqf", iname=cn, rule="class-name-id", kinds_=("flat", "flatopt", "union", "list"))
        # values of builtin kinds still work beside a class of that name
        i = ctx.cls(cn, [F("p", int)])
        if not ctx.ok(i, "class-name-id"):
            return
        c = ctx.cls("Zqc", [F("i", i), F("l", list[i]), F("d", defaultdict[str, list[i]]), F("q", deque[i]), F("s", set[str]), F("fs", frozenset[str]), F("n", Counter[str]), F("t", tuple[i, int]), F("dt", datetime.datetime),
                            F("de", decimal.Decimal), F("p", pathlib.Path), F("u", typing.Union[i, str, list[int]]), F("a", typing.Any), F("li", typing.Literal[1, "a"]), F("e", E), F("o", typing.Optional[i]), F("f", float)],
                    )
        if not ctx.ok(c, "class-name-id", inner=cn):
            return
        I = lambda n: ctx.make(i, n)
        x = ctx.make(c, I(1), [I(2)], defaultdict(list, {"k": [I(3)]}), deque([I(4)]), {"s"}, frozenset({"s"}), Counter({"c": 2}), (I(5), 6), datetime.datetime(2020, 1, 2), decimal.Decimal("1.5"), pathlib.Path("/a"), I(7), 8, "a", E.A, I(9), 1.5)
        if not ctx.ok(x, "class-name-id", inner=cn):
            return
        for kw in (dict(), dict(reuse_instances=False, convert_sets=True)):
            d = ctx.to_dict(x, **kw)
            y = d if isinstance(d, Exc) else ctx.from_dict(c, d, **({"reuse_instances": False} if kw else {}))
            if ctx.ok(y, "class-name-id", inner=cn):
                ctx.eq(y, x, "class-name-id", inner=cn)

    return run


SLICES = 8


def computed_fields(ctx, part):
    names = used(ctx, lambda: exercise(ctx, "zqf"), "zqf", "Zqc", "Zqi")
    cand = collisions(names, "zqf") | collisions(names, "zqflat") | collisions(names, "zqother") | collisions(names, "zqrest")
    ctx.check(len(names) > 30, "computed", "no identifiers were found in the generated code", names=len(names))
    for n in sorted(cand)[part::SLICES]:
        exercise(ctx, n, rule="field-collision", kinds_=("plain", "around", "flat", "flatdict", "conv", "skip", "union", "legacy", "factory", "transparent"))


def computed_classes(ctx, part):
    names = used(ctx, lambda: exercise(ctx, "zqf"), "zqf", "Zqc", "Zqi")
    for n in sorted(collisions(names, "Zqi"))[part::SLICES]:
        exercise(ctx, "zqf", iname=n, rule="class-collision", kinds_=("flat", "union", "list"))
        # as a second variant beside the class that makes the name
        a = ctx.cls("Zqi", [F("p", int)])
        b = ctx.cls(n, [F("q", int)])
        e = ctx.cls("Zqe", [F("r", int)])
        us = [typing.Union[a, e], typing.Union[a, b], typing.Union[b, e], typing.Union[a, b, e], typing.Optional[typing.Union[a, b]]]
        for order in (us, us[::-1]):
            c = ctx.cls("Zqc", [F(f"u{i}", t) for i, t in enumerate(order)])
            if not ctx.ok(c, "class-collision", name=n):
                return
            for t in (a, b, e):
                vals = [ctx.make(t if t in typing.get_args(u) else [k for k in typing.get_args(u) if k is not type(None)][0], 5) for u in order]
                x = ctx.make(c, *vals)
                d = ctx.to_dict(x)
                y = d if isinstance(d, Exc) else ctx.from_dict(c, d)
                if ctx.ok(y, "class-collision", name=n):
                    ctx.eq(y, x, "class-collision", name=n)


def union_names(ctx):
    """Classes whose names join into the same text."""
    sets = [(("A", "B_C"), ("A_B", "C")), (("A", "args"), ("A", "B")), (("A", "builtin"), ("A", "B")), (("A", "B", "builtin"), ("A", "B")), (("A", "B", "args"), ("A", "B")), (("A", "1x"), ("A", "_0x31_x")),
            (("Union", "A"), ("A", "Union")), (("A_", "B"), ("A", "_B")), (("List", "A"), ("A", "B"))]
    for s1, s2 in sets:
        cs = {}
        for n in sorted(set(s1) | set(s2)):
            cs[n] = ctx.cls(n, [F("p_" + n, int)])
        for order in ((s1, s2), (s2, s1)):
            for conv in (False, True):
                us = [typing.Union[tuple(cs[n] for n in s)] for s in order]
                fs = [F(f"u{i}", u) for i, u in enumerate(us)]
                if conv:
                    fs.append(F("b", us[0], opts=dict(serializer=ctx.get("se.default_serializer"), deserializer=ctx.get("de.default_deserializer"))))
                for tn in ("External", "Internal", "Adjacent", "Untagged"):
                    c = ctx.cls("C", fs, tagging=tagging(ctx, tn))
                    if not ctx.ok(c, "union-name", names=order):
                        continue
                    for i in range(2):
                        vs = [ctx.make(cs[s[i]], i) for s in order]
                        x = ctx.make(c, *vs, *([vs[0]] if conv else []))
                        d = ctx.to_dict(x)
                        y = d if isinstance(d, Exc) else ctx.from_dict(c, d)
                        if ctx.ok(y, "union-name", names=order, tagging=tn):
                            ctx.eq(y, x, "union-name", names=order)


def function_names(ctx):
    """Fields with functions: the names made for them are not those of other fields."""
    for a in ("x", "serde_legacy_custom_class", "to", "x_skip", "x_skip_if", "serde_field_x", "class"):
        if keyword.iskeyword(a):
            continue
        for b in ("x_serializer", "x_skip_if", "x_skip_if_false", "x_deserializer", "x_skip", "de" + a, a + "_de", "x_de", "serde_field_x", "y"):
            if a == b:
                continue
            c = ctx.cls("C", [F(a, int, opts=dict(serializer=lambda v: v + 1, deserializer=lambda v: v - 1, skip_if=lambda v: v == 100)), F(b, int, default=50, opts=dict(skip_if_false=True, serializer=lambda v: v * 2, deserializer=lambda v: v // 2)),
                              F("z", int, default=3, opts=dict(skip_if_default=True))], serializer=skipper(ctx), deserializer=skipper(ctx))
            if not ctx.ok(c, "function-name", names=(a, b)):
                continue
            for va, vb, vz, d0 in ((1, 2, 3, {a: 2, b: 4}), (99, 50, 4, {b: 100, "z": 4}), (5, 0, 3, {a: 6})):
                d = ctx.to_dict(ctx.make(c, va, vb, vz))
                if ctx.ok(d, "function-name", names=(a, b)):
                    ctx.check(same(d, d0), "function-name", names=(a, b), actual=d, expected=d0)
            y = ctx.from_dict(c, {a: 2, b: 4})
            if ctx.ok(y, "function-name", names=(a, b)):
                ctx.eq(y, ctx.make(c, 1, 2, 3), "function-name", names=(a, b))


def cases(ctx):
    """rename_all applies the conversion to the identifier; an explicit rename is left alone."""
    for case in ("camelcase", "pascalcase", "snakecase", "kebabcase", "constcase", "upperkebabcase", "dotcase", "pathcase", "titlecase"):
        c = ctx.cls("C", [F("some_field", int), F("other", int, opts=dict(rename='a"b\\'))], rename_all=case)
        if isinstance(c, Exc):
            continue
        d = ctx.to_dict(ctx.make(c, 1, 2))
        if ctx.ok(d, "case", case=case):
            ctx.check('a"b\\' in d and len(d) == 2, "case", case=case, actual=d)
            y = ctx.from_dict(c, d)
            if ctx.ok(y, "case", case=case):
                ctx.eq(y, ctx.make(c, 1, 2), "case", case=case)


def scenarios(tier):
    out = []
    for hn in HAZARDS:
        for on in OPTIONS if tier == "thorough" or hn in ("dquote", "quotes", "bslash-end", "newline", "braces", "inject", "jinja-stmt") else ("plain", "coerce", "deny"):
            out.append(Scenario(f"rename:{hn}:{on}", rename(hn, on)))
        out.append(Scenario(f"kinds:{hn}", field_kinds(hn)))
        out.append(Scenario(f"tag:{hn}", tags(hn)))
        out.append(Scenario(f"classname:{hn}", class_names(hn)))
    for fn in dict.fromkeys(FIXED_FIELDS):
        if usable(fn):
            out.append(Scenario(f"field:{fn}", fields_fixed(fn)))
    for cn in dict.fromkeys(FIXED_CLASSES):
        if usable(cn):
            out.append(Scenario(f"class:{cn}", classes_fixed(cn)))
    for i in range(SLICES):
        out.append(Scenario(f"computed-fields:{i}", lambda ctx, i=i: computed_fields(ctx, i)))
        out.append(Scenario(f"computed-classes:{i}", lambda ctx, i=i: computed_classes(ctx, i)))
    out.append(Scenario("union-names", union_names))
    out.append(Scenario("function-names", function_names))
    out.append(Scenario("cases", cases))
    return out
