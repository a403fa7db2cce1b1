"""P19: results do not depend on which classes or types were used before."""
import itertools
from ..harness import F, Scenario, Exc, same
from ..shapes import *
from ..values import var, AV, Foreign
from .p14 import TAGS, tagging

RULES = ["after any other type of a confusable group was used (in fields, nested, top level, in the same class), a type is read and written "
         "as on its own: types that compare equal, share a name, differ in argument order or tagging, or inherit from one another",
         "options of a call and failures of a call leave nothing behind", "a plain dataclass is treated alike whichever operation or class needed it first"]
EXPLANATION = ("Abstract interpretation of histories: groups of confusable types x ordered pairs (and the pair within one class) x ways of "
               "use; oracle is the documented wire form of each type on its own.  Sequences of operations with every call option and with "
               "failing operations, and every order of first use of plain dataclasses, are compared with the same operation performed first.")

U = typing.Union
O = typing.Optional
P_ = pathlib.Path


class M:
    """A type with its values: enc (value, wire), dec (data, value)."""

    def __init__(self, name, t, enc=(), dec=(), tag=None, bad=()):
        self.name, self.t, self.enc, self.dec, self.tag, self.bad = name, t, list(enc), list(dec), tag, list(bad)


def order(ctx):
    """Unions that compare equal but list their alternatives in another order."""
    p, s = pathlib.Path("x"), "x"
    # built with `|`: subscripting typing's own generics hands out an equal alias made before, of whatever order
    A = [(P_ | str, p), (str | P_, s)]
    out = []
    for n, wt, wv in (("plain", lambda t: t, lambda v: v), ("list", lambda t: list[t], lambda v: [v]), 
                      ("dict", lambda t: dict[str, t], lambda v: {"k": v}), ("vtuple", lambda t: tuple[t, ...], lambda v: (v,)),
                      ("tuple", lambda t: tuple[t, int], lambda v: (v, 1)), ("opt", lambda t: t | None, lambda v: v), ("deque", lambda t: deque[t], lambda v: deque([v])),
                      ("set", lambda t: set[t], lambda v: {v}), ("nested", lambda t: list[t] | bool, lambda v: [v]), ("deep", lambda t: dict[str, list[t | None]], lambda v: {"k": [v, None]}),
                      ("optlist", lambda t: list[t] | None, lambda v: [v]), ("none-last", lambda t: t | None | int, lambda v: v)):
        w = lambda v: [w(x) for x in v] if isinstance(v, (deque, list)) else tuple(w(x) for x in v) if isinstance(v, tuple) else {k: w(x) for k, x in v.items()} if isinstance(v, dict) else [w(x) for x in v] if isinstance(v, set) else "x" if v == p else v
        for i, (t, v) in enumerate(A):
            out.append((n, M(f"{n}{i}", wt(t), [], [(w(wv(v)), wv(v))])))
        if n == "plain":
            out.append((n, M("typing0", U[P_, str], [], [("x", p)])))
            out.append((n, M("typing1", U[str, P_], [], [("x", s)])))
    g = {}
    for n, m in out:
        g.setdefault(n, []).append(m)
    return g


def optionals(ctx):
    d = D.t(ctx)
    v, w = ctx.make(d, 1, "s"), {"i": 1, "s": "s"}
    e = [(None, None), (v, w)]
    tg = [(None, None), (v, {"D": w})]
    r = lambda q: [(b, a) for a, b in q]
    return {"opt": [M("Optional", O[d], e, r(e)), M("pipe", d | None, e, r(e)), M("rev", U[None, d], tg, r(tg)), M("revpipe", None | d, tg, r(tg)),
                    M("three", U[d, None, int], tg + [(1, 1)], r(tg)), M("three2", U[d, int, None], tg + [(1, 1)], r(tg))],
            "optint": [M("o", O[int], [(1, 1), (None, None)], [(1, 1), (None, None)]), M("ob", O[bool], [(True, True)], [(True, True), (None, None)]),
                       M("r", U[None, int], [(1, 1), (None, None)], [(1, 1), (None, None)]), M("i", int, [(1, 1)], [(1, 1)]), M("b", bool, [(True, True)], [(True, True)])]}


def untagged(ctx):
    d, d3 = D.t(ctx), D3.t(ctx)
    w = {"i": 1, "s": "s"}
    return {"untagged": [M("01", U[d, d3], [(ctx.make(d3, 1, "s"), w)], [(w, ctx.make(d, 1, "s"))], "Untagged"),
                         M("10", U[d3, d], [(ctx.make(d, 1, "s"), w)], [(w, ctx.make(d3, 1, "s"))], "Untagged"),
                         M("l01", list[U[d, d3]], [], [([w], [ctx.make(d, 1, "s")])], "Untagged"),
                         M("l10", list[U[d3, d]], [], [([w], [ctx.make(d3, 1, "s")])], "Untagged")]}


def taggings(ctx):
    d, d2 = D.t(ctx), D2.t(ctx)
    out = []
    for tn, k in TAGS.items():
        for n, u in (("a", U[d, d2]), ("b", U[d2, d])):
            e = []
            for v, w, c in ((ctx.make(d, 1, "s"), {"i": 1, "s": "s"}, "D"), (ctx.make(d2, 1.5), {"f": 1.5}, "D2")):
                e.append((v, {c: w} if k == "external" else {**w, k[1]: c} if k[0] == "internal" else {k[1]: c, k[2]: w} if k[0] == "adjacent" else w))
            out.append(M(f"{tn}-{n}", u, e, [(b, a) for a, b in e], tn))
    return {"tagging": out}


def alike(ctx):
    """Types that look alike or compare equal."""
    L = typing.Literal
    i, f, s, b = var("i", int), var("f", float), var("s", str), True
    lit = [M("1", L[1], [(1, 1)], [(1, 1)], bad=[True, "1", 2]), M("True", L[True], [(True, True)], [(True, True)], bad=[1, "True", False]),
           M("s1", L["1"], [("1", "1")], [("1", "1")], bad=[1]), M("0F", L[0, False], [(0, 0), (False, False)], [(0, 0), (False, False)]),
           M("F0", L[False, 0], [(0, 0), (False, False)], [(0, 0), (False, False)]), M("l1", list[L[1]], [], [([1], [1])], bad=[[True]]),
           M("lT", list[L[True]], [], [([True], [True])], bad=[[1]]), M("u1", U[L[1], str], [(1, 1)], [(1, 1), ("a", "a")], bad=[True]),
           M("uT", U[L[True], str], [(True, True)], [(True, True), ("a", "a")], bad=[1]), M("u's", U[L["x"], int], [("x", "x")], [("x", "x"), (3, 3)], bad=["y"]),
           M("u's2", U[L["y"], int], [("y", "y")], [("y", "y"), (3, 3)], bad=["x"])]
    seq = [M("list", list[int], [([i], [i])], [([i], [i])]), M("List", typing.List[int], [([i], [i])], [([i], [i])]), M("Seq", Sequence[int], [([i], [i])], [([i], [i])]),
           M("bare", list, [([i, s], [i, s])], [([i, s], [i, s])]), M("BareList", typing.List, [([i, s], [i, s])], [([i, s], [i, s])]),
           M("vt", tuple[int, ...], [((i, i), None)], [([i, i], (i, i))]), M("t2", tuple[int, int], [((i, i), None)], [([i, i], (i, i))]),
           M("t1", tuple[int], [((i,), None)], [([i], (i,))]), M("set", set[int], [], [([i], {i})]), M("fs", frozenset[int], [], [([i], frozenset([i]))]),
           M("AbsSet", Set[int], [], [([i], {i})]), M("deque", deque[int], [(deque([i]), [i])], [([i], deque([i]))]),
           M("lf", list[float], [([f], [f])], [([f], [f])]), M("lb", list[bool], [([True], [True])], [([True], [True])])]
    sk = lambda v: {"k": v}
    mp = [M("dict", dict[str, int], [(sk(i), sk(i))], [(sk(i), sk(i))]), M("Dict", typing.Dict[str, int], [(sk(i), sk(i))], [(sk(i), sk(i))]),
          M("Mapping", Mapping[str, int], [(sk(i), sk(i))], [(sk(i), sk(i))]), M("dd", defaultdict[str, int], [], [(sk(i), defaultdict(int, sk(i)))]),
          M("ddl", defaultdict[str, list[int]], [], [(sk([i]), defaultdict(list, sk([i])))]), M("ddL", typing.DefaultDict[str, int], [], [(sk(i), defaultdict(int, sk(i)))]),
          M("counter", Counter[str], [], [(sk(3), Counter(sk(3)))]), M("bare", dict, [(sk(i), sk(i))], [(sk(i), sk(i))]),
          M("dp", dict[str, P_], [], [(sk("a"), sk(pathlib.Path("a")))]), M("pd", dict[P_, str], [], [(sk("a"), {pathlib.Path("k"): "a"})])]
    pr = [M("path", P_, [], [("a", pathlib.Path("a"))]), M("pure", pathlib.PurePath, [], [("a", pathlib.PurePath("a"))]),
          M("win", pathlib.PureWindowsPath, [], [("a", pathlib.PureWindowsPath("a"))]), M("date", datetime.date, [(datetime.date(2020, 1, 2), "2020-01-02")], [("2020-01-02", datetime.date(2020, 1, 2))]),
          M("dt", datetime.datetime, [(datetime.datetime(2020, 1, 2), "2020-01-02T00:00:00")], [("2020-01-02", datetime.datetime(2020, 1, 2))]),
          M("ntint", NTInt, [(i, i)], [(i, i)]), M("ntstr", NTStr, [(s, s)], [(s, s)]), M("isub", IntSub, [(IntSub(3), 3)], [(3, IntSub(3))]),
          M("lvl", Lvl, [(list(Lvl)[0], list(Lvl)[0].value)], [(list(Lvl)[0].value, list(Lvl)[0])]), M("any", typing.Any, [(i, i)], [([i], [i])]),
          M("ssub", StrSub, [(StrSub("q"), "q")], [("q", StrSub("q"))]), M("str", str, [(s, s)], [(s, s)]), M("color", Color, [(Color.RED, Color.RED.value)], [(Color.RED.value, Color.RED)])]
    return {"literal": lit, "sequence": seq, "mapping": mp, "scalar": pr}


def named(ctx):
    """Different types of the same name."""
    a = ctx.cls("Foo", [F("a", int)])
    b = ctx.cls("Foo", [F("b", str), F("z", O[P_], default=None)])
    c = ctx.cls("Foo", [F("a", int, opts=dict(rename="R"))], rename_all="camelcase")
    pl = dataclasses.dataclass(ctx.rawcls("Foo", [F("q", P_)]))
    va, vb, vc, vp = ctx.make(a, 1), ctx.make(b, "x", None), ctx.make(c, 1), ctx.make(pl, pathlib.Path("w"))
    wa, wb, wc, wp = {"a": 1}, {"b": "x", "z": None}, {"R": 1}, {"q": "w"}
    W = ((va, wa, a), (vb, wb, b), (vc, wc, c), (vp, wp, pl))
    g = {"class": [M(f"{i}", t, [(v, w)], [(w, v)]) for i, (v, w, t) in enumerate(W)],
         "class-list": [M(f"{i}", list[t], [([v], [w])], [([w], [v])]) for i, (v, w, t) in enumerate(W)],
         "class-union": [M(f"{i}", U[t, int], [(v, {"Foo": w})], [({"Foo": w}, v)]) for i, (v, w, t) in enumerate(W)],
         "class-opt": [M(f"{i}", O[t], [(v, w)], [(w, v)]) for i, (v, w, t) in enumerate(W)]}
    e1 = enum.Enum("E", {"A": 1, "B": 2}, module="abs_user")
    e2 = enum.Enum("E", {"A": "x", "B": "y"}, module="abs_user")
    g["enum"] = [M("1", e1, [(e1.A, 1)], [(1, e1.A), (2, e1.B)]), M("2", e2, [(e2.A, "x")], [("x", e2.A)]), M("l1", list[e1], [([e1.A], [1])], [([1], [e1.A])]),
                 M("l2", list[e2], [([e2.A], ["x"])], [(["y"], [e2.B])]), M("u1", U[e1, bool], [(e1.A, 1)], [(1, e1.A)]), M("u2", U[e2, bool], [(e2.A, "x")], [("x", e2.A)])]
    n1, n2 = typing.NewType("NT", int), typing.NewType("NT", str)
    i, s = var("i", int), var("s", str)
    g["newtype"] = [M("1", n1, [(i, i)], [(i, i)]), M("2", n2, [(s, s)], [(s, s)]), M("l1", list[n1], [([i], [i])], [([i], [i])]), M("l2", list[n2], [([s], [s])], [([s], [s])])]
    s1, s2 = type("Sub", (int,), {"__module__": "abs_user"}), type("Sub", (str,), {"__module__": "abs_user"})
    g["subclass"] = [M("1", s1, [(s1(3), 3)], [(3, s1(3))]), M("2", s2, [(s2("q"), "q")], [("q", s2("q"))])]
    t1, t2 = typing.TypeAliasType("Al", U[P_, str]), typing.TypeAliasType("Al", U[str, P_])
    t3 = typing.TypeAliasType("Al", list[P_])
    g["alias"] = [M("1", t1, [], [("x", pathlib.Path("x"))]), M("2", t2, [], [("x", "x")]), M("3", t3, [], [(["x"], [pathlib.Path("x")])]),
                  M("l1", list[t1], [], [(["x"], [pathlib.Path("x")])]), M("l2", list[t2], [], [(["x"], ["x"])])]
    TV, TW = typing.TypeVar("TV"), typing.TypeVar("TW")
    g1 = ctx.cls("G", [F("x", TV), F("l", list[TV])], bases=(typing.Generic[TV],))
    g2 = ctx.cls("G", [F("x", TW)], bases=(typing.Generic[TV, TW],))
    p = pathlib.Path("x")
    g["generic"] = [M("path", g1[P_], [(ctx.make(g1, p, []), {"x": "x", "l": []})], [({"x": "x", "l": ["x"]}, ctx.make(g1, p, [p]))]),
                    M("str", g1[str], [(ctx.make(g1, "x", []), {"x": "x", "l": []})], [({"x": "x", "l": ["x"]}, ctx.make(g1, "x", ["x"]))]),
                    M("bare", g1, [], [({"x": "x", "l": [1]}, ctx.make(g1, "x", [1]))]), M("2ps", g2[P_, str], [], [({"x": "x"}, ctx.make(g2, "x"))]),
                    M("2sp", g2[str, P_], [], [({"x": "x"}, ctx.make(g2, p))]), M("lst", list[g1[P_]], [], [([{"x": "x", "l": []}], [ctx.make(g1, p, [])])]),
                    M("lst2", list[g1[str]], [], [([{"x": "x", "l": []}], [ctx.make(g1, "x", [])])])]
    return g


def inheriting(ctx):
    base = ctx.cls("Base", [F("a", int), F("p", P_)], rename_all="camelcase")
    der = ctx.cls("Der", [F("b_c", str)], bases=(base,))
    der2 = ctx.cls("Der2", [F("b_c", str, opts=dict(rename="Q"))], bases=(der,), rename_all="pascalcase", deny_unknown_fields=True)
    sib = ctx.cls("Sib", [F("a", str)], bases=(base,))
    pb = dataclasses.dataclass(ctx.rawcls("PB", [F("a", int), F("p", P_)]))
    pd = dataclasses.dataclass(ctx.rawcls("PDer", [F("b", str)], bases=(pb,)))
    pd2 = dataclasses.dataclass(ctx.rawcls("PDer2", [F("b", str)], bases=(pb,)))
    mixed = ctx.cls("Mixed", [F("m", int)], bases=(pb,))
    p = pathlib.Path("x")
    rows = [("base", base, (1, p), {"a": 1, "p": "x"}), ("der", der, (1, p, "s"), {"a": 1, "p": "x", "b_c": "s"}), ("der2", der2, (1, p, "s"), {"A": 1, "P": "x", "Q": "s"}),
            ("sib", sib, ("z", p), {"a": "z", "p": "x"}), ("pb", pb, (1, p), {"a": 1, "p": "x"}), ("pd", pd, (1, p, "s"), {"a": 1, "p": "x", "b": "s"}),
            ("pd2", pd2, (1, p, "t"), {"a": 1, "p": "x", "b": "t"}), ("mixed", mixed, (1, p, 4), {"a": 1, "p": "x", "m": 4})]
    out = []
    for n, t, a, w in rows:
        v = ctx.make(t, *a)
        out.append(M(n, t, [(v, w)], [(w, v)]))
    v = ctx.make(der, 1, p, "s")
    out.append(M("ub", U[base, der], [(v, {"Der": rows[1][3]})], [({"Der": rows[1][3]}, v), ({"Base": rows[0][3]}, ctx.make(base, 1, p))]))
    out.append(M("lb", list[base], [([ctx.make(base, 1, p)], [rows[0][3]])], [([rows[0][3]], [ctx.make(base, 1, p)])]))
    return {"inherit": out}


GROUPS = {"order": order, "optionals": optionals, "untagged": untagged, "taggings": taggings, "alike": alike, "named": named, "inheriting": inheriting}
NAMES = {"order": ["plain", "list", "dict", "vtuple", "tuple", "opt", "deque", "set", "nested", "deep", "optlist", "none-last"], "optionals": ["opt", "optint"],
         "untagged": ["untagged"], "taggings": ["tagging"], "alike": ["literal", "sequence", "mapping", "scalar"],
         "named": ["class", "class-list", "class-union", "class-opt", "enum", "newtype", "subclass", "alias", "generic"], "inheriting": ["inherit"]}


def tagged(ctx, m):
    return tagging(ctx, m.tag or "External")


def top(ctx, m):
    return ctx.call(tagged(ctx, m), m.t) if m.tag and typing.get_origin(m.t) is U else m.t


def use_top(ctx, m, rule, check=True, **det):
    t = top(ctx, m)
    if m.tag and typing.get_origin(m.t) is not U:
        return
    for v, w in m.enc:
        d = ctx.to_dict(v, c=t, reuse_instances=False)
        if check and w is not None and ctx.ok(d, rule, type=m.name, value=v, **det):
            ctx.check(wire_same(d, w), rule, "written differently after other types were used", type=m.name, actual=d, expected=w, **det)
    for w, v in m.dec:
        y = ctx.from_dict(t, w, reuse_instances=False)
        if check and ctx.ok(y, rule, type=m.name, data=w, **det):
            ctx.eq(y, v, rule, "read differently after other types were used", type=m.name, data=w, **det)
    for w in m.bad:
        y = ctx.from_dict(t, w, reuse_instances=False)
        if check:
            ctx.check(ctx.is_serde_error(y), rule, "accepted after other types were used", type=m.name, data=w, result=y, **det)


def use_field(ctx, ms, rule, check=True, name="C", **det):
    """A class with a field per type."""
    c = ctx.cls(name, [F(f"f{i}", m.t) for i, m in enumerate(ms)], tagging=tagged(ctx, ms[0]))
    if isinstance(c, Exc):
        if check:
            ctx.ok(c, rule, types=[m.name for m in ms], **det)
        return
    encs = [m.enc or [(v, None) for _, v in m.dec] for m in ms]
    for k in range(max(map(len, encs))):
        vs = [e[k % len(e)] for e in encs]
        x = ctx.make(c, *[v for v, _ in vs])
        if isinstance(x, Exc):
            if check:
                ctx.ok(x, rule, **det)
            continue
        d = ctx.to_dict(x, reuse_instances=False)
        if check and ctx.ok(d, rule, **det):
            for i, (v, w) in enumerate(vs):
                if w is not None:
                    ctx.check(wire_same(d[f"f{i}"], w), rule, "written differently after other types were used", type=ms[i].name, actual=d[f"f{i}"], expected=w, **det)
    for k in range(max(len(m.dec) for m in ms)):
        ws = [m.dec[k % len(m.dec)] for m in ms]
        y = ctx.from_dict(c, {f"f{i}": w for i, (w, _) in enumerate(ws)}, reuse_instances=False)
        if check and ctx.ok(y, rule, data=ws, **det):
            for i, (w, v) in enumerate(ws):
                ctx.eq(getattr(y, f"f{i}"), v, rule, "read differently after other types were used", type=ms[i].name, data=w, **det)
    for i, m in enumerate(ms):
        for w in m.bad:
            y = ctx.from_dict(c, {f"f{j}": (w if j == i else n.dec[0][0]) for j, n in enumerate(ms)}, reuse_instances=False)
            if check:
                ctx.check(ctx.is_serde_error(y), rule, "accepted after other types were used", type=m.name, data=w, result=y, **det)


def history(gn, sub, how):
    def run(ctx):
        g = GROUPS[gn](ctx)[sub]
        first, second = how.split(">")
        for a, b in itertools.permutations(g, 2):
            if first == "top":
                use_top(ctx, a, "history", check=False)
            else:
                use_field(ctx, [a], "history", check=False)
            if second == "top":
                use_top(ctx, b, "history", after=a.name)
            else:
                use_field(ctx, [b], "history", after=a.name)

    return run


def together(gn, sub):
    """Both in one class."""

    def run(ctx):
        g = GROUPS[gn](ctx)[sub]
        for a, b in itertools.permutations(g, 2):
            if (a.tag or b.tag) and a.tag != b.tag:
                continue
            use_field(ctx, [a, b], "together", pair=(a.name, b.name))

    return run



OPTS = [dict(reuse_instances=True), dict(reuse_instances=False), dict(convert_sets=True), dict(convert_sets=False), dict(skip_none=True), {}]


def world(ctx):
    """Values of many kinds whose written form depends on options."""
    p, u = pathlib.Path("x"), uuid.UUID(int=7)
    inner = ctx.cls("In", [F("p", P_), F("s", set[P_]), F("o", O[P_], default=None)])
    plain = dataclasses.dataclass(ctx.rawcls("Pl", [F("p", P_), F("o", O[int], default=None)]))
    box = ctx.cls("Box", [F("x", inner), F("y", plain), F("u", U[P_, int, None], default=None), F("l", O[list[set[P_]]], default=None)])
    vi = lambda: ctx.make(inner, p, {p}, None)
    vp = lambda: ctx.make(plain, p, None)
    return [(inner, vi), (plain, vp), (box, lambda: ctx.make(box, vi(), vp(), p, [{p}])), (list[inner], lambda: [vi()]), (U[inner, int], vi), (dict[str, plain], lambda: {"k": vp()}),
            (U[P_, str], lambda: p), (O[P_], lambda: p), (list[U[P_, int]], lambda: [p]), (P_, lambda: p), (uuid.UUID, lambda: u), (set[P_], lambda: {p})]


def sticking_se(i, tup):
    """An operation with other options in between changes nothing."""

    def run(ctx):
        t, mk = world(ctx)[i]
        f = ctx.to_tuple if tup else ctx.to_dict
        v = mk()
        cs = (t,) if not dataclasses.is_dataclass(t) else (None, t)
        for c in cs:
            kw = dict(c=c) if c is not None else {}
            ref = [f(v, **kw, **o) for o in OPTS]
            for a in range(len(OPTS)):
                for b in range(len(OPTS)):
                    f(v, **kw, **OPTS[a])
                    r = f(v, **kw, **OPTS[b])
                    ctx.check(same(r, ref[b]), "options", "the options of an earlier call still apply", type=t, earlier=OPTS[a], options=OPTS[b], actual=r, expected=ref[b])

    return run


def sticking_de(i):
    """Neither options nor failures of reading stay."""

    def run(ctx):
        t, mk = world(ctx)[i]
        v = mk()
        w = ctx.to_dict(v, c=t, reuse_instances=False)
        raw = ctx.to_dict(v, c=t, reuse_instances=True)
        other = Foreign()
        bad = [Foreign(), None, {}, {"p": 1.5}, [], [{"p": {}}], {"x": {}}, {"In": {}}]
        fns = [lambda: ctx.from_dict(t, w, reuse_instances=False), lambda: ctx.from_dict(t, raw, reuse_instances=True), lambda: ctx.from_dict(t, w), lambda: ctx.from_dict(t, raw)]
        fns += [(lambda x: lambda: ctx.from_dict(t, x))(x) for x in bad]
        fns += [lambda: ctx.to_dict(other, c=t), lambda: ctx.from_tuple(t, w), lambda: ctx.from_tuple(t, ())]
        def sig(r):
            return ("exc", r.type) if isinstance(r, Exc) else r
        ref = [sig(f()) for f in fns]
        for a in range(len(fns)):
            for b in range(len(fns)):
                fns[a]()
                r = sig(fns[b]())
                ctx.check(same(r, ref[b]) or (isinstance(r, tuple) and isinstance(ref[b], tuple) and r[0:1] == ("exc",) and r == ref[b]), "options",
                          "an earlier call changed the result", type=t, earlier=a, call=b, actual=r, expected=ref[b])

    return run


def numbers(ctx):
    """The number mode applies to its own call only."""
    d = ctx.cls("Nm", [F("f", float), F("l", list[float]), F("d", dict[str, float]), F("u", U[float, str])])
    nest = ctx.cls("Ne", [F("n", d), F("o", O[d], default=None)])
    frm = ctx.get("de.from_dict")
    data = {"f": 1.5, "l": [1.5], "d": {"k": 2.5}, "u": 1.5}
    for t, w in ((d, data), (nest, {"n": data}), (list[d], [data]), (list[float], [1.5]), (float, 1.5), (U[float, str], 1.5), (dict[str, d], {"k": data})):
        ref = ctx.from_dict(t, w)
        ctx.ok(ref, "options", type=t)
        fn = lambda x: ("read", x)
        ctx.call(frm, t, w, deserialize_numbers=fn)
        ctx.call(frm, t, w, deserialize_numbers=decimal.Decimal)
        r = ctx.from_dict(t, w)
        ctx.eq(r, ref, "options", "the number mode of an earlier call still applies", type=t)


def lazily(perm):
    """Plain dataclasses, nested in each other, are needed first by different operations."""

    def run(ctx):
        p = pathlib.Path("x")
        leaf = dataclasses.dataclass(ctx.rawcls("Leaf", [F("p", P_), F("o", O[int], default=None)]))
        mid = dataclasses.dataclass(ctx.rawcls("Mid", [F("l", leaf), F("ls", list[leaf]), F("u", U[leaf, int])]))
        sub = dataclasses.dataclass(ctx.rawcls("Sub", [F("z", P_, default=p)], bases=(leaf,)))
        vl, wl = ctx.make(leaf, p, 1), {"p": "x", "o": 1}
        vm, wm = ctx.make(mid, vl, [vl], vl), {"l": wl, "ls": [wl], "u": {"Leaf": wl}}
        vs, ws = ctx.make(sub, p, 1, p), {"p": "x", "o": 1, "z": "x"}
        top = lambda: ctx.cls("Top", [F("m", mid), F("s", sub)])
        rows = {"leaf": (lambda: leaf, vl, wl), "mid": (lambda: mid, vm, wm), "sub": (lambda: sub, vs, ws), "top": (top, None, {"m": wm, "s": ws}),
                "list": (lambda: list[leaf], [vl], [wl]), "union": (lambda: U[leaf, sub], vs, {"Sub": ws}), "opt": (lambda: O[mid], vm, wm)}
        for k, se in perm:
            mk, v, w = rows[k]
            t = mk()
            if k == "top":
                v = ctx.make(t, vm, vs)
            if se in ("se", "both"):
                d = ctx.to_dict(v, c=t, reuse_instances=False)
                if ctx.ok(d, "lazy", order=perm, type=k):
                    ctx.check(wire_same(d, w), "lazy", "written differently depending on what was used first", order=perm, type=k, actual=d, expected=w)
                if not typing.get_args(t):
                    d = ctx.to_dict(v, reuse_instances=False)
                    ctx.check(wire_same(d, w), "lazy", "written differently depending on what was used first", order=perm, type=k, actual=d, expected=w)
                tp = ctx.to_tuple(v, c=t, reuse_instances=False)
                ctx.ok(tp, "lazy", order=perm, type=k)
            if se in ("de", "both"):
                y = ctx.from_dict(t, w, reuse_instances=False)
                if ctx.ok(y, "lazy", order=perm, type=k):
                    ctx.eq(y, v, "lazy", "read differently depending on what was used first", order=perm, type=k)

    return run


def checked(first):
    """Malformed data for a plain dataclass: accepted or rejected alike, whatever used the class first."""

    def run(ctx):
        def one(order):
            leaf = dataclasses.dataclass(ctx.rawcls("Leaf", [F("i", int)]))
            rs = {}
            for k in order:
                if k == "top":
                    rs[k] = ctx.from_dict(leaf, {"i": "x"})
                elif k == "nested":
                    rs[k] = ctx.from_dict(ctx.cls("Top", [F("l", leaf)]), {"l": {"i": "x"}})
                else:
                    rs[k] = ctx.make(leaf, "x")
            return {k: isinstance(r, Exc) for k, r in rs.items()}

        a, b = one([first, "nested" if first == "top" else "top"]), one(["nested" if first == "top" else "top", first])
        ctx.check(a == b, "lazy", "malformed data for a plain dataclass is accepted or rejected depending on what used the class first", rejected=a, rejected_in_other_order=b)

    return run


def scenarios(tier):
    out = []
    for gn, subs in NAMES.items():
        for sub in subs:
            for how in ("top>top", "top>field", "field>top", "field>field"):
                out.append(Scenario(f"history:{gn}:{sub}:{how}", history(gn, sub, how)))
            out.append(Scenario(f"together:{gn}:{sub}", together(gn, sub)))
    for i in range(12):
        for tup in (False, True):
            out.append(Scenario(f"options:se:{i}:{'tuple' if tup else 'dict'}", sticking_se(i, tup)))
        out.append(Scenario(f"options:de:{i}", sticking_de(i)))
    out.append(Scenario("options:numbers", numbers))
    out += [Scenario(f"lazy-check:{f}", checked(f)) for f in ("top", "nested")]
    ks = ["leaf", "mid", "sub", "top", "list", "union", "opt"]
    perms = list(itertools.permutations(ks, 3)) if tier == "thorough" else list(itertools.permutations(ks, 2))
    for n, pm in enumerate(perms):
        for ms in itertools.product(("se", "de"), repeat=2) if tier != "thorough" else itertools.product(("se", "de"), repeat=3):
            out.append(Scenario("lazy:" + ">".join(f"{k}.{m}" for k, m in zip(pm, ms)), lazily(list(zip(pm, ms)))))
    return out
