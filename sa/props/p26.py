"""P26: type variables resolve to the arguments of the subscripted class."""
from ..harness import F, Scenario, Exc, same
from ..shapes import *
from ..values import AV, resolve

RULES = ["from_dict / from_tuple into C[A1..An] builds every field whose type mentions Ti as if Ai were written there",
         "for any number, order and subset of variables, nested generics, containers, optionals, inheritance and recursion",
         "different instantiations of one class do not influence each other, in any order of use",
         "serialization gives what a field declared with the run-time type gives for the same value"]
EXPLANATION = ("Abstract interpretation over generic class shapes (type expression around the variable x arrangement of variables x position "
               "of the subscripted class x arguments); oracle: the wire form and value of the argument shapes themselves.")

T1, T2, T3 = typing.TypeVar("T1"), typing.TypeVar("T2"), typing.TypeVar("T3")
S1 = typing.TypeVar("S1")          # variables of inner classes
S2 = typing.TypeVar("S2")
BT = typing.TypeVar("BT", bound=object)
CT = typing.TypeVar("CT", int, str)
SAME1, SAME2 = typing.TypeVar("X"), typing.TypeVar("X")


def gcls(ctx, name, params, fields, bases=(), deco="serde", **o):
    return ctx.cls(name, fields, bases=tuple(bases) + ((typing.Generic[tuple(params)],) if params else ()), deco=deco, **o)


def rec(names, ws, named):
    return dict(zip(names, ws)) if named else tuple(ws)


class Env:
    """Inner generic classes shared by the holes of one scenario."""

    def __init__(self, ctx, deco="serde"):
        self.ctx = ctx
        self.i1 = gcls(ctx, "In1", [S1], [F("v", S1)], deco=deco)
        self.i2 = gcls(ctx, "In2", [S1, S2], [F("q", S2), F("p", S1)], deco=deco)
        self.i3 = gcls(ctx, "In3", [T1], [F("w", T1), F("l", list[T1])], deco=deco)     # shares the outer class's variable
        self.d = gcls(ctx, "InD", [S1], [F("i", self.i1[S1]), F("j", self.i1[list[S1]])], deco=deco)
        self.m = ctx.make


# name -> (type, data(w, named), value(env, v), needs)
HOLES = {
    "bare": (lambda e, X: X, lambda w, n: w, lambda e, v: v, ""),
    "list": (lambda e, X: list[X], lambda w, n: [w], lambda e, v: [v], ""),
    "List": (lambda e, X: typing.List[X], lambda w, n: [w, w], lambda e, v: [v, v], ""),
    "dict": (lambda e, X: dict[str, X], lambda w, n: {"k": w}, lambda e, v: {"k": v}, ""),
    "Dict": (lambda e, X: typing.Dict[str, typing.List[X]], lambda w, n: {"k": [w]}, lambda e, v: {"k": [v]}, ""),
    "key": (lambda e, X: dict[X, int], lambda w, n: {w: 1}, lambda e, v: {v: 1}, "key"),
    "set": (lambda e, X: set[X], lambda w, n: [w], lambda e, v: {v}, "hash"),
    "frozenset": (lambda e, X: frozenset[X], lambda w, n: [w], lambda e, v: frozenset([v]), "hash"),
    "tuple": (lambda e, X: tuple[int, X], lambda w, n: (1, w), lambda e, v: (1, v), ""),
    "vtuple": (lambda e, X: tuple[X, ...], lambda w, n: (w, w), lambda e, v: (v, v), ""),
    "deque": (lambda e, X: deque[X], lambda w, n: [w], lambda e, v: deque([v]), ""),
    "opt": (lambda e, X: typing.Optional[X], lambda w, n: w, lambda e, v: v, ""),
    "opt-list": (lambda e, X: typing.Optional[list[X]], lambda w, n: [w], lambda e, v: [v], ""),
    "list-opt": (lambda e, X: list[typing.Optional[X]], lambda w, n: [w, None], lambda e, v: [v, None], ""),
    "pep604": (lambda e, X: X | None, lambda w, n: w, lambda e, v: v, ""),
    "inner": (lambda e, X: e.i1[X], lambda w, n: rec("v", [w], n), lambda e, v: e.m(e.i1, v), ""),
    "list-inner": (lambda e, X: list[e.i1[X]], lambda w, n: [rec("v", [w], n)], lambda e, v: [e.m(e.i1, v)], ""),
    "dict-inner": (lambda e, X: dict[str, e.i1[X]], lambda w, n: {"k": rec("v", [w], n)}, lambda e, v: {"k": e.m(e.i1, v)}, ""),
    "opt-inner": (lambda e, X: typing.Optional[e.i1[X]], lambda w, n: rec("v", [w], n), lambda e, v: e.m(e.i1, v), ""),
    "inner-list": (lambda e, X: e.i1[list[X]], lambda w, n: rec("v", [[w]], n), lambda e, v: e.m(e.i1, [v]), ""),
    "inner-opt": (lambda e, X: e.i1[typing.Optional[X]], lambda w, n: rec("v", [w], n), lambda e, v: e.m(e.i1, v), ""),
    "inner-inner": (lambda e, X: e.i1[e.i1[X]], lambda w, n: rec("v", [rec("v", [w], n)], n), lambda e, v: e.m(e.i1, e.m(e.i1, v)), ""),
    "inner2": (lambda e, X: e.i2[X, int], lambda w, n: rec("qp", [5, w], n), lambda e, v: e.m(e.i2, 5, v), ""),
    "inner2r": (lambda e, X: e.i2[int, X], lambda w, n: rec("qp", [w, 5], n), lambda e, v: e.m(e.i2, v, 5), ""),
    "inner2xx": (lambda e, X: e.i2[X, list[X]], lambda w, n: rec("qp", [[w], w], n), lambda e, v: e.m(e.i2, [v], v), ""),
    "shared-var": (lambda e, X: e.i3[X], lambda w, n: rec("wl", [w, [w]], n), lambda e, v: e.m(e.i3, v, [v]), ""),
    "deep": (lambda e, X: e.d[X], lambda w, n: rec("ij", [rec("v", [w], n), rec("v", [[w]], n)], n),
             lambda e, v: e.m(e.d, e.m(e.i1, v), e.m(e.i1, [v])), ""),
}

ARGS = [INT, STR, BOOL, DECIMAL, PATH, DATETIME, UUID_, D, ListT(INT), ListT(D), DictT(STR, DATE), OptT(INT)]


def vals1(ctx, sh, n):
    return sh.vals(ctx, n)[-1][1]


def usable(need, sh):
    return (need != "key" or (sh.hashable and sh.key_ok)) and (need != "hash" or sh.hashable)


# arrangement -> (parameters, [(field, index of its variable)])
ARR = {
    "1": ([T1], [("a", 0)]),
    "1x2": ([T1], [("a", 0), ("b", 0)]),
    "2": ([T1, T2], [("a", 0), ("b", 1)]),
    "2r": ([T1, T2], [("b", 1), ("a", 0)]),
    "2t": ([T2, T1], [("a", 0), ("b", 1)]),
    "3": ([T1, T2, T3], [("c", 2), ("a", 0), ("b", 1)]),
    "3u": ([T1, T2, T3], [("c", 2), ("a", 0)]),
    "bound": ([BT, CT], [("a", 0), ("c", 1)]),
    "same-name": ([SAME1, SAME2], [("a", 0), ("b", 1)]),
}
# (the constrained variable gets int)


class Shape:
    """A generic class G with its fields, and the data / value of G[args]."""

    def __init__(self, ctx, env, arr, hole, deco="serde", name="G"):
        self.params, fs = ARR[arr]
        self.fs, self.hole, self.env, self.ctx = fs, HOLES[hole], env, ctx
        self.c = gcls(ctx, name, self.params, [F(n, self.hole[0](env, self.params[i])) for n, i in fs], deco=deco)

    def make(self, args, named, n):
        """(subscripted class, data, value) for argument shapes."""
        ctx = self.ctx
        args = [INT if p is CT else a for p, a in zip(self.params, args)]
        t = self.c[tuple(a.t(ctx) for a in args)]
        vs = [vals1(ctx, args[i], f"{n}{k}") for k, i in self.fs]
        ws = [wire_(args[i], ctx, v, named) for (k, i), v in zip(self.fs, vs)]
        data = rec([k for k, _ in self.fs], [self.hole[1](w, named) for w in ws], named)
        return t, data, ctx.make(self.c, *[self.hole[2](self.env, v) for v in vs])


def wire_(sh, ctx, v, named):
    w = sh.wire(ctx, v, Opts(named, False, True))
    return w.alts[-1] if isinstance(w, OneOf) else w


# position -> (type, data(w, named), value(v)) of a place for the subscripted class t
def places(ctx, deco="serde"):
    def field(tt, d, v):
        def b(t):
            c = ctx.cls("O", [F("x", int), F("g", tt(t)), F("y", str)], deco=deco)
            return c, lambda w, n: rec("xgy", [1, d(w, n), "y"], n), lambda x: ctx.make(c, 1, v(x), "y")

        return b

    idd, idv = (lambda w, n: w), (lambda v: v)

    def outer(t):
        c = gcls(ctx, "Og", [S2], [F("z", S2)], deco=deco)
        return c[t], lambda w, n: rec("z", [w], n), lambda x: ctx.make(c, x)

    def outer2(t):
        c = gcls(ctx, "Og", [S2, T1], [F("z", list[S2]), F("t", T1)], deco=deco)
        o = gcls(ctx, "Oh", [T1], [F("h", c[T1, int]), F("i", T1)], deco=deco)
        return o[t], lambda w, n: rec("hi", [rec("zt", [[w], 3], n), w], n), lambda x: ctx.make(o, ctx.make(c, [x], 3), x)

    def child(t):
        c = ctx.cls("Ch", [F("own", int)], bases=(t,), deco=deco)
        return c, None, None

    return {
        "top": lambda t: (t, idd, idv),
        "top-list": lambda t: (list[t], lambda w, n: [w], lambda v: [v]),
        "top-opt": lambda t: (typing.Optional[t], idd, idv),
        "top-dict": lambda t: (dict[str, t], lambda w, n: {"k": w}, lambda v: {"k": v}),
        "top-tuple": lambda t: (tuple[t, int], lambda w, n: (w, 1), lambda v: (v, 1)),
        "field": field(lambda t: t, idd, idv),
        "list": field(lambda t: list[t], lambda w, n: [w, w], lambda v: [v, v]),
        "dict": field(lambda t: dict[str, t], lambda w, n: {"k": w}, lambda v: {"k": v}),
        "opt": field(lambda t: typing.Optional[t], idd, idv),
        "tuple": field(lambda t: tuple[int, t], lambda w, n: (1, w), lambda v: (1, v)),
        "vtuple": field(lambda t: tuple[t, ...], lambda w, n: (w,), lambda v: (v,)),
        "list-opt": field(lambda t: list[typing.Optional[t]], lambda w, n: [None, w], lambda v: [None, v]),
        "outer": outer,
        "outer2": outer2,
    }


def decode(ctx, t, data, value, named, **d):
    r = ctx.from_dict(t, data) if named else ctx.from_tuple(t, data)
    ctx.eq(r, value, "decode", type=t, data=data, **d)


def run_shape(arr, hole, place, args, deco="serde"):
    def run(ctx):
        env = Env(ctx, deco)
        g = Shape(ctx, env, arr, hole, deco)
        if not ctx.ok(g.c, "declare"):
            return
        pl = places(ctx, deco)[place]
        rot = [args, args[1:] + args[:1], args]
        ok = [a for a in rot if all(usable(g.hole[3], s) for s in a[:len(g.params)])]
        for k, a in enumerate(ok):
            for named in (True, False):
                t, w, v = g.make(a, named, f"v{k}{named}")
                T, dd, vv = pl(t)
                if not ctx.ok(T, "declare"):
                    return
                decode(ctx, T, dd(w, named), vv(v), named)

    return run


def inherit(arr, hole, kind, args):
    def run(ctx):
        env = Env(ctx)
        g = Shape(ctx, env, arr, hole)
        P_, fs = ARR[arr]
        n = len(P_)
        a = [INT if p is CT else x for p, x in zip(P_, args)]
        if not all(usable(g.hole[3], s) for s in a):
            return
        ts = [x.t(ctx) for x in a]
        if kind == "concrete":
            T = c = ctx.cls("Ch", [F("own", int)], bases=(g.c[tuple(ts)],))
        elif kind == "same":
            c = ctx.cls("Ch", [F("own", int)], bases=(g.c[tuple(P_)], typing.Generic[tuple(P_)]))
            T = c[tuple(ts)] if isinstance(c, type) else c
        elif kind == "reversed":
            new = [S1, S2, T3][:n]
            c = ctx.cls("Ch", [F("own", int)], bases=(g.c[tuple(reversed(new))], typing.Generic[tuple(new)]))
            T = c[tuple(reversed(ts))] if isinstance(c, type) else c
        elif kind == "partial":
            c = ctx.cls("Ch", [F("own", S1)], bases=(g.c[tuple([S1] + ts[1:])], typing.Generic[S1]))
            T = c[ts[0]] if isinstance(c, type) else c
        elif kind == "extra":
            new = [S1, S2, T3][:n]
            X = typing.TypeVar("X")
            c = ctx.cls("Ch", [F("own", X)], bases=(g.c[tuple(new)], typing.Generic[tuple([X] + new)]))
            T = c[tuple([int] + ts)] if isinstance(c, type) else c
        elif kind == "grand":
            m = ctx.cls("Mi", [], bases=(g.c[tuple([S1] + ts[1:])], typing.Generic[S1]))
            T = c = ctx.cls("Ch", [F("own", int)], bases=(m[ts[0]],))
        elif kind == "implicit":   # variables of the base only, no Generic of its own
            c = ctx.cls("Ch", [F("own", int)], bases=(g.c[tuple(P_)],))
            T = c[tuple(ts)] if isinstance(c, type) else c
        if not ctx.ok(c, "declare"):
            return
        own = a[0] if kind == "partial" else INT
        for named in (True, False):
            vs = [vals1(ctx, a[i], f"v{k}{named}") for k, i in fs] + [vals1(ctx, own, f"own{named}")]
            ws = [g.hole[1](wire_(a[i], ctx, v, named), named) for (k, i), v in zip(fs, vs)] + [wire_(own, ctx, vs[-1], named)]
            data = rec([k for k, _ in fs] + ["own"], ws, named)
            decode(ctx, T, data, ctx.make(c, *[g.hole[2](env, v) for v in vs[:-1]], vs[-1]), named, kind=kind)

    return run


def recursive(sh):
    def run(ctx):
        ctx.user.typing, ctx.user.T1 = typing, T1
        c = ctx.rawcls("Tree", [F("v", T1), F("kids", "list[Tree[T1]]"), F("up", "typing.Optional[Tree[T1]]")], (typing.Generic[T1],))
        c = ctx.decorate(c)
        if not ctx.ok(c, "declare"):
            return
        for named in (True, False):
            v = [vals1(ctx, sh, f"v{i}{named}") for i in range(3)]
            w = [wire_(sh, ctx, x, named) for x in v]
            t = lambda i, kids, up: rec(["v", "kids", "up"], [w[i], kids, up], named)
            mk = lambda i, kids, up: ctx.make(c, v[i], kids, up)
            decode(ctx, c[sh.t(ctx)], t(0, [t(1, [], None)], t(2, [], None)), mk(0, [mk(1, [], None)], mk(2, [], None)), named)

    return run


def two_in_one(a, b, hole):
    """Two instantiations of one class used by one class, also in one container expression."""

    def run(ctx):
        env = Env(ctx)
        g = Shape(ctx, env, "1", hole)
        if not (usable(g.hole[3], a) and usable(g.hole[3], b)):
            return
        ta, tb = g.c[a.t(ctx)], g.c[b.t(ctx)]
        c = ctx.cls("C", [F("x", ta), F("y", tb), F("z", list[ta]), F("t", tuple[tb, ta]), F("o", typing.Optional[tb])])
        if not ctx.ok(c, "declare"):
            return
        for named in (True, False):
            _, wa, va = g.make([a], named, f"a{named}")
            _, wb, vb = g.make([b], named, f"b{named}")
            decode(ctx, c, rec("xyzto", [wa, wb, [wa], (wb, wa), wb], named), ctx.make(c, va, vb, [va], (vb, va), vb), named)

    return run


def union_of(hole):
    """A variable bound to a union, an instantiation as a union alternative, and a union over a variable."""

    def run(ctx):
        env = Env(ctx)
        da, db = D.t(ctx), D2.t(ctx)
        g = Shape(ctx, env, "1", hole)
        if not ctx.ok(g.c, "declare"):
            return
        if hole in ("bare", "list", "dict", "opt", "opt-list", "inner", "vtuple", "tuple", "list-inner"):
            # from_dict into a class whose argument is a union of dataclasses: written with the class name
            for sh in (D, D2):
                v = vals1(ctx, sh, "u" + sh.label)
                w = wire_(sh, ctx, v, True)
                t = g.c[typing.Union[da, db]]
                r = ctx.from_dict(t, {"a": g.hole[1]({sh.t(ctx).__name__: w}, True)})
                ctx.eq(r, ctx.make(g.c, g.hole[2](env, v)), "decode", arg="union")
            for arg in (typing.Union[int, str], typing.Union[str, list[int]]):
                for x in (var("s", str),):
                    r = ctx.from_dict(g.c[arg], {"a": g.hole[1](x, True)})
                    ctx.eq(r, ctx.make(g.c, g.hole[2](env, x)), "decode", arg=arg)

    return run


def serialization(hole, sh):
    def run(ctx):
        env = Env(ctx)
        g = Shape(ctx, env, "1", hole)
        if not usable(g.hole[3], sh) or not ctx.ok(g.c, "declare"):
            return
        twin = ctx.cls("Twin", [F("a", g.hole[0](env, sh.t(ctx)))])
        for lab, v in sh.vals(ctx, "v"):
            x, y = ctx.make(g.c, g.hole[2](env, v)), ctx.make(twin, g.hole[2](env, v))
            for k in ({}, dict(reuse_instances=False), dict(reuse_instances=False, convert_sets=True), dict(skip_none=True)):
                ctx.eq(ctx.to_dict(x, **k), ctx.to_dict(y, **k), "serialize", call=k, value=v)
            ctx.eq(ctx.to_tuple(x), ctx.to_tuple(y), "serialize", value=v)

    return run


def unsubscripted(hole, sh):
    """Without arguments the variables stand for any type: data is kept as with Any."""

    def run(ctx):
        env = Env(ctx)
        g = Shape(ctx, env, "1", hole)
        if not usable(g.hole[3], sh) or not ctx.ok(g.c, "declare"):
            return
        twin = ctx.cls("Twin", [F("a", g.hole[0](env, typing.Any))])
        v = vals1(ctx, sh, "v")
        for named in (True, False):
            w = rec("a", [g.hole[1](wire_(sh, ctx, v, named), named)], named)
            f = ctx.from_dict if named else ctx.from_tuple
            a, b = f(g.c, w), f(twin, w)
            ctx.check(isinstance(a, Exc) == isinstance(b, Exc) and (isinstance(a, Exc) or same(a.a, b.a)), "unsubscripted", generic=a, any=b)

    return run


def pick_args(i):
    return [ARGS[(i + 3 * k) % len(ARGS)] for k in range(3)]


def scenarios(tier):
    return list(all_(tier))


def all_(tier):
    th = tier == "thorough"
    P_ = ["top", "top-list", "top-opt", "top-dict", "top-tuple", "field", "list", "dict", "opt", "tuple", "vtuple", "list-opt", "outer", "outer2"]
    for h in HOLES:
        for i, a in enumerate(ARGS):
            yield Scenario(f"hole:{h}:{a.label}", run_shape("1", h, "top", pick_args(i)))
        for j, p in enumerate(P_):
            for i in range(len(ARGS)) if th else (j, j + 5):
                yield Scenario(f"place:{h}:{p}:{ARGS[i % len(ARGS)].label}", run_shape("2r", h, p, pick_args(i)))
    for r in ARR:
        for j, p in enumerate(P_):
            for h in HOLES if th else ("bare", "list", "inner", "opt", "inner2"):
                yield Scenario(f"arr:{r}:{p}:{h}", run_shape(r, h, p, pick_args(j)))
        for k in ("concrete", "same", "reversed", "partial", "extra", "grand", "implicit"):
            for j, h in enumerate(HOLES if th else ("bare", "list", "dict", "opt", "inner", "inner2", "list-inner", "inner-list", "deep")):
                yield Scenario(f"inherit:{r}:{k}:{h}", inherit(r, h, k, pick_args(j)))
    for h in HOLES:
        yield Scenario(f"plain:{h}", run_shape("2", h, "field", pick_args(4), "dataclass"))
        yield Scenario(f"plain-top:{h}", run_shape("2r", h, "top-list", pick_args(7), "dataclass"))
        for a, b in ((INT, PATH), (D, STR), (ListT(D), DATE)):
            yield Scenario(f"two:{h}:{a.label}:{b.label}", two_in_one(a, b, h))
        yield Scenario(f"union:{h}", union_of(h))
        for a in ARGS:
            yield Scenario(f"ser:{h}:{a.label}", serialization(h, a))
            yield Scenario(f"unsub:{h}:{a.label}", unsubscripted(h, a))
    for a in ARGS:
        yield Scenario(f"recursive:{a.label}", recursive(a))
