"""P23: code generation is re-entrant, exception-safe and thread-safe."""
import types
from ..harness import F, Scenario, Exc, same
from ..shapes import *
from ..models import Blocked
from ..interp import Undecided
from ..values import AV, Foreign
from .p14 import tagging
from .p17 import methods

RULES = ["every write to generator state shared between threads, made by the first use of a class, is protected by a lock common to all writes of that object",
         "at every write and every lock operation of one thread's first use, a second thread's use either waits or already gets the right result, and so does the first",
         "no lock is held and no generation is pending when a call has returned or raised",
         "generating a class while another (or a mutually recursive) one is in progress gives the same behaviour as generating it alone",
         "after a failed decoration or a failed first use, decorations and uses of other classes, and of the repaired class, are as if it never happened"]
EXPLANATION = ("Lockset analysis (Eraser-style) over the abstract interpretation of first uses: the effect log gives every write together with "
               "the locks held, reachability from the module globals and the user's classes gives what is shared; preemption is decided by "
               "interpreting the second thread's whole operation at every write and every lock operation of the first. Re-entrancy and exception "
               "safety compare behaviours with those of a class graph generated alone.")

# --------------------------------------------------------------------------- class graphs


def graph(ctx, name, suf=""):
    """(classes, type, value, dict form, tuple form) of a class graph without any decorator."""
    dc = dataclasses.dataclass
    ctx.user.typing = typing

    def plain(n, fs, bases=(), ns=None):
        c = dc(ctx.rawcls(n + suf, fs, bases, ns))
        return c

    P_ = plain("Pp", [F("a", int), F("s", str)])
    p, pd, pt = P_(1, "x"), {"a": 1, "s": "x"}, (1, "x")
    if name == "single":
        return [P_], P_, p, pd, pt
    if name == "nested":
        o = plain("Oo", [F("p", P_), F("o", typing.Optional[P_])])
        return [P_, o], o, o(p, None), {"p": pd, "o": None}, (pt, None)
    if name == "deep":
        o = plain("Oo", [F("p", P_)])
        q = plain("Qq", [F("o", o), F("p", P_)])
        r = plain("Rr", [F("q", q)])
        return [P_, o, q, r], r, r(q(o(p), p)), {"q": {"o": {"p": pd}, "p": pd}}, (((pt,), pt),)
    if name == "self":
        n = plain("Nn", [F("v", int), F("next", f"typing.Optional[Nn{suf}]")])
        return [n], n, n(1, n(2, None)), {"v": 1, "next": {"v": 2, "next": None}}, (1, (2, None))
    if name == "mutual":
        a = plain("Aa", [F("x", int), F("b", f"typing.Optional[Bb{suf}]")])
        b = plain("Bb", [F("y", int), F("a", f"typing.Optional[Aa{suf}]")])
        return [a, b], a, a(1, b(2, a(3, None))), {"x": 1, "b": {"y": 2, "a": {"x": 3, "b": None}}}, (1, (2, (3, None)))
    if name == "cycle3":
        a = plain("Aa", [F("x", int), F("b", f"list[Bb{suf}]")])
        b = plain("Bb", [F("y", int), F("c", f"typing.Optional[Cc{suf}]")])
        c = plain("Cc", [F("z", int), F("a", f"dict[str, Aa{suf}]")])
        return [a, b, c], a, a(1, [b(2, c(3, {"k": a(4, [])}))]), {"x": 1, "b": [{"y": 2, "c": {"z": 3, "a": {"k": {"x": 4, "b": []}}}}]}, \
            (1, [(2, (3, {"k": (4, [])}))])
    if name == "containers":
        o = plain("Oo", [F("l", list[P_]), F("m", dict[str, P_]), F("t", tuple[P_, int])])
        return [P_, o], o, o([p], {"k": p}, (p, 3)), {"l": [pd], "m": {"k": pd}, "t": (pd, 3)}, ([pt], {"k": pt}, (pt, 3))
    if name == "union":
        q = plain("Qq", [F("b", bool)])
        o = plain("Oo", [F("u", typing.Union[P_, q, int])])
        return [P_, q, o], o, o(q(True)), {"u": {"Qq" + suf: {"b": True}}}, ({"Qq" + suf: {"b": True}},)
    if name == "generic":
        T = typing.TypeVar("T")
        g = dc(ctx.rawcls("Gg" + suf, [F("v", T)], (typing.Generic[T],)))
        o = plain("Oo", [F("g", g[P_]), F("h", g[int])])
        return [P_, g, o], o, o(g(p), g(3)), {"g": {"v": pd}, "h": {"v": 3}}, ((pt,), (3,))
    if name == "inherit":
        q = plain("Qq", [F("b", int)], (P_,))
        return [P_, q], q, q(1, "x", 2), {"a": 1, "s": "x", "b": 2}, (1, "x", 2)
    if name == "codec":
        o = plain("Oo", [F("p", dict[str, bool]), F("d", list[int]), F("e", typing.Any)])
        return [o], o, o({"k": True}, [1], 5), {"p": {"k": True}, "d": [1], "e": 5}, ({"k": True}, [1], 5)
    if name == "any":
        o = plain("Oo", [F("e", typing.Any)])
        return [P_, o], o, o(5), {"e": 5}, (5,)
    raise AssertionError(name)


GRAPHS = ["single", "nested", "deep", "self", "mutual", "cycle3", "containers", "union", "generic", "inherit", "codec", "any"]
TOPS = ["opt", "list", "dict", "tuple", "union", "union-mixed", "tagged", "path", "date", "prim-union"]


def top(ctx, name, suf=""):
    """(classes, type, value, dict form, tuple form) of a type that is no class of the user."""
    c, T, v, d, t = graph(ctx, "nested", suf)
    P_ = c[0]
    if name == "opt":
        return c, typing.Optional[T], v, d, t
    if name == "list":
        return c, list[T], [v], [d], [t]
    if name == "dict":
        return c, dict[str, T], {"k": v}, {"k": d}, {"k": t}
    if name == "tuple":
        return c, tuple[T, int], (v, 1), (d, 1), (t, 1)
    if name == "union":
        return c, typing.Union[P_, T], v, {T.__name__: d}, None
    if name == "union-mixed":
        return c, typing.Union[int, list[T]], [v], [d], None
    if name == "tagged":
        return c, ctx.call(ctx.get("InternalTagging"), "type", typing.Union[P_, T]), v, {"type": T.__name__, **d}, None
    if name == "path":
        return c, pathlib.Path, pathlib.Path("/a"), ("/a", pathlib.Path("/a")), None
    if name == "date":
        return c, datetime.date, datetime.date(2020, 1, 2), ("2020-01-02", datetime.date(2020, 1, 2)), None
    if name == "prim-union":
        return c, typing.Union[int, str], "x", "x", None
    raise AssertionError(name)


def ops_of(ctx, T, v, d, t):
    """name -> (operation, expected result)."""
    j = ctx.get("json.to_json")
    plain = isinstance(T, type) and dataclasses.is_dataclass(T)
    kw = {} if plain else dict(c=T)
    d, out = d if isinstance(d, tuple) and isinstance(d[0], str) else (d, d)
    r = {"to_dict": (lambda: ctx.to_dict(v, **kw), out), "from_dict": (lambda: ctx.from_dict(T, d), v),
         "to_json": (lambda: ctx.call(j, v, **({} if plain else dict(cls=T))), None)}
    if t is not None:
        r["to_tuple"] = (lambda: ctx.to_tuple(v, **kw), t)
        r["from_tuple"] = (lambda: ctx.from_tuple(T, t), v)
    return r


def right(r, want):
    if want is None:
        return not isinstance(r, Exc)
    return same(lists(r), lists(want))


def lists(x):
    """Sequences of fields are compared irrespective of tuple/list (containers are covered elsewhere)."""
    if isinstance(x, (list, tuple)):
        return [lists(y) for y in x]
    if isinstance(x, dict):
        return {k: lists(y) for k, y in x.items()}
    return x


# --------------------------------------------------------------------------- what is shared


def shared(ctx, classes):
    """id -> object: every mutable object reachable from the analysed modules' globals and the user's classes."""
    import sys
    seen, todo = {}, list(classes)
    for n, m in list(ctx.L.loaded.items()):
        if n == "serde" or n.startswith("serde."):
            seen[id(m.__dict__)] = m
            seen[id(m)] = m
            for k, v in vars(m).items():
                if isinstance(v, (dict, list, set, deque)) and not k.startswith("__"):
                    todo.append(v)
                elif dataclasses.is_dataclass(type(v)) and type(v).__module__.startswith("serde"):
                    todo.append(v)
    while todo:
        o = todo.pop()
        if id(o) in seen or isinstance(o, (AV, str, int, float, bytes, bool, type(None), types.ModuleType, enum.Enum)):
            continue
        if isinstance(o, type):
            if not (o.__module__ == "abs_user" or o.__module__.startswith("serde")):
                continue
            seen[id(o)] = o
            todo.extend(v for k, v in vars(o).items() if k.startswith("__serde") or k == "__dataclass_fields__")
            continue
        if isinstance(o, (list, tuple, set, frozenset, deque)):
            seen[id(o)] = o
            todo.extend(o)
        elif isinstance(o, dict):
            seen[id(o)] = o
            todo.extend(o.values())
            todo.extend(k for k in o if not isinstance(k, str))
        elif isinstance(o, dataclasses.Field) or type(o).__module__.startswith("serde"):
            seen[id(o)] = o
            todo.extend(getattr(o, "__dict__", {}).values())
            if isinstance(o, dataclasses.Field):
                todo.append(o.type)
    return seen


def lockset(ctx, classes, name, op, want):
    """Run one first use under the lockset rule."""
    o = ctx.ops
    bad, sets, n = [], {}, [0]

    def hook(kind, obj, detail):
        if kind in ("acquire", "release"):
            return
        n[0] += 1
        held = {id(x) for x in o.locks_held}
        if not held and id(obj) in shared(ctx, classes):
            bad.append((kind, type(obj).__name__, detail, ctx.I.where()[-3:]))
        elif held:
            sets[id(obj)] = (obj, sets.get(id(obj), (None, held))[1] & held)

    o.on_effect = hook
    try:
        r = op()
    finally:
        o.on_effect = None
    ctx.check(not bad, "lockset", "shared generator state is written without a lock", writes=bad[:4], op=name)
    sh = shared(ctx, classes)
    odd = [type(x).__name__ for i, (x, s) in sets.items() if not s and i in sh]
    ctx.check(not odd, "lockset", "writes to one shared object are protected by different locks", objects=odd, op=name)
    ctx.check(right(r, want), "first-use", result=r, expected=want, op=name)
    settled(ctx, "first-use", op=name)
    ctx.check(not o.deadlocks, "lockset", "a thread waits for a lock it holds", where=o.deadlocks[:2], op=name)
    return n[0]


def settled(ctx, rule, **detail):
    o = ctx.ops
    ctx.check(not o.locks_held and not any(x.count for x in o.locks), rule, "a lock is still held after the call", **detail)
    pend = pending(ctx)
    ctx.check(not pend, rule, "a generation is still recorded as in progress after the call", pending=pend, **detail)


def pending(ctx):
    """Entries for the user's classes in module-level lists (work in progress, as opposed to caches)."""
    out = []
    for m in ("se", "de", "core"):
        for k, v in vars(ctx.mod(m)).items():
            if isinstance(v, (list, set, deque)) and not k.startswith("__"):
                out += [f"{m}.{k}: {x!r}" for x in v if isinstance(x, type) and x.__module__ == "abs_user"]
    return out


def preempt(ctx, mk, n1, n2):
    """Interpret a second operation, as another thread, at every write and every lock operation of the first.

    mk(suffix) gives (classes, first operation, its result, second operation, its result) for classes not used before. Where the
    second thread is not made to wait and does the generation itself, the run is repeated with preemption from the next point on.
    """
    start = 0
    for i in range(40):
        ctx.get("core.CACHE").classes.clear()
        k = preempt_from(ctx, start, n1, n2, *mk(f"K{i}"))
        if k is None:
            return
        start = k + 1
    raise Undecided("too many preemption points")


def preempt_from(ctx, start, n1, n2, classes, op1, want1, op2, want2):
    o = ctx.ops
    point, worked = [0], []
    wrong = []

    def hook(kind, obj, detail):
        if o.thread:
            return
        point[0] += 1
        if point[0] <= start or wrong:
            return
        o.on_effect, o.thread = None, 1
        held, state = o.locks_held, [(x, x.count, x.owner) for x in o.locks]
        o.locks_held = []
        eff, o.effects = o.effects, []
        try:
            r = op2()
            if not right(r, want2):
                wrong.append((kind, detail, r, ctx.I.where()[-3:]))
            if any(x.count != c for x, c, _ in state):
                wrong.append((kind, detail, "a lock is left held", ctx.I.where()[-3:]))
            if not worked and writes(ctx, classes):
                worked.append(point[0])
        except Blocked:
            for x, c, own in state:
                x.count, x.owner = c, own
            if writes(ctx, classes):
                raise Undecided("the second thread writes shared state before it waits")
        finally:
            o.effects = eff
            o.locks_held = held
            o.on_effect, o.thread = hook, 0

    o.on_effect = hook
    try:
        r = op1()
    finally:
        o.on_effect = None
    ctx.check(not wrong, "preemption", "a second thread gets a wrong result", at=wrong[:3], first=n1, second=n2)
    ctx.check(right(r, want1), "preemption", "the first thread gets a wrong result", result=r, expected=want1, first=n1, second=n2)
    r = op2()
    ctx.check(right(r, want2), "preemption", "the second thread gets a wrong result afterwards", result=r, expected=want2, first=n1, second=n2)
    settled(ctx, "preemption", first=n1, second=n2)
    return worked[0] if worked and not wrong else None


def writes(ctx, classes):
    ids = shared(ctx, classes) if ctx.ops.effects else ()
    return [(k, d) for k, x, d, *_ in ctx.ops.effects if id(x) in ids]


def first(gname, mk, opn):
    def run(ctx):
        c, T, v, d, t = mk(ctx, gname)
        f = ops_of(ctx, T, v, d, t)
        if opn in f:
            lockset(ctx, c, opn, *f[opn])
            for n, (op, want) in f.items():
                lockset(ctx, c, n, op, want)

    return run


def deco_ops(ctx, c, T):
    r = {}
    for d in ("serde", "serialize", "deserialize"):
        r[d] = (lambda d=d: ctx.call(ctx.get(d), T), None)
        r[d + "()"] = (lambda d=d: ctx.call(ctx.call(ctx.get(d), deny_unknown_fields=True) if d != "serialize" else
                                            ctx.call(ctx.get(d), rename_all="camelcase"), T), None)
    return r


def deco_first(gname, d):
    """The state shared by all decorations (module globals) is written under a lock, also while decorating."""

    def run(ctx):
        c, T, v, w, t = graph(ctx, gname)
        lockset(ctx, [], d, *deco_ops(ctx, c, T)[d])

    return run


def deco_race(gname, d, n2):
    """One thread decorates a class while another decorates, or uses for the first time, a class of another graph."""

    def run(ctx):
        def fresh(suf):
            c, T, v, w, t = graph(ctx, gname, suf)
            c2, T2, v2, d2, t2 = graph(ctx, gname, suf + "x")
            op2 = deco_ops(ctx, c2, T2)[n2] if n2.startswith(("se", "des")) else ops_of(ctx, T2, v2, d2, t2)[n2]
            return (c2, *deco_ops(ctx, c, T)[d], *op2)

        preempt(ctx, fresh, d, n2)

    return run


def race(gname, mk, n1, n2):
    def run(ctx):
        def fresh(suf):
            c, T, v, d, t = mk(ctx, gname, suf)
            f = ops_of(ctx, T, v, d, t)
            return (c, *f[n1], *f[n2]) if n1 in f and n2 in f else None

        if fresh("Z"):
            preempt(ctx, fresh, n1, n2)

    return run


def race_parts(gname, n1, n2):
    """The second thread uses another class of the graph (an inner one, or another member of the cycle)."""

    def run(ctx):
        for i in range(len(graph(ctx, gname, "Z")[0])):

            def fresh(suf, i=i):
                c, T, v, d, t = graph(ctx, gname, suf + "I" * i)
                found = sub(v, c[i])
                if c[i] is T or found is None:
                    return None
                f = ops_of(ctx, T, v, d, t)
                g = ops_of(ctx, c[i], found, plain_dict(found), None)
                return (c, *f[n1], *g[n2])

            if fresh("Z"):
                preempt(ctx, fresh, n1, n2)

    return run


def sub(v, k):
    if type(v) is k:
        return v
    kids = v if isinstance(v, (list, tuple)) else v.values() if isinstance(v, dict) else vars(v).values() if dataclasses.is_dataclass(v) else ()
    for x in kids:
        r = sub(x, k)
        if r is not None:
            return r
    return None


def plain_dict(v):
    if dataclasses.is_dataclass(v):
        return {k: plain_dict(x) for k, x in vars(v).items()}
    if isinstance(v, (list, tuple)):
        return type(v)(plain_dict(x) for x in v)
    if isinstance(v, dict):
        return {k: plain_dict(x) for k, x in v.items()}
    return v


# --------------------------------------------------------------------------- re-entrancy

OPTIONS = {
    "rename": (dict(rename_all="pascalcase"), lambda a, b: {"X": a, "B": b}, None),
    "deny": (dict(deny_unknown_fields=True), lambda a, b: {"x": a, "b": b}, "deny"),
    "tag": ("internal", lambda a, b: {"x": a, "b": b}, None),
    "strict": ("strict", lambda a, b: {"x": a, "b": b}, "strict"),
    "coerce": ("coerce", lambda a, b: {"x": a, "b": b}, "coerce"),
    "reuse": (dict(reuse_instances_default=False), lambda a, b: {"x": a, "b": b}, None),
    "none": (dict(skip_if_none=True), lambda a, b: {k: w for k, w in (("x", a), ("b", b)) if w is not None}, None),
}
FORMS = ["serde", "serialize+deserialize", "deserialize+serialize"]
ORDERS = ["decorated-first", "plain-used-first", "plain-decorated-after", "both", "inner-decorated-first"]


def build(ctx, form, order, opts, shape, suf):
    ctx.user.typing = typing
    """A (with options) and B refer to each other; returns (A, B)."""
    ann = {"opt": f"typing.Optional[Bb{suf}]", "list": f"list[Bb{suf}]", "dict": f"dict[str, Bb{suf}]", "direct": f"Bb{suf}"}[shape]
    a = dataclasses.dataclass(ctx.rawcls("Aa" + suf, [F("x", int), F("b", ann)]))
    b = dataclasses.dataclass(ctx.rawcls("Bb" + suf, [F("y", int), F("a", f"typing.Optional[Aa{suf}]")]))

    def deco(c, o):
        for d in form.split("+"):
            f = ctx.get(d)
            r = ctx.call(ctx.call(f, **o), c) if o else ctx.call(f, c)
            if not ctx.ok(r, "reentrant", "decorating fails", form=form, order=order):
                return False
        return True

    if order == "plain-used-first":
        ctx.ok(ctx.to_dict(b(1, None)), "reentrant")
        deco(a, opts)
    elif order == "decorated-first":
        deco(a, opts)
    elif order == "plain-decorated-after":
        deco(a, opts) and deco(b, {})
    elif order == "inner-decorated-first":
        deco(b, {}) and deco(a, opts)
    else:
        deco(a, opts) and deco(b, {}) and ctx.ok(ctx.to_dict(b(1, None)), "reentrant")
    return a, b


def reentrant(on, form, order, shape):
    def run(ctx):
        o, names, extra = OPTIONS[on]
        if o == "internal":
            o = dict(tagging=tagging(ctx, "Internal"))
        elif o in ("strict", "coerce"):
            o = dict(type_check=ctx.get("core." + o))
        a, b = build(ctx, form, order, o, shape, "")
        w = {"opt": lambda x: x, "list": lambda x: [x], "dict": lambda x: {"k": x}, "direct": lambda x: x}[shape]
        z = {"opt": None, "list": [], "dict": {}, "direct": None}[shape]
        k = dict(form=form, order=order, shape=shape, options=on)
        for via in ("a", "b", "b"):
            if shape == "direct":
                va, da = a(1, b(2, None)), names(1, {"y": 2, "a": None})
            else:
                va, da = a(1, w(b(2, a(3, z)))), names(1, w({"y": 2, "a": names(3, z)}))
            if via == "b":
                va, da, T = b(5, va), {"y": 5, "a": da}, b
            else:
                T = a
            ctx.eq(ctx.to_dict(va), da, "reentrant", via=via, **k)
            ctx.eq(ctx.from_dict(T, da), va, "reentrant", via=via, **k)
            ctx.eq(lists(ctx.to_tuple(va)), lists(tup(va, on)), "reentrant", via=via, **k) if on != "none" else None
        if extra == "deny":
            base = names(1, z if shape != "direct" else {"y": 2, "a": None})
            ctx.raises(ctx.from_dict(a, {**base, "zz": 1}), "reentrant", "the option is lost", **k)
            ctx.ok(ctx.from_dict(b, {"y": 1, "a": None, "zz": 1}), "reentrant", "the option leaks into a plain class", **k)
            ctx.raises(ctx.from_dict(b, {"y": 1, "a": {**base, "zz": 1}}), "reentrant", "the option is lost", **k)
        if extra == "strict":
            base = names("no", z if shape != "direct" else {"y": 2, "a": None})
            ctx.raises(ctx.from_dict(a, base), "reentrant", "the option is lost", **k)
        if extra == "coerce":
            base = names("7", z if shape != "direct" else {"y": 2, "a": None})
            r = ctx.from_dict(a, base)
            ctx.check(not isinstance(r, Exc) and r.x == 7, "reentrant", "the option is lost", result=r, **k)
        settled(ctx, "reentrant", **k)

    return run


def tup(v, on):
    if dataclasses.is_dataclass(v):
        return tuple(tup(x, on) for x in vars(v).values())
    if isinstance(v, list):
        return [tup(x, on) for x in v]
    if isinstance(v, dict):
        return {k: tup(x, on) for k, x in v.items()}
    return v


def both_options(form):
    """Members of a cycle keep their own options whichever is decorated first."""

    def run(ctx):
        ctx.user.typing = typing
        for n, first in (("1", "a"), ("2", "b")):
            a = dataclasses.dataclass(ctx.rawcls("Aa" + n, [F("x_x", int), F("b_b", f"typing.Optional[Bb{n}]")]))
            b = dataclasses.dataclass(ctx.rawcls("Bb" + n, [F("y_y", int), F("a_a", f"list[Aa{n}]")]))
            oa, ob = dict(rename_all="camelcase"), dict(rename_all="kebabcase", deny_unknown_fields=True)
            for c, o in ((a, oa), (b, ob)) if first == "a" else ((b, ob), (a, oa)):
                for d in form.split("+"):
                    if not ctx.ok(ctx.call(ctx.call(ctx.get(d), **o), c), "reentrant"):
                        return
            v, d = a(1, b(2, [a(3, None)])), {"xX": 1, "bB": {"y-y": 2, "a-a": [{"xX": 3, "bB": None}]}}
            ctx.eq(ctx.to_dict(v), d, "reentrant", form=form, first=first)
            ctx.eq(ctx.from_dict(a, d), v, "reentrant", form=form, first=first)
            ctx.eq(ctx.to_dict(v.b_b), d["bB"], "reentrant", form=form, first=first)
            ctx.eq(ctx.from_dict(b, d["bB"]), v.b_b, "reentrant", form=form, first=first)
            ctx.raises(ctx.from_dict(a, {"xX": 1, "bB": {"y-y": 2, "a-a": [], "z": 1}}), "reentrant", form=form, first=first)
            ctx.ok(ctx.from_dict(a, {"xX": 1, "bB": None, "z": 1}), "reentrant", form=form, first=first)

    return run


def during(gname, n2):
    """User code that runs while another class is (de)serialized or generated uses a class for the first time."""

    def run(ctx):
        c, T, v, d, t = graph(ctx, gname)
        f = ops_of(ctx, T, v, d, t)
        got = []

        def ser(x):
            got.append(f[n2][0]())
            return x

        outer = ctx.cls("Outer", [F("q", int, opts=dict(serializer=ser, deserializer=ser)), F("r", int)], rename_all="pascalcase")
        if not ctx.ok(outer, "reentrant"):
            return
        ctx.eq(ctx.to_dict(outer(1, 2)), {"Q": 1, "R": 2}, "reentrant")
        ctx.eq(ctx.from_dict(outer, {"Q": 1, "R": 2}), outer(1, 2), "reentrant")
        for r in got:
            ctx.check(right(r, f[n2][1]), "reentrant", "a use from within user code fails", result=r, expected=f[n2][1])
        # while the outer class is being generated: the class body's renaming hook is user code
        c2, T2, v2, d2, t2 = graph(ctx, gname, "2")
        f2 = ops_of(ctx, T2, v2, d2, t2)

        class S(metaclass=type):
            def serialize(self, x):
                return f2["to_dict"][0]()

        S.serialize = methods(S.serialize, [(object, T2)])
        o2 = ctx.cls("Outer2", [F("q", int)], class_serializer=S())
        ctx.ok(o2, "reentrant")
        settled(ctx, "reentrant")

    return run


# --------------------------------------------------------------------------- failing decorations


def failing(ctx, n, suf):
    """(decorate, repair) of a declaration that the decorators reject; repair returns the same class made valid."""
    dc = dataclasses.dataclass
    ctx.user.typing = typing
    X = Foreign
    if n == "unsupported":
        c = dc(ctx.rawcls("Ff" + suf, [F("x", int), F("u", X)]))
        return c, {}, ("u", int)
    if n == "nested-unsupported":
        i = dc(ctx.rawcls("Ii" + suf, [F("u", X)]))
        c = dc(ctx.rawcls("Ff" + suf, [F("x", int), F("i", i)]))
        return c, {}, ("i", int)
    if n == "list-unsupported":
        c = dc(ctx.rawcls("Ff" + suf, [F("x", int), F("u", list[X])]))
        return c, {}, ("u", list[int])
    if n == "union-unsupported":
        c = dc(ctx.rawcls("Ff" + suf, [F("x", int), F("u", typing.Union[int, X])]))
        return c, {}, ("u", typing.Union[int, str])
    if n == "rename":
        c = dc(ctx.rawcls("Ff" + suf, [F("x", int)]))
        return c, dict(rename_all="nosuchcase"), None
    if n == "tag":
        c = dc(ctx.rawcls("Ff" + suf, [F("x", int)]))
        return c, dict(tagging=ctx.call(ctx.get("core.Tagging"))), None
    if n == "transparent":
        c = dc(ctx.rawcls("Ff" + suf, [F("x", int), F("y", int)]))
        return c, dict(transparent=True), None
    if n == "forward":
        c = dc(ctx.rawcls("Ff" + suf, [F("x", int), F("y", "Missing" + suf)]))
        return c, {}, ("y", int)
    if n == "flatten":
        c = dc(ctx.rawcls("Ff" + suf, [F("x", int), F("y", int, opts=dict(flatten=True))]))
        return c, {}, None
    if n == "mutual":
        c = dc(ctx.rawcls("Ff" + suf, [F("x", int), F("b", f"typing.Optional[Gg{suf}]"), F("u", X)]))
        dc(ctx.rawcls("Gg" + suf, [F("z", int), F("f", f"typing.Optional[Ff{suf}]")]))
        return c, {}, ("u", int)
    if n == "mutual-inner":
        c = dc(ctx.rawcls("Ff" + suf, [F("x", int), F("b", f"typing.Optional[Gg{suf}]")]))
        dc(ctx.rawcls("Gg" + suf, [F("z", int), F("u", X), F("f", f"typing.Optional[Ff{suf}]")]))
        return c, {}, None
    raise AssertionError(n)


FAILS = ["unsupported", "nested-unsupported", "list-unsupported", "union-unsupported", "rename", "tag", "transparent", "forward", "mutual",
         "mutual-inner"]


def retype(c, name, t):
    c.__annotations__[name] = t
    init = c.__init__
    while hasattr(init, "__wrapped__"):
        init = init.__wrapped__
    init.__annotations__[name] = t
    c.__dataclass_fields__[name].type = t


def residue(n, form, tc):
    """A decoration fails; then: nothing is pending, other classes work, the class can be repaired and decorated with the same decorator object."""

    def run(ctx):
        extra = dict(type_check=ctx.get("core." + tc)) if tc else {}
        c, opts, fix = failing(ctx, n, "")
        decs = [ctx.call(ctx.get(d), **opts, **extra) for d in form.split("+")]
        failed = False
        for w in decs:
            r = ctx.call(w, c)
            failed = failed or isinstance(r, Exc)
            settled(ctx, "residue", failure=n, form=form)
        if not failed:
            return
        # again: the same failure
        ctx.check(any(isinstance(ctx.call(w, c), Exc) for w in decs), "residue", "a failing decoration succeeds the second time", failure=n)
        # an instance of it can still be made without being type checked by a decoration that failed
        fs = [f.name for f in dataclasses.fields(c)]
        ctx.ok(ctx.make(c, *["any"] * len(fs)), "residue", "a failed decoration leaves run-time type checks behind", failure=n)
        # other classes are unaffected
        g, T, v, d, t = graph(ctx, "mutual")
        for k, (op, want) in ops_of(ctx, T, v, d, t).items():
            ctx.check(right(op(), want), "residue", "an unrelated class is affected", op=k, failure=n)
        g, T, v, d, t = graph(ctx, "nested", "D")
        T2 = T
        for dname in form.split("+"):
            r = ctx.call(ctx.get(dname), T2)
            ctx.ok(r, "residue", "an unrelated decoration is affected", failure=n)
        ctx.eq(ctx.to_dict(v), d, "residue", failure=n)
        ctx.eq(ctx.from_dict(T, d), v, "residue", failure=n)
        # repair
        if fix is not None:
            retype(c, *fix)
            for w in decs:
                ctx.ok(ctx.call(w, c), "residue", "the repaired class is rejected", failure=n, form=form)
            settled(ctx, "residue", failure=n, form=form)
            vals = {"x": 1, "u": 2, "i": 3, "y": 4, "b": None}
            if fix[1] == list[int]:
                vals["u"] = [2]
            kw = {f: vals[f] for f in fs}
            ctx.eq(ctx.to_dict(c(**kw)), kw, "residue", failure=n, form=form)
            ctx.eq(ctx.from_dict(c, kw), c(**kw), "residue", failure=n, form=form)

    return run


def lazy_fail(n):
    """A class that is generated on its first use and rejected: the same error every time, no residue."""

    def run(ctx):
        c, opts, fix = failing(ctx, n, "")
        if opts:
            return
        fs = [f.name for f in dataclasses.fields(c)]
        v = c(*[None] * len(fs))
        first = None
        for i in range(3):
            for nm, op in (("to_dict", lambda: ctx.to_dict(v)), ("from_dict", lambda: ctx.from_dict(c, {f: None for f in fs})),
                           ("to_tuple", lambda: ctx.to_tuple(v)), ("from_tuple", lambda: ctx.from_tuple(c, (None,) * len(fs)))):
                r = op()
                ctx.raises(r, "residue", "a rejected class is accepted", op=nm, attempt=i, failure=n, exc=Exception)
                settled(ctx, "residue", failure=n)
        for k in ("a",):
            g, T, w, d, t = graph(ctx, "mutual")
            for k, (op, want) in ops_of(ctx, T, w, d, t).items():
                ctx.check(right(op(), want), "residue", "an unrelated class is affected", op=k, failure=n)
        if fix is not None:
            retype(c, *fix)
            vals = {"x": 1, "u": 2, "i": 3, "y": 4, "b": None}
            if fix[1] == list[int]:
                vals["u"] = [2]
            kw = {f: vals[f] for f in fs}
            ctx.eq(ctx.to_dict(c(**kw)), kw, "residue", "the repaired class is not generated", failure=n)
            ctx.eq(ctx.from_dict(c, kw), c(**kw), "residue", "the repaired class is not generated", failure=n)
            if n == "mutual":
                g = ctx.user.Gg
                ctx.eq(ctx.to_dict(g(1, c(**kw))), {"z": 1, "f": kw}, "residue", failure=n)
                ctx.eq(ctx.from_dict(g, {"z": 1, "f": kw}), g(1, c(**kw)), "residue", failure=n)
                ctx.eq(ctx.to_dict(c(1, g(1, None), 2)), {"x": 1, "b": {"z": 1, "f": None}, "u": 2}, "residue", failure=n)

    return run


def partner(n):
    """The other member of a cycle whose generation failed is decorated as if that had not happened."""

    def run(ctx):
        c, opts, fix = failing(ctx, n, "")
        c2, _, _ = failing(ctx, n, "2")
        g, g2 = ctx.user.Gg, ctx.user.Gg2
        fs = [f.name for f in dataclasses.fields(c)]
        ctx.to_dict(c(*[None] * len(fs)))
        ctx.from_dict(c, {f: None for f in fs})
        for d in ("serialize", "deserialize", "serde"):
            a, b = ctx.call(ctx.get(d), g), ctx.call(ctx.get(d), g2)
            ctx.check(isinstance(a, Exc) == isinstance(b, Exc), "residue", "a class is decorated differently because the generation of its partner failed",
                      after=a, alone=b)

    return run


def cache_fail(kind):
    """Types that are no classes (generated into the wrapper cache): a failure leaves no entry."""

    def run(ctx):
        X = Foreign
        T = {"list": list[X], "opt": typing.Optional[X], "union": typing.Union[int, X], "dict": dict[str, X], "tuple": tuple[X, int]}[kind]
        good = {"list": list[int], "opt": typing.Optional[int], "union": typing.Union[int, str], "dict": dict[str, int], "tuple": tuple[int, int]}[kind]
        v = {"list": [1], "opt": 1, "union": 1, "dict": {"k": 1}, "tuple": (1, 2)}[kind]
        before = len(ctx.get("core.CACHE").classes)
        rs = []
        for i in range(2):
            rs.append(ctx.to_dict(v, c=T))
            rs.append(ctx.from_dict(T, v))
            settled(ctx, "residue", type=kind)
        ctx.check(isinstance(rs[0], Exc) == isinstance(rs[2], Exc) and isinstance(rs[1], Exc) == isinstance(rs[3], Exc), "residue",
                  "the second use of a rejected type differs from the first", results=rs)
        if isinstance(rs[0], Exc) and isinstance(rs[1], Exc):
            ctx.check(len(ctx.get("core.CACHE").classes) == before, "residue", "the cache keeps a wrapper class whose generation failed",
                      entries=list(ctx.get("core.CACHE").classes))
        ctx.check(right(ctx.to_dict(v, c=good), v), "residue", type=kind)
        ctx.check(right(ctx.from_dict(good, v), v), "residue", type=kind)

    return run


def scenarios(tier):
    return list(all_(tier))


def all_(tier):
    th = tier == "thorough"
    names = ["to_dict", "from_dict", "to_tuple", "from_tuple", "to_json"]
    for g in GRAPHS:
        for n in names:
            yield Scenario(f"first:{g}:{n}", first(g, graph, n))
        for a in names[:4]:
            for b in names:
                if th or g in ("single", "nested", "mutual", "union", "codec") or a == b or (a, b) in (("to_dict", "from_dict"), ("from_dict", "to_dict")):
                    yield Scenario(f"race:{g}:{a}:{b}", race(g, graph, a, b))
        for d in ("serde", "serde()", "serialize", "serialize()", "deserialize", "deserialize()"):
            yield Scenario(f"deco:{g}:{d}", deco_first(g, d))
            for b in (d, "to_dict", "from_dict"):
                if th or (g in ("nested", "mutual", "union") and d in ("serde", "serialize()", "deserialize")):
                    yield Scenario(f"race-deco:{g}:{d}:{b}", deco_race(g, d, b))
        for a in ("to_dict", "from_dict"):
            for b in ("to_dict", "from_dict"):
                if g in ("nested", "deep", "mutual", "cycle3", "containers", "inherit"):
                    yield Scenario(f"race-part:{g}:{a}:{b}", race_parts(g, a, b))
    for g in TOPS:
        for n in names:
            yield Scenario(f"first-top:{g}:{n}", first(g, top, n))
        for a in names[:4]:
            for b in names:
                if th or a == b or (a, b) in (("to_dict", "from_dict"), ("from_dict", "to_dict")):
                    yield Scenario(f"race-top:{g}:{a}:{b}", race(g, top, a, b))
    for o in OPTIONS:
        for f in FORMS:
            for r in ORDERS:
                for s in ("opt", "list", "dict", "direct"):
                    if th or s in ("opt", "list") or (f == "serde" and r == "decorated-first"):
                        yield Scenario(f"reentrant:{o}:{f}:{r}:{s}", reentrant(o, f, r, s))
    for f in FORMS:
        yield Scenario(f"both-options:{f}", both_options(f))
    for g in GRAPHS:
        for n in ("to_dict", "from_dict"):
            yield Scenario(f"during:{g}:{n}", during(g, n))
    for n in FAILS:
        for f in FORMS:
            for tc in ("", "strict", "coerce"):
                yield Scenario(f"residue:{n}:{f}:{tc}", residue(n, f, tc))
        yield Scenario(f"lazy-fail:{n}", lazy_fail(n))
    for n in ("mutual", "mutual-inner"):
        yield Scenario(f"partner:{n}", partner(n))
    for k in ("list", "opt", "union", "dict", "tuple"):
        yield Scenario(f"cache-fail:{k}", cache_fail(k))
