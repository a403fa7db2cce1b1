"""P29: numpy scalars and arrays keep dtype and value."""
import numpy as np
import numpy.typing as npt
import jaxtyping
from ..harness import F, Scenario, Exc, same
from ..positions import POSITIONS
from ..ops import np_item
from ..shapes import *
from ..values import AV, term

RULES = ["a numpy field is written as the plain value of the scalar (item), the ISO text of the datetime64, the nested list of the array (tolist)",
         "reading it back gives the declared scalar type, or an array of the declared dtype, holding the same value",
         "in every position (containers, optionals, unions, nested, flattened, generic, transparent), in mapping and sequence form, through JSON and MsgPack",
         "numpy objects where the annotation says nothing about numpy (Any, unchecked, top level) reach the encoders and are written the same way",
         "skip_if_default compares numpy values element-wise and keeps the field unless all are equal"]
EXPLANATION = ("Abstract interpretation with unknown numpy scalars and arrays (dtype known, elements and shape unknown): "
               "item / tolist / the constructors / numpy.array are terms with provenance, so a lost dtype or value is a different term.  "
               "datetime64.item() forks over every type it can have.")

SC = {n: getattr(np, n) for n in ("bool_", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float16", "float32", "float64", "str_", "datetime64")}
PLAIN = {"b": bool, "i": int, "u": int, "f": float, "U": str, "M": str}
DT = ["bool_", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float16", "float32", "float64"]
JAX = {"Bool": ["bool_"], "Int": ["int64"], "UInt": ["uint64"], "Float": ["float64"], "Integer": ["int64"], "Int8": ["int8"], "Int16": ["int16"], "Int32": ["int32"],
       "Int64": ["int64"], "UInt8": ["uint8"], "UInt16": ["uint16"], "UInt32": ["uint32"], "UInt64": ["uint64"], "Float16": ["float16"], "Float32": ["float32"],
       "Float64": ["float64"], "Real": ["int64", "float64", "int32", "float32"], "Num": ["int64", "float64", "uint8", "float16"], "Inexact": ["float64", "float32"],
       "Shaped": ["int64", "float64", "bool_", "int32"]}


class Scalar(T):
    def __init__(self, n):
        self.n, self.label = n, n

    def t(self, ctx):
        return SC[self.n]

    def vals(self, ctx, n):
        return [("v", var(n, SC[self.n]))]

    def wire(self, ctx, v):
        if self.n == "datetime64":
            y = resolve(np_item(v))
            return AV("isoformat", (y,), str) if y is not None and issubclass(y.typ, datetime.date) else AV("str", (v,), str)
        return np_item(v)

    def back(self, v, r):
        return same(r, v)

    def plain(self):
        """(data of the wire type that was not written by this library, value read)"""
        w = var("w", PLAIN[np.dtype(SC[self.n]).kind])
        return w, AV("np", (SC[self.n], w), SC[self.n])


class Array(T):
    """kind: bare | NDArray | nd[dtype] | jaxtyping name; dtype of the value"""

    def __init__(self, kind, dt):
        self.kind, self.dt = kind, np.dtype(getattr(np, dt))
        self.label = f"{kind}<{dt}>"

    def t(self, ctx):
        if self.kind == "bare":
            return np.ndarray
        if self.kind == "NDArray":
            return npt.NDArray
        if self.kind == "nd":
            return npt.NDArray[self.dt.type]
        return getattr(jaxtyping, self.kind)[np.ndarray, "..."]

    def vals(self, ctx, n):
        return [("v", var(n, np.ndarray, {"dtype": self.dt}))]

    def wire(self, ctx, v):
        return AV("tolist", (v,), list)

    def exact(self):
        return self.kind == "nd" or self.kind in JAX and (len(JAX[self.kind]) == 1)

    def back(self, v, r):
        """The array itself, or one with its elements in a dtype that is declared and holds them."""
        r = resolve(r)
        if same(r, v):
            return True
        if self.exact() or not isinstance(r, AV) or r.op != "array" or not same(r.args[0], AV("tolist", (v,), list)) or not isinstance(r.meta, dict):
            return False
        d = r.meta["dtype"]
        if self.kind in JAX and self.kind != "Shaped" and d.name not in self.t(None).dtypes:
            return False
        # elements are read as Python numbers; an array without elements has no dtype to lose
        nat = {"f": "float64", "i": "int64", "u": "int64"}.get(self.dt.kind, self.dt)
        return d == np.dtype(nat) or known_empty(v)

    def plain(self):
        w = [var("w0", PLAIN[self.dt.kind]), var("w1", PLAIN[self.dt.kind])]
        if not self.exact():
            return None
        return w, AV("array", (w, self.dt.name), np.ndarray, {"dtype": self.dt})


def known_empty(v):
    return any(f"{v!r} has no elements" in repr(c) and b for c, b in P.log)


SHAPES = [Scalar(n) for n in SC] + [Array("bare", "float64"), Array("bare", "int64"), Array("NDArray", "bool_")] + [Array("nd", d) for d in DT] + [Array(k, d) for k, ds in JAX.items() for d in ds]
FEW = [s for s in SHAPES if s.label in ("bool_", "int32", "float32", "float64", "str_", "datetime64", "bare<float64>", "nd<int8>", "nd<float32>", "Float32<float32>", "Real<float64>", "Shaped<int64>")]


def lists(d):
    """Tuples of the output as lists."""
    if isinstance(d, dict):
        return {k: lists(v) for k, v in d.items()}
    return [lists(e) for e in d] if isinstance(d, (list, tuple)) else d


def leafsame(sh, v, r, want):
    """r equals want, where the leaf v may be any acceptable reading of it."""
    r, want = resolve(r), resolve(want)
    if want is v:
        return sh.back(v, r)
    if isinstance(want, AV) or isinstance(r, AV) or isinstance(r, Exc):
        return same(r, want)
    if type(r) is not type(want):
        return False
    if isinstance(want, (list, tuple, deque)):
        return len(r) == len(want) and all(leafsame(sh, v, a, b) for a, b in zip(r, want))
    if isinstance(want, dict):
        return list(r) == list(want) and all(leafsame(sh, v, r[k], want[k]) for k in want)
    if dataclasses.is_dataclass(want):
        return all(leafsame(sh, v, getattr(r, f.name, None), getattr(want, f.name)) for f in dataclasses.fields(want))
    return same(r, want)


MODES = {"": {}, "coerce": "core.coerce", "disabled": "core.disabled"}


def pos(pn, sh, mode):
    def run(ctx):
        co = dict(type_check=ctx.get(MODES[mode])) if mode else {}
        p = POSITIONS[pn](ctx, sh.t(ctx), **co)
        if not ctx.ok(p.type, "declare"):
            return
        v = sh.vals(ctx, "v")[0][1]
        o = p.value(v)
        if not ctx.ok(o, "construct"):
            return
        w = sh.wire(ctx, v)
        for kw in ({}, dict(reuse_instances=True), dict(reuse_instances=False)):
            d = ctx.to_dict(o, **kw)
            if pn not in ("alias-key", "generic"):  # the latter hands the object to the encoder
                ctx.eq(lists(d), p.data(w), "write", kw=kw)
        r = ctx.from_dict(p.type, p.data(w))
        ctx.check(leafsame(sh, v, r, o), "read", actual=r, expected=o)
        t = ctx.to_tuple(o)
        if ctx.ok(t, "write-tuple"):
            r = ctx.from_tuple(p.type, t)
            ctx.check(leafsame(sh, v, r, o), "read-tuple", data=t, actual=r, expected=o)
        pl = sh.plain()
        if pl and sh.n != "datetime64" if isinstance(sh, Scalar) else pl:
            r = ctx.from_dict(p.type, p.data(pl[0]))
            ctx.eq(r, p.value(pl[1]), "read-plain")

    return run


FMT = {"json": ("json.to_json", "json.from_json"), "msgpack": ("msgpack.to_msgpack", "msgpack.from_msgpack")}


def formats(pn, sh, fmt):
    """The documents hold the same data, and the values come back; also with the numpy object as top level value."""

    def run(ctx):
        p = POSITIONS[pn](ctx, sh.t(ctx))
        v = sh.vals(ctx, "v")[0][1]
        o = p.value(v)
        if not (ctx.ok(p.type, "declare") and ctx.ok(o, "construct")):
            return
        to, fr = map(ctx.get, FMT[fmt])
        s = ctx.call(to, o)
        if ctx.ok(s, "encode"):
            r = ctx.call(fr, p.type, s)
            ctx.check(leafsame(sh, v, r, o), "decode", document=s, actual=r, expected=o)
        if fmt == "msgpack":
            s = ctx.call(to, o, named=False)
            if ctx.ok(s, "encode"):
                r = ctx.call(fr, p.type, s, named=False)
                ctx.check(leafsame(sh, v, r, o), "decode", document=s, actual=r, expected=o)
        if p.top:
            t, dat, val = p.top
            x = val(v)
            if isinstance(x, Exc):
                return
            for kw in ({}, dict(cls=t)):
                if kw == {} and "Union" in str(t):
                    continue
                s = ctx.call(to, x, **kw)
                if ctx.ok(s, "encode-top", kw=kw, value=x):
                    r = ctx.call(fr, t, s)
                    ctx.check(leafsame(sh, v, r, x), "decode-top", document=s, actual=r, expected=x, kw=kw)

    return run


def foreign(sh, where, fmt):
    """numpy objects in places whose annotation does not mention numpy."""

    def run(ctx):
        v = sh.vals(ctx, "v")[0][1]
        to = ctx.get(FMT[fmt][0])
        loads = ctx.get("json.json_loads") if fmt == "json" else ctx.get("msgpack.MsgPackDeserializer")
        if where == "top":
            x, mk = v, lambda w: w
        elif where == "top-list":
            x, mk = [v, [v]], lambda w: [w, [w]]
        elif where == "top-dict":
            x, mk = {"k": v}, lambda w: {"k": w}
        elif where == "top-tuple":
            x, mk = (v, 1), lambda w: [w, 1]
        elif where == "any":
            x, mk = ctx.make(ctx.cls("C", [F("a", typing.Any), F("l", list[typing.Any]), F("d", dict)]), v, [v], {"k": v}), lambda w: {"a": w, "l": [w], "d": {"k": w}}
        elif where == "untyped":
            x, mk = ctx.make(ctx.cls("C", [F("l", list), F("t", tuple)]), [v], (v,)), lambda w: {"l": [w], "t": [w]}
        elif where == "unchecked":
            x, mk = ctx.make(ctx.cls("C", [F("a", int), F("s", str), F("l", list[int])], type_check=ctx.get("core.disabled")), v, v, [v]), lambda w: {"a": w, "s": w, "l": [w]}
        elif where == "class":
            i = ctx.cls("I", [F("a", sh.t(ctx))])
            x, mk = [ctx.make(i, v)], lambda w: [{"a": w}]
        if not ctx.ok(x, "construct"):
            return
        s = ctx.call(to, x)
        if not ctx.ok(s, "encode", value=x):
            return
        r = ctx.call(loads, s) if fmt == "json" else ctx.call(loads.deserialize, s, use_list=True)
        ctx.eq(r, mk(sh.wire(ctx, v)), "encoder", value=x, document=s)

    return run


def skip(sh, form):
    def run(ctx):
        v = sh.vals(ctx, "v")[0][1]
        if isinstance(sh, Scalar):
            base = {"b": True, "U": "a", "M": "2020-01-01"}.get(np.dtype(SC[sh.n]).kind, 3)
            d, others = SC[sh.n](base), []
            dflt = dict(default=d)
        else:
            d = np.array([1, 0], dtype=sh.dt)
            dflt = dict(factory=lambda: np.array([1, 0], dtype=sh.dt))
            others = [np.array([1, 1], dtype=sh.dt), np.array([[1, 0]], dtype=sh.dt), np.array([1], dtype=sh.dt), np.array([], dtype=sh.dt), np.array([0, 1], dtype=sh.dt)]
        fo = dict(skip_if_default=True) if form == "field" else {}
        co = dict(skip_if_default=True) if form == "class" else {}
        c = ctx.cls("C", [F("y", int), F("a", sh.t(ctx), opts=fo, **dflt)], **co)
        if not ctx.ok(c, "declare"):
            return
        ctx.eq(ctx.to_dict(ctx.make(c, 1, d)), {"y": 1}, "skip-default", "the value equals the default", default=d)
        for x in others:
            ctx.eq(ctx.to_dict(ctx.make(c, 1, x)), {"y": 1, "a": x.tolist()}, "skip-default", "the value differs from the default", value=x, default=d)
        r = ctx.to_dict(ctx.make(c, 1, v))
        if ctx.ok(r, "skip-default"):
            ctx.check(same(r, {"y": 1}) and equal(v) or same(r, {"y": 1, "a": sh.wire(ctx, v)}) and not equal(v), "skip-default", "unknown value", value=v, default=d, actual=r)
        r = ctx.from_dict(c, {"y": 1})
        if ctx.ok(r, "absent"):
            r = r.a
            ctx.check(type(r) is type(d) and np.array_equal(r, d) and r.dtype == d.dtype, "absent", actual=r, expected=d)

    return run


def equal(v):
    """What this path assumed about the comparison with the default."""
    for c, b in P.log:
        s = repr(c)
        if repr(v) in s and ("==" in s or "same elements" in s or "eq(" in s):
            return b
        if s == repr(v):
            return b
    return False


def several():
    """All numpy kinds side by side in one class, unions of numpy types."""

    def run(ctx):
        fs = [s for s in FEW]
        c = ctx.cls("C", [F(f"f{i}", s.t(ctx)) for i, s in enumerate(fs)] + [F("n", int)])
        vs = [s.vals(ctx, f"v{i}")[0][1] for i, s in enumerate(fs)]
        o = ctx.make(c, *vs, 1)
        if not ctx.ok(o, "construct"):
            return
        d = ctx.to_dict(o)
        ctx.eq(d, {**{f"f{i}": s.wire(ctx, v) for i, (s, v) in enumerate(zip(fs, vs))}, "n": 1}, "write")
        r = ctx.from_dict(c, d)
        if ctx.ok(r, "read"):
            for i, (s, v) in enumerate(zip(fs, vs)):
                ctx.check(s.back(v, getattr(r, f"f{i}")), "read", field=s.label, actual=r, value=v)

    return run


def union(sh, other, fmt):
    """A numpy type as an alternative of a union (field and top level)."""

    def run(ctx):
        d = D.t(ctx)
        o = {"cls": d, "str": str, "list": list[str], "none": None}[other]
        for ts in ((sh.t(ctx), o), (o, sh.t(ctx))):
            u = typing.Union[ts]
            c = ctx.cls("C", [F("u", u), F("l", list[u], factory=list)])
            v = sh.vals(ctx, "v")[0][1]
            x = ctx.make(c, v, [v])
            if not ctx.ok(x, "construct"):
                return
            w = sh.wire(ctx, v)
            w1 = ctx.to_dict(x)
            ctx.eq(w1, {"u": w, "l": [w]}, "write", order=ts)
            r = ctx.from_dict(c, w1)
            ctx.check(leafsame(sh, v, r, x), "read", order=ts, actual=r, expected=x)
            to, fr = map(ctx.get, FMT[fmt])
            s = ctx.call(to, x)
            if ctx.ok(s, "encode"):
                r = ctx.call(fr, c, s)
                ctx.check(leafsame(sh, v, r, x), "decode", order=ts, actual=r, expected=x)
            if other != "none":
                s = ctx.call(to, v, cls=u)
                if ctx.ok(s, "encode-top"):
                    r = ctx.call(fr, u, s)
                    ctx.check(leafsame(sh, v, r, v), "decode-top", order=ts, actual=r, expected=v)

    return run


def _scenarios(tier):
    for s in SHAPES:
        for pn in POSITIONS:
            if s in FEW or pn in ("field", "list", "optional") or tier == "thorough" and pn in ("dict", "tuple", "union-External", "nested1"):
                yield Scenario(f"pos:{s.label}:{pn}", pos(pn, s, ""))
        for m in ("coerce", "disabled"):
            for pn in ("field", "list-opt", "tuple") if tier == "quick" else ("field", "list-opt", "tuple", "dict", "generic", "flatten", "nested1"):
                if s in FEW or pn == "field":
                    yield Scenario(f"pos:{s.label}:{pn}:{m}", pos(pn, s, m))
        for fmt in FMT:
            for pn in ("field", "list-opt", "dict", "union-External", "generic", "transparent") if s in FEW else ("list",):
                for miss in (("orjson",), ()) if fmt == "json" else ((),):
                    yield Scenario(f"format:{s.label}:{fmt}:{pn}:{'std' if miss else ''}", formats(pn, s, fmt), missing=miss)
            for wh in ("top", "top-list", "top-dict", "top-tuple", "any", "untyped", "unchecked", "class"):
                if s in FEW or wh == "any":
                    yield Scenario(f"foreign:{s.label}:{fmt}:{wh}", foreign(s, wh, fmt))
                    if fmt == "json" and (s in FEW):
                        yield Scenario(f"foreign:{s.label}:orjson:{wh}", foreign(s, wh, fmt), missing=())
        for form in ("field", "class"):
            yield Scenario(f"skip:{s.label}:{form}", skip(s, form))
    for s in SHAPES:
        for o in ("cls", "str", "list", "none") if s in FEW else ("cls",):
            if o == "str" and s.label in ("str_", "datetime64") or o == "list" and isinstance(s, Array):
                continue  # the same wire form
            for fmt in FMT if s in FEW else ("json",):
                yield Scenario(f"union:{s.label}:{o}:{fmt}", union(s, o, fmt))
    yield Scenario("several", several())


def scenarios(tier):
    return list(_scenarios(tier))
