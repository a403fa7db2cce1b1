"""Type shapes: schema types, abstract values of them, and the documented wire form (the oracle)."""
from __future__ import annotations
import dataclasses
import datetime
import decimal
import enum
import ipaddress
import pathlib
import sys
import typing
import uuid
from collections import Counter, defaultdict, deque
from collections.abc import Mapping, MutableMapping, MutableSequence, MutableSet, Sequence, Set

from .harness import F, same
from .loader import user_module
from .values import AV, P, resolve, var

USER = user_module()


@dataclasses.dataclass(frozen=True)
class Opts:
    """Options in force at one position."""

    named: bool = True
    reuse: bool = False
    sets: bool = False
    skip_none: bool = False


class OneOf:
    """Oracle: any of these."""

    def __init__(self, *alts):
        self.alts = alts

    def __repr__(self):
        return " or ".join(map(repr, self.alts))


class Absent:
    """Marks a field a wire mapping must not contain."""


# ---------------------------------------------------------------------- user types (undecorated)


def _user(c):
    c.__module__ = "abs_user"
    c.__qualname__ = c.__name__
    setattr(USER, c.__name__, c)
    return c


@_user
class Color(enum.Enum):
    RED = "red"
    BLUE = "blue"


@_user
class Num(enum.Enum):
    ONE = 1
    TWO = 2


@_user
class Inner(enum.Enum):
    A = "in-a"


@_user
class Nested(enum.Enum):
    X = Inner.A
    Y = "why"


@_user
class Lvl(enum.IntEnum):
    LO = 1
    HI = 2


@_user
class SE(enum.StrEnum):
    P = "p"
    Q = "q"


@_user
class Fl(enum.IntFlag):
    R = 1
    W = 2


@_user
class Tup(enum.Enum):
    U = (1, 2)
    V = (3, 4)


@_user
class StrSub(str):
    pass


@_user
class IntSub(int):
    pass


@_user
class FloatSub(float):
    pass


NTInt = typing.NewType("NTInt", int)
NTStr = typing.NewType("NTStr", str)
NTFloat = typing.NewType("NTFloat", float)
for _n in (NTInt, NTStr, NTFloat):
    _n.__module__ = "abs_user"
    setattr(USER, _n.__name__, _n)


# ----------------------------------------------------------------------------------------- shapes


class T:
    label = "?"
    hashable = True
    key_ok = True  # usable as a mapping key in dict form

    def t(self, ctx):
        raise NotImplementedError

    def vals(self, ctx, n):
        """[(label, value)] covering the distinct behaviours of the type."""
        raise NotImplementedError

    def wire(self, ctx, v, o):
        raise NotImplementedError

    def default(self, ctx, n):
        return self.vals(ctx, n)[0][1]

    def kids(self):
        return ()

    def setup(self, ctx):
        for k in self.kids():
            k.setup(ctx)

    def __repr__(self):
        return self.label


class Prim(T):
    def __init__(self, p):
        self.p = p
        self.label = p.__name__

    def t(self, ctx):
        return self.p

    def vals(self, ctx, n):
        if self.p is bool:
            return [("true", True), ("false", False)]
        return [("v", var(n, self.p))]

    def wire(self, ctx, v, o):
        return v


class NoneT(T):
    label = "None"

    def t(self, ctx):
        return type(None)

    def vals(self, ctx, n):
        return [("none", None)]

    def wire(self, ctx, v, o):
        return None


class StrSer(T):
    def __init__(self, cls):
        self.cls = cls
        self.label = cls.__name__
        self.res = {pathlib.Path: pathlib.PosixPath, pathlib.PurePath: pathlib.PurePosixPath}.get(cls, cls)

    def t(self, ctx):
        return self.cls

    def vals(self, ctx, n):
        return [("v", var(n, self.res))]

    def wire(self, ctx, v, o):
        return v if o.reuse else AV("str", (v,), str)


class DT(T):
    def __init__(self, cls):
        self.cls = cls
        self.label = cls.__name__

    def t(self, ctx):
        return self.cls

    def vals(self, ctx, n):
        return [("v", var(n, self.cls))]

    def wire(self, ctx, v, o):
        return v if o.reuse else AV("isoformat", (v,), str)


class EnumT(T):
    def __init__(self, e):
        self.e = e
        self.label = e.__name__
        self.hashable = True

    def t(self, ctx):
        return self.e

    def vals(self, ctx, n):
        return [(m.name, m) for m in self.e]

    def wire(self, ctx, v, o):
        while isinstance(v, enum.Enum):
            v = v.value
        return v


class Lit(T):
    def __init__(self, *vals):
        self.values = vals
        self.label = "Literal[" + ",".join(repr(v) for v in vals) + "]"

    def t(self, ctx):
        return typing.Literal[self.values]

    def vals(self, ctx, n):
        return [(repr(v), v) for v in self.values]

    def wire(self, ctx, v, o):
        return v


class NewT(T):
    def __init__(self, nt):
        self.nt = nt
        self.label = nt.__name__

    def t(self, ctx):
        return self.nt

    def vals(self, ctx, n):
        return [("v", var(n, self.nt.__supertype__))]

    def wire(self, ctx, v, o):
        return v


class PrimSub(T):
    def __init__(self, c):
        self.c = c
        self.label = c.__name__

    def t(self, ctx):
        return self.c

    def vals(self, ctx, n):
        return [("v", var(n, self.c))]

    def wire(self, ctx, v, o):
        from .models import base_of

        return OneOf(v, base_of(v, self.c.__mro__[1]))


class AnyT(T):
    label = "Any"
    hashable = True

    def t(self, ctx):
        return typing.Any

    def vals(self, ctx, n):
        return [("int", var(n, int)), ("str", var(n + "s", str)), ("none", None), ("list", [var(n + "l", int)]),
                ("dict", {"k": var(n + "d", str)})]

    def wire(self, ctx, v, o):
        return v


class DCT(T):
    """A nested dataclass.  `deco`: how the user declared it."""

    hashable = False
    key_ok = False

    def __init__(self, name, fields, deco="serde", opts=None, label=None, frozen=False):
        self.name = name
        self.fields = fields  # [(name, T)]
        self.deco = deco
        self.opts = opts or {}
        self.label = label or f"{name}"
        self.frozen = frozen
        self.hashable = frozen

    def kids(self):
        return tuple(t for _, t in self.fields)

    def t(self, ctx):
        k = ("dct", self.name)
        if k not in ctx.__dict__.setdefault("dcts", {}):
            fs = [F(n, ft.t(ctx)) for n, ft in self.fields]
            c = ctx.rawcls(self.name, fs)
            if self.frozen:
                c = dataclasses.dataclass(frozen=True)(c)
            c = ctx.decorate(c, self.deco, **self.opts)
            ctx.dcts[k] = c
        return ctx.dcts[k]

    def vals(self, ctx, n):
        c = self.t(ctx)
        alts = [ft.vals(ctx, f"{n}.{fn}") for fn, ft in self.fields]
        out = []
        for i in range(max(len(a) for a in alts) if alts else 1):
            vs = [a[i % len(a)] for a in alts]
            out.append(("+".join(v[0] for v in vs), ctx.make(c, *[v[1] for v in vs])))
        return out

    def wire(self, ctx, v, o):
        r = [(fn, ft.wire(ctx, getattr(v, fn), o)) for fn, ft in self.fields]
        if o.named:
            return {k: x for k, x in r if not (o.skip_none and x is None)}
        return tuple(x for _, x in r)


class Cont(T):
    hashable = False
    key_ok = False

    def pick(self, ctx, n, elem, k):
        """k distinct elements cycling through the element alternatives."""
        out = []
        i = 0
        while len(out) < k and i < 3 * k:
            alts = elem.vals(ctx, f"{n}{i}")
            v = alts[i % len(alts)][1]
            if not (self.uniq and any(same(v, x) for x in out)):
                out.append(v)
            i += 1
        return out

    uniq = False

    def sizes(self, ctx, n, elem):
        alts = elem.vals(ctx, n)
        res = [("0", []), ("1", self.pick(ctx, n, elem, 1))]
        res.append((f"{max(3, len(alts))}", self.pick(ctx, n, elem, max(3, len(alts)))))
        return res


class ListT(Cont):
    def __init__(self, e, origin=list):
        self.e, self.origin = e, origin
        self.label = f"{_on(origin)}[{e.label}]"

    def kids(self):
        return (self.e,)

    def t(self, ctx):
        return self.origin[self.e.t(ctx)]

    def vals(self, ctx, n):
        return [(k, list(v)) for k, v in self.sizes(ctx, n, self.e)]

    def wire(self, ctx, v, o):
        return [self.e.wire(ctx, x, o) for x in v]


class SetT(Cont):
    uniq = True

    def __init__(self, e, origin=set):
        self.e, self.origin = e, origin
        self.label = f"{_on(origin)}[{e.label}]"
        self.make = frozenset if origin in (frozenset, typing.FrozenSet) else set

    def kids(self):
        return (self.e,)

    @property
    def hashable(self):
        return self.make is frozenset

    def t(self, ctx):
        return self.origin[self.e.t(ctx)]

    def vals(self, ctx, n):
        return [(k, self.make(v)) for k, v in self.sizes(ctx, n, self.e)]

    def wire(self, ctx, v, o):
        ws = [self.e.wire(ctx, x, o) for x in v]
        return ws if o.sets else AnySet(ws)


class AnySet:
    """Oracle: a set or frozenset with these members."""

    def __init__(self, items):
        self.items = items

    def __repr__(self):
        return f"set-of({self.items!r})"


class DequeT(Cont):
    def __init__(self, e):
        self.e = e
        self.label = f"deque[{e.label}]"

    def kids(self):
        return (self.e,)

    def t(self, ctx):
        return deque[self.e.t(ctx)]

    def vals(self, ctx, n):
        return [(k, deque(v)) for k, v in self.sizes(ctx, n, self.e)]

    def wire(self, ctx, v, o):
        return [self.e.wire(ctx, x, o) for x in v]


class CounterT(Cont):
    uniq = True

    def __init__(self, e):
        self.e = e
        self.label = f"Counter[{e.label}]"

    def kids(self):
        return (self.e,)

    def t(self, ctx):
        return Counter[self.e.t(ctx)]

    def vals(self, ctx, n):
        return [(k, Counter({x: var(f"{n}#{i}", int) for i, x in enumerate(v)})) for k, v in self.sizes(ctx, n, self.e)]

    def wire(self, ctx, v, o):
        return {self.e.wire(ctx, k, o): c for k, c in v.items()}


class DictT(Cont):
    uniq = True

    def __init__(self, k, v, origin=dict):
        self.k, self.v, self.origin = k, v, origin
        self.label = f"{_on(origin)}[{k.label},{v.label}]"

    def kids(self):
        return (self.k, self.v)

    def t(self, ctx):
        return self.origin[self.k.t(ctx), self.v.t(ctx)]

    def factory(self, ctx):
        vt = self.v.t(ctx)
        return typing.get_origin(vt) or vt

    def vals(self, ctx, n):
        ks = self.sizes(ctx, n + ".k", self.k)
        out = []
        vals = self.v.vals(ctx, n + ".v")
        for lab, kk in ks:
            vs = []
            for i in range(len(kk)):
                a = self.v.vals(ctx, f"{n}.v{i}")
                vs.append(a[i % len(a)][1])
            d = dict(zip(kk, vs))
            out.append((lab, d))
        # enough entries to show every alternative of the value type
        if len(vals) > 3 and len(ks[-1][1]) < len(vals):
            for j in range(0, len(vals)):
                kk = ks[1][1]
                out.append((f"1:{vals[j][0]}", {kk[0]: vals[j][1]}))
        if self.origin in (defaultdict, typing.DefaultDict):
            f = self.factory(ctx)
            out = [(lab, defaultdict(f, d)) for lab, d in out]
        return out

    def wire(self, ctx, v, o):
        return {self.k.wire(ctx, a, o): self.v.wire(ctx, b, o) for a, b in v.items()}


class TupleT(T):
    def __init__(self, *es):
        self.es = es
        self.label = f"tuple[{','.join(e.label for e in es)}]"

    @property
    def hashable(self):
        return all(e.hashable for e in self.es)

    def kids(self):
        return self.es

    def t(self, ctx):
        return tuple[tuple(e.t(ctx) for e in self.es)]

    def vals(self, ctx, n):
        alts = [e.vals(ctx, f"{n}.{i}") for i, e in enumerate(self.es)]
        out = []
        for i in range(max(len(a) for a in alts)):
            vs = [a[i % len(a)] for a in alts]
            out.append(("+".join(v[0] for v in vs), tuple(v[1] for v in vs)))
        return out

    def wire(self, ctx, v, o):
        return tuple(e.wire(ctx, x, o) for e, x in zip(self.es, v))


class VTupleT(Cont):
    def __init__(self, e):
        self.e = e
        self.label = f"tuple[{e.label},...]"

    @property
    def hashable(self):
        return self.e.hashable

    def kids(self):
        return (self.e,)

    def t(self, ctx):
        return tuple[self.e.t(ctx), ...]

    def vals(self, ctx, n):
        return [(k, tuple(v)) for k, v in self.sizes(ctx, n, self.e)]

    def wire(self, ctx, v, o):
        return tuple(self.e.wire(ctx, x, o) for x in v)


class OptT(T):
    def __init__(self, e, style="opt"):
        self.e, self.style = e, style
        self.label = f"Optional[{e.label}]" if style == "opt" else f"{e.label}|None" if style == "pipe" else (
            f"Union[None,{e.label}]")

    @property
    def hashable(self):
        return self.e.hashable

    key_ok = False

    def kids(self):
        return (self.e,)

    def t(self, ctx):
        t = self.e.t(ctx)
        if self.style == "pipe":
            return t | None
        if self.style == "rev":
            return typing.Union[None, t]
        return typing.Optional[t]

    def vals(self, ctx, n):
        return [("none", None)] + self.e.vals(ctx, n)

    def wire(self, ctx, v, o):
        if v is None:
            return None
        if self.style == "rev" and isinstance(self.e, DCT):
            # not in Optional form: an ordinary union, externally tagged
            return {self.e.name: self.e.wire(ctx, v, Opts(True, o.reuse, o.sets, o.skip_none))}
        return self.e.wire(ctx, v, o)


class UnionT(T):
    """Union of alternatives; values carry which alternative produced them."""

    def __init__(self, *es, style="union", tagging="external"):
        self.es, self.style, self.tagging = es, style, tagging
        self.label = ("Union[" if style == "union" else "pipe[") + ",".join(e.label for e in es) + "]"

    @property
    def hashable(self):
        return all(e.hashable for e in self.es)

    key_ok = False

    def kids(self):
        return self.es

    def t(self, ctx):
        ts = [e.t(ctx) for e in self.es]
        if self.style == "pipe":
            r = ts[0]
            for x in ts[1:]:
                r = r | x
            return r
        return typing.Union[tuple(ts)]

    def vals(self, ctx, n):
        out = []
        for i, e in enumerate(self.es):
            for lab, v in e.vals(ctx, f"{n}.{i}"):
                out.append((f"{e.label}:{lab}", v))
                _ARM[id(v)] = (v, e)
        return out

    def arm(self, ctx, v):
        hit = _ARM.get(id(v))
        if hit is not None and hit[0] is v and hit[1] in self.es:
            return hit[1]
        for e in self.es:
            for lab, x in e.vals(ctx, "?"):
                if _cls(x) is _cls(v):
                    return e
        raise AssertionError(f"no arm for {v!r}")

    def wire(self, ctx, v, o):
        e = self.arm(ctx, v)
        w = e.wire(ctx, v, Opts(True, o.reuse, o.sets, o.skip_none))
        if isinstance(e, DCT):
            if self.tagging == "external":
                return {e.name: w}
            if self.tagging[0] == "internal":
                return {**w, self.tagging[1]: e.name}
            if self.tagging[0] == "adjacent":
                return {self.tagging[2]: w, self.tagging[1]: e.name}
        return w


_ARM = {}


def _cls(v):
    v = resolve(v)
    return v.typ if isinstance(v, AV) else type(v)


class BareT(T):
    hashable = False
    key_ok = False

    def __init__(self, tp, values, wire):
        self.tp, self._vals, self._wire = tp, values, wire
        self.label = "bare-" + _on(tp)

    def t(self, ctx):
        return self.tp

    def vals(self, ctx, n):
        return self._vals(n)

    def wire(self, ctx, v, o):
        return self._wire(v, o)


class AliasT(T):
    """A PEP 695 alias."""

    def __init__(self, e, name="Al"):
        self.e, self.name = e, name
        self.label = f"type:{e.label}"

    @property
    def hashable(self):
        return self.e.hashable

    key_ok = False

    def kids(self):
        return (self.e,)

    def t(self, ctx):
        k = ("alias", self.name, self.e.label)
        d = ctx.__dict__.setdefault("dcts", {})
        if k not in d:
            d[k] = typing.TypeAliasType(self.name, self.e.t(ctx))
        return d[k]

    def vals(self, ctx, n):
        return self.e.vals(ctx, n)

    def wire(self, ctx, v, o):
        return self.e.wire(ctx, v, o)


def _on(o):
    if o in (list, set, dict, tuple, frozenset, deque, Counter, defaultdict):
        return o.__name__
    s = str(o)
    if s.startswith("<class '"):
        s = s[8:-2]
    return s.replace("collections.abc.", "abc.")


def wire_same(actual, expected, ordered=False, lax=False):
    """Agreement of an output with the oracle (AnySet matches any set type; with lax, also a list)."""
    actual = resolve(actual)
    expected = resolve(expected)
    if isinstance(expected, OneOf):
        return any(wire_same(actual, a, ordered, lax) for a in expected.alts)
    if isinstance(expected, AnySet):
        if not isinstance(actual, (set, frozenset, list) if lax else (set, frozenset)):
            return False
        if len(actual) != len(expected.items):
            return False
        left = list(actual)
        for e in expected.items:
            for i, x in enumerate(left):
                if wire_same(x, e, ordered, lax):
                    del left[i]
                    break
            else:
                return False
        return True
    if isinstance(expected, dict) and isinstance(actual, dict):
        if len(actual) != len(expected):
            return False
        ka, ke = list(actual), list(expected)
        if ordered and not all(wire_same(a, b, ordered, lax) for a, b in zip(ka, ke)):
            return False
        for k in ke:
            m = [x for x in ka if wire_same(x, k, ordered, lax)]
            if len(m) != 1 or not wire_same(actual[m[0]], expected[k], ordered, lax):
                return False
        return True
    if isinstance(expected, (list, tuple)) and type(actual) is type(expected):
        return len(actual) == len(expected) and all(wire_same(a, b, ordered, lax) for a, b in zip(actual, expected))
    return same(actual, expected)


# --------------------------------------------------------------------------------------- catalogue

INT, FLOAT, STR, BOOL = Prim(int), Prim(float), Prim(str), Prim(bool)
PRIMS = [INT, FLOAT, STR, BOOL]
STRSER = [StrSer(c) for c in (decimal.Decimal, pathlib.Path, pathlib.PosixPath, pathlib.PurePath, pathlib.PurePosixPath,
                              pathlib.PureWindowsPath, uuid.UUID, ipaddress.IPv4Address, ipaddress.IPv6Address,
                              ipaddress.IPv4Network, ipaddress.IPv6Network, ipaddress.IPv4Interface,
                              ipaddress.IPv6Interface)]
DTS = [DT(c) for c in (datetime.date, datetime.time, datetime.datetime)]
ENUMS = [EnumT(e) for e in (Color, Num, Nested, Lvl, SE, Fl, Tup)]
LITS = [Lit("r", "w"), Lit(1, "one", True), Lit("only")]
NEWTS = [NewT(n) for n in (NTInt, NTStr, NTFloat)]
SUBS = [PrimSub(c) for c in (StrSub, IntSub, FloatSub)]
DECIMAL, PATH, UUID_ = STRSER[0], STRSER[1], STRSER[6]
DATE, TIME, DATETIME = DTS
D = DCT("D", [("i", INT), ("s", STR)])
PD = DCT("PD", [("p", INT), ("q", OptT(STR))], deco="dataclass", label="PD")
FZ = DCT("FZ", [("a", INT), ("b", STR)], frozen=True)
RICH = DCT("Rich", [("path", PATH), ("when", DATETIME), ("tags", SetT(STR)), ("note", OptT(STR)), ("d", D)])
ANY = AnyT()
LEAVES = PRIMS + STRSER + DTS + ENUMS + LITS + NEWTS + SUBS
DCS = [D, PD, FZ, RICH]

_v = var
BARES = [
    BareT(list, lambda n: [("0", []), ("2", [_v(n + "a", int), _v(n + "b", str)])], lambda v, o: v),
    BareT(tuple, lambda n: [("0", ()), ("2", (_v(n + "a", int), _v(n + "b", str)))], lambda v, o: v),
    BareT(set, lambda n: [("0", set()), ("2", {_v(n + "a", int), _v(n + "b", str)})],
          lambda v, o: list(v) if o.sets else AnySet(list(v))),
    BareT(frozenset, lambda n: [("0", frozenset()), ("2", frozenset([_v(n + "a", int), _v(n + "b", str)]))],
          lambda v, o: list(v) if o.sets else AnySet(list(v))),
    BareT(dict, lambda n: [("0", {}), ("2", {"k": _v(n + "a", int), "l": _v(n + "b", str)})], lambda v, o: v),
    BareT(deque, lambda n: [("0", deque()), ("2", deque([_v(n + "a", int), _v(n + "b", str)]))], lambda v, o: list(v)),
    BareT(Counter, lambda n: [("0", Counter()), ("2", Counter({"k": _v(n + "a", int), "l": _v(n + "b", int)}))],
          lambda v, o: dict(v)),
    BareT(typing.List, lambda n: [("2", [_v(n + "a", int), _v(n + "b", str)])], lambda v, o: v),
    BareT(typing.Dict, lambda n: [("2", {"k": _v(n + "a", int)})], lambda v, o: v),
    BareT(typing.Set, lambda n: [("2", {_v(n + "a", int)})], lambda v, o: list(v) if o.sets else AnySet(list(v))),
]


def containers(e, full=True):
    """One level of every container around e."""
    out = [ListT(e), DequeT(e), VTupleT(e), TupleT(e), TupleT(e, STR, e), DictT(STR, e), OptT(e)]
    if full:
        out += [ListT(e, Sequence), ListT(e, MutableSequence), ListT(e, typing.List), DictT(STR, e, Mapping),
                DictT(STR, e, MutableMapping), DictT(STR, e, typing.Dict), DictT(INT, e), OptT(e, "pipe")]
        if dict_factory_ok(e):
            out += [DictT(STR, e, defaultdict), DictT(STR, e, typing.DefaultDict)]
    else:
        if dict_factory_ok(e):
            out += [DictT(STR, e, defaultdict)]
    if e.hashable and not isinstance(e, (OptT, UnionT, AnyT)):
        out += [SetT(e), SetT(e, frozenset)]
        if full:
            out += [SetT(e, Set), SetT(e, MutableSet), SetT(e, typing.Set), SetT(e, typing.FrozenSet)]
        if e.key_ok:
            out += [DictT(e, STR), CounterT(e)]
    return out


def dict_factory_ok(e):
    return isinstance(e, (Prim, ListT, SetT, DictT, VTupleT)) and not (
        isinstance(e, (ListT, SetT, DictT)) and str(getattr(e, "origin", "")).startswith(("typing", "<class 'collections.abc")))


def field_shapes(tier="quick"):
    """Field types for the per-type properties."""
    out = list(LEAVES) + DCS + BARES
    for e in (INT, STR, FLOAT, D):
        out += containers(e, full=True)
    lv = [BOOL, DECIMAL, PATH, UUID_, DATE, DATETIME, EnumT(Color), EnumT(Lvl), LITS[0], NEWTS[0], SUBS[0], PD]
    for e in lv:
        out += containers(e, full=False)
    inner = [ListT(INT), DictT(STR, D), SetT(PATH, frozenset), OptT(DATE), VTupleT(D), TupleT(INT, D), ListT(D)]
    for e in inner:
        out += [ListT(e), DictT(STR, e), OptT(e) if not isinstance(e, OptT) else TupleT(e), VTupleT(e), TupleT(e, INT),
                DequeT(e)]
        if dict_factory_ok(e):
            out.append(DictT(STR, e, defaultdict))
    out += unions()
    out += [AliasT(INT), AliasT(ListT(D)), AliasT(UnionT(INT, STR)), AliasT(LITS[0]), ListT(AliasT(OptT(INT))),
            AliasT(EnumT(Color)), OptT(AliasT(LITS[0])), DictT(STR, AliasT(D))]
    out += [OptT(INT, "rev"), OptT(D, "rev"), ListT(OptT(INT, "rev"))]
    if tier == "thorough":
        for e in STRSER + DTS + ENUMS + LITS + NEWTS + SUBS + [RICH, FZ]:
            out += containers(e, full=True)
        for e in inner:
            for f in containers(e, full=True):
                out.append(f)
        for e in (D, PATH, SetT(STR), OptT(DATETIME), EnumT(Color)):
            for f in (ListT, OptT, DequeT, VTupleT, lambda x: DictT(STR, x)):
                for g in (ListT, lambda x: DictT(STR, x), VTupleT, lambda x: TupleT(x, INT)):
                    for h in (ListT, OptT, lambda x: DictT(INT, x)):
                        s = f(g(h(e))) if not (isinstance(e, OptT) and h is OptT) else None
                        if s is not None:
                            out.append(s)
    seen = {}
    for s in out:
        seen.setdefault(s.label, s)
    return list(seen.values())


D2 = DCT("D2", [("f", FLOAT)])
D3 = DCT("D3", [("i", INT), ("s", STR)])  # same fields as D


def unions():
    return [
        UnionT(INT, STR), UnionT(STR, INT), UnionT(INT, STR, style="pipe"), UnionT(INT, FLOAT, STR, BOOL),
        UnionT(BOOL, INT), UnionT(D, D2), UnionT(D, D3), UnionT(D, INT), UnionT(INT, D, STR), UnionT(ListT(INT), STR),
        UnionT(ListT(INT), DictT(STR, INT)), UnionT(INT, NoneT(), STR), UnionT(INT, STR, NoneT()),
        UnionT(NoneT(), INT, STR), UnionT(D, NoneT(), D2),
        UnionT(DATE, INT), UnionT(PATH, INT), UnionT(EnumT(Color), INT), UnionT(LITS[0], INT), UnionT(ListT(D), D),
        UnionT(SetT(STR), INT), UnionT(TupleT(INT, STR), INT), UnionT(DictT(STR, D), INT),
        ListT(UnionT(INT, STR)), DictT(STR, UnionT(D, INT)), VTupleT(UnionT(INT, STR)), OptT(UnionT(INT, STR)),
        TupleT(UnionT(INT, STR), INT), SetT(UnionT(INT, STR)), UnionT(DECIMAL, BOOL), UnionT(UUID_, INT),
        UnionT(SetT(STR, frozenset), INT), UnionT(DequeT(STR), INT), UnionT(CounterT(STR), INT),
        UnionT(DictT(STR, INT, defaultdict), INT), UnionT(ListT(INT, Sequence), STR),
        UnionT(DictT(STR, INT, Mapping), STR), UnionT(VTupleT(INT), STR), UnionT(TupleT(INT, INT), DictT(STR, INT)),
        UnionT(SetT(INT), DictT(STR, INT)), UnionT(DequeT(INT), DictT(STR, STR)), UnionT(PATH, STR) if False else
        UnionT(DATETIME, BOOL), UnionT(STRSER[7], INT), UnionT(NEWTS[0], STR), UnionT(SUBS[0], INT),
        UnionT(EnumT(Num), STR), UnionT(EnumT(Lvl), STR), UnionT(LITS[1], FLOAT), UnionT(FZ, D, PD),
        UnionT(ListT(STR), DictT(STR, STR)), UnionT(ListT(D), ListT(INT)), UnionT(DictT(STR, INT), DictT(STR, STR)),
        UnionT(AliasT(INT), STR), UnionT(AliasT(D), D2), UnionT(RICH, INT), UnionT(OptT(INT), STR) if False else
        UnionT(SetT(PATH), INT), UnionT(ListT(DATE), STR), UnionT(DictT(STR, PATH), STR), ListT(UnionT(D, D2)),
        DictT(STR, UnionT(ListT(INT), STR)), OptT(UnionT(D, D2)), ListT(OptT(UnionT(INT, STR))),
    ]


CONCRETE = {
    int: 987654, str: "concrete", float: 1.625, decimal.Decimal: decimal.Decimal("1.50"), bytes: b"c",
    pathlib.PosixPath: pathlib.PosixPath("/c/d"), pathlib.PurePosixPath: pathlib.PurePosixPath("/c/e"),
    uuid.UUID: uuid.UUID(int=77), datetime.date: datetime.date(2001, 2, 3), datetime.time: datetime.time(4, 5, 6),
    datetime.datetime: datetime.datetime(2001, 2, 3, 4, 5, 6),
}


def conc(v):
    """The same value with every unknown replaced by a fixed value of its class."""
    if isinstance(v, AV):
        return CONCRETE[v.typ] if v.typ in CONCRETE else v.typ(CONCRETE[v.typ.__mro__[1]])
    if isinstance(v, defaultdict):
        return defaultdict(v.default_factory, {conc(k): conc(x) for k, x in v.items()})
    if isinstance(v, Mapping):
        return type(v)({conc(k): (x if isinstance(v, Counter) else conc(x)) for k, x in v.items()})
    if isinstance(v, (list, tuple, set, frozenset, deque)):
        return type(v)(conc(x) for x in v)
    if dataclasses.is_dataclass(v) and not isinstance(v, type):
        w = type(v).__new__(type(v))
        for k, x in vars(v).items():
            object.__setattr__(w, k, conc(x))
        return w
    return v
