"""P21: enums, literals, NewTypes and primitive subclasses keep identity and type."""
import itertools
from ..harness import F, Scenario, Exc, same
from ..positions import POSITIONS, HASH_POSITIONS
from ..shapes import *
from ..values import var, AV
from .p13 import tc

RULES = ["an enum member is written as its value, unwrapped while that is a member itself, and read back as the same member, at every position, in every form and format",
         "as a mapping key it survives a format that turns keys into strings",
         "a value that is no member raises SerdeError",
         "a Literal accepts exactly its listed values, told apart by type as well as by value",
         "NewTypes and subclasses of primitives are written as plain primitives and restored with the declared class"]
EXPLANATION = ("Abstract interpretation, exhaustive over the members of 20 enum kinds, over a matrix of literal sets x candidate values, and over NewTypes and "
               "primitive subclasses of every primitive, at every position, in the type-check modes, dict/tuple/format forms and as mapping keys.")


def E(name, members, base=enum.Enum, **kw):
    e = base(name, members, module="abs_user", **kw)
    return e


class _Inner(enum.Enum):
    A = "in-a"
    B = 2


class _Mid(enum.Enum):
    M = _Inner.A
    N = _Inner.B
    O = "plain"


class _Deep(enum.Enum):
    X = _Mid.M
    Y = _Mid.N
    Z = 7


class _Missing(enum.Enum):
    A = "a"
    B = "b"

    @classmethod
    def _missing_(cls, v):
        return cls.B if v == "bee" else None


class _New(enum.Enum):
    A = (1, "first")
    B = (2, "second")

    def __new__(cls, v, label):
        o = object.__new__(cls)
        o._value_ = v
        o.label = label
        return o


class _StrMix(str, enum.Enum):
    A = "a"
    B = "b-1"


class _IntMix(int, enum.Enum):
    A = 10
    B = -3


class _FloatMix(float, enum.Enum):
    A = 1.5
    B = -0.25


class _TupleMix(tuple, enum.Enum):
    A = (1, 2)
    B = ("x",)


class _Str(enum.Enum):
    """Written by a __str__ and __repr__ of its own."""

    A = "a"
    B = 2

    def __str__(self):
        return "shown"

    def __repr__(self):
        return "shown"


class _Val(enum.Enum):
    """`value` and `name` are usual words."""

    value_ = "v"
    red = "green"
    green = "red"


for _c in (_Inner, _Mid, _Deep, _Missing, _New, _StrMix, _IntMix, _FloatMix, _TupleMix, _Str, _Val):
    _c.__module__ = "abs_user"
    _c.__qualname__ = _c.__name__

# name -> (class, usable as key in string-keyed formats, values that are no members)
ENUMS_ = {
    "str": (E("S", {"A": "a", "B": "b", "EMPTY": ""}), True, ["A", "c", 1, None, [], {}, True]),
    "int": (E("I", {"ONE": 1, "TWO": 2, "NEG": -3, "ZERO": 0}), True, ["ONE", "x", "5", 7, None, [], {}]),
    "float": (E("Fl_", {"A": 1.5, "B": -2.25}), True, ["A", "x", 7.5, None, []]),
    "bool": (E("Bo", {"YES": True, "NO": False}), True, ["YES", "x", 5, None, []]),
    "tuple": (E("Tu", {"A": (1, 2), "B": ("x", 3)}), False, [(1,), [2, 1], "A", 1, None]),
    "mixed": (E("Mi", {"A": 1, "B": "b", "C": 2.5}), True, ["A", 3, "x", None]),
    "none": (E("Nn", {"A": "a", "N": None}), False, ["N", 0, "None"]),
    "alias": (enum.Enum("Al", [("A", 1), ("AA", 1), ("B", 2)], module="abs_user"), True, ["AA", 3, None]),
    "names": (E("Na", {"red": "green", "green": "red", "value": "name"}), True, ["value", 1, None]),
    "intenum": (E("Ie", {"A": 1, "B": 2, "Z": 0}, enum.IntEnum), True, ["A", 5, "x", None, []]),
    "strenum": (E("Se", {"A": "a", "B": "b c"}, enum.StrEnum), True, ["A", "c", 1, None]),
    "intflag": (E("If", {"R": 1, "W": 2}, enum.IntFlag), True, ["R", None, []]),
    "flag": (E("Fg", {"R": 1, "W": 2}, enum.Flag), True, ["R", 64, None, []]),
    "nested": (_Mid, True, ["A", "M", 3, None, [], {}]),
    "deep": (_Deep, True, ["X", 3, None, "x", []]),
    "missing": (_Missing, True, ["c", 1, None]),
    "new": (_New, True, [(1, "first"), "first", 3, None]),
    "strmix": (_StrMix, True, ["A", "x", 1, None]),
    "intmix": (_IntMix, True, ["A", 11, None, []]),
    "floatmix": (_FloatMix, True, ["A", 9.5, None]),
    "tuplemix": (_TupleMix, False, [(1,), "A", None]),
    "list": (E("Ls", {"A": [1, 2], "B": []}), False, [[1], "A", None]),
    "dict": (E("Dc", {"A": {"k": 1}, "B": {}}), False, [{"k": 2}, "A", None]),
    "shown": (_Str, True, ["shown", "A", 5, None]),
}


def written(m):
    while isinstance(m, enum.Enum):
        m = m.value
    return m


def members(e):
    out = list(e)
    if issubclass(e, enum.Flag):
        a, b = out[0], out[1]
        out += [a | b]
    return out


def hard(x):
    """The value with its exact class: 1 and True are different."""
    if isinstance(x, dict):
        return {(type(k), k): hard(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [hard(v) for v in x]
    return (type(x), x)


def enums(en, pn, build, m):
    def run(ctx):
        e, _, bads = ENUMS_[en]
        p = build(ctx, e, **tc(ctx, m))
        if not ctx.ok(p.type, "decorate"):
            return
        for mem in members(e):
            w = written(mem)
            x = p.value(mem)
            if not ctx.ok(x, "construct"):
                return
            for tt, d0, v, top in [(p.type, p.data(w), x, False)] + ([(p.top[0], p.top[1](w), p.top[2](mem), True)] if p.top else []):
                for kw in (dict(reuse_instances=False, convert_sets=True), dict(reuse_instances=True, convert_sets=True)):
                    d = ctx.to_dict(v, **kw, **(dict(c=tt) if top else {}))
                    if ctx.ok(d, "write", member=mem) and pn != "alias-key":
                        ctx.check(hard(d) == hard(d0), "write", "a member is not written as its unwrapped value", member=mem, actual=d, expected=d0, top=top)
                    y = ctx.from_dict(tt, d0, reuse_instances=kw["reuse_instances"])
                    if ctx.ok(y, "read", data=d0, top=top):
                        ctx.eq(y, v, "read", "not read as the same member", data=d0, top=top)
                if not top:
                    tp = ctx.to_tuple(v, reuse_instances=False, convert_sets=True)
                    y = tp if isinstance(tp, Exc) else ctx.from_tuple(tt, tp)
                    if ctx.ok(y, "read", data=tp):
                        ctx.eq(y, v, "read", "tuple form is not read as the same member", data=tp)
        if "opt" in pn or pn in ("pipe", "default", "generic"):
            bads = [b for b in bads if b is not None]
        if pn.startswith("flatten-opt"):
            return
        for b in bads:
            y = ctx.from_dict(p.type, p.data(b))
            ctx.check(ctx.is_serde_error(y), "non-member", "a value that is no member does not raise SerdeError", value=b, result=y)
            if p.top:
                y = ctx.from_dict(p.top[0], p.top[1](b))
                ctx.check(ctx.is_serde_error(y), "non-member", "a value that is no member does not raise SerdeError", value=b, result=y, top=True)

    return run


KEYTYPES = {"dict": lambda e: dict[e, int], "dict-of-dict": lambda e: dict[str, dict[e, int]], "list": lambda e: list[dict[e, int]], "opt": lambda e: typing.Optional[dict[e, int]],
            "counter": lambda e: Counter[e], "ddict": lambda e: defaultdict[e, int], "mapping": lambda e: Mapping[e, int], "self": lambda e: dict[e, e],
            "union": lambda e: typing.Union[dict[e, int], int]}


def kv(k, e, mem):
    d = {mem: 3}
    return {"dict": d, "dict-of-dict": {"k": d}, "list": [d], "opt": d, "counter": Counter(d), "ddict": defaultdict(int, d), "mapping": d, "self": {mem: mem}, "union": d}[k]


FORMATS = {"json": ("to_json", "from_json"), "yaml": ("to_yaml", "from_yaml"), "toml": ("to_toml", "from_toml"), "msgpack": ("to_msgpack", "from_msgpack")}


def keys(en, kt):
    def run(ctx):
        e, ok, _ = ENUMS_[en]
        c = ctx.cls("K", [F("d", KEYTYPES[kt](e))])
        if not ctx.ok(c, "decorate"):
            return
        for mem in members(e):
            v = kv(kt, e, mem)
            x = ctx.make(c, v)
            if not ctx.ok(x, "construct"):
                continue
            d = ctx.to_dict(x, reuse_instances=False)
            y = d if isinstance(d, Exc) else ctx.from_dict(c, d, reuse_instances=False)
            if ctx.ok(y, "key", data=d):
                ctx.eq(y, x, "key", "a member used as key is not restored", data=d)
            if not ok:
                continue
            for fmt, (a, b) in FORMATS.items():
                if fmt == "toml" and kt in ("none",):
                    continue
                if fmt in ("toml", "msgpack") and not isinstance(written(mem), str):
                    continue
                s = ctx.call(ctx.get(f"{fmt}.{a}"), x)
                if ctx.ok(s, "key", format=fmt, member=mem):
                    y = ctx.call(ctx.get(f"{fmt}.{b}"), c, s)
                    if ctx.ok(y, "key", format=fmt, member=mem, document=s):
                        ctx.eq(y, x, "key", "a member used as key is not restored", format=fmt, document=s)
                if fmt == "toml" and kt == "list":
                    continue
                s = ctx.call(ctx.get(f"{fmt}.{a}"), v, KEYTYPES[kt](e))
                if ctx.ok(s, "key", format=fmt, member=mem, top=True):
                    y = ctx.call(ctx.get(f"{fmt}.{b}"), KEYTYPES[kt](e), s)
                    if ctx.ok(y, "key", format=fmt, member=mem, document=s, top=True):
                        ctx.eq(y, v, "key", "a member used as key is not restored", format=fmt, document=s, top=True)
        # a key that is the string form of no member
        y = ctx.from_dict(c, {"d": {"dict-of-dict": {"k": {"no-member": 3}}, "list": [{"no-member": 3}], "self": {"no-member": written(members(e)[0])}}.get(kt, {"no-member": 3})})
        ctx.check(ctx.is_serde_error(y), "key-non-member", result=y)

    return run


def stringified(ctx):
    """What a format makes of a key is the member again, and nothing else is."""
    for en in ("int", "intenum", "intflag", "flag", "alias", "new", "intmix", "nested", "deep"):
        e = ENUMS_[en][0]
        for mem in members(e):
            if isinstance(written(mem), int):
                for t, d, v in ((dict[e, int], {str(written(mem)): 1}, {mem: 1}), (dict[e, e], {str(written(mem)): written(mem)}, {mem: mem})):
                    y = ctx.from_dict(t, d)
                    if ctx.ok(y, "stringified", enum=en, data=d):
                        ctx.eq(y, v, "stringified", enum=en, data=d)
    for en, k, v in (("float", "1.5", 0), ("float", "-2.25", 1), ("floatmix", "1.5", 0), ("bool", "true", 0), ("bool", "false", 1), ("bool", "True", 0), ("bool", "False", 1)):
        e = ENUMS_[en][0]
        y = ctx.from_dict(dict[e, int], {k: 1})
        if ctx.ok(y, "stringified", enum=en, key=k):
            ctx.eq(y, {list(e)[v]: 1}, "stringified", enum=en, key=k)


L = typing.Literal
LITS_ = {
    "1": L[1], "True": L[True], "s1": L["1"], "0,1": L[0, 1], "F,T": L[False, True], "0,F": L[0, False], "F,0": L[False, 0], "1,T,s1": L[1, True, "1"],
    "T,1": L[True, 1], "strs": L["r", "w", "r+", ""], "ints": L[-1, 0, 255], "mixed": L[1, "one", True], "none": L["a", None], "only-none": L[None],
    "nested": L[L["a", "b"], "c"], "quotes": L["a'b", 'a"b', "a\\b", "a\nb", "{x}", "%s", "ü"], "bytes": L[b"x"], "dup": L["a", "a"],
}
CANDS = [1, True, 1.0, "1", 0, False, 0.0, "0", "", None, "None", "True", -1, 255, "255", "r", "w", "r+", "R", "rw", "a", "b", "c", "one", "a'b", 'a"b', "a\\b", "a\nb",
         "{x}", "%s", "ü", b"x", "x", [], {}, ["r"], {"r": 1}, (), ("a",)]


def literal(ln, wrap):
    def run(ctx):
        t = LITS_[ln]
        listed = typing.get_args(t)
        tt = {"field": t, "list": list[t], "opt": typing.Optional[t], "dict": dict[str, t], "union": typing.Union[t, list[int]], "tuple": tuple[t, int], "key": dict[t, int],
              "alias": typing.TypeAliasType("LA", t)}[wrap]
        w = {"field": lambda v: v, "list": lambda v: [v], "opt": lambda v: v, "dict": lambda v: {"k": v}, "union": lambda v: v, "tuple": lambda v: [v, 3], "key": lambda v: {v: 3},
             "alias": lambda v: v}[wrap]
        u = {"field": lambda v: v, "list": lambda v: [v], "opt": lambda v: v, "dict": lambda v: {"k": v}, "union": lambda v: v, "tuple": lambda v: (v, 3), "key": lambda v: {v: 3},
             "alias": lambda v: v}[wrap]
        for m in ("strict", "disabled", "coerce"):
            c = ctx.cls("C", [F("x", tt)], **tc(ctx, m))
            if not ctx.ok(c, "decorate"):
                return
            for v in CANDS:
                if wrap == "key" and isinstance(v, (list, dict)):
                    continue
                if wrap == "union" and isinstance(v, (list, tuple)):
                    continue
                if wrap == "opt" and v is None and None not in listed:
                    continue
                ok = any(type(v) is type(a) and v == a for a in listed)
                tops = [(c, {"x": w(v)}), (tt, w(v))]
                if wrap == "alias":
                    tops = tops[:1]
                for k, d in tops:
                    y = ctx.from_dict(k, d)
                    if ok:
                        if ctx.ok(y, "literal", value=v, mode=m):
                            got = y.x if k is c else y
                            ctx.check(hard(got) == hard(u(v)), "literal", "a listed value is not restored", value=v, actual=got, mode=m)
                    else:
                        ctx.check(ctx.is_serde_error(y), "literal", "a value that is not listed is accepted", value=v, result=y, mode=m, literal=t)
                if ok:
                    x = ctx.make(c, u(v))
                    if ctx.ok(x, "literal", value=v, mode=m):
                        d = ctx.to_dict(x)
                        if ctx.ok(d, "literal"):
                            ctx.check(hard(_l(d)) == hard({"x": _l(w(v))}), "literal", "a listed value is not written as itself", value=v, actual=d)

    return run


def _l(x):
    if isinstance(x, dict):
        return {k: _l(v) for k, v in x.items()}
    return [_l(v) for v in x] if isinstance(x, (list, tuple)) else x


class _Shout(str):
    """A subclass that shows itself differently."""

    def __str__(self):
        return "shown"

    def __repr__(self):
        return "shown"

    def __format__(self, s):
        return "shown"


class _Count(int):
    def __str__(self):
        return "shown"

    __repr__ = __str__

    def __int__(self):
        return 99


class _Rate(float):
    def __str__(self):
        return "shown"

    __repr__ = __str__

    def __float__(self):
        return 99.0


class _SubSub(_Shout):
    pass


class _Made(int):
    """Constructed from more than one argument."""

    def __new__(cls, v, base=10):
        return super().__new__(cls, int(v))


class _Slots(str):
    __slots__ = ()


for _c in (_Shout, _Count, _Rate, _SubSub, _Made, _Slots):
    _c.__module__ = "abs_user"
    _c.__qualname__ = _c.__name__

NT2 = typing.NewType("NT2", NTInt)
NTBool = typing.NewType("NTBool", bool)
for _n in (NT2, NTBool):
    _n.__module__ = "abs_user"
PRIMLIKE = {
    "shout": (_Shout, _Shout("text"), "text"), "count": (_Count, _Count(5), 5), "rate": (_Rate, _Rate(1.5), 1.5), "subsub": (_SubSub, _SubSub("deep"), "deep"),
    "made": (_Made, _Made(4), 4), "slots": (_Slots, _Slots("sl"), "sl"), "nt-int": (NTInt, 7, 7), "nt-str": (NTStr, "n", "n"), "nt-float": (NTFloat, 2.5, 2.5),
    "nt-bool": (NTBool, True, True), "nt-nt": (NT2, 9, 9), "str": (str, "p", "p"), "int": (int, 3, 3), "bool": (bool, False, False), "float": (float, 0.5, 0.5),
}


def prims(pn, build, kn, m):
    def run(ctx):
        t, v, w = PRIMLIKE[kn]
        p = build(ctx, t, **tc(ctx, m))
        if not ctx.ok(p.type, "decorate"):
            return
        x = p.value(v)
        if not ctx.ok(x, "construct"):
            return
        for tt, d0, val, top in [(p.type, p.data(w), x, False)] + ([(p.top[0], p.top[1](w), p.top[2](v), True)] if p.top else []):
            d = ctx.to_dict(val, reuse_instances=False, convert_sets=True, **(dict(c=tt) if top else {}))
            if ctx.ok(d, "write") and pn != "alias-key":
                ctx.check(hard(d) == hard(d0), "write", "not written as a plain primitive", actual=d, expected=d0, types=typing.cast(typing.Any, hard(d)), top=top)
            y = ctx.from_dict(tt, d0)
            if ctx.ok(y, "read", data=d0, top=top):
                ctx.eq(y, val, "read", "not restored with the declared class", data=d0, top=top)
            if not top:
                tp = ctx.to_tuple(val, convert_sets=True)
                if ctx.ok(tp, "write"):
                    y = ctx.from_tuple(tt, tp)
                    if ctx.ok(y, "read", data=tp):
                        ctx.eq(y, val, "read", "not restored with the declared class", data=tp)

    return run


def primkeys(kn):
    def run(ctx):
        t, v, w = PRIMLIKE[kn]
        for tt, val in ((dict[t, int], {v: 1}), (dict[t, t], {v: v}), (Counter[t], Counter({v: 2})), (dict[str, dict[t, str]], {"k": {v: "a"}})):
            c = ctx.cls("K", [F("d", tt)])
            x = ctx.make(c, val)
            if not ctx.ok(x, "construct"):
                continue
            for fmt, (a, b) in FORMATS.items():
                if fmt in ("toml", "msgpack") and not isinstance(w, str):
                    continue
                if isinstance(w, bool):
                    continue
                s = ctx.call(ctx.get(f"{fmt}.{a}"), x)
                if ctx.ok(s, "key", format=fmt):
                    y = ctx.call(ctx.get(f"{fmt}.{b}"), c, s)
                    if ctx.ok(y, "key", format=fmt, document=s):
                        ctx.eq(y, x, "key", "a key is not restored with the declared class", format=fmt, document=s)

    return run


def top_enums(en):
    """Members written without a declared type, and read with it."""

    def run(ctx):
        e = ENUMS_[en][0]
        for mem in members(e):
            w = written(mem)
            for v, d0, t in ((mem, w, e), ([mem], [w], list[e]), ({"k": mem}, {"k": w}, dict[str, e]), ((mem, mem), (w, w), tuple[e, e])):
                d = ctx.to_dict(v)
                if ctx.ok(d, "top", member=mem):
                    ctx.check(hard(d) == hard(d0), "top", "a member at top level is not written as its unwrapped value", actual=d, expected=d0)
                d = ctx.to_dict(v, c=t)
                if ctx.ok(d, "top", member=mem):
                    ctx.check(hard(d) == hard(d0), "top", "a member at top level is not written as its unwrapped value", actual=d, expected=d0)
                    y = ctx.from_dict(t, d)
                    if ctx.ok(y, "top", data=d):
                        ctx.eq(y, v, "top", data=d)
            y = ctx.from_dict(e, mem)
            if ctx.ok(y, "top", member=mem):
                ctx.eq(y, mem, "top", "a member itself is not accepted")
        c = ctx.cls("An", [F("x", typing.Any)])
        mem = list(e)[-1]
        ctx.check(hard(ctx.to_dict(ctx.make(c, mem))) == hard({"x": written(mem)}), "top", "a member under Any")

    return run


def scenarios(tier):
    out = []
    some = ["field", "list", "dict", "optional", "nested2", "tuple", "generic", "transparent", "union-External", "flatten", "default", "alias-type", "list-opt", "kw-only", "inherit", "vtuple", "deque"]
    for en in ENUMS_:
        for pn, b in {**POSITIONS, **HASH_POSITIONS}.items():
            if tier == "thorough" or pn in some or en in ("str", "int", "deep", "intenum", "tuple"):
                if en == "none" and pn in ("optional", "pipe", "list-opt", "default", "generic", "flatten-opt"):
                    continue
                for m in ("strict", "disabled", "coerce") if pn in ("field", "list", "optional", "generic") or tier == "thorough" else ("strict",):
                    out.append(Scenario(f"enum:{en}:{pn}:{m}", enums(en, pn, b, m)))
        for kt in KEYTYPES if en not in ("list", "dict") else ():  # such values are no keys
            out.append(Scenario(f"key:{en}:{kt}", keys(en, kt)))
        out.append(Scenario(f"top:{en}", top_enums(en)))
    out.append(Scenario("stringified", stringified))
    for ln in LITS_:
        for wrap in ("field", "list", "opt", "dict", "union", "tuple", "key", "alias"):
            out.append(Scenario(f"literal:{ln}:{wrap}", literal(ln, wrap)))
    for kn in PRIMLIKE:
        for pn, b in {**POSITIONS, **HASH_POSITIONS}.items():
            for m in ("strict", "disabled", "coerce") if pn in ("field", "list", "dict", "generic") or tier == "thorough" else ("strict",):
                if m == "coerce" and kn in ("shout", "count", "rate", "subsub"):
                    continue  # coercing applies the conversions these classes override
                out.append(Scenario(f"prim:{kn}:{pn}:{m}", prims(pn, b, kn, m)))
        out.append(Scenario(f"primkey:{kn}", primkeys(kn)))
    return out
