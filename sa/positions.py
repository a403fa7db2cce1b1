"""Positions of a leaf in a schema: builds the type, wraps wire data and expected values.

A position is (name, build) with build(ctx, t, **classopts) -> Pos(type, data(w), value(v), hashable?).  `data` and
`value` put ONE leaf wire value / ONE leaf value at the position; other parts are fixed."""
from __future__ import annotations
import dataclasses
import typing
from collections import Counter, defaultdict, deque

from .harness import F
from .values import var


@dataclasses.dataclass
class Pos:
    type: object
    data: object
    value: object
    top: object = None


TV = typing.TypeVar("TV")
UV = typing.TypeVar("UV")


def _in_class(ctx, ft, data, value, name="C", **opts):
    c = ctx.cls(name, [F("before", str), F("x", ft), F("after", str)], **opts)
    return c, (lambda w: {"before": "b", "x": data(w), "after": "a"}), (lambda v: ctx.make(c, "b", value(v), "a"))


def _simple(tt, data, value, top=True):
    def b(ctx, t, **opts):
        c, d, v = _in_class(ctx, tt(t), data, value, **opts)
        return Pos(c, d, v, (tt(t), data, value) if top else None)

    return b


def _nest(depth):
    def b(ctx, t, **opts):
        cur, d, v = _in_class(ctx, t, lambda w: w, lambda v: v, "N0", **opts)
        for i in range(1, depth + 1):
            pc, pd, pv = cur, d, v
            cur, d, v = _in_class(ctx, pc, pd, pv, f"N{i}", **opts)
        return Pos(cur, d, v)

    return b


def _via(tt, data, value):
    """A class inside a container."""

    def b(ctx, t, **opts):
        i, d, v = _in_class(ctx, t, lambda w: w, lambda v: v, "I", **opts)
        c, d2, v2 = _in_class(ctx, tt(i), lambda w: data(d(w)), lambda x: value(v(x)), **opts)
        return Pos(c, d2, v2, (tt(i), lambda w: data(d(w)), lambda x: value(v(x))))

    return b


def _inherit(ctx, t, **opts):
    b = ctx.cls("B", [F("x", t)], **opts)
    c = ctx.cls("C", [F("y", str)], bases=(b,), **opts)
    return Pos(c, lambda w: {"x": w, "y": "y"}, lambda v: ctx.make(c, v, "y"))


def _flat(opt, depth):
    def b(ctx, t, **opts):
        i = ctx.cls("I", [F("x", t)], **opts)
        mk = lambda v: ctx.make(i, v)
        if depth == 2:
            i0 = i
            i = ctx.cls("M", [F("i", i0, opts=dict(flatten=True))], **opts)
            mk = lambda v: ctx.make(i, ctx.make(i0, v))
        c = ctx.cls("C", [F("y", str), F("i", typing.Optional[i] if opt else i, opts=dict(flatten=True))], **opts)
        return Pos(c, lambda w: {"y": "y", "x": w}, lambda v: ctx.make(c, "y", mk(v)))

    return b


def _transparent(ctx, t, **opts):
    i = ctx.cls("W", [F("x", t)], transparent=True, **opts)
    c = ctx.cls("C", [F("w", i), F("l", list[i])], **opts)
    return Pos(c, lambda w: {"w": w, "l": [w]}, lambda v: ctx.make(c, ctx.make(i, v), [ctx.make(i, v)]),
               (i, lambda w: w, lambda v: ctx.make(i, v)))


def _generic(ctx, t, **opts):
    g = ctx.cls("G", [F("x", TV), F("l", list[TV]), F("o", typing.Optional[TV])], bases=(typing.Generic[TV],), **opts)
    c = ctx.cls("C", [F("g", g[t])], **opts)
    return Pos(c, lambda w: {"g": {"x": w, "l": [w], "o": w}}, lambda v: ctx.make(c, ctx.make(g, v, [v], v)),
               (g[t], lambda w: {"x": w, "l": [w], "o": w}, lambda v: ctx.make(g, v, [v], v)))


def _union(tag):
    def b(ctx, t, **opts):
        i = ctx.cls("I", [F("x", t)], **opts)
        j = ctx.cls("J", [F("zz", int)], **opts)
        if tag == "Internal":
            tg = ctx.call(ctx.get("core.InternalTagging"), "t")
            w1 = lambda w: {"t": "I", "x": w}
        elif tag == "Adjacent":
            tg = ctx.call(ctx.get("core.AdjacentTagging"), "t", "c")
            w1 = lambda w: {"t": "I", "c": {"x": w}}
        elif tag == "External":
            tg = ctx.get("core.ExternalTagging")
            w1 = lambda w: {"I": {"x": w}}
        else:
            tg = ctx.get("core.Untagged")
            w1 = lambda w: {"x": w}
        c = ctx.cls("C", [F("u", typing.Union[j, i]), F("l", list[typing.Union[i, j]])], tagging=tg, **opts)
        top = (typing.Union[i, j], w1, lambda v: ctx.make(i, v)) if tag == "External" else None
        return Pos(c, lambda w: {"u": w1(w), "l": [w1(w)]}, lambda v: ctx.make(c, ctx.make(i, v), [ctx.make(i, v)]), top)

    return b


def _alias(ctx, t, **opts):
    ns = {}
    exec("type A = _t", {"_t": t}, ns)
    c, d, v = _in_class(ctx, ns["A"], lambda w: w, lambda v: v, **opts)
    return Pos(c, d, v, (ns["A"], lambda w: w, lambda v: v))


def _default(ctx, t, **opts):
    d = object()
    c = ctx.cls("C", [F("y", str), F("x", typing.Optional[t], default=None)], **opts)
    return Pos(c, lambda w: {"y": "y", "x": w}, lambda v: ctx.make(c, "y", v))


def _alias_key(ctx, t, **opts):
    c = ctx.cls("C", [F("x", t, opts=dict(alias=["y", "z"]))], **opts)
    return Pos(c, lambda w: {"z": w}, lambda v: ctx.make(c, v))


def _rename_key(ctx, t, **opts):
    c = ctx.cls("C", [F("x", t, opts=dict(rename="y"))], **opts)
    return Pos(c, lambda w: {"y": w}, lambda v: ctx.make(c, v))


def _kwonly(ctx, t, **opts):
    c = ctx.cls("C", [F("x", t, dc=dict(kw_only=True)), F("y", str)], **opts)
    return Pos(c, lambda w: {"y": "y", "x": w}, lambda v: ctx.make(c, "y", x=v))


I = lambda v: v
POSITIONS = {
    "field": _simple(lambda t: t, I, I),
    "list": _simple(lambda t: list[t], lambda w: [w], lambda v: [v]),
    "list2": _simple(lambda t: list[list[t]], lambda w: [[], [w, w]], lambda v: [[], [v, v]]),
    "deque": _simple(lambda t: deque[t], lambda w: [w], lambda v: deque([v])),
    "vtuple": _simple(lambda t: tuple[t, ...], lambda w: [w, w], lambda v: (v, v)),
    "tuple": _simple(lambda t: tuple[str, t], lambda w: ["s", w], lambda v: ("s", v)),
    "dict": _simple(lambda t: dict[str, t], lambda w: {"k": w}, lambda v: {"k": v}),
    "dict2": _simple(lambda t: dict[str, dict[str, t]], lambda w: {"k": {"l": w}}, lambda v: {"k": {"l": v}}),
    "optional": _simple(lambda t: typing.Optional[t], I, I),
    "pipe": _simple(lambda t: t | None if isinstance(t, type) else typing.Optional[t], I, I),
    "list-opt": _simple(lambda t: list[typing.Optional[t]], lambda w: [None, w], lambda v: [None, v]),
    "opt-list": _simple(lambda t: typing.Optional[list[t]], lambda w: [w], lambda v: [v]),
    "dict-list-tuple": _simple(lambda t: dict[str, list[tuple[t, str]]], lambda w: {"k": [[w, "s"]]},
                               lambda v: {"k": [(v, "s")]}),
    "nested1": _nest(1), "nested2": _nest(2), "nested3": _nest(3),
    "class-list": _via(lambda i: list[i], lambda d: [d], lambda v: [v]),
    "class-dict": _via(lambda i: dict[str, i], lambda d: {"k": d}, lambda v: {"k": v}),
    "class-tuple": _via(lambda i: tuple[i, ...], lambda d: [d], lambda v: (v,)),
    "class-deque": _via(lambda i: deque[i], lambda d: [d], lambda v: deque([v])),
    "class-opt": _via(lambda i: typing.Optional[i], I, I),
    "class-dict-list": _via(lambda i: dict[str, list[i]], lambda d: {"k": [d, d]}, lambda v: {"k": [v, v]}),
    "inherit": _inherit,
    "flatten": _flat(False, 1), "flatten2": _flat(False, 2), "flatten-opt": _flat(True, 1),
    "transparent": _transparent, "generic": _generic, "alias-type": _alias, "default": _default,
    "alias-key": _alias_key, "rename-key": _rename_key, "kw-only": _kwonly,
    "union-External": _union("External"), "union-Internal": _union("Internal"),
    "union-Adjacent": _union("Adjacent"), "union-Untagged": _union("Untagged"),
}
HASH_POSITIONS = {
    "set": _simple(lambda t: set[t], lambda w: [w], lambda v: {v}),
    "frozenset": _simple(lambda t: frozenset[t], lambda w: [w], lambda v: frozenset([v])),
}
