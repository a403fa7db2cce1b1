"""The abstract value domain: typed unknowns, provenance terms, path facts and trace partitioning."""
from __future__ import annotations
import dataclasses
import enum
import os
import zlib
from collections import Counter, defaultdict, deque
from collections.abc import Mapping, Set

from .interp import Internal, Undecided, tag


def _freeze(x):
    if isinstance(x, AV):
        return x
    if isinstance(x, (list, deque)):
        return (type(x).__name__,) + tuple(_freeze(e) for e in x)
    if isinstance(x, tuple):
        return tuple(_freeze(e) for e in x)
    if isinstance(x, (set, frozenset)):
        return (type(x).__name__,) + tuple(sorted((_freeze(e) for e in x), key=repr))
    if isinstance(x, dict):
        return ("dict",) + tuple((_freeze(k), _freeze(v)) for k, v in x.items())
    if isinstance(x, slice):
        return ("slice", x.start, x.stop, x.step)
    try:
        hash(x)
        return (type(x), x)
    except TypeError:
        return ("id", id(x))


class AV:
    """An abstract value: `op(args)` of run-time class `typ` ('var' = an unconstrained unknown)."""

    __slots__ = ("op", "args", "typ", "meta", "_k", "_h")

    def __init__(self, op, args, typ, meta=None):
        self.op = op
        self.args = args
        self.typ = typ
        self.meta = meta
        self._k = None
        self._h = None

    def key(self):
        if self._k is None:
            self._k = (self.op, self.typ, _freeze(self.args))
        return self._k

    def __hash__(self):
        if self._h is None:
            self._h = zlib.crc32(repr(self).encode())
        return self._h

    def __eq__(self, o):
        if self is o:
            return True
        return isinstance(o, AV) and self.key() == o.key()

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        if self.op == "var":
            return f"<{self.args[0]}:{tname(self.typ)}>"
        return f"{self.op}({', '.join(_short(a) for a in self.args)})"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def _leak(self, *a, **k):
        raise Internal(f"abstract value leaked into host operation: {self!r}")

    __bool__ = __iter__ = __len__ = __int__ = __float__ = __index__ = __call__ = _leak
    __lt__ = __le__ = __gt__ = __ge__ = __add__ = __radd__ = __getitem__ = __contains__ = _leak
    __mul__ = __rmul__ = __sub__ = __neg__ = _leak

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        return (AV, (self.op, self.args, self.typ, None))


def _short(a):
    if isinstance(a, type):
        return a.__name__
    r = repr(a)
    return r if len(r) < 200 else r[:200] + "…"


def tname(t):
    return getattr(t, "__name__", str(t))


def var(name, typ, meta=None):
    return AV("var", (name,), typ, meta)


def term(op, *args, typ, meta=None):
    return AV(op, args, typ, meta)


# ---------------------------------------------------------------------- path state


class Path:
    """Facts known on the current trace partition."""

    def __init__(self):
        self.facts = {}  # AV -> concrete constant
        self.truth = {}  # AV(bool) -> bool
        self.log = []
        self.forks = 0


P = Path()
MAX_DEPTH = 40


class Forker:
    """Trace partitioning by process duplication: each undecided condition splits the analysis."""

    def __init__(self):
        self.enabled = False
        self.is_child = False
        self.budget = None

    def split(self):
        if not self.enabled:
            raise Undecided("condition on unknown outside an exploration")
        if P.forks >= MAX_DEPTH:
            raise Undecided("too many undecided conditions on one path")
        P.forks += 1
        with self.budget.get_lock():
            self.budget.value -= 1
            if self.budget.value < 0:
                raise Undecided("path budget exhausted")
        pid = os.fork()
        if pid == 0:
            self.is_child = True
            return True
        _, status = os.waitpid(pid, 0)
        return False


FORK = Forker()


def resolve(x):
    if isinstance(x, AV):
        return P.facts.get(x, x) if P.facts else x
    return x


def decide(cond):
    """Truth of an abstract boolean on this path (splitting if unknown)."""
    if cond.op == "not":
        return not decide(cond.args[0])
    if cond.op == "and":
        return all(c if isinstance(c, bool) else decide(c) for c in cond.args)
    if cond in P.truth:
        return P.truth[cond]
    if cond in P.facts:
        return bool(P.facts[cond])
    r = FORK.split()
    P.truth[cond] = r
    P.log.append((repr(cond), r))
    if cond.op == "eq" and r:
        a, b = cond.args
        if isinstance(a, AV) and not has_av(b):
            P.facts[a] = b
        elif isinstance(b, AV) and not has_av(a):
            P.facts[b] = a
    if cond.typ is bool and cond.op == "var":
        P.facts[cond] = r
    return r


def choose(label):
    """An unconstrained non-deterministic choice (e.g. whether an unknown string parses)."""
    return decide(AV("choice", (label,), bool))


def has_av(x, depth=0):
    if isinstance(x, AV):
        return True
    if depth > 12:
        return False
    t = type(x)
    if t in (str, int, float, bool, type(None), bytes, type):
        return False
    if isinstance(x, (list, tuple, set, frozenset, deque)):
        return any(has_av(e, depth + 1) for e in x)
    if isinstance(x, dict):
        return any(has_av(k, depth + 1) or has_av(v, depth + 1) for k, v in x.items())
    if dataclasses.is_dataclass(x) and not isinstance(x, type):
        try:
            d = vars(x)
        except TypeError:
            return False
        return any(has_av(v, depth + 1) for v in d.values())
    return False


NUM = (int, float, complex)


def _maybe_equal_types(ta, tb):
    if ta is tb:
        return True
    if issubclass(ta, NUM) and issubclass(tb, NUM):
        return True
    if issubclass(ta, tb) or issubclass(tb, ta):
        return True
    try:
        import decimal
        if issubclass(ta, (int, float, decimal.Decimal)) and issubclass(tb, (int, float, decimal.Decimal)):
            return True
    except Exception:
        pass
    return False


def abs_eq(a, b):
    """== on values possibly containing unknowns: True, False or an abstract boolean."""
    a, b = resolve(a), resolve(b)
    if a is b:
        return True
    aa, ba = isinstance(a, AV), isinstance(b, AV)
    if aa or ba:
        if aa and ba and a == b:
            return True
        ta = a.typ if aa else type(a)
        tb = b.typ if ba else type(b)
        if not (isinstance(ta, type) and isinstance(tb, type)):
            raise Undecided("equality on value of unknown type")
        if getattr(ta, "__abs_foreign__", False) or getattr(tb, "__abs_foreign__", False):
            return False
        if not _maybe_equal_types(ta, tb):
            return False
        if aa and ba and repr(b) < repr(a):
            a, b = b, a
        c = AV("eq", (a, b), bool)
        if c in P.truth:
            return P.truth[c]
        # known different from / equal to another constant
        return c
    if not has_av(a) and not has_av(b):
        return a == b
    conds = []
    if isinstance(a, (list, tuple, deque)) and isinstance(b, (list, tuple, deque)):
        if not (isinstance(a, type(b)) or isinstance(b, type(a))):
            return False
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            c = abs_eq(x, y)
            if c is False:
                return False
            if c is not True:
                conds.append(c)
    elif isinstance(a, Mapping) and isinstance(b, Mapping):
        if len(a) != len(b):
            return False
        for k in a:
            if k not in b:
                if has_av(list(a)) or has_av(list(b)):
                    return AV("eq", (a, b), bool)
                return False
            c = abs_eq(a[k], b[k])
            if c is False:
                return False
            if c is not True:
                conds.append(c)
    elif isinstance(a, Set) and isinstance(b, Set):
        if a == b:
            return True
        if len(a) != len(b):
            return AV("eq", (a, b), bool) if a and b else False
        return AV("eq", (a, b), bool)
    elif dataclasses.is_dataclass(a) and not isinstance(a, type):
        if type(a) is not type(b):
            return False
        for f in dataclasses.fields(a):
            if not f.compare:
                continue
            c = abs_eq(getattr(a, f.name), getattr(b, f.name))
            if c is False:
                return False
            if c is not True:
                conds.append(c)
    else:
        return a == b if type(a).__eq__ is not object.__eq__ else a is b
    if not conds:
        return True
    if len(conds) == 1:
        return conds[0]
    return AV("and", tuple(conds), bool)


class Foreign:
    """A run-time class the program knows nothing about."""

    __abs_foreign__ = True
    __slots__ = ()
