"""Abstract semantics of Python operations, builtins and standard-library constructors."""
from __future__ import annotations
import ast
import builtins
import collections
import copy
import dataclasses
import datetime
import decimal
import enum
import functools
import inspect
import ipaddress
import itertools
import operator
import pathlib
import types
import typing
import uuid
from collections import Counter, OrderedDict, defaultdict, deque
from collections.abc import Mapping, Set

from .interp import AFunc, Internal, Undecided, tag, is_tagged
from .values import (AV, P, abs_eq, choose, decide, has_av, resolve, term, var, tname)

_MISSING = object()

STR_SER = (
    decimal.Decimal, pathlib.Path, pathlib.PosixPath, pathlib.WindowsPath, pathlib.PurePath,
    pathlib.PurePosixPath, pathlib.PureWindowsPath, uuid.UUID, ipaddress.IPv4Address,
    ipaddress.IPv6Address, ipaddress.IPv4Network, ipaddress.IPv6Network, ipaddress.IPv4Interface,
    ipaddress.IPv6Interface,
)
DT = (datetime.date, datetime.time, datetime.datetime)
IPS = STR_SER[-6:]
PATHS = STR_SER[1:7]
PRIMS = (int, float, bool, str)


def rt(e):
    """An exception of the analysed program."""
    return tag(e)


def is_np(t):
    return isinstance(t, type) and t.__module__.split(".")[0] == "numpy"


class MemoFunc:
    """Model of functools.cache / lru_cache."""

    def __init__(self, ops, fn, maxsize=None):
        self.ops = ops
        self.fn = fn
        self.memo = {}
        self.maxsize = maxsize
        self.__wrapped__ = fn
        self.__name__ = getattr(fn, "__name__", "?")
        self.__qualname__ = getattr(fn, "__qualname__", "?")
        self.__doc__ = getattr(fn, "__doc__", None)
        self.__module__ = getattr(fn, "__module__", None)

    def __call__(self, /, *a, **k):
        try:
            if len(a) == 1 and not k and type(a[0]) in (int, str):
                key = a[0]  # CPython's key for a single plain argument; it differs from that of a subclass
            else:
                key = (a, tuple(k.items()))
            hit = key in self.memo
        except TypeError as e:
            raise rt(e)
        if hit:
            return self.memo[key]
        v = self.ops.call(self.fn, a, k)
        self.memo[key] = v
        if self.ops.memo_log is not None:
            self.ops.memo_log.append((self, key, v))
        return v

    def __get__(self, obj, owner=None):
        return self if obj is None else types.MethodType(self, obj)

    def cache_clear(self):
        self.memo.clear()

    def cache_info(self):
        return (0, 0, self.maxsize, len(self.memo))

    def __deepcopy__(self, m):
        return self


SYSTEM_MODULES = {"posix", "nt", "os", "subprocess", "shutil", "ctypes", "_ctypes", "socket", "_socket", "signal", "_signal", "pty", "runpy",
                  "_pickle", "pickle", "marshal", "shelve", "webbrowser", "multiprocessing", "tempfile"}
PURE = {"fspath", "getpid", "get_ident", "fsdecode", "fsencode", "getcwd", "get", "getenv"}
PATH_IO = {"write_text", "write_bytes", "read_text", "read_bytes", "open", "unlink", "rmdir", "mkdir", "touch", "rename", "replace", "symlink_to",
           "hardlink_to", "chmod", "lchmod", "exists", "is_file", "is_dir", "stat", "lstat", "iterdir", "glob", "rglob", "resolve", "home", "cwd"}


class Ops:
    def __init__(self):
        self.interp = None
        self.models = {}
        self.modules = {}      # model modules by name
        self.generated = []    # (code, globals) in order of generation
        self.memo_log = None
        self.on_event = None  # called before code is executed, imported or looked up by name
        self.on_effect = None  # called before every recorded write and every lock operation
        self.thread = 0        # the (modelled) thread that is running
        self.effects = None    # list of (kind, obj, detail, locks, where)
        self.locks_held = []
        self.loader = None
        self.exec_log = []
        self.calls_log = None
        from . import models

        models.install(self)

    # ------------------------------------------------------------------ effects

    def event(self, kind, *args):
        """Something that executes, imports or looks up by name is about to happen."""
        if self.on_event is not None:
            self.on_event(kind, args)

    def effect(self, kind, obj, detail=None):
        if self.effects is not None:
            self.effects.append((kind, obj, detail, tuple(self.locks_held), self.interp.where()))
        if self.on_effect is not None:
            self.on_effect(kind, obj, detail)

    # ------------------------------------------------------------------ truth / comparison

    def truth(self, v):
        if v is True or v is False or v is None:
            return v is True
        if isinstance(v, AV):
            v = resolve(v)
            if not isinstance(v, AV):
                return bool(v)
            t = v.typ
            if t is bool:
                return decide(v)
            if not isinstance(t, type):
                raise Undecided(f"truth of {v!r}")
            if issubclass(t, (int, float, str, bytes, complex, decimal.Decimal)) or is_np(t) or t in (list, dict):
                if t in (list, dict) or (is_np(t) and t.__name__ == "ndarray"):
                    raise Undecided(f"truth of {v!r}")
                c = AV("truth", (v,), bool)
                r = decide(c)
                if not r and t in (int, str, float, bytes) and v not in P.facts:
                    P.facts[v] = t()
                return r
            if getattr(t, "__bool__", None) is None and getattr(t, "__len__", None) is None:
                return True
            raise Undecided(f"truth of {v!r}")
        try:
            return bool(v)
        except Exception as e:
            raise tag(e)

    def compare(self, op, a, b):
        if op == "is":
            return self._is(a, b)
        if op == "is not":
            return not self._is(a, b)
        if op == "==":
            return self.eq(a, b)
        if op == "!=":
            r = self.eq(a, b)
            return (not r) if isinstance(r, bool) else AV("not", (r,), bool) if isinstance(r, AV) else not r
        if op == "in":
            return self.contains(b, a)
        if op == "not in":
            r = self.contains(b, a)
            return (not r) if isinstance(r, bool) else AV("not", (r,), bool)
        a, b = resolve(a), resolve(b)
        if isinstance(a, AV) or isinstance(b, AV):
            ta = a.typ if isinstance(a, AV) else type(a)
            tb = b.typ if isinstance(b, AV) else type(b)
            num = (int, float, decimal.Decimal)
            if (issubclass(ta, num) and issubclass(tb, num)) or (ta is tb and ta not in (dict,)) or (
                    issubclass(ta, str) and issubclass(tb, str)):
                return AV("cmp" + op, (a, b), bool)
            raise rt(TypeError(f"{op!r} not supported between {ta.__name__} and {tb.__name__}"))
        try:
            return _CMP[op](a, b)
        except Exception as e:
            raise tag(e)

    def _is(self, a, b):
        if isinstance(a, AV) or isinstance(b, AV):
            a, b = resolve(a), resolve(b)
            if isinstance(a, AV) and isinstance(b, AV):
                return a == b
            if isinstance(a, AV) or isinstance(b, AV):
                x, c = (a, b) if isinstance(a, AV) else (b, a)
                if x.typ is bool and isinstance(c, bool):
                    r = decide(x)
                    P.facts.setdefault(x, r)
                    return r is c
                return False
        return a is b

    def eq(self, a, b):
        if not isinstance(a, AV) and not isinstance(b, AV):
            ta = type(a)
            if ta in _SIMPLE and type(b) in _SIMPLE:
                return a == b
            if not has_av(a) and not has_av(b):
                try:
                    return a == b
                except Exception as e:
                    raise tag(e)
        return abs_eq(a, b)

    def contains(self, c, x):
        c, x = resolve(c), resolve(x)
        if isinstance(c, AV):
            t = c.typ
            if t is str or (isinstance(t, type) and issubclass(t, str)):
                tx = x.typ if isinstance(x, AV) else type(x)
                if not issubclass(tx, str):
                    raise rt(TypeError("'in <string>' requires string as left operand"))
                if isinstance(x, str) and x == "":
                    return True
                return AV("contains", (c, x), bool)
            if t in (bytes, bytearray):
                tx = x.typ if isinstance(x, AV) else type(x)
                if not issubclass(tx, (int, bytes, bytearray)):
                    raise rt(TypeError(f"a bytes-like object is required, not {tx.__name__!r}"))
                return AV("contains", (c, x), bool)
            if is_np(t):
                raise Undecided(f"membership in {c!r}")
            if c.op == "tolist":
                d = c.args[0].meta.get("dtype") if isinstance(c.args[0].meta, dict) else None
                if d is not None and d.kind not in "US" and issubclass(x.typ if isinstance(x, AV) else type(x), str):
                    return False  # a list of numbers, or of lists
            if not hasattr(t, "__contains__") and not hasattr(t, "__iter__"):
                raise rt(TypeError(f"argument of type {t.__name__!r} is not iterable"))
            raise Undecided(f"membership in {c!r}")
        if isinstance(c, str) and isinstance(x, AV):
            if not issubclass(x.typ, str):
                raise rt(TypeError("'in <string>' requires string as left operand"))
            return AV("contains", (c, x), bool)
        xav = has_av(x)
        keys = None
        if isinstance(c, (dict, set, frozenset, Mapping, Set)):
            if not xav and not any(isinstance(k, AV) or (type(k) is tuple and has_av(k)) for k in c):
                try:
                    return x in c
                except Exception as e:
                    raise tag(e)
            try:
                if x in c:
                    return True
            except TypeError as e:
                raise tag(e)
            keys = list(c)
        elif isinstance(c, (list, tuple, deque)):
            keys = list(c)
            if not xav and not has_av(keys):
                try:
                    return x in c
                except Exception as e:
                    raise tag(e)
        elif isinstance(c, (types.GeneratorType, map, filter, zip, type({}.values()), type({}.items()))):
            keys = self.iterate(c)
        else:
            if xav:
                raise Undecided(f"membership of unknown in {type(c).__name__}")
            try:
                return x in c
            except Exception as e:
                raise tag(e)
        for k in keys:
            if k is x:
                return True
            if self.truth(self.eq(k, x)):
                return True
        return False

    # ------------------------------------------------------------------ arithmetic

    def binop(self, op, a, b):
        a, b = resolve(a), resolve(b)
        if isinstance(a, AV) or isinstance(b, AV):
            ta = a.typ if isinstance(a, AV) else type(a)
            tb = b.typ if isinstance(b, AV) else type(b)
            if op == "+" and issubclass(ta, str) and issubclass(tb, str):
                return self.join_str([a, b])
            if op == "%" and issubclass(ta, str):
                return AV("fmt", (a, b), str)
            if op == "*" and (issubclass(ta, (str, list)) or issubclass(tb, (str, list))):
                return AV("mul", (a, b), str)
            if issubclass(ta, (int, float)) and issubclass(tb, (int, float)):
                t = float if (op == "/" or issubclass(ta, float) or issubclass(tb, float)) else int
                if op in ("/", "//", "%") and isinstance(b, AV):
                    if self.truth(self.eq(b, 0)):
                        raise rt(ZeroDivisionError("division by zero"))
                return AV("arith" + op, (a, b), t)
            if op == "|" and isinstance(a, type) or isinstance(b, type):
                raise Undecided("type union with unknown")
            raise rt(TypeError(f"unsupported operand type(s) for {op}: {ta.__name__} and {tb.__name__}"))
        if op in "-&|^" and isinstance(a, Set) and isinstance(b, Set) and (has_av(list(a)) or has_av(list(b))):
            return self._setop(op, a, b)
        if op == "%" and isinstance(a, str) and has_av(b):
            return AV("fmt", (a, b), str)
        try:
            return _BIN[op](a, b)
        except Exception as e:
            raise tag(e)

    def _setop(self, op, a, b):
        la, lb = list(a), list(b)
        if op == "-":
            return set(x for x in la if not self.truth(self.contains(lb, x)))
        if op == "&":
            return set(x for x in la if self.truth(self.contains(lb, x)))
        if op == "|":
            return set(la) | set(lb)
        return set(x for x in la if not self.truth(self.contains(lb, x))) | set(
            x for x in lb if not self.truth(self.contains(la, x)))

    def inplace(self, op, a, b):
        if isinstance(a, list) and op == "+":
            self.effect("mutate", a, "+=")
            a.extend(self.iterate(b))
            return a
        if isinstance(a, (set, dict)) and not isinstance(b, AV):
            self.effect("mutate", a, op + "=")
            if has_av(a) or has_av(b):
                if isinstance(a, dict):
                    a.update(b)
                    return a
                r = self._setop(op, a, b)
                a.clear()
                a.update(r)
                return a
            try:
                return _INP[op](a, b)
            except Exception as e:
                raise tag(e)
        return self.binop(op, a, b)

    def unop(self, op, v):
        v = resolve(v)
        if isinstance(v, AV):
            if issubclass(v.typ, (int, float)):
                return AV("neg" if op == "-" else "pos" if op == "+" else "inv", (v,), v.typ)
            raise rt(TypeError(f"bad operand type for unary {op}"))
        try:
            return {"-": operator.neg, "+": operator.pos, "~": operator.invert}[op](v)
        except Exception as e:
            raise tag(e)

    # ------------------------------------------------------------------ strings

    def join_str(self, parts):
        if all(type(p) is str for p in parts):
            return "".join(parts)
        flat = []
        for p in parts:
            p = resolve(p)
            if isinstance(p, str):
                if p == "":
                    continue
                if flat and isinstance(flat[-1], str):
                    flat[-1] += p
                    continue
                flat.append(p)
            elif isinstance(p, AV) and p.op == "fmt" and isinstance(p.args, tuple) and p.meta == "cat":
                for q in p.args:
                    if isinstance(q, str) and flat and isinstance(flat[-1], str):
                        flat[-1] += q
                    else:
                        flat.append(q)
            else:
                flat.append(p)
        if len(flat) == 1 and isinstance(flat[0], AV) and flat[0].typ is str:
            return flat[0]
        if not flat:
            return ""
        if all(isinstance(p, str) for p in flat):
            return "".join(flat)
        return AV("fmt", tuple(flat), str, "cat")

    def format_value(self, v, conv, spec):
        v = resolve(v)
        if conv == 114:
            v = self.repr(v)
        elif conv == 115:
            v = self.str(v)
        elif conv == 97:
            v = self.repr(v)
        if isinstance(v, AV) or isinstance(spec, AV):
            if not spec:
                return self.str(v)
            return AV("format", (v, spec), str)
        try:
            return format(v, spec)
        except Exception as e:
            raise tag(e)

    def str(self, v):
        v = resolve(v)
        if isinstance(v, AV):
            if v.typ is str:
                return v
            if getattr(v.typ, "__abs_foreign__", False):
                return AV("str", (v,), str)
            return AV("str", (v,), str)
        if isinstance(v, (list, tuple, dict, set, frozenset, deque)) and has_av(v):
            return AV("str", (v,), str)
        try:
            return str(v)
        except Exception as e:
            raise tag(e)

    def repr(self, v):
        v = resolve(v)
        if isinstance(v, AV) or (isinstance(v, (list, tuple, dict, set, frozenset, deque)) and has_av(v)):
            return AV("repr", (v,), str)
        try:
            return repr(v)
        except Exception as e:
            raise tag(e)

    # ------------------------------------------------------------------ containers

    def make_set(self, items):
        try:
            return set(items)
        except TypeError as e:
            raise tag(e)

    def make_dict(self, pairs):
        try:
            return dict(pairs)
        except TypeError as e:
            raise tag(e)

    def iterate(self, v):
        t = type(v)
        if t in (list, tuple, dict, set, range):
            return iter(v)
        v = resolve(v)
        if isinstance(v, AV):
            t = v.typ
            if isinstance(t, type) and issubclass(t, str):
                if not self.truth(AV("truth", (v,), bool)):
                    P.facts.setdefault(v, "")
                    return iter(())
                return iter((AV("chr", (v, 0), str),))
            if isinstance(t, type) and issubclass(t, bytes):
                return iter((AV("byte", (v, 0), int),))
            if isinstance(t, type) and not hasattr(t, "__iter__") and not hasattr(t, "__getitem__"):
                raise rt(TypeError(f"{t.__name__!r} object is not iterable"))
            if is_np(t) and t.__name__ == "ndarray":
                d = v.meta.get("dtype") if isinstance(v.meta, dict) else None
                if d is not None:
                    if choose(f"{v!r} has several dimensions"):
                        return iter((AV("elem", (v, 0), t, v.meta),))
                    return iter((AV("elem", (v, 0), d.type),))
            if t is list and v.op == "tolist":
                return iter((AV("elem", (v, 0), object),))
            raise Undecided(f"iteration over {v!r}")
        try:
            return iter(v)
        except TypeError as e:
            raise tag(e)

    def getitem(self, o, i):
        o = resolve(o)
        if isinstance(o, AV):
            t = o.typ
            i = resolve(i)
            if isinstance(t, type) and issubclass(t, (str, bytes)):
                if isinstance(i, slice):
                    return AV("slice", (o, i), str)
                if isinstance(i, (int, AV)) and (not isinstance(i, AV) or issubclass(i.typ, int)):
                    if choose(f"index {i} in range of {o!r}"):
                        return AV("chr", (o, i), str)
                    raise rt(IndexError("string index out of range"))
                raise rt(TypeError("string indices must be integers"))
            if isinstance(t, type) and not hasattr(t, "__getitem__"):
                raise rt(TypeError(f"{t.__name__!r} object is not subscriptable"))
            raise Undecided(f"subscript of {o!r}")
        if has_av(i) and not isinstance(i, slice):
            i = resolve(i)
            if isinstance(o, (dict, Mapping)):
                try:
                    if i in o:
                        return o[i]
                except TypeError as e:
                    raise tag(e)
                for k in list(o):
                    if self.truth(self.eq(k, i)):
                        return o[k]
                if isinstance(o, defaultdict):
                    return self._native(o.__getitem__, (i,), {})
                raise rt(KeyError(i))
            if isinstance(o, (list, tuple)) and isinstance(i, AV):
                if not issubclass(i.typ, int):
                    raise rt(TypeError("list indices must be integers or slices"))
                raise Undecided("list index unknown")
        elif isinstance(o, dict) and not isinstance(o, (defaultdict, Counter)) and any(isinstance(k, AV) for k in o):
            try:
                if i in o:
                    return o[i]
            except TypeError as e:
                raise tag(e)
            for k in list(o):
                if isinstance(k, AV) and self.truth(self.eq(k, i)):
                    return o[k]
            raise rt(KeyError(i))
        try:
            return o[i]
        except Exception as e:
            raise tag(e)

    def setitem(self, o, i, v):
        if isinstance(o, AV):
            raise rt(TypeError(f"{tname(o.typ)} object does not support item assignment"))
        self.effect("setitem", o, i)
        try:
            o[i] = v
        except Exception as e:
            raise tag(e)

    def delitem(self, o, i):
        if isinstance(o, AV):
            raise rt(TypeError(f"{tname(o.typ)} object does not support item deletion"))
        self.effect("delitem", o, i)
        try:
            del o[i]
        except Exception as e:
            raise tag(e)

    # ------------------------------------------------------------------ attributes

    def getattr(self, o, name):
        if isinstance(o, AV):
            return self.av_getattr(resolve(o), name)
        try:
            return getattr(o, name)
        except Exception as e:
            raise tag(e)

    def av_getattr(self, o, name):
        if not isinstance(o, AV):
            return self.getattr(o, name)
        t = o.typ
        if name == "__class__":
            return t
        if not isinstance(t, type):
            raise Undecided(f"attribute {name} of {o!r}")
        if not hasattr(t, name):
            d = o.meta.get("attrs") if isinstance(o.meta, dict) else None
            if d and name in d:
                return d[name]
            raise rt(AttributeError(f"{t.__name__!r} object has no attribute {name!r}"))
        v = inspect.getattr_static(t, name)
        if isinstance(v, (staticmethod, classmethod)):
            return getattr(t, name)
        if callable(v):
            return AVMethod(self, o, name)
        if inspect.isdatadescriptor(v) or isinstance(v, property):
            if isinstance(o.meta, dict) and name in o.meta:
                return o.meta[name]
            return AV("attr", (o, name), _ATTR_TYPES.get(name, object))
        return getattr(t, name)

    def setattr(self, o, name, v):
        if isinstance(o, AV):
            raise rt(AttributeError(f"{tname(o.typ)} object has no attribute {name!r}"))
        self.effect("setattr", o, name)
        try:
            setattr(o, name, v)
        except Exception as e:
            raise tag(e)

    def delattr(self, o, name):
        self.effect("delattr", o, name)
        try:
            delattr(o, name)
        except Exception as e:
            raise tag(e)

    # ------------------------------------------------------------------ calls

    def call(self, f, args, kwargs):
        t = type(f)
        if t is AFunc:
            return self.interp.call_afunc(f, args, kwargs)
        if t is types.MethodType:
            g = f.__func__
            if type(g) is AFunc:
                return self.interp.call_afunc(g, (f.__self__,) + tuple(args), kwargs)
            if type(g) is MemoFunc:
                return g(f.__self__, *args, **kwargs)
        elif t is MemoFunc:
            return f(*args, **kwargs)
        elif t is functools.partial:
            return self.call(f.func, tuple(f.args) + tuple(args), {**f.keywords, **kwargs})
        elif t is AVMethod:
            return f(*args, **kwargs)
        try:
            m = self.models.get(f)
        except TypeError:
            m = None
        if m is not None:
            return m(*args, **kwargs)
        if t is types.BuiltinMethodType:
            s = f.__self__
            if s is not None and not isinstance(s, types.ModuleType):
                return self.builtin_method(f, s, f.__name__, args, kwargs)
        elif isinstance(f, type):
            return self.call_type(f, args, kwargs)
        elif isinstance(f, AV):
            f2 = resolve(f)
            if isinstance(f2, AV):
                raise rt(TypeError(f"{tname(f.typ)!r} object is not callable"))
            return self.call(f2, args, kwargs)
        elif isinstance(f, types.GenericAlias) or hasattr(f, "__origin__") and type(f).__module__ == "typing":
            return self.call(typing.get_origin(f), args, kwargs)
        elif t is typing.NewType:
            return args[0]
        elif hasattr(f, "registry") and hasattr(f, "dispatch") and args:
            a0 = args[0]
            impl = f.dispatch(a0.typ if isinstance(a0, AV) else a0.__class__)
            return self.call(impl, args, kwargs)
        if t in (types.WrapperDescriptorType, types.MethodDescriptorType, types.ClassMethodDescriptorType) and args:
            # unbound method called through the class, e.g. str.join / dict.get / list.append
            a0 = args[0]
            if isinstance(a0, AV):
                return self.call(self.av_getattr(a0, f.__name__), args[1:], kwargs)
            b = getattr(super(type(a0), a0), f.__name__, None) if False else getattr(a0, f.__name__, None)
            if isinstance(b, types.BuiltinMethodType):
                return self.builtin_method(b, a0, f.__name__, args[1:], kwargs)
        return self._native(f, args, kwargs)

    def _native(self, f, args, kwargs):
        self.guard(f, args)
        if not getattr(f, "__abs_safe__", False):
            for a in args:
                if isinstance(a, AV) and not self._av_safe(f):
                    raise Undecided(f"no model for {getattr(f, '__qualname__', f)!r} on unknown {a!r}")
            for a in kwargs.values():
                if isinstance(a, AV) and not self._av_safe(f):
                    raise Undecided(f"no model for {getattr(f, '__qualname__', f)!r} on unknown {a!r}")
        try:
            return f(*args, **kwargs)
        except Exception as e:
            raise tag(e)

    def guard(self, f, args):
        """Refuse natives that act on the system the analysis runs on."""
        m = getattr(f, "__module__", None) or ""
        n = getattr(f, "__name__", "")
        me = getattr(f, "__self__", None)
        if m.startswith("jinja2") or type(me).__module__.startswith("jinja2"):
            self.event("template", n, *args)
        elif m in SYSTEM_MODULES or (isinstance(me, types.ModuleType) and me.__name__ in SYSTEM_MODULES and n not in PURE):
            self.event("system", f"{m}.{n}", *args)
            raise Undecided(f"call of {m}.{n}")
        elif (isinstance(me, pathlib.PurePath) or m == "pathlib") and n in PATH_IO:
            self.event("system", f"Path.{n}", *args)
            raise Undecided(f"call of Path.{n}")

    def _av_safe(self, f):
        if isinstance(f, types.FunctionType):
            return getattr(f, "__module__", "").startswith(("sa.", "abs_user", "contextlib")) or getattr(
                f, "__module__", None) == "abs_user" or f.__name__ in ("__init__", "__create_fn__")
        if isinstance(f, types.MethodType):
            return True
        if isinstance(f, (types.MethodWrapperType,)):
            return True
        if isinstance(f, types.BuiltinFunctionType):
            return f.__module__ in ("_functools", "itertools", "_operator")
        if not isinstance(f, (type, types.BuiltinFunctionType)):
            return type(f).__module__.startswith(("sa.", "abs_user")) or callable(f)
        return False

    def builtin_method(self, f, s, name, args, kwargs):
        if isinstance(s, type):
            if name == "fromisoformat" and issubclass(s, DT):
                return self.fromisoformat(s, *args)
            if name == "fromkeys":
                ks = list(self.iterate(args[0]))
                return self._native(f, (ks,) + tuple(args[1:]), kwargs)
            if any(isinstance(a, AV) for a in args):
                if name == "__new__":
                    return self.call_type(args[0] if args else s, args[1:], kwargs)
                raise Undecided(f"no model for {s.__name__}.{name}")
            return self._native(f, args, kwargs)
        if isinstance(s, str):
            if has_av(args):
                return self.str_method(s, name, args, kwargs)
            if name in ("join",) and args:
                return self._native(f, (list(self.iterate(args[0])),), kwargs) if not isinstance(
                    args[0], (list, tuple)) else self._native(f, args, kwargs)
            return self._native(f, args, kwargs)
        if isinstance(s, (dict, list, set, deque)) and name in _MUTATORS:
            self.effect("mutate", s, name)
        if isinstance(s, dict):
            if name in ("get", "pop", "setdefault", "__contains__", "__getitem__") and args:
                k = args[0]
                keyav = any(isinstance(x, AV) for x in s)
                if has_av(k) or keyav:
                    if name == "__contains__":
                        return self.contains(s, k)
                    if self.truth(self.contains(s, k)):
                        kk = k
                        if not _structural_in(s, k):
                            kk = next(x for x in s if self.truth(self.eq(x, k)))
                        v = s[kk]
                        if name == "pop":
                            del s[kk]
                        return v
                    if name == "get":
                        return args[1] if len(args) > 1 else None
                    if name == "pop":
                        if len(args) > 1:
                            return args[1]
                        raise rt(KeyError(k))
                    if name == "setdefault":
                        s[k] = args[1] if len(args) > 1 else None
                        return s[k]
                    raise rt(KeyError(k))
            if name == "update" and args:
                a = args[0]
                if isinstance(a, AV):
                    raise rt(TypeError("cannot update from unknown"))
        elif isinstance(s, (list, deque, tuple)):
            if name in ("index", "count", "remove") and (has_av(args) or has_av(s)):
                for i, x in enumerate(list(s)):
                    if self.truth(self.eq(x, args[0])):
                        if name == "remove":
                            del s[i]
                            return None
                        if name == "index":
                            return i
                if name == "count":
                    return sum(1 for x in s if self.truth(self.eq(x, args[0])))
                raise rt(ValueError("not in list"))
            if name in ("extend", "extendleft"):
                vals = list(self.iterate(args[0]))
                return self._nat(f, (vals,), kwargs)
        elif isinstance(s, (set, frozenset)):
            if name in ("update", "union", "difference", "intersection", "issubset", "issuperset",
                        "difference_update", "symmetric_difference", "intersection_update", "isdisjoint"):
                others = [list(self.iterate(a)) for a in args]
                if has_av(list(s)) or has_av(others):
                    r = set(s)
                    for o in others:
                        if name in ("update", "union"):
                            r = r | set(o)
                        elif name.startswith("difference"):
                            r = self._setop("-", r, set(o))
                        elif name.startswith("intersection"):
                            r = self._setop("&", r, set(o))
                        elif name.startswith("symmetric"):
                            r = self._setop("^", r, set(o))
                        elif name == "issubset":
                            return all(self.truth(self.contains(o, x)) for x in s)
                        elif name == "issuperset":
                            return all(self.truth(self.contains(s, x)) for x in o)
                        elif name == "isdisjoint":
                            return not any(self.truth(self.contains(s, x)) for x in o)
                    if name in ("update", "difference_update", "intersection_update"):
                        s.clear()
                        s.update(r)
                        return None
                    return type(s)(r)
                return self._nat(f, others, kwargs)
            if name in ("__contains__",):
                return self.contains(s, args[0])
            if name in ("remove", "discard") and (has_av(args) or has_av(list(s))):
                for x in list(s):
                    if self.truth(self.eq(x, args[0])):
                        set.discard(s, x)
                        return None
                if name == "remove":
                    raise rt(KeyError(args[0]))
                return None
        return self._nat(f, args, kwargs)

    def _nat(self, f, args, kwargs):
        try:
            return f(*args, **kwargs)
        except Exception as e:
            raise tag(e)

    def str_method(self, s, name, args, kwargs):
        if name == "join":
            a = args[0]
            items = list(self.iterate(a))
            out = []
            for i, x in enumerate(items):
                x = resolve(x)
                tx = x.typ if isinstance(x, AV) else type(x)
                if not issubclass(tx, str):
                    raise rt(TypeError(f"sequence item {i}: expected str instance, {tx.__name__} found"))
                if i:
                    out.append(s)
                out.append(x)
            return self.join_str(out)
        if name == "format":
            return AV("fmt", (s,) + tuple(args) + tuple(sorted(kwargs.items())), str)
        if name in ("startswith", "endswith"):
            return AV(name, (s,) + tuple(args), bool)
        if name in ("replace", "strip", "lstrip", "rstrip", "removeprefix", "removesuffix"):
            return AV(name, (s,) + tuple(args), str)
        if name in ("__eq__", "__ne__"):
            return self.compare("==" if name == "__eq__" else "!=", s, args[0])
        if name == "__contains__":
            return self.contains(s, args[0])
        raise Undecided(f"no model for str.{name} with unknown")

    # ------------------------------------------------------------------ constructors

    def call_type(self, cls, args, kwargs):
        if cls.__module__.startswith("jinja2"):
            self.event("template", cls.__name__, *args)
        if cls is type:
            if len(args) == 1:
                a = resolve(args[0])
                return a.typ if isinstance(a, AV) else type(a)
            return self._nat(cls, args, kwargs)
        if cls in _LISTLIKE:
            if len(args) == 1 and not kwargs:
                a = resolve(args[0])
                items = []
                for x in self.iterate(a):
                    items.append(x)
                return self._nat(cls, (items,), {})
            if cls is deque and args:
                return self._nat(cls, (list(self.iterate(args[0])),) + tuple(args[1:]), kwargs)
            return self._nat(cls, args, kwargs)
        if cls in (dict, OrderedDict):
            if args:
                a = resolve(args[0])
                if isinstance(a, AV):
                    raise rt(TypeError(f"{tname(a.typ)!r} object is not iterable"))
            return self._nat(cls, args, kwargs)
        if cls is defaultdict:
            if len(args) > 1 and isinstance(resolve(args[1]), AV):
                raise rt(TypeError("not iterable"))
            return self._nat(cls, args, kwargs)
        if cls is Counter:
            if args:
                a = resolve(args[0])
                if isinstance(a, AV):
                    return Counter(list(self.iterate(a)))
                if isinstance(a, (list, tuple, set, frozenset)) and has_av(a):
                    return self._nat(Counter, (a,), {})
            return self._nat(cls, args, kwargs)
        if cls in (enumerate, zip, reversed, map, filter, itertools.chain, itertools.zip_longest, itertools.islice):
            return self.iter_type(cls, args, kwargs)
        if issubclass(cls, BaseException):
            return self._nat(cls, args, kwargs)
        if isinstance(cls, enum.EnumMeta):
            return self.enum_call(cls, args, kwargs)
        if cls is bool:
            return self.truth(args[0]) if args else False
        if cls in (int, float, str, complex, bytes) or (issubclass(cls, PRIMS) and not is_np(cls)):
            if issubclass(cls, PRIMS) and any(isinstance(a, AV) or has_av(a) for a in args):
                return self.prim_ctor(cls, *args, **kwargs)
            return self._nat(cls, args, kwargs)
        if args and len(args) >= 1 and isinstance(resolve(args[0]), AV):
            if issubclass(cls, STR_SER):
                return self.strser_ctor(cls, resolve(args[0]))
            if is_np(cls):
                return self.np_ctor(cls, resolve(args[0]), *args[1:], **kwargs)
        elif is_np(cls) and args and has_av(args[0]):
            raise Undecided("numpy constructor on container of unknowns")
        if cls is functools.partial:
            return self._nat(cls, args, kwargs)
        if issubclass(cls, DT) and has_av(args):
            raise Undecided(f"{cls.__name__} constructed from unknown")
        if cls is slice:
            return slice(*args)
        if cls is range and has_av(args):
            raise Undecided("range over unknown")
        if issubclass(cls, STR_SER) and args:
            # concrete values: evaluate the library constructor
            return self._nat(cls, tuple(resolve(a) for a in args), kwargs)
        m = getattr(cls, "__abs_new__", None)
        if m is not None:
            return m(*args, **kwargs)
        return self._nat(cls, args, kwargs)

    def iter_type(self, cls, args, kwargs):
        if cls is filter:
            f, it = args
            return (x for x in self.iterate(it) if self.truth(x if f is None else self.call(f, (x,), {})))
        if cls is map:
            f, its = args[0], [self.iterate(a) for a in args[1:]]
            return (self.call(f, t, {}) for t in zip(*its))
        if cls is enumerate:
            return enumerate(self.iterate(args[0]), *args[1:], **kwargs)
        if cls is reversed:
            a = resolve(args[0])
            if isinstance(a, AV):
                raise Undecided("reversed unknown")
            return self._nat(cls, args, kwargs)
        if cls is itertools.islice:
            return self._nat(cls, (self.iterate(args[0]),) + tuple(args[1:]), kwargs)
        its = [self.iterate(a) for a in args]
        return self._nat(cls, tuple(its), kwargs)

    def enum_call(self, cls, args, kwargs):
        if len(args) != 1 or kwargs:
            return self._nat(cls, args, kwargs)
        v = resolve(args[0])
        if not has_av(v):
            return self._nat(cls, (v,), {})
        for m in cls:
            if self.truth(self.eq(v, m.value)) or v is m:
                return m
        if issubclass(cls, enum.Flag):
            tv = v.typ if isinstance(v, AV) else type(v)
            if issubclass(tv, int) and choose(f"{v!r} is a valid combination of {cls.__name__}"):
                return AV("enum", (cls, v), cls)
        raise rt(ValueError(f"{v!r} is not a valid {cls.__name__}"))

    def prim_ctor(self, cls, x=_MISSING, *rest, **kw):
        x = resolve(x)
        if rest or kw:
            if not isinstance(x, AV):
                raise Undecided("primitive constructor with unknown extra arguments")
            raise Undecided(f"{cls.__name__}() with several arguments")
        if not isinstance(x, AV):
            # container holding unknowns
            if issubclass(cls, str):
                return AV("str", (x,), cls) if cls is str else AV("ctor", (cls, AV("str", (x,), str)), cls)
            raise rt(TypeError(f"{cls.__name__}() argument must be a string or a number, not {type(x).__name__}"))
        t = x.typ
        if not isinstance(t, type):
            raise Undecided(f"conversion of {x!r}")
        base = str if issubclass(cls, str) else int if issubclass(cls, int) else float
        if t is cls:
            return x
        if base is str:
            # inverse: str subclass restored from its own text
            if x.op == "base" and x.args[0].typ is cls:
                return x.args[0]
            s = self.str(x)
            return s if cls is str else AV("ctor", (cls, s), cls)
        if x.op == "base" and x.args[0].typ is cls:
            return x.args[0]
        if x.op == "str" and len(x.args) == 1 and isinstance(x.args[0], AV):
            y = x.args[0]
            if y.typ is cls:
                return y
            if y.op == "base" and y.args[0].typ is cls:
                return y.args[0]
            if y.typ is base or (y.typ in (int, bool) and base is float):
                return self.prim_ctor(cls, y)
        if issubclass(t, (int, float)) or t is decimal.Decimal:
            if base is int and issubclass(t, float):
                if not choose(f"{x!r} is finite"):
                    raise rt(ValueError("cannot convert float NaN to integer"))
            return AV("ctor", (cls, x), cls)
        if is_np(t) and t.__name__ != "ndarray":
            return AV("ctor", (cls, x), cls)
        if issubclass(t, (str, bytes)):
            if choose(f"{cls.__name__}({x!r}) parses"):
                return AV("ctor", (cls, x), cls)
            raise rt(ValueError(f"invalid literal for {cls.__name__}()"))
        raise rt(TypeError(f"{cls.__name__}() argument must be a string or a real number, not {t.__name__}"))

    def strser_ctor(self, cls, x):
        t = x.typ
        res = _resolved_path(cls)
        if x.op == "str" and len(x.args) == 1 and isinstance(x.args[0], AV):
            y = x.args[0]
            if y.typ is res:
                return y
            if isinstance(y.typ, type) and issubclass(y.typ, PATHS) and issubclass(cls, PATHS):
                return AV("ctor", (res, y), res)
        if t is res:
            if issubclass(cls, uuid.UUID):
                raise rt(AttributeError("'UUID' object has no attribute 'replace'"))
            return x
        if not isinstance(t, type):
            raise Undecided(f"{cls.__name__}({x!r})")
        if issubclass(cls, PATHS):
            if issubclass(t, str) or issubclass(t, pathlib.PurePath):
                return AV("ctor", (res, x), res)
            raise rt(TypeError(f"argument should be a str or an os.PathLike object, not {t.__name__!r}"))
        if issubclass(cls, decimal.Decimal):
            if issubclass(t, (int, float)):
                return AV("ctor", (cls, x), cls)
            if issubclass(t, str):
                if choose(f"{cls.__name__}({x!r}) parses"):
                    return AV("ctor", (cls, x), cls)
                raise rt(decimal.InvalidOperation("ConversionSyntax"))
            raise rt(TypeError(f"conversion from {t.__name__} to Decimal is not supported"))
        if issubclass(cls, uuid.UUID):
            if issubclass(t, str):
                if choose(f"{cls.__name__}({x!r}) parses"):
                    return AV("ctor", (cls, x), cls)
                raise rt(ValueError("badly formed hexadecimal UUID string"))
            raise rt(AttributeError(f"{t.__name__!r} object has no attribute 'replace'"))
        if choose(f"{cls.__name__}({x!r}) parses"):
            if issubclass(t, (str, int)):
                return AV("ctor", (cls, x), cls)
        raise rt(ValueError(f"{x!r} does not appear to be valid for {cls.__name__}"))

    def fromisoformat(self, cls, x):
        x = resolve(x)
        if not has_av(x):
            try:
                return cls.fromisoformat(x)
            except Exception as e:
                raise tag(e)
        if isinstance(x, AV) and x.op == "isoformat" and x.args[0].typ is cls:
            return x.args[0]
        t = x.typ if isinstance(x, AV) else type(x)
        if not (isinstance(t, type) and issubclass(t, str)):
            raise rt(TypeError("fromisoformat: argument must be str"))
        if x.op == "str" and isinstance(x.args[0], AV) and x.args[0].typ is cls:
            # str(date)/str(time) is isoformat; datetime uses a blank separator, still accepted
            return x.args[0]
        if x.op == "isoformat":
            src = x.args[0].typ
            if cls is datetime.datetime and src is datetime.date:
                return AV("ctor", (cls, x), cls)
            raise rt(ValueError(f"Invalid isoformat string: {x!r}"))
        if choose(f"{cls.__name__}.fromisoformat({x!r}) parses"):
            return AV("ctor", (cls, x), cls)
        raise rt(ValueError(f"Invalid isoformat string: {x!r}"))

    # numpy ------------------------------------------------------------------

    def np_ctor(self, cls, x, *rest, **kw):
        import numpy as np

        if rest or kw:
            raise Undecided("numpy constructor arguments")
        if x.op in ("item", "isoformat") and isinstance(x.args[0], AV):
            y = x.args[0]
            if y.typ is cls:
                return y
            if y.op == "item" and y.args[0].typ is cls:
                return y.args[0]
        if x.op == "str" and isinstance(x.args[0], AV) and x.args[0].typ is cls:
            return x.args[0]
        if x.typ is cls:
            return x
        t = x.typ
        if issubclass(t, (int, float)) or is_np(t):
            return AV("np", (cls, x), cls)
        if issubclass(t, str):
            if issubclass(cls, np.str_):
                return AV("np", (cls, x), cls)
            if choose(f"{cls.__name__}({x!r}) parses"):
                return AV("np", (cls, x), cls)
            raise rt(ValueError(f"could not convert {x!r}"))
        raise rt(TypeError(f"{cls.__name__}() argument"))

    # imports ------------------------------------------------------------------

    def resolve_module(self, mod, level, fr):
        if level:
            pkg = fr.globals.get("__package__") or fr.globals.get("__name__", "")
            parts = pkg.split(".")
            base = ".".join(parts[: len(parts) - (level - 1)])
            name = base + ("." + mod if mod else "")
        else:
            name = mod
        return self.import_module(name, fr)

    def import_module(self, name, fr=None):
        return self.loader.import_module(name, fr)

    def import_from(self, mod, level, name, fr):
        m = self.resolve_module(mod, level, fr)
        if hasattr(m, name):
            return getattr(m, name)
        try:
            return self.import_module(m.__name__ + "." + name, fr)
        except ImportError:
            raise rt(ImportError(f"cannot import name {name!r} from {m.__name__!r}"))


def _structural_in(s, k):
    try:
        return k in s
    except TypeError:
        return False


def _resolved_path(cls):
    if cls is pathlib.Path:
        return pathlib.PosixPath
    if cls is pathlib.PurePath:
        return pathlib.PurePosixPath
    return cls


class AVMethod:
    """A method of an unknown, looked up on its run-time class."""

    __abs_safe__ = True

    def __init__(self, ops, obj, name):
        self.ops, self.obj, self.name = ops, obj, name

    def __repr__(self):
        return f"<method {self.name} of {self.obj!r}>"

    def __call__(self, /, *args, **kwargs):
        o, n, ops = self.obj, self.name, self.ops
        t = o.typ
        if issubclass(t, DT) and n == "isoformat":
            return AV("isoformat", (o,) + tuple(args) + tuple(sorted(kwargs.items())), str)
        if is_np(t):
            if n == "item" and not args:
                return np_item(o)
            if n == "astype" and len(args) == 1 and not kwargs:
                return ops.np_astype(o, args[0])
            if n == "tolist":
                return AV("tolist", (o,), list)
        if t is str or issubclass(t, str):
            if n in ("__str__",):
                from .models import base_of

                return base_of(o, str)
            if n in ("encode",):
                return AV("encode", (o,) + args, bytes)
            if n in ("startswith", "endswith", "isdigit", "isidentifier", "isnumeric", "isalpha", "islower", "isupper"):
                return AV(n, (o,) + args, bool)
            if n in ("strip", "lstrip", "rstrip", "lower", "upper", "replace", "title", "format", "casefold",
                     "removeprefix", "removesuffix"):
                return AV(n, (o,) + args, str)
            if n == "__contains__":
                return ops.contains(o, args[0])
        if n in ("__int__", "__index__", "__float__", "__bool__") and not is_np(t):
            from .models import base_of

            b = {"__float__": float, "__bool__": bool}.get(n, int)
            if issubclass(t, b) and b is not bool:
                return base_of(o, b)
            return ops.call(b, (o,), {})
        if n == "__len__":
            return AV("len", (o,), int)
        if n in ("__eq__", "__ne__"):
            return ops.compare("==" if n == "__eq__" else "!=", o, args[0])
        if n == "__str__":
            return ops.str(o)
        if n == "__repr__":
            return ops.repr(o)
        if n == "__hash__":
            return hash(o)
        if issubclass(t, bytes) and n == "decode":
            return AV("decode", (o,) + args, str)
        if n in ("is_integer", "is_nan", "is_finite"):
            return AV(n, (o,), bool)
        if n in ("strftime",):
            return AV(n, (o,) + args, str)
        raise Undecided(f"no model for method {tname(t)}.{n}")


def np_item(o):
    import numpy as np

    t = o.typ
    if issubclass(t, np.bool_):
        r = bool
    elif issubclass(t, np.integer):
        r = int
    elif issubclass(t, np.floating):
        r = float
    elif issubclass(t, np.datetime64):
        # depends on the unit and on the value
        r = datetime.datetime
        if not choose(f"{o!r}.item() is a datetime"):
            r = datetime.date
            if not choose(f"{o!r}.item() is a date"):
                if choose(f"{o!r} is NaT"):
                    return None
                r = int
    elif issubclass(t, np.str_):
        r = str
    elif issubclass(t, np.complexfloating):
        r = complex
    else:
        r = object
    if o.op == "np" and isinstance(o.args[1], AV) and o.args[1].typ is r and r in (int, bool, str):
        pass
    return AV("item", (o,), r)


_SIMPLE = {int, str, bool, float, type(None), bytes}
_LISTLIKE = {list, tuple, set, frozenset, deque}
_MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "update",
             "setdefault", "popitem", "add", "discard", "appendleft", "popleft", "extendleft", "rotate",
             "__setitem__", "__delitem__", "difference_update", "intersection_update"}
_CMP = {"<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}
_BIN = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "//": operator.floordiv,
        "%": operator.mod, "**": operator.pow, "<<": operator.lshift, ">>": operator.rshift, "|": operator.or_,
        "^": operator.xor, "&": operator.and_, "@": operator.matmul}
_INP = {"+": operator.iadd, "-": operator.isub, "|": operator.ior, "&": operator.iand, "^": operator.ixor}
_ATTR_TYPES = {"name": str, "value": object, "year": int, "code": int, "data": bytes}
