"""Models of builtins and of the libraries the analysed program is written against.

Every library fact the analysis relies on is stated here (or in ops.py); nothing of the analysed
program itself is modelled by hand.
"""
from __future__ import annotations
import ast
import builtins
import collections
import copy
import dataclasses
import datetime
import decimal
import enum
import functools
import importlib
import inspect
import logging as _real_logging
import threading as _real_threading
import types
import typing
import uuid
from collections import Counter, OrderedDict, defaultdict, deque
from collections.abc import Mapping, Set

from .interp import AFunc, Internal, Undecided, tag
from .values import AV, P, choose, has_av, resolve, tname

_MISSING = object()


def rt(e):
    return tag(e)


class GenCode:
    """Result of compile() in the analysed program."""

    def __init__(self, tree, source, mode):
        self.tree, self.source, self.mode = tree, source, mode


class ClassModule(types.ModuleType):
    pass


def module(name, **attrs):
    m = types.ModuleType(name)
    m.__dict__.update(attrs)
    return m


# ---------------------------------------------------------------------------------------- builtins


def install(ops):
    M = ops.models
    B = builtins

    def reg(f):
        def deco(g):
            M[f] = g
            return g

        return deco

    def typ(x):
        x = resolve(x)
        return x.typ if isinstance(x, AV) else type(x)

    ops.typeof = typ

    @reg(B.isinstance)
    def m_isinstance(x, T):
        x = resolve(x)
        if isinstance(x, AV):
            t = x.typ
            if not isinstance(t, type) or t is object:
                raise Undecided(f"isinstance on value of unknown type {x!r}")
            if T is typing.Any or isinstance(T, tuple) and typing.Any in T:
                raise tag(TypeError("typing.Any cannot be used with isinstance()"))
            return m_issubclass(t, T)
        try:
            return isinstance(x, T)
        except Exception as e:
            raise tag(e)

    ops.isinstance = m_isinstance

    @reg(B.issubclass)
    def m_issubclass(c, T):
        if isinstance(c, AV):
            raise rt(TypeError("issubclass() arg 1 must be a class"))
        try:
            return issubclass(c, T)
        except Exception as e:
            raise tag(e)

    @reg(B.len)
    def m_len(x):
        x = resolve(x)
        if isinstance(x, AV):
            if isinstance(x.typ, type) and not hasattr(x.typ, "__len__"):
                raise rt(TypeError(f"object of type {x.typ.__name__!r} has no len()"))
            return AV("len", (x,), int)
        try:
            return len(x)
        except Exception as e:
            raise tag(e)

    @reg(B.hasattr)
    def m_hasattr(o, n):
        ops.event("attribute", n)
        if isinstance(n, AV):
            raise Undecided("hasattr with unknown name")
        try:
            ops.getattr(o, n)
            return True
        except AttributeError:
            return False

    @reg(B.getattr)
    def m_getattr(o, n, d=_MISSING):
        ops.event("attribute", n)
        if isinstance(n, AV):
            raise Undecided("getattr with unknown name")
        if not isinstance(n, str):
            raise rt(TypeError("attribute name must be string"))
        try:
            return ops.getattr(o, n)
        except AttributeError:
            if d is _MISSING:
                raise
            return d

    @reg(B.setattr)
    def m_setattr(o, n, v):
        ops.event("attribute", n)
        ops.setattr(o, n, v)

    @reg(B.delattr)
    def m_delattr(o, n):
        ops.event("attribute", n)
        ops.delattr(o, n)

    @reg(B.any)
    def m_any(it):
        for x in ops.iterate(it):
            if ops.truth(x):
                return True
        return False

    @reg(B.all)
    def m_all(it):
        for x in ops.iterate(it):
            if not ops.truth(x):
                return False
        return True

    @reg(B.sum)
    def m_sum(it, start=0):
        r = start
        for x in ops.iterate(it):
            r = ops.binop("+", r, x)
        return r

    def minmax(name, op):
        def f(*args, key=None, default=_MISSING):
            items = list(ops.iterate(args[0])) if len(args) == 1 else list(args)
            if not items:
                if default is not _MISSING:
                    return default
                raise rt(ValueError(f"{name}() iterable argument is empty"))
            best = items[0]
            kb = ops.call(key, (best,), {}) if key else best
            for x in items[1:]:
                kx = ops.call(key, (x,), {}) if key else x
                if ops.truth(ops.compare(op, kx, kb)):
                    best, kb = x, kx
            return best

        return f

    M[B.min] = minmax("min", "<")
    M[B.max] = minmax("max", ">")

    @reg(B.sorted)
    def m_sorted(it, key=None, reverse=False):
        items = list(ops.iterate(it))
        ks = [ops.call(key, (x,), {}) if key else x for x in items]
        if has_av(ks):
            raise Undecided("sorting unknown values")
        try:
            order = sorted(range(len(items)), key=lambda i: ks[i], reverse=reverse)
        except Exception as e:
            raise tag(e)
        return [items[i] for i in order]

    @reg(B.iter)
    def m_iter(x, *rest):
        if rest:
            raise Undecided("two-argument iter()")
        return ops.iterate(x)

    @reg(B.next)
    def m_next(it, default=_MISSING):
        if isinstance(it, AV):
            raise rt(TypeError(f"{tname(it.typ)!r} object is not an iterator"))
        try:
            return next(it)
        except StopIteration as e:
            if default is not _MISSING:
                return default
            raise tag(e)
        except TypeError as e:
            raise tag(e)

    M[B.repr] = ops.repr
    M[B.ascii] = ops.repr

    @reg(B.hash)
    def m_hash(x):
        try:
            return hash(x)
        except Exception as e:
            raise tag(e)

    @reg(B.id)
    def m_id(x):
        return id(x)

    @reg(B.callable)
    def m_callable(x):
        if isinstance(x, AV):
            return hasattr(x.typ, "__call__")
        return callable(x)

    @reg(B.print)
    def m_print(*a, **k):
        ops.printed.append([ops.str(x) for x in a])

    ops.printed = []

    @reg(B.format)
    def m_format(v, spec=""):
        return ops.format_value(v, -1, spec)

    @reg(B.abs)
    def m_abs(v):
        v = resolve(v)
        if isinstance(v, AV):
            return AV("abs", (v,), v.typ)
        return ops._nat(abs, (v,), {})

    @reg(B.round)
    def m_round(v, n=None):
        v = resolve(v)
        if isinstance(v, AV):
            return AV("round", (v, n), int if n is None else v.typ)
        return ops._nat(round, (v,) if n is None else (v, n), {})

    @reg(B.vars)
    def m_vars(o=_MISSING):
        if o is _MISSING or isinstance(o, AV):
            raise Undecided("vars()")
        return ops._nat(vars, (o,), {})

    @reg(B.dir)
    def m_dir(o=_MISSING):
        if o is _MISSING:
            raise Undecided("dir()")
        return ops._nat(dir, (o.typ if isinstance(o, AV) else o,), {})

    @reg(B.globals)
    def m_globals():
        return ops.interp.stack[-1].globals if ops.interp.stack else {}

    @reg(B.locals)
    def m_locals():
        return dict(ops.interp.stack[-1].locals)

    for f in (B.open, B.input, B.breakpoint):

        def m_blocked(*a, _f=f, **k):
            ops.sinks.append((_f.__name__, a, ops.interp.where()))
            ops.event("system", _f.__name__, *a)
            raise Undecided(f"call to {_f.__name__}")

        M[f] = m_blocked

    ops.sinks = []

    # dynamic code -------------------------------------------------------------------------------

    def parse(code, mode):
        if isinstance(code, GenCode):
            return code.tree, code.source
        code = resolve(code)
        if has_av(code):
            raise Undecided("generated code depends on run-time data")
        try:
            tree = ast.parse(code, "<generated>", mode=mode)
            compile(code, "<generated>", mode)
        except Exception as e:
            ops.bad_code.append((code, repr(e), ops.interp.where()))
            raise tag(e)
        return tree, code

    ops.bad_code = []

    @reg(B.exec)
    def m_exec(code, g=None, l=None):
        ops.event("execute", code)
        tree, src = parse(code, "exec")
        if g is None:
            g = m_globals()
        ops.exec_log.append(src)
        n = len(ops.exec_log)
        g.setdefault("__builtins__", builtins)
        ops.interp.run_module(tree, f"<generated#{n}>", g, l)
        ops.generated.append((f"<generated#{n}>", src, g))

    @reg(B.eval)
    def m_eval(code, g=None, l=None):
        ops.event("execute", code)
        tree, src = parse(code, "eval")
        if g is None:
            g = m_globals()
        if l:
            g = {**g, **l}
        ops.exec_log.append(src)
        from .interp import Compiler, Frame, Scope

        c = Compiler(ops.interp, "<eval>")
        return c.expr(tree.body, Scope("module"))(Frame(g, g))

    @reg(B.compile)
    def m_compile(src, filename="<string>", mode="exec", *a, **k):
        ops.event("execute", src)
        tree, src = parse(src, mode)
        return GenCode(tree, src, mode)

    @reg(B.__import__)
    def m_import(name, globals=None, locals=None, fromlist=(), level=0):
        ops.event("import", name)
        m = ops.import_module(name)
        if fromlist or "." not in name:
            return m
        return ops.import_module(name.split(".")[0])

    @reg(importlib.import_module)
    def m_import_module(name, package=None):
        ops.event("import", name)
        if name.startswith("."):
            n = len(name) - len(name.lstrip("."))
            base = package.split(".")
            name = ".".join(base[: len(base) - (n - 1)] + [name.lstrip(".")])
        return ops.import_module(name)

    # stdlib functions ---------------------------------------------------------------------------

    from .ops import MemoFunc

    @reg(functools.cache)
    def m_cache(f):
        return MemoFunc(ops, f)

    @reg(functools.lru_cache)
    def m_lru(maxsize=128, typed=False):
        if callable(maxsize) or isinstance(maxsize, AFunc):
            return MemoFunc(ops, maxsize, 128)
        return lambda f: MemoFunc(ops, f, maxsize)

    @reg(functools.reduce)
    def m_reduce(f, it, *init):
        it = iter(list(ops.iterate(it)))
        acc = init[0] if init else next(it)
        for x in it:
            acc = ops.call(f, (acc, x), {})
        return acc

    @reg(dataclasses.is_dataclass)
    def m_is_dataclass(o):
        o = resolve(o)
        return dataclasses.is_dataclass(o.typ if isinstance(o, AV) else o)

    @reg(dataclasses.fields)
    def m_fields(o):
        o = resolve(o)
        try:
            return dataclasses.fields(o.typ if isinstance(o, AV) else o)
        except Exception as e:
            raise tag(e)

    @reg(copy.deepcopy)
    def m_deepcopy(o, memo=None):
        if isinstance(o, AV):
            return o
        return ops._nat(copy.deepcopy, (o,), {})

    @reg(copy.copy)
    def m_copy(o):
        if isinstance(o, AV):
            return o
        return ops._nat(copy.copy, (o,), {})

    @reg(dataclasses.asdict)
    def m_asdict(o, **k):
        return ops._nat(dataclasses.asdict, (o,), k)

    @reg(dataclasses.replace)
    def m_replace(o, **ch):
        return ops._nat(dataclasses.replace, (o,), ch)

    @reg(typing.cast)
    def m_cast(t, v):
        return v

    install_modules(ops)


# ---------------------------------------------------------------------------------- model modules


class LoggerModel:
    __abs_safe__ = True

    def __init__(self, name="root"):
        self.name = name
        self.handlers = []
        self.level = 0
        self.propagate = True
        self.disabled = False

    def _noop(self, *a, **k):
        return None

    debug = info = warning = warn = error = critical = exception = log = setLevel = addHandler = _noop
    removeHandler = _noop

    def isEnabledFor(self, level):
        return False

    def getEffectiveLevel(self):
        return 30


class Blocked(Undecided):
    """The modelled second thread waits for a lock of the first one."""


class TrackedLock:
    """Lock/RLock model: the lockset analysis reads ops.locks_held at each recorded access."""

    __abs_safe__ = True
    reentrant = False

    def __init__(self, ops):
        self.ops = ops
        self.count = 0
        self.owner = None
        ops.locks.append(self)

    def acquire(self, blocking=True, timeout=-1):
        ops = self.ops
        if ops.on_effect is not None and not self.count:
            ops.on_effect("acquire", self, None)
        if self.count and self.owner != ops.thread:
            if not blocking:
                return False
            raise Blocked("waits for a lock")
        if self.count and not self.reentrant:
            ops.deadlocks.append(ops.interp.where())
            raise rt(RuntimeError("deadlock: lock already held by this thread"))
        self.count += 1
        self.owner = ops.thread
        ops.locks_held.append(self)
        return True

    def release(self):
        if not self.count:
            raise rt(RuntimeError("release unlocked lock"))
        self.count -= 1
        for i in range(len(self.ops.locks_held) - 1, -1, -1):
            if self.ops.locks_held[i] is self:
                del self.ops.locks_held[i]
                break
        if not self.count:
            self.owner = None
            if self.ops.on_effect is not None:
                self.ops.on_effect("release", self, None)

    def locked(self):
        return self.count > 0

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()
        return False


class TrackedRLock(TrackedLock):
    reentrant = True


def install_modules(ops):
    mods = ops.modules
    ops.deadlocks = []
    ops.black_fails = False
    ops.locks = []

    loggers = {}

    def getLogger(name="root"):
        return loggers.setdefault(name, LoggerModel(name))

    root = LoggerModel()
    lg = module("logging", getLogger=getLogger, basicConfig=lambda *a, **k: None, Logger=LoggerModel,
                NullHandler=lambda *a: None, StreamHandler=lambda *a: None)
    for n in ("DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL", "NOTSET"):
        setattr(lg, n, getattr(_real_logging, n))
    for n in ("debug", "info", "warning", "error", "critical", "exception", "log"):
        setattr(lg, n, root._noop)
        ops.models[getattr(lg, n)] = root._noop
    for f in (getLogger, lg.basicConfig):
        ops.models[f] = f
    mods["logging"] = lg

    th = module("threading")
    th.__dict__.update({k: v for k, v in vars(_real_threading).items() if not k.startswith("__")})

    def Lock():
        return TrackedLock(ops)

    def RLock():
        return TrackedRLock(ops)

    th.Lock, th.RLock = Lock, RLock
    mods["threading"] = th

    install_beartype(ops)
    install_formats(ops)

    class NoInspectionAvailable(Exception):
        pass

    def sa_inspect(subject, raiseerr=True):
        m = getattr(subject, "__abs_sqlalchemy__", None)
        if m:
            return m
        raise rt(NoInspectionAvailable(f"No inspection system is available for {subject!r}"))

    ops.models[sa_inspect] = sa_inspect
    mods["sqlalchemy"] = module("sqlalchemy", inspect=sa_inspect)
    mods["sqlalchemy.inspection"] = module("sqlalchemy.inspection", inspect=sa_inspect)
    mods["sqlalchemy.exc"] = module("sqlalchemy.exc", NoInspectionAvailable=NoInspectionAvailable)

    class FileMode:
        __abs_safe__ = True

        def __init__(self, **k):
            self.k = k

    def format_str(code, mode=None):
        # any text with the same syntax tree
        if ops.black_fails:
            raise rt(ValueError("cannot format"))
        return "# formatted\n" + ast.unparse(ast.parse(code)) + "\n"

    ops.models[format_str] = format_str
    mods["black"] = module("black", FileMode=FileMode, format_str=format_str)


# ------------------------------------------------------------------------------------- beartype


def _same(a, b):
    return a is b


class Conform:
    def __init__(self, ops):
        self.ops = ops
        self._deep = {}

    def deep(self, origin):
        """Does the type checker look inside this container?  Asked of the installed library."""
        if origin not in self._deep:
            from beartype.door import is_bearable

            try:
                if issubclass(origin, Mapping) and not issubclass(origin, Counter):
                    mk = (lambda: defaultdict(int, {"a": "b"})) if origin is defaultdict else (
                        lambda: OrderedDict({"a": "b"})) if origin is OrderedDict else (lambda: {"a": "b"})
                    r = not is_bearable(mk(), origin[int, int])
                elif issubclass(origin, Counter):
                    r = not is_bearable(Counter({"a": 1}), typing.Counter[int])
                elif issubclass(origin, Set) or origin in (set, frozenset):
                    mk = frozenset if origin is frozenset else set
                    r = not is_bearable(mk(["a"]), origin[int])
                elif issubclass(origin, deque):
                    r = not is_bearable(deque(["a"]), deque[int])
                else:
                    r = not is_bearable(["a"], origin[int])
            except Exception:
                r = True
            self._deep[origin] = r
        return self._deep[origin]

    def __call__(self, v, hint, tower=False):
        ops = self.ops
        v = resolve(v)
        if hint is typing.Any or hint is object:
            return True
        if hint is None or hint is type(None):
            return v is None
        if isinstance(hint, typing.TypeVar):
            if hint.__bound__ is not None:
                return self(v, hint.__bound__)
            if hint.__constraints__:
                return any(self(v, c) for c in hint.__constraints__)
            return True
        if isinstance(hint, typing.NewType):
            return self(v, hint.__supertype__)
        if isinstance(hint, typing.TypeAliasType):
            return self(v, hint.__value__)
        if isinstance(hint, dataclasses.InitVar):
            return self(v, hint.type)
        origin = typing.get_origin(hint)
        args = typing.get_args(hint)
        if origin is typing.Union or isinstance(hint, types.UnionType):
            for a in args:
                if self(v, a):
                    return True
            return False
        if origin is typing.Literal:
            for a in args:
                if isinstance(a, enum.Enum):
                    if v is a:
                        return True
                    continue
                if ops.typeof(v) is type(a) and ops.truth(ops.eq(v, a)):
                    return True
            return False
        if origin is typing.Annotated:
            return self(v, args[0])
        if origin in (typing.ClassVar, typing.Final):
            return self(v, args[0]) if args else True
        if origin is type:
            return isinstance(v, type) and (not args or isinstance(args[0], type) and issubclass(v, args[0]))
        if isinstance(hint, str):
            raise Undecided(f"unresolved annotation {hint!r}")
        if origin is None:
            if hint is typing.Union or hint is typing.Optional:
                return True
            if isinstance(hint, type):
                if tower and hint is float:
                    return ops.isinstance(v, (int, float))
                jt = getattr(hint, "array_type", None)
                if jt is not None and hint.__module__.startswith("jaxtyping"):
                    if ops.typeof(v) is not jt:
                        return False
                    d = v.meta.get("dtype") if isinstance(v, AV) and isinstance(v.meta, dict) else getattr(v, "dtype", None)
                    return d is None or not isinstance(hint.dtypes, (list, tuple)) or d.name in hint.dtypes
                return ops.isinstance(v, hint)
            if isinstance(hint, enum.Enum):
                raise rt(TypeError(f"{hint!r} is not a type hint"))
            raise rt(_roar().BeartypeDecorHintNonpepException(f"type hint {hint!r} invalid"))
        if not isinstance(origin, type):
            raise Undecided(f"annotation {hint!r}")
        if origin.__module__ == "collections.abc" and origin.__name__ == "Callable":
            return callable(v)
        try:
            ok = ops.isinstance(v, origin)
        except TypeError as e:
            raise tag(e)
        if not ok:
            return False
        if origin.__module__ == "numpy" and origin.__name__ == "ndarray" and args:
            want = typing.get_args(args[1])
            d = v.meta.get("dtype") if isinstance(v, AV) and isinstance(v.meta, dict) else getattr(v, "dtype", None)
            return d is None or not want or not isinstance(want[0], type) or issubclass(d.type, want[0])
        if isinstance(v, AV) or not args and origin is not tuple:
            return True
        if origin is tuple:
            if not args and hint is typing.Tuple:
                return True
            if len(args) == 2 and args[1] is Ellipsis:
                return self.elems(list(v), args[0])
            if args == ((),):
                args = ()
            return len(v) == len(args) and all(self(x, a) for x, a in zip(v, args))
        if issubclass(origin, Counter):
            return not self.deep(Counter) or self.elems(list(v), args[0], first=True)
        if issubclass(origin, Mapping):
            if not v or not self.deep(origin):
                return True
            k = next(iter(v))
            return self(k, args[0]) and self(v[k], args[1])
        if issubclass(origin, (list, set, frozenset, deque, collections.abc.Collection)) and args:
            if not self.deep(origin):
                return True
            return self.elems(list(v), args[0], first=not issubclass(origin, collections.abc.Sequence))
        return True

    def elems(self, xs, hint, first=False):
        if not xs:
            return True
        if first:
            return self(xs[0], hint)
        rs = [self(x, hint) for x in xs]
        if all(rs):
            return True
        if not any(rs):
            return False
        return choose(f"the type checker samples a conforming item of {xs!r}")


def _roar():
    import beartype.roar

    return beartype.roar


def install_beartype(ops):
    import beartype as real
    import beartype.roar as roar
    from beartype import BeartypeConf, BeartypeStrategy

    conform = Conform(ops)
    ops.conform = conform

    def is_bearable(obj, hint, *, conf=None):
        return conform(obj, hint, tower=bool(conf and conf.is_pep484_tower))

    def die_if_unbearable(obj, hint, *, conf=None, **k):
        if not conform(obj, hint):
            raise rt(roar.BeartypeDoorHintViolation(f"{obj!r} violates {hint!r}"))

    def hints_of(fn, cls):
        out = {}
        for k, h in fn.__annotations__.items():
            if isinstance(h, str):
                import sys

                ns = vars(sys.modules[cls.__module__])
                try:
                    h = eval(h, {"__builtins__": builtins, **ns}, dict(vars(cls)))  # an annotation of the scenario
                except Exception:
                    pass
            out[k] = h
        return out

    def wrap_init(fn, cls, conf):
        if getattr(fn, "__abs_checked__", False):
            return fn
        sig = inspect.signature(fn)

        def checked(self, /, *args, **kwargs):
            try:
                ba = sig.bind(self, *args, **kwargs)
            except TypeError:
                return fn(self, *args, **kwargs)
            hints = hints_of(fn, cls)
            for i, (k, v) in enumerate(ba.arguments.items()):
                if i == 0 or k not in hints:
                    continue
                h = hints[k]
                if h is dataclasses.MISSING:
                    continue
                if isinstance(h, str):
                    # a forward reference to a class: compare by class name
                    if tname(ops.typeof(v)) != h:
                        ok = False
                    else:
                        ok = True
                else:
                    ok = conform(v, h, tower=conf.is_pep484_tower)
                if not ok:
                    vt = conf.violation_param_type or roar.BeartypeCallHintParamViolation
                    raise rt(vt(f"Method {cls.__name__}.__init__() parameter {k}={v!r} violates type hint {h!r}"))
            return fn(self, *args, **kwargs)

        functools.update_wrapper(checked, fn)
        checked.__abs_checked__ = True
        return checked

    def decorate(obj, conf):
        if conf.strategy is BeartypeStrategy.O0:
            return obj
        if isinstance(obj, type):
            init = obj.__dict__.get("__init__")
            if isinstance(init, types.FunctionType):
                obj.__init__ = wrap_init(init, obj, conf)
            return obj
        return obj

    def beartype(obj=None, *, conf=None):
        conf = conf or BeartypeConf()
        if obj is None:
            return lambda o: decorate(o, conf)
        return decorate(obj, conf)

    for f in (is_bearable, die_if_unbearable, beartype):
        ops.models[f] = f
    m = module("beartype", beartype=beartype, BeartypeConf=BeartypeConf, BeartypeStrategy=BeartypeStrategy,
               __version__=real.__version__)
    m.door = module("beartype.door", is_bearable=is_bearable, die_if_unbearable=die_if_unbearable)
    m.roar = roar
    ops.modules["beartype"] = m
    ops.modules["beartype.door"] = m.door
    ops.modules["beartype.roar"] = roar


# -------------------------------------------------------------------------------- format backends


def is_np_scalar(t):
    import numpy as np

    return isinstance(t, type) and issubclass(t, np.generic)


def base_of(x, b):
    """The value a text/binary format gives back for an instance of a subclass of a primitive."""
    x = resolve(x)
    if isinstance(x, AV):
        if x.typ is b:
            return x
        if x.op == "ctor" and isinstance(x.args[1], AV) and x.args[1].typ is b:
            return x.args[1]
        return AV("base", (x,), b)
    if type(x) is b:
        return x
    if b is str:
        return str.__str__(x) if not isinstance(x, enum.Enum) else str(x.value)
    return b(x.value) if isinstance(x, enum.Enum) else b(x)


class Encoder:
    """Models dumps: value tree -> document tree, for each backend's documented type table."""

    def __init__(self, ops, fmt, opts):
        self.ops, self.fmt, self.opts = ops, fmt, opts

    def fail(self, x):
        raise rt(TypeError(f"{self.fmt}: object of type {tname(self.ops.typeof(x))} is not serializable"))

    def default(self, x):
        d = self.opts.get("default")
        if d is None:
            self.fail(x)
        return self.enc(self.ops.call(d, (x,), {}))

    def enc(self, x):
        x = resolve(x)
        t = self.ops.typeof(x)
        f = self.fmt
        if x is None:
            if f == "toml":
                self.fail(x)
            return None
        if isinstance(x, AV) and x.op == "tolist" and t is list:
            return x
        exact = f in ("yaml",)
        if f == "pickle":
            return copy.deepcopy(x)
        if f == "orjson" and isinstance(x, enum.Enum):
            return self.enc(x.value)
        if isinstance(t, type):
            if t is bool:
                return x
            for b in (str, int, float):
                if t is b:
                    return x
                if issubclass(t, b):
                    if is_np_scalar(t):
                        break
                    if exact or (f == "orjson" and self.opts.get("option", 0) & 2):
                        self.fail(x)
                    if f == "orjson" and b is not str and not isinstance(x, enum.Enum) and b is float:
                        self.fail(x)
                    return base_of(x, b)
            if t is bytes and f in ("yaml", "msgpack"):
                return x
            if f == "toml" and t in (decimal.Decimal,):
                return AV("float_of", (x,), float) if isinstance(x, AV) else float(x)
            if issubclass(t, (datetime.datetime, datetime.date, datetime.time)):
                if f == "yaml" and not issubclass(t, datetime.time):
                    return x
                if f == "toml":
                    return x
                if f == "orjson":
                    return AV("isoformat", (x,), str) if isinstance(x, AV) else x.isoformat()
                return self.default(x)
            if issubclass(t, uuid.UUID) and f == "orjson":
                return AV("str", (x,), str) if isinstance(x, AV) else str(x)
            if t.__module__.split(".")[0] == "numpy" and f == "orjson" and self.opts.get("option", 0) & 16:
                if t.__name__ == "ndarray":
                    return AV("tolist", (x,), list)
                from .ops import np_item

                if t.__name__ == "datetime64":
                    y = np_item(x)
                    return AV("str", (x,), str) if y is None or not issubclass(y.typ, datetime.date) else AV("isoformat", (y,), str)

                return np_item(x)
        if isinstance(x, AV):
            return self.default(x)
        if isinstance(x, dict) or (f == "toml" and isinstance(x, Mapping)):
            if exact and type(x) is not dict:
                self.fail(x)
            out = {}
            for k, v in x.items():
                out[self.key(k)] = self.enc(v)
            return out
        if f == "msgpack" and isinstance(x, self.ops.ExtType):
            return x
        if isinstance(x, (list, tuple)):
            if exact and type(x) not in (list, tuple):
                self.fail(x)
            return [self.enc(e) for e in x]
        if isinstance(x, set) and f == "yaml":
            return set(self.enc(e) for e in x)
        return self.default(x)

    def key(self, k):
        k = resolve(k)
        t = self.ops.typeof(k)
        f = self.fmt
        if f in ("json", "orjson"):
            if isinstance(k, enum.Enum) and f == "orjson":
                return self.key(k.value)
            if issubclass(t, str):
                return base_of(k, str)
            if f == "orjson" and not self.opts.get("option", 0) & 4:
                raise rt(TypeError("Dict key must be str"))
            if k is None:
                return "null"
            if t is bool:
                return "true" if k else "false"
            if issubclass(t, (int, float)) and not is_np_scalar(t):
                b = int if issubclass(t, int) else float
                k = base_of(k, b)
                return AV("str", (k,), str) if isinstance(k, AV) else str(k)
            if f == "orjson" and isinstance(k, AV) and issubclass(t, (datetime.date, datetime.time)):
                return AV("isoformat", (k,), str)
            raise rt(TypeError(f"keys must be str, int, float, bool or None, not {t.__name__}"))
        if f == "toml":
            if issubclass(t, str):
                return base_of(k, str)
            raise rt(TypeError(f"toml key of type {t.__name__}"))
        if isinstance(k, tuple):
            if f == "yaml":
                return tuple(self.enc(e) for e in k)
            return tuple(self.enc(e) for e in k)
        return self.enc(k)


def decode_tree(x, seq):
    if isinstance(x, list):
        return seq(decode_tree(e, seq) for e in x)
    if isinstance(x, dict):
        return {k: decode_tree(v, seq) for k, v in x.items()}
    if isinstance(x, set):
        return set(x)
    return x


def blob(fmt, tree, typ):
    return AV("doc", (fmt, tree), typ)


def install_formats(ops):
    mods = ops.modules

    def get_doc(x, fmts, err):
        x = resolve(x)
        if isinstance(x, AV):
            y = x
            while y.op in ("encode", "decode", "attr") and isinstance(y.args[0], AV):
                y = y.args[0]
            if y.op == "doc":
                if y.args[0] in fmts:
                    return y.args[1]
                raise rt(err(f"document is {y.args[0]}"))
            if choose(f"{x!r} is malformed"):
                raise rt(err("malformed document"))
            raise Undecided(f"parsing of unknown document {x!r}")
        t = type(x)
        if t not in (str, bytes):
            raise rt(TypeError(f"document must be str or bytes, not {t.__name__}"))
        raise Undecided("parsing of a literal document")

    # json
    import json as rj

    def j_dumps(obj, **opts):
        ops.backend_log.append(("json.dumps", opts))
        return blob("json", Encoder(ops, "json", opts).enc(obj), str)

    def j_loads(s, **opts):
        ops.backend_log.append(("json.loads", opts))
        return decode_tree(get_doc(s, ("json", "orjson"), rj.JSONDecodeError_ if False else ValueError), list)

    ops.backend_log = []
    mods["json"] = module("json", dumps=j_dumps, loads=j_loads, JSONDecodeError=rj.JSONDecodeError,
                          JSONEncoder=rj.JSONEncoder)

    # orjson
    def oj_dumps(obj, default=None, option=0):
        ops.backend_log.append(("orjson.dumps", {"default": default, "option": option}))
        return blob("orjson", Encoder(ops, "orjson", {"default": default, "option": option or 0}).enc(obj), bytes)

    def oj_loads(s):
        ops.backend_log.append(("orjson.loads", {}))
        return decode_tree(get_doc(s, ("json", "orjson"), ValueError), list)

    mods["orjson"] = module("orjson", dumps=oj_dumps, loads=oj_loads, OPT_SERIALIZE_NUMPY=16, OPT_NON_STR_KEYS=4,
                            OPT_PASSTHROUGH_SUBCLASS=2, OPT_INDENT_2=1, OPT_SORT_KEYS=32, OPT_APPEND_NEWLINE=1024,
                            JSONDecodeError=rj.JSONDecodeError)

    # yaml
    def y_dump(obj, stream=None, **opts):
        ops.backend_log.append(("yaml.safe_dump", opts))
        return blob("yaml", Encoder(ops, "yaml", {}).enc(obj), str)

    def y_load(s):
        ops.backend_log.append(("yaml.safe_load", {}))
        return decode_tree(get_doc(s, ("yaml",), ValueError), list)

    class Loader:
        pass

    class SafeLoader(Loader):
        pass

    class Dumper:
        pass

    class SafeDumper(Dumper):
        pass

    def unsafe(name):
        def f(doc, *a, **k):
            l = k.get("Loader", a[0] if a else None)
            if not (isinstance(l, type) and issubclass(l, SafeLoader)):
                ops.sinks.append((name, (), ops.interp.where()))
                ops.event("unsafe", name)
            ops.backend_log.append((name, k))
            t = decode_tree(get_doc(doc, ("yaml",), ValueError), list)
            return iter([t]) if name.endswith("_all") else t

        ops.models[f] = f
        return f

    def unsafe_dump(obj, stream=None, Dumper=Dumper, **opts):
        if not (isinstance(Dumper, type) and issubclass(Dumper, SafeDumper)):
            ops.event("unsafe", "yaml.dump")
        ops.backend_log.append(("yaml.dump", opts))
        return blob("yaml", Encoder(ops, "yaml", {}).enc(obj), str)

    ops.models[unsafe_dump] = unsafe_dump

    class YAMLError(Exception):
        pass

    mods["yaml"] = module("yaml", safe_dump=y_dump, safe_load=y_load, YAMLError=YAMLError, load=unsafe("yaml.load"),
                          unsafe_load=unsafe("yaml.unsafe_load"), full_load=unsafe("yaml.full_load"),
                          dump=unsafe_dump, load_all=unsafe("yaml.load_all"), Loader=Loader, FullLoader=Loader, UnsafeLoader=Loader,
                          SafeLoader=SafeLoader, CSafeLoader=SafeLoader, Dumper=Dumper, SafeDumper=SafeDumper, CSafeDumper=SafeDumper)

    # toml
    def t_dumps(obj, **opts):
        ops.backend_log.append(("tomli_w.dumps", opts))
        if not isinstance(obj, Mapping):
            raise rt(TypeError("toml document must be a table") if isinstance(obj, AV) else AttributeError("items"))
        return blob("toml", Encoder(ops, "toml", {}).enc(obj), str)

    def t_loads(s, **opts):
        ops.backend_log.append(("tomllib.loads", opts))
        return decode_tree(get_doc(s, ("toml",), ValueError), list)

    class TOMLDecodeError(ValueError):
        pass

    mods["tomli_w"] = module("tomli_w", dumps=t_dumps)
    mods["tomllib"] = module("tomllib", loads=t_loads, TOMLDecodeError=TOMLDecodeError)
    mods["tomli"] = module("tomli", loads=t_loads, TOMLDecodeError=TOMLDecodeError)

    # pickle
    def p_dumps(obj, *a, **opts):
        ops.backend_log.append(("pickle.dumps", opts))
        return blob("pickle", copy.deepcopy(obj), bytes)

    def p_loads(s, **opts):
        ops.backend_log.append(("pickle.loads", opts))
        ops.event("unpickle")
        return copy.deepcopy(get_doc(s, ("pickle",), ValueError))

    mods["pickle"] = module("pickle", dumps=p_dumps, loads=p_loads)

    # msgpack
    ExtType = collections.namedtuple("ExtType", "code data")
    ops.ExtType = ExtType

    def m_pack(o, use_bin_type=True, default=None, **opts):
        ops.backend_log.append(("msgpack.packb", {"use_bin_type": use_bin_type, "default": default, **opts}))
        return blob("msgpack", Encoder(ops, "msgpack", {"default": default}).enc(o), bytes)

    def m_unpack(s, raw=False, use_list=True, strict_map_key=True, **opts):
        ops.backend_log.append(("msgpack.unpackb", {"raw": raw, "use_list": use_list, **opts}))
        tree = get_doc(s, ("msgpack",), ValueError)

        def keys(x):
            if isinstance(x, dict):
                for k, v in x.items():
                    if strict_map_key and not issubclass(ops.typeof(k), (str, bytes)):
                        raise rt(ValueError(f"{tname(ops.typeof(k))} is not allowed for map key "
                                            "when strict_map_key=True"))
                    keys(v)
            elif isinstance(x, (list, tuple)) and not isinstance(x, ExtType):
                for e in x:
                    keys(e)

        keys(tree)
        if isinstance(tree, ExtType):
            return tree
        return decode_tree(tree, list if use_list else tuple)

    mods["msgpack"] = module("msgpack", packb=m_pack, unpackb=m_unpack, ExtType=ExtType, dumps=m_pack, loads=m_unpack)
    for m in ("json", "orjson", "yaml", "tomli_w", "tomllib", "tomli", "pickle", "msgpack"):
        for f in vars(mods[m]).values():
            if isinstance(f, types.FunctionType):
                ops.models[f] = f

    # numpy.array on unknowns
    try:
        import numpy as np
    except ImportError:  # pragma: no cover
        return

    NATURAL = {"b": "bool", "i": "int64", "u": "int64", "f": "float64", "c": "complex128"}

    def array_av(x, dtype, inferred=None):
        d = None if dtype is None else np.dtype(dtype)
        return AV("array", (x, None if d is None else d.name), np.ndarray, {"dtype": d or inferred})

    def np_array(x, dtype=None, **kw):
        """An array with known source keeps its identity when the dtype it gets is the one it had."""
        if kw:
            raise Undecided("arguments of numpy.array")
        x = resolve(x)
        if isinstance(x, AV):
            if x.op == "tolist":
                src = x.args[0]
                want = src.meta.get("dtype") if isinstance(src.meta, dict) else None
                if dtype is None and want is not None:
                    # numpy takes the dtype of the elements
                    nat = np.dtype(NATURAL.get(want.kind, want))
                    if nat.kind != "f" and choose(f"{src!r} has no elements"):
                        nat = np.dtype("float64")
                    return src if nat == want else array_av(x, nat)
                if want is None or np.dtype(dtype) == want:
                    return src
                return array_av(x, dtype)
            if x.typ is np.ndarray:
                return x if dtype is None else np_astype(x, dtype)
            if choose(f"np.array({x!r}) is possible"):
                return array_av(x, dtype)
            raise rt(ValueError("could not convert to array"))
        if has_av(x):
            return array_av(x, dtype)
        return ops._nat(np.array, (x,), {} if dtype is None else {"dtype": dtype})

    def np_astype(x, dtype):
        d, old = np.dtype(dtype), x.meta.get("dtype") if isinstance(x.meta, dict) else None
        if x.op == "array":
            return x if d == old else np_array(x.args[0], d) if x.args[0].__class__ is AV else array_av(x.args[0], d)
        return x if d == old else array_av(AV("tolist", (x,), list), d)

    def np_result_type(*xs):
        ds = []
        for x in map(resolve, xs):
            if isinstance(x, AV):
                x = x.meta.get("dtype") if isinstance(x.meta, dict) else None
                if x is None:
                    raise Undecided("dtype of an unknown array")
            elif has_av(x):
                raise Undecided("dtype of unknown values")
            ds.append(x)
        return np.result_type(*ds)

    def np_array_equal(a, b, **kw):
        a, b = resolve(a), resolve(b)
        if a is b or isinstance(a, AV) and isinstance(b, AV) and a == b:
            return True
        if not (isinstance(a, AV) or isinstance(b, AV) or has_av(a) or has_av(b)):
            return bool(np.array_equal(a, b))
        if not (isinstance(a, np.ndarray) or isinstance(b, np.ndarray)) and ops.typeof(a) is not np.ndarray and ops.typeof(b) is not np.ndarray:
            return ops.truth(ops.eq(a, b))
        return choose(f"{a!r} and {b!r} have the same elements")

    ops.np_astype = np_astype
    ops.models[np.result_type] = np_result_type
    ops.models[np.array_equal] = np_array_equal
    ops.models[np.array] = np_array
    ops.models[np.asarray] = np_array
