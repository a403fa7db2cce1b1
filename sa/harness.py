"""Runs the abstract interpreter over scenarios, collects obligations, writes evidence."""
from __future__ import annotations
import argparse
import dataclasses
import enum
import fnmatch
import json
import multiprocessing
import os
import select
import signal
import sys
import time
import traceback
import types
import typing
from collections import Counter, deque, defaultdict
from collections.abc import Mapping, Set

from . import values
from .interp import AFunc, Internal, Undecided, is_tagged
from .loader import Loader, user_module, purge
from .values import AV, FORK, P, Foreign, has_av, resolve, var

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")

_UNSET = object()


@dataclasses.dataclass
class Scenario:
    name: str
    fn: object
    missing: tuple = ("orjson",)
    budget: int = 300
    tier: str = "quick"


@dataclasses.dataclass
class F:
    """A field declaration of a schema."""

    name: str
    type: object
    default: object = _UNSET
    factory: object = _UNSET
    opts: dict = dataclasses.field(default_factory=dict)  # serde.field options
    dc: dict = dataclasses.field(default_factory=dict)    # dataclasses.field options


class Exc:
    """An exception the analysed program raised."""

    def __init__(self, e, where):
        self.e = e
        self.where = where

    @property
    def type(self):
        return type(self.e)

    def __repr__(self):
        return f"raises {type(self.e).__name__}({_msg(self.e)})"


def _msg(e):
    try:
        s = ", ".join(repr(a) for a in e.args)
    except BaseException:
        s = "?"
    return s if len(s) < 300 else s[:300] + "…"


class Ctx:
    def __init__(self, loader, scenario, out):
        self.L = loader
        self.ops = loader.ops
        self.I = loader.interp
        self.sc = scenario
        self.out = out
        self.obligations = 0
        self.viol = []
        self.user = user_module()
        self.notes = []
        self.serde = loader.import_module("serde")
        self.calls = set()
        self.I.trace_calls = self.calls
        self.last_where = []

    # --- calling the analysed program

    def call(self, f, /, *a, **k):
        """Abstractly evaluate a call; returns the value or an Exc."""
        try:
            return self.ops.call(f, a, k)
        except Exception as e:
            if not is_tagged(e):
                raise Internal(f"{type(e).__name__}: {e}") from e
            w = getattr(e, "__abs_where__", None) or self.where_of(e)
            return Exc(e, w)

    def isolated(self, fn, *a, **k):
        """Explore every path of fn(*a, **k); what it assumed is forgotten afterwards."""
        pid = os.getpid()
        facts, truth, log, forks = dict(P.facts), dict(P.truth), list(P.log), P.forks
        ob, nv = self.obligations, len(self.viol)
        try:
            fn(*a, **k)
        except Undecided as e:
            if os.getpid() != pid:
                raise
            _leaf(self.out, {"s": self.sc.name, "leaf": True, "undecided": str(e)[:600], "where": self.I.where()})
        if os.getpid() != pid:
            self.obligations -= ob
            del self.viol[:nv]
            raise LeafDone()
        P.facts, P.truth, P.log, P.forks = facts, truth, log, forks

    def where_of(self, e):
        return list(getattr(e, "__abs_site__", []))

    def mod(self, name):
        return self.L.import_module("serde." + name)

    def get(self, dotted):
        m, _, a = dotted.rpartition(".")
        mod = self.L.import_module("serde" + ("." + m if m else ""))
        if not hasattr(mod, a):
            raise AnchorMissing(f"serde.{dotted}")
        return getattr(mod, a)

    # --- schema construction

    def cls(self, name, fields, deco="serde", bases=(), ns=None, dc=None, module="abs_user", **opts):
        """Declare a user class and decorate it with the analysed decorator(s)."""
        c = self.rawcls(name, fields, bases, ns, module)
        if isinstance(c, Exc):
            return c
        if dc is not None:
            c = dataclasses.dataclass(**dc)(c)
        return self.decorate(c, deco, **opts)

    def decorate(self, c, deco="serde", **opts):
        if deco is None:
            return c
        for d in (deco if isinstance(deco, (list, tuple)) else [deco]):
            if d == "dataclass":
                c = dataclasses.dataclass(c)
                continue
            f = self.get(d)
            if opts:
                w = self.call(f, **opts)
                if isinstance(w, Exc):
                    return w
                c = self.call(w, c)
            else:
                c = self.call(f, c)
            if isinstance(c, Exc):
                return c
        return c

    def rawcls(self, name, fields, bases=(), ns=None, module="abs_user"):
        d = {"__module__": module, "__qualname__": name, "__annotations__": {}}
        for f in fields:
            d["__annotations__"][f.name] = f.type
            if f.opts or f.dc:
                kw = dict(f.dc)
                if f.default is not _UNSET:
                    kw["default"] = f.default
                if f.factory is not _UNSET:
                    kw["default_factory"] = f.factory
                if f.opts:
                    v = self.call(self.serde.field, **kw, **f.opts)
                    if isinstance(v, Exc):
                        return v
                else:
                    v = dataclasses.field(**kw)
                d[f.name] = v
            elif f.default is not _UNSET:
                d[f.name] = f.default
            elif f.factory is not _UNSET:
                d[f.name] = dataclasses.field(default_factory=f.factory)
        d.update(ns or {})
        c = types.new_class(name, tuple(bases), {}, lambda n: n.update(d))
        setattr(sys.modules[module], name, c)
        return c

    def make(self, cls, /, *a, **k):
        """Instantiate a user class (host dataclass machinery)."""
        return self.call(cls, *a, **k)

    # --- API shortcuts

    def to_dict(self, x, **k):
        return self.call(self.serde.to_dict, x, **k)

    def from_dict(self, c, d, **k):
        return self.call(self.serde.from_dict, c, d, **k)

    def to_tuple(self, x, **k):
        return self.call(self.serde.to_tuple, x, **k)

    def from_tuple(self, c, d, **k):
        return self.call(self.serde.from_tuple, c, d, **k)

    @property
    def SerdeError(self):
        return self.serde.SerdeError

    def is_serde_error(self, r):
        return isinstance(r, Exc) and isinstance(r.e, self.SerdeError)

    # --- obligations

    def check(self, ok, rule, msg="", **detail):
        self.obligations += 1
        if not ok:
            self.fail(rule, msg, _counted=True, **detail)
        return bool(ok)

    def fail(self, rule, msg, _counted=False, **detail):
        if not _counted:
            self.obligations += 1
        site = None
        for v in detail.values():
            if isinstance(v, Exc) and v.where:
                site = v.where
        self.viol.append({
            "rule": rule,
            "scenario": self.sc.name,
            "msg": msg,
            "detail": {k: show(v) for k, v in detail.items()},
            "path": [f"{c} is {b}" for c, b in P.log],
            "site": site,
            "generated": [src for _, src, _ in self.ops.generated[-8:]],
            "calls": sorted(self.calls)[:400],
        })

    def eq(self, actual, expected, rule, msg="", **detail):
        """Obligation: actual is exactly the expected value (types included) on this path."""
        return self.check(same(actual, expected), rule, msg, actual=actual, expected=expected, **detail)

    def ok(self, r, rule, msg="", **detail):
        """Obligation: the operation does not raise."""
        return self.check(not isinstance(r, Exc), rule, msg or "raised an exception", result=r, **detail)

    def raises(self, r, rule, msg="", exc=None, **detail):
        exc = exc or self.SerdeError
        return self.check(isinstance(r, Exc) and isinstance(r.e, exc), rule,
                          msg or f"expected {exc.__name__}", result=r, **detail)


class AnchorMissing(BaseException):
    pass


class LeafDone(BaseException):
    """The rest of the scenario is explored by the process this one was split from."""


def show(v, n=1500):
    try:
        s = repr(v)
    except BaseException as e:
        s = f"<{type(v).__name__}: {e}>"
    return s if len(s) <= n else s[:n] + "…"


def same(a, b, ordered=False):
    """Exact agreement of two abstract values, types included."""
    a, b = resolve(a), resolve(b)
    if a is b:
        return True
    if isinstance(a, AV) or isinstance(b, AV):
        return isinstance(a, AV) and isinstance(b, AV) and a == b
    if type(a) is not type(b):
        return False
    if isinstance(a, Exc):
        return type(a.e) is type(b.e)
    if isinstance(a, (list, tuple, deque)):
        if isinstance(a, deque) and a.maxlen != b.maxlen:
            return False
        return len(a) == len(b) and all(same(x, y, ordered) for x, y in zip(a, b))
    if isinstance(a, Mapping):
        if isinstance(a, defaultdict) and a.default_factory is not b.default_factory:
            return False
        if len(a) != len(b):
            return False
        if ordered:
            return all(same(x, y, True) and same(a[x], b[y], True) for x, y in zip(a, b))
        for k in a:
            if k in b:
                if not same(a[k], b[k], ordered):
                    return False
                if not any(same(k, k2) for k2 in b):
                    return False
            else:
                m = [k2 for k2 in b if same(k, k2)]
                if not m or not same(a[k], b[m[0]], ordered):
                    return False
        return True
    if isinstance(a, Set):
        if len(a) != len(b):
            return False
        bl = list(b)
        for x in a:
            for i, y in enumerate(bl):
                if same(x, y):
                    del bl[i]
                    break
            else:
                return False
        return True
    if isinstance(a, enum.Enum) or isinstance(a, type):
        return a is b
    if dataclasses.is_dataclass(a):
        da, db = getattr(a, "__dict__", None), getattr(b, "__dict__", None)
        if da is None:
            da = {f.name: getattr(a, f.name) for f in dataclasses.fields(a)}
            db = {f.name: getattr(b, f.name) for f in dataclasses.fields(b)}
        names = {f.name for f in dataclasses.fields(a)} | set(da) | set(db)
        return all(same(da.get(n, getattr(a, n, None)), db.get(n, getattr(b, n, None)), ordered) for n in names)
    if isinstance(a, float):
        return a == b or (a != a and b != b)
    try:
        return bool(a == b)
    except Exception:
        return False


def snap(v, memo=None):
    """Identity- and content-preserving snapshot used by the mutation analysis."""
    v = resolve(v)
    if isinstance(v, (AV, type, enum.Enum, str, int, float, bytes, bool, type(None))):
        return v
    if isinstance(v, (list, tuple, deque)):
        return (type(v), id(v), [snap(x) for x in v])
    if isinstance(v, Mapping):
        return (type(v), id(v), [(snap(k), snap(x)) for k, x in v.items()])
    if isinstance(v, Set):
        return (type(v), id(v), frozenset(snap(x) if not isinstance(x, (list, tuple)) else x for x in v))
    if dataclasses.is_dataclass(v):
        return (type(v), id(v), [(k, snap(x)) for k, x in sorted(vars(v).items())])
    return v


# --------------------------------------------------------------------------- exploration


def _leaf(fd, rec):
    data = (json.dumps(rec) + "\n").encode()
    while data:
        n = os.write(fd, data)
        data = data[n:]


def run_scenario(loader, sc, fd, budget_obj, timeout):
    """Runs in a forked process: explores every path of one scenario."""
    P.__init__()
    FORK.enabled = True
    FORK.is_child = False
    FORK.budget = budget_obj
    root = os.getpid()

    def on_alarm(*a):
        raise Undecided("time limit of the scenario")

    signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    ctx = None
    rec = {"s": sc.name, "leaf": True}
    try:
        ctx = Ctx(loader, sc, fd)
        sc.fn(ctx)
    except LeafDone:
        pass
    except Undecided as e:
        rec["undecided"] = str(e)[:600]
        rec["where"] = loader.interp.where()
    except AnchorMissing as e:
        rec["anchor"] = str(e)
    except Internal as e:
        rec["internal"] = f"{e}"[:800]
        rec["where"] = loader.interp.where()
        rec["tb"] = traceback.format_exc()[-1800:]
    except RecursionError as e:
        rec["undecided"] = "recursion limit"
    except BaseException as e:
        rec["internal"] = f"{type(e).__name__}: {e}"[:800]
        rec["where"] = loader.interp.where()
        rec["tb"] = traceback.format_exc()[-1800:]
    signal.setitimer(signal.ITIMER_REAL, 0)
    if ctx is not None:
        rec["ob"] = ctx.obligations
        rec["viol"] = ctx.viol
        rec["gen"] = len(loader.ops.generated)
        rec["calls"] = sorted(ctx.calls)
        rec["notes"] = ctx.notes
    rec["conds"] = len(P.log)
    _leaf(fd, rec)
    os._exit(0)


def explore(loaders, scenarios, jobs=None, timeout=100.0, deadline=None):
    """Explore every scenario, `jobs` at a time; yields leaf records."""
    jobs = jobs or min(8, os.cpu_count() or 8)
    pending = list(reversed(scenarios))
    running = {}
    poll = select.poll()
    records = []
    while pending or running:
        while pending and len(running) < jobs:
            if deadline and time.time() > deadline:
                for s in pending:
                    records.append({"s": s.name, "leaf": False, "undecided": "overall time limit"})
                pending = []
                break
            sc = pending.pop()
            r, w = os.pipe()
            budget = multiprocessing.Value("i", sc.budget)
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                os.setpgid(0, 0)
                try:
                    run_scenario(loaders[sc.missing], sc, w, budget, timeout)
                finally:
                    os._exit(1)
            os.close(w)
            try:
                os.setpgid(pid, pid)
            except OSError:
                pass
            running[r] = [sc, pid, b"", budget]
            poll.register(r, select.POLLIN | select.POLLHUP)
        for fd, ev in poll.poll(1000):
            ent = running[fd]
            data = os.read(fd, 1 << 20)
            if data:
                ent[2] += data
                continue
            poll.unregister(fd)
            os.close(fd)
            _, status = os.waitpid(ent[1], 0)
            lines = ent[2].decode().splitlines()
            n = 0
            for ln in lines:
                try:
                    records.append(json.loads(ln))
                    n += 1
                except ValueError:
                    records.append({"s": ent[0].name, "internal": "garbled record"})
            if n == 0:
                records.append({"s": ent[0].name, "internal": f"no record (status {status})"})
            del running[fd]
    return records


# --------------------------------------------------------------------------- driver


def load_known():
    """known_findings.txt: 'known: property=<id> match=<pattern> :: <what fails>' and 'fixed: ...' lines."""
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith("known:"):
                head, _, what = ln[6:].partition(" :: ")
                prop, _, m = head.strip().partition(" match=")
                out.append({"property": prop.removeprefix("property=").strip(), "status": "known",
                            "match": m.strip(), "what": what.strip()})
    return out


def run_check(pid, scenarios, explanation, rules, tier, jobs=None, seed=1, verbose=False, static=None):
    t0 = time.time()
    sys.setrecursionlimit(30000)
    loaders = {}
    names = Counter(s.name for s in scenarios)
    dup = [n for n, c in names.items() if c > 1]
    assert not dup, f"duplicate scenario names {dup[:5]}"
    configs = []
    for s in scenarios:
        if s.missing not in configs:
            configs.append(s.missing)
    static_res = []
    if static is not None:
        static_res = static(REPO, tier)
    records = []
    for cfg in configs:
        purge()
        try:
            L = Loader(REPO, missing=cfg)
            L.import_module("serde")
            for m in ("json", "yaml", "toml", "msgpack", "pickle"):
                try:
                    L.import_module("serde." + m)
                except ImportError:
                    pass
            try:
                L.import_module("serde.numpy")
                if "numpy" not in cfg:
                    import numpy  # noqa
                    if "jaxtyping" not in cfg:
                        import jaxtyping  # noqa
            except ImportError:
                pass
        except Undecided as e:
            if any(s.get("viol") for s in static_res):
                return report(pid, scenarios, records, static_res, explanation, rules, tier, seed, t0, verbose)
            print(f"UNDECIDED loading the package: {e}")
            return 2
        except Internal as e:
            traceback.print_exc()
            return 2
        except Exception as e:
            if not is_tagged(e):
                traceback.print_exc()
                return 2
            # the package does not even import under this configuration
            records.append({"s": f"import[{','.join(cfg)}]", "leaf": True, "ob": 1, "viol": [{
                "rule": "import", "scenario": f"import[{','.join(cfg)}]", "msg": f"importing serde raises {e!r}",
                "detail": {}, "path": [], "site": None, "generated": [], "calls": []}]})
            continue
        records += explore({cfg: L}, [s for s in scenarios if s.missing == cfg], jobs=jobs,
                           timeout=100 if tier == "quick" else 300, deadline=t0 + (780 if tier == "quick" else 3400))
    return report(pid, scenarios, records, static_res, explanation, rules, tier, seed, t0, verbose)


def report(pid, scenarios, records, static_res, explanation, rules, tier, seed, t0, verbose):
    known = [k for k in load_known() if k.get("property") == pid and k.get("status") == "known"]
    viol, und, internal, anchors = [], [], [], []
    ob = paths = conds = gen = 0
    sites = set()
    byscen = set()
    for r in records:
        if r.get("leaf"):
            paths += 1
        ob += r.get("ob", 0)
        gen += r.get("gen", 0)
        conds += r.get("conds", 0)
        sites.update(r.get("calls", []))
        viol += r.get("viol", [])
        if r.get("ob"):
            byscen.add(r["s"])
        if "undecided" in r:
            und.append(r)
        if "internal" in r:
            internal.append(r)
        if "anchor" in r:
            anchors.append(r)
    for s in static_res:
        ob += s.get("ob", 1)
        viol += s.get("viol", [])
    groups = {}
    for v in viol:
        groups.setdefault((v["rule"], v["scenario"]), []).append(v)
    reported, known_hit = [], {}
    for (rule, scen), vs in sorted(groups.items()):
        key = f"{rule}@{scen}"
        k = next((k for k in known if fnmatch.fnmatchcase(key, k["match"])), None)
        if k is not None:
            known_hit.setdefault(k["match"], (k, []))[1].append(key)
        else:
            reported.append((key, vs))
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(pid + "-"):
            os.unlink(os.path.join(rdir, f))
    for m, (k, keys) in sorted(known_hit.items()):
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    for i, (key, vs) in enumerate(reported[:40]):
        path = os.path.join(rdir, f"{pid}-{i}.txt")
        write_replay(path, pid, key, vs)
        v = vs[0]
        print(f"VIOLATION property={pid} replay={path}")
        print(f"  {key}: {v['msg']}")
        if verbose:
            for a, b in v["detail"].items():
                print(f"    {a} = {b[:600]}")
            if v["path"]:
                print("    path:", "; ".join(v["path"])[:600])
            if v["site"]:
                print("    site:", v["site"][-4:])
    if len(reported) > 40:
        print(f"  … and {len(reported) - 40} more violating constructs")
    for r in und[: 40 if verbose else 5]:
        print(f"UNDECIDED {r['s']}: {r['undecided'][:300]} {r.get('where', [])[-2:]}")
    for r in internal[: 20 if verbose else 5]:
        print(f"ANALYSER-FAULT {r['s']}: {r['internal'][:300]} {r.get('where', [])[-3:]}")
        if verbose and r.get("tb"):
            print(r["tb"])
    for r in anchors[:5]:
        print(f"ANCHOR-MISSING {r['s']}: {r['anchor']}")
    wall = time.time() - t0
    nscen = len(scenarios)
    cov = {
        "explanation": explanation,
        "rules": rules,
        "scenarios": nscen,
        "scenarios_decided": len(byscen),
        "paths": paths,
        "obligations": ob,
        "conditions_split": conds,
        "generated_functions_analysed": gen,
        "program_functions_reached": len(sites),
        "functions": sorted(sites),
        "static_rules": [{k: v for k, v in s.items() if k != "viol"} for s in static_res],
        "undecided": [f"{r['s']}: {r['undecided']}"[:300] for r in und[:50]],
        "undecided_count": len(und),
        "analyser_faults": [f"{r['s']}: {r['internal']}"[:300] for r in internal[:20]],
        "known_findings": sorted(k for m in known_hit.values() for k in m[1])[:200],
        "violations": [k for k, _ in reported],
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov, "wall_s": round(wall, 2)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{pid}: {nscen} scenarios, {paths} paths, {ob} obligations, {gen} generated functions, "
          f"{len(sites)} program functions, {len(und)} undecided, {len(internal)} faults, "
          f"{len(reported)} violations, {wall:.1f}s")
    if reported:
        return 1
    if anchors or (ob == 0) or (len(und) + len(internal)) * 2 > max(paths, 1):
        print("NO-ANSWER: too little of the program could be decided")
        return 2
    return 0


def write_replay(path, pid, key, vs):
    v = vs[0]
    with open(path, "w") as f:
        f.write(f"property: {pid}\nfinding: {key}\nwhat: {v['msg']}\n")
        if v["site"]:
            f.write("raised at (innermost last):\n" + "".join(f"  {s}\n" for s in v["site"]))
        f.write(f"violating paths: {len(vs)}\n")
        for k, d in v["detail"].items():
            f.write(f"{k}:\n  {d}\n")
        if v["path"]:
            f.write("path condition:\n" + "".join(f"  {c}\n" for c in v["path"]))
        if v.get("calls"):
            f.write("program functions on the path:\n" + "".join(f"  {c}\n" for c in v["calls"]))
        for g in v["generated"]:
            f.write("\n--- generated code -----------------------------------\n")
            f.write("\n".join(ln for ln in g.splitlines() if ln.strip()) + "\n")
