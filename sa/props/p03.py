"""P03: top-level types."""
from ..harness import F, Scenario, Exc
from ..shapes import *

RULES = ["to_dict/to_tuple(v, c=T) is the documented wire form of T, exactly as for a field of type T",
         "from_dict/from_tuple(T, wire) is exactly v, elements at every depth included",
         "values whose runtime type determines the form need no class argument"]
EXPLANATION = ("Abstract interpretation of to_obj/from_obj (and, through the wrapper cache, of the generated functions) "
               "with the type itself as the top-level argument, for every type shape, option setting and both the "
               "named and the positional form; results are compared structurally with the field-level oracle.")


def one(shape, optsets):
    def run(ctx):
        t = shape.t(ctx)
        for lab, v in shape.vals(ctx, "x"):
            for named in (True, False):
                se, de = (ctx.to_dict, ctx.from_dict) if named else (ctx.to_tuple, ctx.from_tuple)
                for reuse, sets, dr in optsets:
                    o = Opts(named, bool(reuse), bool(sets))
                    d = se(v, c=t, reuse_instances=reuse, convert_sets=sets)
                    if not ctx.ok(d, "serialize", value=v, reuse=reuse, sets=sets, named=named):
                        continue
                    if reuse is not None:
                        exp = shape.wire(ctx, v, o)
                        ctx.check(wire_same(d, exp, lax=True), "wire", f"output for top-level {shape.label}", actual=d,
                                  expected=exp, reuse=reuse, sets=sets, named=named)
                    y = de(t, d, reuse_instances=dr)
                    if ctx.ok(y, "deserialize", data=d, reuse=dr, value=v, named=named):
                        ctx.eq(y, v, "roundtrip", f"top-level {shape.label} is not restored", data=d, reuse=dr,
                               named=named)

    return run


def untyped(shape):
    def run(ctx):
        t = shape.t(ctx)
        for lab, v in shape.vals(ctx, "x"):
            for named in (True, False):
                se, de = (ctx.to_dict, ctx.from_dict) if named else (ctx.to_tuple, ctx.from_tuple)
                for sets in (False, True):
                    d = se(v, reuse_instances=False, convert_sets=sets)
                    if not ctx.ok(d, "serialize", value=v, sets=sets, named=named):
                        continue
                    exp = shape.wire(ctx, v, Opts(named, False, sets))
                    ctx.check(wire_same(d, exp, lax=True), "wire", f"output for top-level {shape.label} without class argument",
                              actual=d, expected=exp, sets=sets, named=named)
                    y = de(t, d, reuse_instances=False)
                    if ctx.ok(y, "deserialize", data=d, value=v, named=named):
                        ctx.eq(y, v, "roundtrip", f"top-level {shape.label} is not restored", data=d, named=named)

    return run


def has_union(s):
    return isinstance(s, UnionT) or isinstance(s, OptT) and s.style == "rev" or any(has_union(k) for k in s.kids())


def typed_only(s):
    """Shapes whose wire form is not determined by the runtime value alone."""
    return has_union(s)


def scenarios(tier):
    optsets = [(False, False, False), (True, True, True), (False, True, True), (None, None, None)]
    sh = field_shapes(tier)
    out = [Scenario(f"typed:{s.label}", one(s, optsets)) for s in sh]
    out += [Scenario(f"untyped:{s.label}", untyped(s)) for s in sh if not typed_only(s)]
    return out
