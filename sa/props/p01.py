"""P01: dict round trip."""
from ..harness import F, Scenario, Exc
from ..shapes import *

RULES = ["from_dict(C, to_dict(x)) is exactly x for every value class of every field shape and option setting",
         "to_dict yields the documented wire form of the field type"]
EXPLANATION = ("Abstract interpretation of the current source: for each field-type shape a class schema is handed to "
               "the interpreted decorator (partial evaluation of the code generator), the generated functions are "
               "then interpreted over symbolic-free provenance values (typed unknowns), and the result must be "
               "structurally the input value with every element the same provenance term and type.")


def one(shape, optsets):
    def run(ctx):
        t = shape.t(ctx)
        c = ctx.cls("C", [F("before", int), F("x", t), F("after", str)])
        if not ctx.ok(c, "decorate"):
            return
        for lab, v in shape.vals(ctx, "x"):
            x = ctx.make(c, var("b", int), v, var("a", str))
            if not ctx.ok(x, "construct", value=v):
                continue
            for reuse, sets, dr in optsets:
                o = Opts(True, bool(reuse) if reuse is not None else True, bool(sets))
                d = ctx.to_dict(x, reuse_instances=reuse, convert_sets=sets)
                if not ctx.ok(d, "to_dict", value=x, reuse=reuse, sets=sets):
                    continue
                exp = {"before": x.before, "x": shape.wire(ctx, v, o), "after": x.after}
                ctx.check(wire_same(d, exp), "wire", f"to_dict output for {shape.label}", actual=d, expected=exp,
                          reuse=reuse, sets=sets)
                y = ctx.from_dict(c, d, reuse_instances=dr)
                if ctx.ok(y, "from_dict", data=d, reuse=dr, value=x):
                    ctx.eq(y, x, "roundtrip", f"value of {shape.label} is not restored", data=d, reuse=dr)

    return run


def scenarios(tier):
    optsets = [(False, False, False), (True, True, True), (None, None, None), (False, True, True)]
    return [Scenario(f"field:{s.label}", one(s, optsets)) for s in field_shapes(tier)]
