from .lib import *

RULE = ("For every arithmetic and bitwise operator of every float and integer vector type, in vector-vector, "
        "vector-scalar and scalar-vector form and for unary plus and minus, a one-expression caller is linked with the "
        "library's current sources, the whole call tree is flattened, and the value that flows into each result "
        "component is computed as a term over the inputs by static dataflow (value numbering over gated SSA). The term is "
        "normalised and must be equal to the operator applied to the corresponding components, in both build types. "
        "A float result must further be that very operation (a product with a reciprocal is not a quotient). "
        "A float component may be computed only from operand cells its definition mentions.")
ASSUME = [          "integer terms are compared as machine-word expressions with the same definedness conditions as the scalar operator"]


def obligations():
    obs = []
    for n in NS:
        for t in (VEC[n], IVEC[n]):
            s = scalar(t)
            for op, f in ops(t).items():
                nm = "%s.%s" % (t, OPN[op])
                sp = lambda a, b, f=f: zipw(f, a, b)
                obs.append(Ob(nm + ".vv", [("a", t), ("b", t)], t, "a %s b" % op, sp))
                obs.append(Ob(nm + ".vs", [("a", t), ("b", s)], t, "a %s b" % op, sp))
                obs.append(Ob(nm + ".sv", [("a", s), ("b", t)], t, "a %s b" % op, sp))
                obs.append(Ob(nm + ".self", [("a", t)], t, "a %s a" % op, lambda a, f=f: zipw(f, a, a)))
            obs.append(Ob(t + ".neg", [("a", t)], t, "-a", lambda a: [-x for x in a]))
            obs.append(Ob(t + ".plus", [("a", t)], t, "+a", lambda a: list(a)))
    return obs


FLOOR = 180
