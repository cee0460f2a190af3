import math
from .lib import *

RULE = ("Every function of the constants table is called in a minimal caller; the literal that flows into the result is read from the flattened "
        "call tree and must be the single-precision neighbour of the named mathematical constant (relative distance below 2^-23).")
ASSUME = []
FLOOR = 28
C = {"zero": 0, "one": 1, "pi": math.pi, "two_pi": 2 * math.pi, "root_pi": math.sqrt(math.pi), "half_pi": math.pi / 2,
     "three_over_two_pi": math.pi * 1.5, "quarter_pi": math.pi / 4, "one_over_pi": 1 / math.pi, "one_over_two_pi": 1 / (2 * math.pi),
     "two_over_pi": 2 / math.pi, "four_over_pi": 4 / math.pi, "two_over_root_pi": 2 / math.sqrt(math.pi), "one_over_root_two": math.sqrt(0.5),
     "root_half_pi": math.sqrt(math.pi / 2), "root_two_pi": math.sqrt(2 * math.pi), "root_ln_four": math.sqrt(math.log(4)), "e": math.e,
     "euler": 0.57721566490153286, "root_two": math.sqrt(2), "root_three": math.sqrt(3), "root_five": math.sqrt(5), "ln_two": math.log(2),
     "ln_ten": math.log(10), "ln_ln_two": math.log(math.log(2)), "third": 1 / 3, "two_thirds": 2 / 3, "golden_ratio": (1 + math.sqrt(5)) / 2,
     "epsilon": 2.0 ** -23}


def obligations():
    return [Ob(n, [], "float", "zcm::%s()" % n, lambda v=v: fc(Fraction(v)), tol=Fraction(1, 2 ** 23)) for n, v in sorted(C.items())]
