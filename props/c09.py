"""C09 Python negation and absolute value are exact before the final resize"""
from . import arith
from .arith import run

FUNCTIONS = ["cl_fix_neg", "cl_fix_abs", "NarrowFix.neg/abs/__neg__", "WideFix.neg/abs/__neg__",
             "cl_fix_resize and everything below it", "FixFormat.for_neg/for_abs"]
BOUNDS = {"quick": "full precision: symbolic formats, widths 1..60; with a result format: the 20 pairs of props/ops.py with 4 "
                   "mode pairs each (rotated by seed); all operand values",
          "thorough": "widths 1..72; pairs with all 28 mode pairs"}


def cases(tier, seed):
    return arith.mkcases(["neg", "abs"], tier, seed, 60 if tier == "quick" else 72)
