"""C07 Python add, sub and addsub are exact before the final resize"""
from . import arith
from .arith import run

FUNCTIONS = ["cl_fix_add", "cl_fix_sub", "cl_fix_addsub", "NarrowFix.add/sub/addsub/__add__/__sub__",
             "WideFix.add/sub/addsub/__add__/__sub__", "cl_fix_resize and everything below it", "FixFormat.for_add/for_sub/for_addsub"]
BOUNDS = {"quick": "full precision: symbolic formats, widths 1..60, |aF-bF| <= 40; with a result format: the 14 triples of "
                   "props/ops.py with 4 mode pairs each (rotated by seed); all operand values",
          "thorough": "widths 1..72; triples with all 28 mode pairs"}


def cases(tier, seed):
    return arith.mkcases(["add", "sub", "addsub"], tier, seed, 60 if tier == "quick" else 72)
