"""C08 Python multiplication is exact before the final resize"""
from . import arith
from .arith import run

FUNCTIONS = ["cl_fix_mult", "NarrowFix.mult/__mul__", "WideFix.mult/__mul__", "cl_fix_resize and everything below it",
             "FixFormat.for_mult"]
BOUNDS = {"quick": "full precision: symbolic formats, widths 1..60, |aF-bF| <= 40; with a result format: the 14 triples of "
                   "props/ops.py with 4 mode pairs each (rotated by seed); all operand values",
          "thorough": "widths 1..72; triples with all 28 mode pairs"}
ASSUMPTIONS = ["products of two operands wider than 9 bits are abstracted by their McCormick envelope where that suffices; "
               "otherwise multiplied out"]


def cases(tier, seed):
    return arith.mkcases(["mult"], tier, seed, 60 if tier == "quick" else 72)
