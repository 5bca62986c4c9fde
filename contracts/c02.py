"""Matrix representations (Vector, List, Set) refine one abstract Z2 matrix."""
from .matrix import *

UNITS = [unit(k, theories=(), algos=False, bm=False) for k in KINDS]
