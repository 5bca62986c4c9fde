"""Matrix reduction: Standard and Twist on every representation."""
from .matrix import *

UNITS = [unit(k, extra_fns=reduction_fns(k)) for k in KINDS]
THEORIES = ['z2']
