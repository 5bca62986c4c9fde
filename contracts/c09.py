"""Weights of a simplicial complex."""
from .sc import *
from .c03 import trust

UNITS = [Unit('weights', WEIGHT_SRC, trust(simplex_fns() + complex_fns()) + weight_fns() + vertex_weight_fns(), classes={S: 'simplex', K: 'complex'}, prelude=SIMPLEX_PRE + MIC + FACES + WEIGHTS,
              aliases=ALIAS, adaptors={BI: (S, 'unsigned int')})]
