"""Simplicial complexes as containers."""
from .sc import *
from .c03 import trust

UNITS = [Unit('complex', COMPLEX_SRC + RANGE_SRC, trust(simplex_fns()) + complex_fns() + range_fns(), classes={S: 'simplex', K: 'complex'}, prelude=SIMPLEX_PRE + MIC + FACES,
              aliases=ALIAS, adaptors={BI: (S, 'unsigned int')})]
