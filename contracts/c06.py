"""Simplices."""
from .sc import *

SRC = '''#include <vector>
#include <set>
#include <iterator>
#include <functional>
#include <aleph/topology/Simplex.hh>
using S = aleph::topology::Simplex<double,unsigned>;
template class aleph::topology::Simplex<double,unsigned>;
template aleph::topology::Simplex<double,unsigned>::Simplex(std::vector<unsigned>::iterator, std::vector<unsigned>::iterator, double);
'''
UNITS = [Unit('simplex', SRC, simplex_fns(), classes={S: 'simplex'}, prelude=SIMPLEX_PRE, aliases=ALIAS, adaptors={BI: (S, 'unsigned int')})]
