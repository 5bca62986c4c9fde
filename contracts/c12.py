"""Persistence diagrams: construction from a pairing, operations on diagrams."""
import copy
from .sc import *
from .c03 import trust

PT = 'Point'
DG = 'PersistenceDiagram<double>'
PP = 'PersistencePairing<unsigned int>'
SRC = COMPLEX_SRC + """#include <aleph/persistenceDiagrams/PersistenceDiagram.hh>
#include <aleph/persistenceDiagrams/Calculation.hh>
#include <aleph/persistentHomology/PersistencePairing.hh>
#include <limits>
namespace aleph { inline bool vp_limit_true() { static_assert(std::numeric_limits<double>::has_infinity, ""); return std::numeric_limits<double>::has_infinity; } }
template class aleph::PersistenceDiagram<double>;
template class aleph::PersistencePairing<unsigned>;
template std::vector<aleph::PersistenceDiagram<double>> aleph::makePersistenceDiagrams(const aleph::PersistencePairing<unsigned>&, const aleph::topology::SimplicialComplex<S>&);
template aleph::PersistenceDiagram<double> aleph::makePersistenceDiagram(const aleph::PersistencePairing<unsigned>&, const std::vector<double>&);
"""
PRE = r"""
  function px (p:point) : real = p.point_x
  function py (p:point) : real = p.point_y
  predicate ondiag (p:point) = px p = py p
  predicate unpaired (p:point) = py p = f_inf
  let rec ghost function off (s:seq point) (n:int) : seq point
    variant { n }
  = if n <= 0 then (empty : seq point) else if pure { ondiag s[n-1] } then off s (n-1) else snoc (off s (n-1)) (pure { s[n-1] })
  let rec ghost function fin (s:seq point) (n:int) : seq point
    variant { n }
  = if n <= 0 then (empty : seq point) else if pure { unpaired s[n-1] } then fin s (n-1) else snoc (fin s (n-1)) (pure { s[n-1] })
  let rec ghost function inf (s:seq point) (n:int) : int
    variant { n }
  = if n <= 0 then 0 else inf s (n-1) + (if pure { unpaired s[n-1] } then 1 else 0)
  let rec lemma off_filt (b:seq bool) (s:seq point) (n:int)
    requires { 0 <= n <= length b /\ n <= length s /\ forall j. 0 <= j < length b -> (b[j] <-> ondiag s[j]) }
    ensures { filt b s n = off s n }
    variant { n }
  = if n > 0 then off_filt b s (n-1)
  let rec lemma fin_filt (b:seq bool) (s:seq point) (n:int)
    requires { 0 <= n <= length b /\ n <= length s /\ forall j. 0 <= j < length b -> (b[j] <-> unpaired s[j]) }
    ensures { filt b s n = fin s n }
    variant { n }
  = if n > 0 then fin_filt b s (n-1)
  let rec lemma inf_ones (b:seq bool) (s:seq point) (n:int)
    requires { 0 <= n <= length b /\ n <= length s /\ forall j. 0 <= j < length b -> (b[j] <-> unpaired s[j]) }
    ensures { ones b n = inf s n }
    variant { n }
  = if n > 0 then inf_ones b s (n-1)
  predicate plt (p q:point) = px p <. px q \/ (px p = px q /\ py p <. py q)
"""
P = '$this.diagram_points'
OP = '(old $this).diagram_points'
DIM = '[dimension unchanged] $this.diagram_dimension = (old $this).diagram_dimension'
FNS = [
    Fn('point1', PT + '::Point', params=['double'], ensures=['[never destroyed] px $result = $x /\\ unpaired $result']),
    Fn('point2', PT + '::Point', params=['double', 'double'], ensures=['[coordinates] px $result = $x /\\ py $result = $y']),
    Fn('pointx', PT + '::x', ensures=['[creation] $result = px $this']),
    Fn('pointy', PT + '::y', ensures=['[destruction] $result = py $this']),
    Fn('persistence', PT + '::persistence', ensures=['[difference] $result = py $this -. px $this']),
    Fn('peq', PT + '::operator==', ensures=['[equality] $result <-> $this = $p1']),
    Fn('pne', PT + '::operator!=', ensures=['[difference] $result <-> $this <> $p1']),
    Fn('plt', PT + '::operator<', ensures=['[lexicographic] $result <-> plt $this $p1']),
    Fn('isUnpaired', PT + '::isUnpaired', ensures=['[never destroyed] $result <-> unpaired $this']),
    Fn('add1', DG + '::add', params=['double'], ensures=['[appended, never destroyed] %s = snoc %s { point_x = $x; point_y = f_inf }' % (P, OP), DIM]),
    Fn('add2', DG + '::add', params=['double', 'double'], ensures=['[appended] %s = snoc %s { point_x = $x; point_y = $y }' % (P, OP), DIM]),
    Fn('removeDiagonal', DG + '::removeDiagonal', ensures=['[points off the diagonal, in order] %s = off %s (length %s)' % (P, OP, OP), DIM]),
    Fn('removeUnpaired', DG + '::removeUnpaired', ensures=['[paired points, in order] %s = fin %s (length %s)' % (P, OP, OP), DIM]),
    Fn('removeDuplicates', DG + '::removeDuplicates', ensures=['[same points] forall p. smem p %s <-> smem p %s' % (P, OP), '[no duplicates] distinct ' + P, DIM]),
    Fn('merge', DG + '::merge', ensures=['[concatenation] %s = %s ++ $other.diagram_points' % (P, OP), DIM]),
    Fn('betti', DG + '::betti', ensures=['[number of unpaired points] $result = inf %s (length %s)' % (P, P)]),
    Fn('dsize', DG + '::size', ensures=['[number of points] $result = length ' + P]),
    Fn('dempty', DG + '::empty', ensures=['[no points] $result <-> length %s = 0' % P]),
    Fn('setDim', DG + '::setDimension', ensures=['[dimension] $this.diagram_dimension = $dimension', '[points unchanged] %s = %s' % (P, OP)]),
    Fn('getDim', DG + '::dimension', requires=['0 <= $this.diagram_dimension < 18446744073709551616'], ensures=['[dimension] $result = $this.diagram_dimension']),
    Fn('deq', DG + '::operator==', ensures=['[same points in the same order] $result <-> %s = $other.diagram_points' % P]),
    Fn('dne', DG + '::operator!=', ensures=['[differs] $result <-> %s <> $other.diagram_points' % P]),
]

MPRE = r"""
  predicate inrange (s:seq simplex) (p:seq (int,int)) = forall q. 0 <= q < length p -> (let (i,j) = p[q] in 0 <= i < length s /\ i <= 4294967295 /\ 0 <= j <= 4294967295)
  function dimat (s:seq simplex) (i:int) : int = length (vs s[i]) - 1
  (* the point of a pair: weights of creator and destroyer *)
  function pt (s:seq simplex) (q:(int,int)) : point =
    let (i,j) = q in { point_x = s[i].simplex_data; point_y = if j < length s then s[j].simplex_data else f_inf }
  let rec ghost function pts (s:seq simplex) (p:seq (int,int)) (d:int) (n:int) : seq point
    variant { n }
  = if n <= 0 then (empty : seq point)
    else if pure { let (i,_) = p[n-1] in dimat s i = d } then snoc (pts s p d (n-1)) (pure { pt s p[n-1] }) else pts s p d (n-1)
  predicate diagram_of (s:seq simplex) (p:seq (int,int)) (x:diagram) = x.diagram_points = pts s p x.diagram_dimension (length p)
"""
KS = '$p2.complex_simplices'
PS = '$pairing.ppairing_pairs'
MAKE = Fn('makePersistenceDiagrams', 'makePersistenceDiagrams', requires=['cwf ' + KS, 'inrange %s %s' % (KS, PS)],
    ensures=['[ascending dimensions] forall a b. 0 <= a < b < length $result -> $result[a].diagram_dimension < $result[b].diagram_dimension',
             '[points of the pairs of each dimension, in order] forall a. 0 <= a < length $result -> diagram_of %s %s $result[a]' % (KS, PS),
             '[one diagram per dimension of a creator] forall d. (exists a. 0 <= a < length $result /\\ $result[a].diagram_dimension = d) <-> length (pts %s %s d (length %s)) > 0' % (KS, PS, PS)],
    loops=[Loop(['[range] forall d. mdom d $persistenceDiagrams -> 0 <= d <= 18446744073709551615',
                 '[points so far] forall d. mdom d $persistenceDiagrams -> (mval $persistenceDiagrams d).diagram_points = pts %s %s d $K0' % (KS, PS),
                 '[dimensions so far] forall d. mdom d $persistenceDiagrams <-> length (pts %s %s d $K0) > 0' % (KS, PS)]),
           Loop(['[number of diagrams] length $result = $K0',
                 '[diagrams so far] forall a. 0 <= a < $K0 -> (let (d,v) = $E0[a] in $result[a].diagram_dimension = d /\\ $result[a].diagram_points = v.diagram_points)'])])
VPRE = r"""
  predicate vrange (n:int) (p:seq (int,int)) = forall q. 0 <= q < length p -> (let (i,j) = p[q] in 0 <= i < n /\ i <= 4294967295 /\ 0 <= j <= 4294967295)
  function vpt (f:seq real) (q:(int,int)) : point =
    let (i,j) = q in { point_x = f[i]; point_y = if j < length f then f[j] else f_inf }
"""
MAKE1 = Fn('makePersistenceDiagram', 'makePersistenceDiagram', requires=['vrange (length $functionValues) ' + PS],
    ensures=['[dimension] $result.diagram_dimension = 0', '[one point per pair] length $result.diagram_points = length ' + PS,
             '[function values of creator and destroyer] forall q. 0 <= q < length %s -> $result.diagram_points[q] = vpt $functionValues %s[q]' % (PS, PS)],
    loops=[Loop(['[dimension] $D.diagram_dimension = 0', '[number of points] length $D.diagram_points = $K0',
                 '[points so far] forall q. 0 <= q < $K0 -> $D.diagram_points[q] = vpt $functionValues %s[q]' % PS])])
AL = dict(ALIAS, **{'DataType': 'double', 'PersistenceDiagram<double>::Point': PT, 'PersistenceDiagram<DataType>': DG, 'Point': PT,
                    'PersistenceDiagram<DataType>::Point': PT, 'PersistenceDiagram<double>': DG, 'PersistenceDiagram': DG,
                    'PersistenceDiagram<typename Simplex::DataType>': DG})


def make_unit():
    fns = [f for f in simplex_fns() if f.why in ('sdimension', 'getData')] + [f for f in complex_fns() if f.why in ('ksize', 'kat')]
    df = [copy.copy(f) for f in FNS if f.why in ('add1', 'add2', 'setDim', 'getDim')]
    return Unit('make', SRC, trust(fns + df) + [MAKE, MAKE1], classes={PT: 'point', DG: 'diagram', PP: 'ppairing', S: 'simplex', K: 'complex'},
                prelude=SIMPLEX_PRE + MIC + IS_FACE + PRE + MPRE + VPRE, aliases=AL, pure=[PT], keys={S: ('vs', '(seq int)')})


UNITS = [Unit('diagram', SRC, FNS, classes={PT: 'point', DG: 'diagram', PP: 'ppairing'}, prelude=PRE, aliases=AL, pure=[PT]), make_unit()]
