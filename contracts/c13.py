"""Distances between persistence diagrams."""
from . import c12
from .c12 import *

ID = 'aleph::geometry::distances::InfinityDistance<double>'
SRC = c12.SRC + """#include <aleph/persistenceDiagrams/distances/Hausdorff.hh>
#include <aleph/persistenceDiagrams/distances/NearestNeighbour.hh>
#include <aleph/persistenceDiagrams/distances/detail/Orthogonal.hh>
#include <aleph/persistenceDiagrams/Norms.hh>
template double aleph::geometry::distances::InfinityDistance<double>::operator()(const aleph::PersistenceDiagram<double>::Point&, const aleph::PersistenceDiagram<double>::Point&) const;
template double aleph::distances::hausdorffDistance<double, %s>(const aleph::PersistenceDiagram<double>&, const aleph::PersistenceDiagram<double>&, %s);
template double aleph::distances::nearestNeighbourDistance<double, %s>(const aleph::PersistenceDiagram<double>&, const aleph::PersistenceDiagram<double>&, %s);
inline double vp_orthogonal(const aleph::PersistenceDiagram<double>::Point& p) { return aleph::distances::detail::orthogonalDistance<%s>(p); }
template class aleph::math::KahanSummation<double>;
template double aleph::math::accumulate_kahan<std::vector<double>::const_iterator, double>(std::vector<double>::const_iterator, std::vector<double>::const_iterator, double);
template double aleph::totalPersistence<double>(const aleph::PersistenceDiagram<double>&, double, bool);
template double aleph::pNorm<double>(const aleph::PersistenceDiagram<double>&, double, bool);
template double aleph::infinityNorm<double>(const aleph::PersistenceDiagram<double>&);
""" % ((ID,) * 5)
PRE13 = c12.PRE + r"""
  (* the largest difference of coordinates *)
  function dinf (p q:point) : real = max_real (f_abs (px p -. px q)) (f_abs (py p -. py q))
  predicate moderate (s t:seq point) = forall i j. 0 <= i < length s -> 0 <= j < length t -> dinf s[i] t[j] <=. f_max /\ dinf t[j] s[i] <=. f_max
  (* h is the smallest distance from p to the first n points of t *)
  predicate near (p:point) (t:seq point) (n:int) (h:real) =
    (forall j. 0 <= j < n -> h <=. dinf p t[j]) /\ (if n = 0 then h = f_max else exists j. 0 <= j < n /\ h = dinf p t[j])
  (* h is the largest of the smallest distances *)
  predicate far (s t:seq point) (n:int) (h:real) =
    (forall i. 0 <= i < n -> exists j. 0 <= j < length t /\ dinf s[i] t[j] <=. h) /\
    (if n = 0 then h = f_lowest else exists i. 0 <= i < n /\ near s[i] t (length t) h)
  let lemma near_unique (p:point) (t:seq point) (n:int) (h g:real)
    requires { near p t n h /\ near p t n g }
    ensures { h = g }
  = ()
  predicate partners (s t:seq point) (h:real) = forall i. 0 <= i < length s -> exists j. 0 <= j < length t /\ dinf s[i] t[j] <=. h
  predicate lonely (s t:seq point) (h:real) = exists i. 0 <= i < length s /\ forall j. 0 <= j < length t -> h <=. dinf s[i] t[j]
  let lemma far_all (s t:seq point) (h:real)
    requires { far s t (length s) h /\ length s > 0 /\ length t > 0 }
    ensures { partners s t h /\ lonely s t h }
  = ()
  lemma partners_more : forall s t h g [partners s t h, partners s t g]. partners s t h -> h <=. g -> partners s t g
  lemma dinf_sym : forall p q. dinf p q = dinf q p
  lemma dinf_pos : forall p q. dinf p q >=. 0.0
"""
A, B = '$p1.diagram_points', '$p2.diagram_points'
INF = Fn('infdist', 'InfinityDistance<double>::operator()', ensures=['[largest coordinate difference] $result = dinf $p $q'])
NEAR = lambda p, t, k, h: '[smallest so far] near %s %s %s %s' % (p, t, k, h)
HAUS = Fn('hausdorff', 'hausdorffDistance', requires=['moderate %s %s' % (A, B)],
    ensures=['[both empty] length %s = 0 -> length %s = 0 -> $result = 0.0' % (A, B),
             '[one empty] (length %s = 0 /\\ length %s > 0) \\/ (length %s > 0 /\\ length %s = 0) -> $result = f_inf' % (A, B, A, B),
             '[every point has a partner within this distance] length %s > 0 -> length %s > 0 -> partners %s %s $result /\\ partners %s %s $result' % (A, B, A, B, B, A),
             '[attained] length %s > 0 -> length %s > 0 -> lonely %s %s $result \\/ lonely %s %s $result' % (A, B, A, B, B, A)],
    loops=[Loop(['[largest so far] far %s %s $K0 $supremum1' % (A, B)]),
           Loop([NEAR(A + '[$K0]', B, '$K1', '$infimum')]),
           Loop(['[largest so far] far %s %s $K0 $supremum2' % (B, A)]),
           Loop([NEAR(B + '[$K0]', A, '$K1', '$infimum')])])

ORTH = Fn('orthogonal', 'orthogonalDistance', ret='double', ensures=['[half the distance to the diagonal] $result = 0.5 *. f_abs (px $p -. py $p)'])
KH = 'KahanSummation<double>'
KV = '$this.kahan_sum -. $this.kahan_c'
OV = '((old $this).kahan_sum -. (old $this).kahan_c)'
KC = '$this.kahan_c = 0.0'
KAHAN = [
    Fn('kahan', KH + '::KahanSummation', params=['double'], ensures=['[initial value] $result.kahan_sum = $initial', '[no error] $result.kahan_c = 0.0']),
    Fn('kadd', KH + '::operator+=', ensures=['[sum, with the error] %s = %s +. $v' % (KV, OV), '[no error] ' + KC]),
    Fn('ksub', KH + '::operator-=', ensures=['[difference, with the error] %s = %s -. $v' % (KV, OV), '[no error] ' + KC]),
    Fn('kmul', KH + '::operator*=', ensures=['[product] $this.kahan_sum = (old $this).kahan_sum *. $v', '[product, with the error] %s = %s *. $v' % (KV, OV)]),
    Fn('kdiv', KH + '::operator/=', requires=['$v <> 0.0'], ensures=['[quotient] $this.kahan_sum = (old $this).kahan_sum /. $v', '[quotient, with the error] %s = %s /. $v' % (KV, OV)]),
    Fn('kget', KH + '::operator const double', ensures=['[value] $result = $this.kahan_sum']),
]
ACC = [
    Fn('accumulate', 'accumulate_kahan', ensures=['[sum of the values] $result = $init +. rsum $s[$first .. $last] ($last - $first)'],
       loops=[Loop(['[partial sum] $sum.kahan_sum = $init +. rsum $s[$first .. $last] ($it - $first)', '[no error] $sum.kahan_c = 0.0'])]),
    Fn('accumulateSorted', 'accumulate_kahan_sorted', ensures=['[sum of the values] $result = $init +. rsum $s[$first .. $last] ($last - $first)'],
       loops=[Loop(['[partial sum] $sum.kahan_sum = $init +. rsum $E0 $K0', '[no error] $sum.kahan_c = 0.0'])]),
]
NN = Fn('nearestNeighbour', 'nearestNeighbourDistance', requires=['moderate %s %s' % (A, B)],
    ensures=['[mean of the summed nearest-neighbour distances] exists f g. nearest %s %s f /\\ nearest %s %s g /\\ $result = (rsum f (length f) +. rsum g (length g)) *. 0.5' % (A, B, B, A)],
    entry=['let ghost s1_ = pure { %s } in' % A, 'let ghost s2_ = pure { %s } in' % B],
    loops=[Loop(['[distances so far] length $distances = $K0 /\\ forall i. 0 <= i < $K0 -> near %s[i] %s (length %s) $distances[i]' % ('s1_', 's2_', 's2_')]),
           Loop([NEAR('s1_[$K0]', 's2_', '$K1', '$infimum')]),
           Loop(['[distances so far] length $distances = $K0 /\\ forall i. 0 <= i < $K0 -> near %s[i] %s (length %s) $distances[i]' % ('s2_', 's1_', 's1_')]),
           Loop([NEAR('s2_[$K0]', 's1_', '$K1', '$infimum')])])
P1 = '$p1.diagram_points'
NORMS = [
    Fn('totalPersistence', 'totalPersistence',
       ensures=['[sum of powers of the persistence values] not $weighted -> $result = pows %s $p2 (length %s)' % (P1, P1),
                '[weighted sum] $weighted -> $result = wpows %s $p2 (length %s)' % (P1, P1)],
       loops=[Loop(['[partial sum] $result.kahan_sum = pows %s $p2 $K0' % P1, '[no error] $result.kahan_c = 0.0']),
              Loop(['[partial sum] $result.kahan_sum = wpows %s $p2 $K0' % P1, '[no error] $result.kahan_c = 0.0'])]),
    Fn('pNorm', 'pNorm', throw_when='$p = 0.0',
       ensures=['[root of the sum] not $weighted -> $result = rpow (pows %s $p (length %s)) (1.0 /. $p)' % (P1, P1),
                '[root of the weighted sum] $weighted -> $result = rpow (wpows %s $p (length %s)) (1.0 /. $p)' % (P1, P1)]),
    Fn('infinityNorm', 'infinityNorm',
       ensures=['[empty] length %s = 0 -> $result = 0.0' % P1,
                '[upper bound] forall i. 0 <= i < length %s -> f_abs (pers %s[i]) <=. $result' % (P1, P1),
                '[attained] length %s > 0 -> exists i. 0 <= i < length %s /\\ $result = f_abs (pers %s[i])' % (P1, P1, P1)],
       loops=[Loop(['[values so far] length $persistenceValues = $K0 /\\ forall i. 0 <= i < $K0 -> $persistenceValues[i] = f_abs (pers %s[i])' % P1])]),
]
ALD = dict(AL, **{'Distance': 'InfinityDistance<double>', 'T': 'double'})
IDC = 'InfinityDistance<double>'
SPRE = r"""
  predicate nearest (s t:seq point) (f:seq real) = length f = length s /\ forall i. 0 <= i < length s -> near s[i] t (length t) f[i]
  function pers (p:point) : real = py p -. px p
  let rec ghost function pows (s:seq point) (k:real) (n:int) : real
    variant { n }
  = if n <= 0 then 0.0 else pows s k (n-1) +. (pure { rpow (f_abs (pers s[n-1])) k })
  let rec ghost function wpows (s:seq point) (k:real) (n:int) : real
    variant { n }
  = if n <= 0 then 0.0 else wpows s k (n-1) +. (pure { f_abs (px s[n-1]) *. rpow (f_abs (pers s[n-1])) k })
"""
CL = {PT: 'point', DG: 'diagram', PP: 'ppairing', IDC: 'infd', KH: 'kahan'}


def pts(*names):
    return trust([copy.copy(f) for f in FNS if f.why in names])


UNITS = [Unit('distances', SRC, pts('pointx', 'pointy', 'dempty', 'persistence', 'point2') + [INF, ORTH, HAUS], classes=CL, prelude=PRE13, aliases=ALD, pure=[PT]),
         Unit('kahan', SRC, KAHAN + ACC, classes=CL, theories=['sums.Sums'], prelude='', aliases=ALD),
         Unit('sums', SRC, pts('pointx', 'pointy', 'dempty', 'persistence') + trust([copy.copy(f) for f in KAHAN + ACC + [INF]]) + [NN] + NORMS, classes=CL,
              theories=['sums.Sums'], prelude=PRE13 + SPRE, aliases=ALD, pure=[PT])]
THEORIES = ['sums']
