"""Complexes and numbers derived from a complex."""
import copy
from .sc import *
from . import uf, c12
from .c03 import trust
from .c15 import KVERT

SRC = c12.SRC + """#include <aleph/topology/UnionFind.hh>
#include <aleph/topology/Skeleton.hh>
#include <aleph/topology/Filter.hh>
#include <aleph/topology/Intersections.hh>
#include <aleph/topology/ConnectedComponents.hh>
#include <aleph/topology/QuotientSpaces.hh>
#include <aleph/persistentHomology/EulerCharacteristic.hh>
template class aleph::topology::UnionFind<unsigned>;
// Stand for any choice of simplices and any weight of a simplex: the contracts of
// the operators are uninterpreted, the bodies are never looked at.
namespace aleph {
struct Choice { bool operator()( const S& s ) const { return s.size() > 0; } };
struct Weight { double operator()( const S& s ) const { return s.data(); } };
}
using VPK = aleph::topology::SimplicialComplex<S>;
template VPK aleph::topology::Skeleton::operator()(std::size_t, const VPK&) const;
template VPK aleph::topology::Filter::operator()(const VPK&, aleph::Choice) const;
template aleph::topology::UnionFind<unsigned> aleph::topology::calculateConnectedComponents(const VPK&);
template void aleph::topology::SimplicialComplex<S>::insert(std::vector<S>::iterator, std::vector<S>::iterator);
template VPK aleph::topology::cone(const VPK&, aleph::Weight);
template VPK aleph::topology::suspension(const VPK&, aleph::Weight);
template std::size_t aleph::topology::sizeOfIntersection(const S&, const S&);
template S aleph::topology::intersect(const S&, const S&);
template long aleph::eulerCharacteristic(const VPK&);
template long aleph::eulerCharacteristic(std::vector<aleph::PersistenceDiagram<double>>::iterator, std::vector<aleph::PersistenceDiagram<double>>::iterator);
"""
PRE = r"""
  (* simplices among the first n for which p holds *)
  let rec ghost function keep (p:simplex -> bool) (s:seq simplex) (n:int) : seq simplex
    variant { n }
  = if n <= 0 then (empty : seq simplex) else if p (pure { s[n-1] }) then snoc (keep p s (n-1)) (pure { s[n-1] }) else keep p s (n-1)
  let rec lemma keep_from (p:simplex -> bool) (s:seq simplex) (n:int)
    requires { 0 <= n <= length s }
    ensures { forall k. 0 <= k < length (keep p s n) -> exists j. 0 <= j < n /\ (keep p s n)[k] = s[j] }
    variant { n }
  = if n > 0 then keep_from p s (n-1)
  let lemma keep_new (p:simplex -> bool) (s:seq simplex) (n:int)
    requires { uniq s /\ 0 <= n < length s }
    ensures { not has (keep p s n) (vs s[n]) }
  = keep_from p s n
  predicate chosen (x:simplex)
  function weight_of (x:simplex) : real
"""
SGN = r"""
  (* Euler number *)
  let rec ghost function sg (d:int) : int variant { d } = if d <= 0 then 1 else 0 - sg (d-1)
  let rec lemma sg_abs (d:int) ensures { sg d = 1 \/ sg d = -1 } variant { d } = if d > 0 then sg_abs (d-1)
"""
CNT = r"""
  function dim (x:simplex) : int = length (vs x) - 1
  let rec ghost function alt (s:seq simplex) (n:int) : int
    variant { n }
  = if n <= 0 then 0 else alt s (n-1) + sg (pure { dim s[n-1] })
  let rec ghost function cnt (s:seq simplex) (n d:int) : int
    variant { n }
  = if n <= 0 then 0 else cnt s (n-1) d + (if pure { dim s[n-1] = d } then 1 else 0)
  let rec lemma cnt_bound (s:seq simplex) (n d:int)
    requires { 0 <= n }
    ensures { 0 <= cnt s n d <= n }
    variant { n }
  = if n > 0 then cnt_bound s (n-1) d
  let rec ghost function altd (s:seq simplex) (n m:int) : int
    variant { m }
  = if m <= 0 then 0 else altd s n (m-1) + sg (m-1) * cnt s n (m-1)
  let rec lemma altd_empty (s:seq simplex) (m:int)
    ensures { altd s 0 m = 0 }
    variant { m }
  = if m > 0 then altd_empty s (m-1)
  let rec lemma altd_step (s:seq simplex) (n m:int)
    requires { 0 <= n }
    ensures { altd s (n+1) m = altd s n m + if 0 <= dim s[n] < m then sg (dim s[n]) else 0 }
    variant { m }
  = if m > 0 then altd_step s n (m-1)
  let rec lemma altd_all (s:seq simplex) (n m:int)
    requires { 0 <= n <= length s /\ forall k. 0 <= k < length s -> 0 <= dim s[k] < m }
    ensures { altd s n m = alt s n }
    variant { n }
  = if n > 0 then altd_all s (n-1) m
  let rec lemma altd_bound (s:seq simplex) (n m:int)
    requires { 0 <= n }
    ensures { -n <= altd s n m <= n }
    variant { n }
  = if n > 0 then begin altd_bound s (n-1) m; altd_step s (n-1) m end
"""
EUL = r"""
  (* Betti numbers of a list of diagrams: those of the last diagram of a dimension *)
  function bet (x:diagram) : int = inf x.diagram_points (length x.diagram_points)
  let rec lemma inf_bound (s:seq point) (n:int)
    requires { 0 <= n }
    ensures { 0 <= inf s n <= n }
    variant { n }
  = if n > 0 then inf_bound s (n-1)
  let rec ghost function betti_in (s:seq diagram) (lo n d:int) : int
    variant { n - lo }
  = if n <= lo then 0 else if pure { s[n-1].diagram_dimension = d } then pure { bet s[n-1] } else betti_in s lo (n-1) d
  let rec ghost function altb (s:seq diagram) (lo n m:int) : int
    variant { m }
  = if m <= 0 then 0 else altb s lo n (m-1) + sg (m-1) * betti_in s lo n (m-1)
  let rec lemma betti_bound (s:seq diagram) (lo n d:int)
    requires { forall k. lo <= k < n -> length s[k].diagram_points < 2147483648 }
    ensures { 0 <= betti_in s lo n d < 2147483648 }
    variant { n - lo }
  = if n > lo then betti_bound s lo (n-1) d
  let rec lemma altb_bound (s:seq diagram) (lo n m:int)
    requires { 0 <= m /\ forall k. lo <= k < n -> length s[k].diagram_points < 2147483648 }
    ensures { - (2147483648 * m) <= altb s lo n m <= 2147483648 * m }
    variant { m }
  = if m > 0 then begin altb_bound s lo n (m-1); sg_abs (m-1); betti_bound s lo n (m-1) end
  predicate dimin (s:seq diagram) (lo n d:int) = exists q. lo <= q < n /\ s[q].diagram_dimension = d
  let rec ghost none (s:seq diagram) (lo n d:int)
    requires { forall k. lo <= k < n -> s[k].diagram_dimension <> d }
    ensures { betti_in s lo n d = 0 }
    variant { n - lo }
  = if n > lo then none s lo (n-1) d
  let rec lemma altb_end (s:seq diagram) (lo n m d:int)
    requires { 0 <= m <= d /\ forall k. lo <= k < n -> s[k].diagram_dimension < m }
    ensures { altb s lo n d = altb s lo n m }
    variant { d }
  = if d > m then begin altb_end s lo n m (d-1); none s lo n (d-1) end
"""
COMP = r"""
  predicate edge_at (s:seq simplex) (k u w:int) = 0 <= k < length s /\ length (vs s[k]) = 2 /\ (vs s[k])[0] = u /\ (vs s[k])[1] = w
  predicate equiv (r:int->int->bool) = (forall x. r x x) /\ (forall x y. r x y -> r y x) /\ (forall x y z. r x y -> r y z -> r x z)
  (* r relates the end points of all edges *)
  predicate relates (s:seq simplex) (r:int->int->bool) = equiv r /\ forall k u w. edge_at s k u w -> r u w
  (* joined by a path *)
  predicate conn (s:seq simplex) (x y:int) = forall r. relates s r -> r x y
  predicate sound (s:seq simplex) (p:parents) = forall r x. relates s r -> mdom x p -> r x (root_of p x)
  predicate joined (s:seq simplex) (o:seq int) (lo hi:int) (p:parents) =
    forall j. lo <= j < hi -> length (vs s[o[j]]) = 2 -> root_of p (vs s[o[j]])[0] = root_of p (vs s[o[j]])[1]
  predicate covered (s:seq simplex) = forall k i. 0 <= k < length s -> 0 <= i < length (vs s[k]) -> has_vertex s (vs s[k])[i]
  let ghost all_joined (s:seq simplex) (o:seq int) (lo hi:int) (p:parents) (x y:int)
    requires { dim_order s o /\ covered s /\ joined s o lo hi p /\ 0 <= lo <= hi <= length s }
    requires { forall j. 0 <= j < length s -> length (vs s[o[j]]) = 2 -> lo <= j < hi }
    requires { conn s x y }
    ensures { root_of p x = root_of p y }
  = let ghost r : int->int->bool = pure { fun a b -> root_of p a = root_of p b } in
    let lemma one (k u w:int) requires { edge_at s k u w } ensures { root_of p u = root_of p w }
    = assert { inv_at o k };
      assert { forall i. 0 <= i < length o -> o[i] = k -> lo <= i < hi } in
    assert { relates s r };
    assert { r x y }
  let ghost sound_joined (s:seq simplex) (p:parents) (x y:int)
    requires { sound s p /\ mdom x p /\ mdom y p /\ root_of p x = root_of p y }
    ensures { conn s x y }
  = let lemma any_r (r:int->int->bool) requires { relates s r } ensures { r x y }
    = assert { r x (root_of p x) /\ r y (root_of p y) } in ()
"""
CONE = r"""
  predicate covered (s:seq simplex) = forall k i. 0 <= k < length s -> 0 <= i < length (vs s[k]) -> has_vertex s (vs s[k])[i]
  let lemma last_max (e:oset) (v:int)
    requires { smem v e.elts }
    ensures { v <= e.elts[length e.elts - 1] }
  = ()
  (* a is larger than every vertex of s *)
  predicate above (s:seq simplex) (a:int) = forall x. has_vertex s x -> x < a
  predicate joins (a:int) (u v:seq int) = vwf v /\ length v = length u + 1 /\ forall x. smem x v <-> smem x u \/ x = a
  (* y is the simplex x together with the apex a *)
  predicate coned (a:int) (x y:simplex) = joins a (vs x) (vs y) /\ dat y = weight_of x
  predicate apex (a:int) (y:simplex) = length (vs y) = 1 /\ (vs y)[0] = a /\ exists e. length (vs e) = 0 /\ dat e = 0.0 /\ dat y = weight_of e
  predicate has_coned (a:int) (x:simplex) (r:seq simplex) (m:int) = exists q. m <= q < length r /\ coned a x r[q]
  predicate has_apex (a:int) (r:seq simplex) (m:int) = exists q. m <= q < length r /\ apex a r[q]
  (* y is the apex or a simplex of the cone with apex a over s *)
  predicate from_coned (a:int) (s:seq simplex) (y:simplex) = exists j. 0 <= j < length s /\ coned a s[j] y
  predicate in_cone (a:int) (s:seq simplex) (y:simplex) = apex a y \/ from_coned a s y
  (* vertices are those of u and the apex at the end *)
  let ghost joins_intro (a:int) (u l v:seq int)
    requires { l = snoc u a /\ vwf u /\ (forall x. smem x u -> x < a) /\ vwf v /\ (forall x. smem x v <-> smem x l) }
    ensures { joins a u v }
  = assert { forall x. smem x l <-> smem x u \/ x = a };
    let ghost c = pure { cons a u } in
    assert { c[0] = a /\ forall i. 0 <= i < length u -> c[i+1] = u[i] };
    assert { forall i. 0 <= i < length u -> smem u[i] u };
    assert { forall i. 0 <= i < length c -> smem c[i] c };
    assert { forall x. smem x u -> smem x c };
    assert { forall i. 0 < i < length c -> c[i] = u[i-1] };
    assert { forall x. smem x c -> smem x u \/ x = a };
    assert { dsorted c };
    assert { v = c }
  let lemma joins_inj (a:int) (u w v:seq int)
    requires { vwf u /\ vwf w /\ not smem a u /\ not smem a w /\ joins a u v /\ joins a w v }
    ensures { u = w }
  = assert { forall x. smem x u <-> smem x w }
  let lemma snoc_set (u:seq int) (a b:int)
    ensures { (snoc u a)[length u <- b] = snoc u b }
  = assert { (snoc u a)[length u <- b] == snoc u b }
  predicate two_cones (a b:int) (s r:seq simplex) =
    has_apex a r (length s) /\ has_apex b r (length s) /\
    (forall j. 0 <= j < length s -> has_coned a s[j] r (length s) /\ has_coned b s[j] r (length s)) /\
    (forall q. length s <= q < length r -> in_cone a s r[q] \/ in_cone b s r[q])
  predicate suspended (a b:int) (s t:seq simplex) =
    length t = 2 * length s + 2 /\ apex a t[0] /\ apex b t[1] /\
    forall j. 0 <= j < length s -> coned a s[j] t[2*j+2] /\ coned b s[j] t[2*j+3]
  let ghost susp_uniq (a b:int) (s t:seq simplex)
    requires { cwf s /\ suspended a b s t /\ a < b /\ forall j x. 0 <= j < length s -> smem x (vs s[j]) -> x < a }
    ensures { uniq t /\ forall j. 0 <= j < length t -> not has s (vs t[j]) }
  = let lemma at_ (i:int) requires { 0 <= i < length s } ensures { coned a s[i] t[2*i+2] /\ coned b s[i] t[2*i+3] } = () in
    let lemma ev (i:int) requires { 0 <= i < length t }
      ensures { (i = 0 /\ apex a t[i]) \/ (i = 1 /\ apex b t[i]) \/ (exists k. 0 <= k < length s /\ ((i = 2*k+2 /\ coned a s[k] t[i]) \/ (i = 2*k+3 /\ coned b s[k] t[i]))) }
    = if i >= 2 then begin
        let k = div (i - 2) 2 in
        assert { i = 2*k+2 \/ i = 2*k+3 };
        at_ k end in
    let lemma up (k:int) requires { 0 <= k < length s } ensures { smem a (vs t[2*k+2]) /\ not smem b (vs t[2*k+2]) /\ smem b (vs t[2*k+3]) /\ not smem a (vs t[2*k+3]) /\ length (vs t[2*k+2]) > 1 /\ length (vs t[2*k+3]) > 1 }
    = at_ k in
    assert { smem a (vs t[0]) /\ smem b (vs t[1]) /\ not smem b (vs t[0]) /\ not smem a (vs t[1]) };
    let lemma inj (i j:int) requires { 0 <= i < length s /\ 0 <= j < length s /\ (vs t[2*i+2] = vs t[2*j+2] \/ vs t[2*i+3] = vs t[2*j+3]) } ensures { i = j }
    = at_ i; at_ j;
      assert { not smem a (vs s[i]) /\ not smem a (vs s[j]) /\ not smem b (vs s[i]) /\ not smem b (vs s[j]) };
      assert { vs t[2*i+2] = vs t[2*j+2] -> vs s[i] = vs s[j] };
      assert { vs t[2*i+3] = vs t[2*j+3] -> vs s[i] = vs s[j] } in
    let lemma one (i j:int) requires { 0 <= i < length t /\ 0 <= j < length t /\ vs t[i] = vs t[j] } ensures { i = j }
    = if i >= 2 then begin
        let k = div (i - 2) 2 in
        assert { i = 2*k+2 \/ i = 2*k+3 };
        up k;
        if j >= 2 then begin
          let l = div (j - 2) 2 in
          assert { j = 2*l+2 \/ j = 2*l+3 };
          up l;
          if i = 2*k+2 then begin assert { j = 2*l+2 }; inj k l end else begin assert { j = 2*l+3 }; inj k l end
        end else assert { length (vs t[j]) = 1 }
      end else begin
        assert { length (vs t[i]) = 1 };
        if j >= 2 then begin
          let l = div (j - 2) 2 in
          assert { j = 2*l+2 \/ j = 2*l+3 };
          up l
        end
      end in
    let lemma two (j:int) requires { 0 <= j < length t } ensures { not has s (vs t[j]) }
    = ev j; assert { smem a (vs t[j]) \/ smem b (vs t[j]) } in
    ()
  let ghost susp_cones (a b:int) (s t r:seq simplex)
    requires { suspended a b s t /\ r = s ++ t }
    ensures { two_cones a b s r }
  = assert { forall j. 0 <= j < length t -> r[length s + j] = t[j] };
    assert { apex a r[length s] /\ apex b r[length s + 1] };
    let lemma at_ (i:int) requires { 0 <= i < length s } ensures { has_coned a s[i] r (length s) /\ has_coned b s[i] r (length s) }
    = assert { coned a s[i] r[length s + (2*i+2)] /\ coned b s[i] r[length s + (2*i+3)] } in
    let lemma ev (q:int) requires { length s <= q < length r } ensures { in_cone a s r[q] \/ in_cone b s r[q] }
    = let i = q - pure { length s } in
      if i >= 2 then begin
        let k = div (i - 2) 2 in
        assert { i = 2*k+2 \/ i = 2*k+3 };
        assert { coned a s[k] t[2*k+2] /\ coned b s[k] t[2*k+3] } end in
    ()
"""
SK = '$K.complex_simplices'
RS = '$result.complex_simplices'
LS = '$L.complex_simplices'
SKEL = Fn('skeleton', 'Skeleton::operator()', requires=['cwf $p2.complex_simplices'],
          ensures=['[simplices of at most the dimension, in their order] %s = keep (fun x -> length (vs x) - 1 <= $p1) $p2.complex_simplices (length $p2.complex_simplices)' % RS, '[well-formed] cwf ' + RS],
          loops=[Loop(['[so far] %s = keep (fun x -> length (vs x) - 1 <= $p1) $p2.complex_simplices $K0' % LS, '[well-formed] cwf ' + LS])])
FILT = Fn('filter', 'Filter::operator()', requires=['cwf $p1.complex_simplices'],
          ensures=['[chosen simplices, in their order] %s = keep chosen $p1.complex_simplices (length $p1.complex_simplices)' % RS, '[well-formed] cwf ' + RS],
          loops=[Loop(['[so far] %s = keep chosen $p1.complex_simplices $K0' % LS, '[well-formed] cwf ' + LS])])
CHOICE = Fn('choice', 'Choice::operator()', ensures=['$result <-> chosen $p1'])
WEIGHT = Fn('weight', 'Weight::operator()', ensures=['$result = weight_of $p1'], ret='double')
EULER = Fn('euler', 'eulerCharacteristic', params=['SimplicialComplex<S>'], requires=['cwf $p1.complex_simplices', 'length $p1.complex_simplices < 4294967296'],
           ensures=['[alternating number of simplices] $result = alt $p1.complex_simplices (length $p1.complex_simplices)'],
           loops=[Loop(['[counted so far] forall d. mdom d $cardinality -> mval $cardinality d = cnt $p1.complex_simplices $K0 d',
                        '[others] forall d. not mdom d $cardinality -> cnt $p1.complex_simplices $K0 d = 0']),
                  Loop(['[sign] $s = sg $d', '[sum so far] $chi = altd $p1.complex_simplices (length $p1.complex_simplices) $d',
                        '[counted] forall d. mdom d $cardinality -> mval $cardinality d = cnt $p1.complex_simplices (length $p1.complex_simplices) d',
                        '[others] forall d. not mdom d $cardinality -> cnt $p1.complex_simplices (length $p1.complex_simplices) d = 0'])])

BI_ = 'betti_in $s $begin'
EULD = Fn('euler_diagrams', 'eulerCharacteristic', params=['__normal_iterator<PersistenceDiagram<double>*, vector<PersistenceDiagram<double>>>'] * 2,
          requires=['forall q. $begin <= q < $end -> 0 <= $s[q].diagram_dimension < 2147483648 /\\ length $s[q].diagram_points < 2147483648'],
          ensures=['[alternating sum of the Betti numbers] forall m. 0 <= m -> (forall q. $begin <= q < $end -> $s[q].diagram_dimension < m) -> $result = altb $s $begin $end m'],
          loops=[Loop(['[position] $begin <= $it <= $end', '[so far] forall d. mdom d $betti -> mval $betti d = betti_in $s $begin $it d', '[others] forall d. not mdom d $betti -> betti_in $s $begin $it d = 0',
                       '[dimensions so far] forall d. mdom d $betti -> dimin $s $begin $it d', '[dimensions] forall q. $begin <= q < $it -> mdom $s[q].diagram_dimension $betti']),
                 Loop(['[sign] $s = sg $d', '[sum so far] $chi = altb f_ $begin $end $d', '?[size] -4611686018427387904 <= $chi <= 4611686018427387904', '[Betti numbers] forall d. mdom d $betti -> mval $betti d = betti_in f_ $begin $end d', '[others] forall d. not mdom d $betti -> betti_in f_ $begin $end d = 0'])],
          entry=['let ghost f_ = pure { $s } in'])
P1 = '$p1.complex_simplices'
UP = '$uf.uf_parent'
COMPS = Fn('components', 'calculateConnectedComponents', requires=['cwf ' + P1, 'covered ' + P1],
           ensures=['[vertices] forall x. mdom x $result.uf_parent <-> has_vertex %s x' % P1,
                    '[same class exactly if joined by a path] forall x y. has_vertex %s x -> has_vertex %s y -> (root_of $result.uf_parent x = root_of $result.uf_parent y <-> conn %s x y)' % (P1, P1, P1),
                    '[well-formed] ufwf $result'],
           loops=[Loop(['[union-find] ufwf %s' % '$uf', '[vertices] forall x. mdom x %s <-> has_vertex %s x' % (UP, P1),
                        '[position] lo_ <= $itPair_first <= $itPair_second', '[edges so far joined] joined %s $ord lo_ $itPair_first %s' % (P1, UP),
                        '[only joined by paths] sound %s %s' % (P1, UP)],
                       before=['let ghost lo_ = $itPair_first in', 'assert { is_rt %s (root_of %s) };' % (UP, UP), 'assert { forall x. mdom x %s -> root_of %s x = x };' % (UP, UP)],
                       begin=['let ghost p0_ = pure { %s } in' % UP, 'let ghost x_ = pure { vs %s[$ord[$itPair_first]] } in' % P1, 'assert { length x_ = 2 };', 'assert { has_vertex %s x_[0] /\\ has_vertex %s x_[1] };' % (P1, P1),
                              'assert { edge_at %s $ord[$itPair_first] x_[0] x_[1] };' % P1,
                              'assert { forall j. lo_ <= j < $itPair_second -> length (vs %s[$ord[j]]) = 2 /\\ has_vertex %s (vs %s[$ord[j]])[0] /\\ has_vertex %s (vs %s[$ord[j]])[1] };' % ((P1,)*5),
                              'assert { forall r. relates %s r -> r x_[0] x_[1] };' % P1, 'assert { forall r. relates %s r -> r x_[0] (root_of p0_ x_[0]) /\\ r x_[1] (root_of p0_ x_[1]) };' % P1,
                              'assert { forall r. relates %s r -> r (root_of p0_ x_[0]) (root_of p0_ x_[1]) /\\ r (root_of p0_ x_[1]) (root_of p0_ x_[0]) };' % P1],
                       after=['assert { forall j. 0 <= j < length %s -> length (vs %s[$ord[j]]) = 2 -> lo_ <= j < $itPair_first };' % (P1, P1),
                              'let lemma compl_ (x y:int) requires { conn %s x y } ensures { root_of %s x = root_of %s y } = all_joined (pure { %s }) $ord lo_ $itPair_first (pure { %s }) x y in' % (P1, UP, UP, P1, UP),
                              'let lemma sound_ (x y:int) requires { mdom x %s /\\ mdom y %s /\\ root_of %s x = root_of %s y } ensures { conn %s x y } = sound_joined (pure { %s }) (pure { %s }) x y in' % (UP, UP, UP, UP, P1, P1, UP)],
                       variant='$itPair_second - $itPair_first')])


CONEF = Fn('cone', 'cone', params=['SimplicialComplex<S>', 'Weight'], requires=['cwf ' + P1, 'covered ' + P1, 'forall x. has_vertex %s x -> x + 1 < 4294967296' % P1, 'length %s < 2147483648' % P1],
           ensures=['[nothing over nothing] length %s = 0 -> length %s = 0' % (P1, RS),
                    '[simplices kept] length %s <= length %s /\\ forall q. 0 <= q < length %s -> %s[q] = %s[q]' % (P1, RS, P1, RS, P1),
                    '[cone] length %s > 0 -> exists a. above %s a /\\ has_apex a %s (length %s) /\\ (forall j. 0 <= j < length %s -> has_coned a %s[j] %s (length %s)) /\\ (forall q. length %s <= q < length %s -> in_cone a %s %s[q])' % (P1, P1, RS, P1, P1, P1, RS, P1, P1, RS, P1, RS),
                    '[well-formed] cwf ' + RS],
           entry=['assert { length %s > 0 -> has_vertex %s (vs %s[0])[0] };' % (P1, P1, P1)],
           loops=[Loop(['[one simplex each] length $simplices = $K0 + 1', '[apex] apex $coneVertex $simplices[0]', '[coned so far] forall j. 0 <= j < $K0 -> coned $coneVertex %s[j] $simplices[j+1]' % P1,
                        '[well-formed] forall j. 0 <= j < length $simplices -> swf $simplices[j] /\\ length (vs $simplices[j]) > 0'],
                       before=['assert { above %s $coneVertex };' % P1,
                               'assert { forall j i. 0 <= j < length %s -> 0 <= i < length (vs %s[j]) -> (vs %s[j])[i] < $coneVertex };' % (P1, P1, P1),
                               'assert { forall j x. 0 <= j < length %s -> smem x (vs %s[j]) -> x < $coneVertex };' % (P1, P1)],
                       begin=['let ghost x_ = pure { %s[$K0] } in' % P1, 'let ghost l_ = pure { snoc (vs x_) $coneVertex } in', 'assert { vwf (vs x_) };', 'assert { l_[0 .. length l_] == l_ };', 'assert { (vs x_)[0 .. length (vs x_)] == vs x_ };'],
                       end=['joins_intro $coneVertex (pure { vs x_ }) l_ (pure { vs $simplices[$K0+1] });'],
                       after=['let ghost t_ = pure { $simplices } in', 'assert { t_[0 .. length t_] == t_ };',
                              'assert { forall j. 0 < j < length t_ -> coned $coneVertex %s[j-1] t_[j] };' % P1, 'assert { forall j. 0 < j < length t_ -> smem $coneVertex (vs t_[j]) };', 'assert { smem $coneVertex (vs t_[0]) };', 'assert { forall j. 0 <= j < length t_ -> not has %s (vs t_[j]) };' % P1,
                              'let lemma inj_ (i j:int) requires { 0 < i < length t_ /\\ 0 < j < length t_ /\\ vs t_[i] = vs t_[j] } ensures { i = j } = assert { coned $coneVertex %s[i-1] t_[i] /\\ coned $coneVertex %s[j-1] t_[j] }; joins_inj $coneVertex (pure { vs %s[i-1] }) (pure { vs %s[j-1] }) (pure { vs t_[i] }) in' % (P1, P1, P1, P1),
                              'assert { forall j. 0 < j < length t_ -> length (vs t_[j]) > 1 };',
                              'assert { uniq t_ };',
                              'let ghost r_ = pure { %s ++ t_ } in' % P1, 'let ghost m_ = pure { length %s } in' % P1,
                              'assert { forall j. 0 <= j < length t_ -> r_[m_ + j] = t_[j] };', 'assert { has_apex $coneVertex r_ m_ };',
                              'assert { forall j. 0 <= j < m_ -> coned $coneVertex %s[j] r_[m_ + j + 1] };' % P1,
                              'assert { forall j. 0 <= j < m_ -> has_coned $coneVertex %s[j] r_ m_ };' % P1,
                              'assert { forall q. m_ < q < length r_ -> coned $coneVertex %s[q-m_-1] r_[q] };' % P1,
                              'assert { forall q. m_ <= q < length r_ -> in_cone $coneVertex %s r_[q] };' % P1])])


UPV, LOV = '$upperConeVertex', '$lowerConeVertex'
SUSP = Fn('suspension', 'suspension', params=['SimplicialComplex<S>', 'Weight'], requires=['cwf ' + P1, 'covered ' + P1, 'forall x. has_vertex %s x -> x + 2 < 4294967296' % P1, 'length %s < 1073741824' % P1],
          ensures=['[nothing over nothing] length %s = 0 -> length %s = 0' % (P1, RS),
                   '[simplices kept] length %s <= length %s /\\ forall q. 0 <= q < length %s -> %s[q] = %s[q]' % (P1, RS, P1, RS, P1),
                   '[two cones] length %s > 0 -> exists a b. a <> b /\\ above %s a /\\ above %s b /\\ two_cones a b %s %s' % (P1, P1, P1, P1, RS),
                   '[well-formed] cwf ' + RS],
          entry=['assert { length %s > 0 -> has_vertex %s (vs %s[0])[0] };' % (P1, P1, P1)],
          loops=[Loop(['[two simplices each] length $simplices = 2 * $K0 + 2', '[apexes] apex %s $simplices[0] /\\ apex %s $simplices[1]' % (UPV, LOV),
                       '[coned so far] forall j. 0 <= j < $K0 -> coned %s %s[j] $simplices[2*j+2] /\\ coned %s %s[j] $simplices[2*j+3]' % (UPV, P1, LOV, P1),
                       '[well-formed] forall j. 0 <= j < length $simplices -> swf $simplices[j] /\\ length (vs $simplices[j]) > 0'],
                      before=['assert { above %s %s };' % (P1, UPV), 'assert { above %s %s };' % (P1, LOV),
                              'assert { forall j i. 0 <= j < length %s -> 0 <= i < length (vs %s[j]) -> (vs %s[j])[i] < %s };' % (P1, P1, P1, UPV),
                              'assert { forall j x. 0 <= j < length %s -> smem x (vs %s[j]) -> x < %s };' % (P1, P1, UPV)],
                      begin=['let ghost x_ = pure { %s[$K0] } in' % P1, 'let ghost l_ = pure { snoc (vs x_) %s } in' % UPV, 'let ghost m_ = pure { snoc (vs x_) %s } in' % LOV, 'assert { vwf (vs x_) };',
                             'assert { l_[0 .. length l_] == l_ };', 'assert { m_[0 .. length m_] == m_ };', 'snoc_set (pure { vs x_ }) %s %s;' % (UPV, LOV), 'assert { length l_ - 1 = length (vs x_) };', 'assert { l_[length l_ - 1 <- %s] = m_ };' % LOV, 'let ghost s_ = pure { $simplices } in', 'assert { (vs x_)[0 .. length (vs x_)] == vs x_ };'],
                      end=['assert { length s_ = 2*$K0+2 };', 'assert { forall j. 0 <= j < length s_ -> $simplices[j] = s_[j] };', 'assert { swf $simplices[2*$K0+2] };', 'assert { swf $simplices[2*$K0+3] };', 'assert { forall x. smem x (vs x_) -> x < %s };' % UPV, 'assert { %s < %s };' % (UPV, LOV), 'assert { forall x. smem x (vs x_) -> x < %s };' % LOV, 'assert { forall x. smem x (vs $simplices[2*$K0+2]) <-> smem x l_ };', 'assert { forall x. smem x (vs $simplices[2*$K0+3]) <-> smem x m_ };',
                           'joins_intro %s (pure { vs x_ }) l_ (pure { vs $simplices[2*$K0+2] });' % UPV, 'joins_intro %s (pure { vs x_ }) m_ (pure { vs $simplices[2*$K0+3] });' % LOV,
                           'assert { coned %s x_ $simplices[2*$K0+2] /\\ coned %s x_ $simplices[2*$K0+3] };' % (UPV, LOV), 'assert { forall j. 0 <= j < $K0 -> $simplices[2*j+2] = s_[2*j+2] /\\ $simplices[2*j+3] = s_[2*j+3] };'],
                      after=['let ghost t_ = pure { $simplices } in', 'let ghost m_ = pure { length %s } in' % P1, 'assert { t_[0 .. length t_] == t_ };',
                             'let ghost r_ = pure { %s ++ t_ } in' % P1,
                             'susp_uniq %s %s (pure { %s }) t_;' % (UPV, LOV, P1),
                             'susp_cones %s %s (pure { %s }) t_ r_;' % (UPV, LOV, P1)])])


def mk4():
    fns = [f for f in simplex_fns() if f.why in ('sdimension', 'ssize', 'simplex_vertex', 'simplex_range', 'simplex_empty')]
    fns += [f for f in complex_fns() if f.why in ('kempty', 'ksize', 'complex_empty')] + [f for f in range_fns() if f.why == 'kinsert']
    return Unit('quotients', SRC, trust(fns + [copy.copy(KVERT), WEIGHT]) + [CONEF, SUSP], theories=['int.EuclideanDivision'], classes={S: 'simplex', K: 'complex', 'Weight': 'weight_t'},
                prelude=SIMPLEX_PRE + MIC + IS_FACE + CLOSED + "  function weight_of (x:simplex) : real\n" + CONE, aliases=dict(ALIAS, **{'SimplicialComplex': K, 'VPK': K, 'Simplex': S, 'VertexType': 'unsigned int'}),
                keys={S: ('vs', '(seq int)')}, adaptors={BI: (S, 'unsigned int')})


VSP, VSQ = 'vs $p1', 'vs $p2'
SIZEI = Fn('size_of_intersection', 'sizeOfIntersection', requires=['swf $p1', 'swf $p2'],
           ensures=['[number of common vertices] exists c. ssorted c /\\ length c = $result /\\ forall x. smem x c <-> smem x (%s) /\\ smem x (%s)' % (VSP, VSQ)],
           exit=['assert { ssorted $stVertices };', 'assert { forall x. smem x $stVertices <-> smem x (%s) /\\ smem x (%s) };' % (VSP, VSQ)])
ISECT = Fn('intersect', 'intersect', params=['Simplex<double, unsigned int>'] * 2, requires=['swf $p1', 'swf $p2'],
           ensures=['[common vertices] forall x. smem x (vs $result) <-> smem x (%s) /\\ smem x (%s)' % (VSP, VSQ), '[well-formed] swf $result'])


ISP = r"""
  let lemma whole (s:seq int) ensures { s[0 .. length s] = s } = assert { s[0 .. length s] == s }
  let lemma front (s:seq int) ensures { (empty : seq int) ++ s = s } = assert { (empty : seq int) ++ s == s }
  let lemma mem_at (s:seq int) (i:int) requires { 0 <= i < length s } ensures { smem s[i] s } = ()
  let lemma mem_id (s:seq int) (x:int) requires { smem x s /\ ids s } ensures { 0 <= x < 4294967296 } = ()
"""


def mk5():
    fns = [f for f in simplex_fns() if f.why in ('ssize', 'simplex_range')]
    return Unit('intersections', SRC, trust(fns) + [SIZEI, ISECT], classes={S: 'simplex', K: 'complex'},
                prelude=SIMPLEX_PRE + MIC + IS_FACE + ISP, aliases=dict(ALIAS, **{'SimplicialComplex': K, 'VPK': K, 'Simplex': S, 'VertexType': 'unsigned int'}),
                keys={S: ('vs', '(seq int)')}, adaptors={BI: (S, 'unsigned int')})


def mk2():
    fns = [f for f in simplex_fns() if f.why in ('sdimension', 'sat')]
    return Unit('components', SRC, trust(fns + [copy.copy(KVERT)] + [f for f in uf.fns() if f.why in ('merge', 'uf_ctor')]) + [COMPS], classes={S: 'simplex', K: 'complex', uf.C: 'uf'},
                prelude=SIMPLEX_PRE + MIC + IS_FACE + CLOSED + uf.PRE + COMP, aliases=dict(ALIAS, **{'SimplicialComplex': K, 'VPK': K}),
                keys={S: ('vs', '(seq int)')}, adaptors={BI: (S, 'unsigned int')})


def mk3():
    df = [copy.copy(f) for f in c12.FNS if f.why in ('betti', 'getDim')]
    return Unit('diagrams', SRC, trust(df) + [EULD], classes={c12.PT: 'point', c12.DG: 'diagram', c12.PP: 'ppairing', S: 'simplex', K: 'complex'}, aliases=c12.AL, pure=[c12.PT],
                prelude=SIMPLEX_PRE + MIC + IS_FACE + CLOSED + c12.PRE + SGN + EUL, keys={S: ('vs', '(seq int)')}, adaptors={BI: (S, 'unsigned int')})


def mk():
    fns = [f for f in simplex_fns() if f.why in ('sdimension',)]
    fns += [f for f in complex_fns() if f.why in ('push_back', 'complex_empty', 'kempty', 'kdimension')]
    return Unit('derived', SRC, trust(fns + [CHOICE]) + [SKEL, FILT, EULER], classes={S: 'simplex', K: 'complex', 'Choice': 'choice_t', 'Weight': 'weight_t'},
                prelude=SIMPLEX_PRE + MIC + IS_FACE + CLOSED + PRE + SGN + CNT, aliases=dict(ALIAS, **{'SimplicialComplex': K, 'VPK': K}),
                keys={S: ('vs', '(seq int)')}, adaptors={BI: (S, 'unsigned int')})


UNITS = [mk(), mk2(), mk3(), mk4(), mk5()]
