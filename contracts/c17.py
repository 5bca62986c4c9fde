"""Vietoris-Rips complexes."""
import copy
from .sc import *
from cxx2why.trans import Val
from .c03 import trust
from . import c15, c08

SRC = c15.SRC + """#include <aleph/geometry/RipsSkeleton.hh>
#include <aleph/geometry/VietorisRipsComplex.hh>
#include <aleph/geometry/BruteForce.hh>
// Stands for any search structure: the contracts of its operations are
// uninterpreted, the bodies are never looked at.
namespace aleph {
struct Search
{
  using ElementType = double;
  using IndexType = unsigned;
  std::size_t size() const { return 0; }
  void radiusSearch( double, std::vector< std::vector<unsigned> >&, std::vector< std::vector<double> >& ) const {}
};
// Any container of points and any distance of points.
struct Points
{
  using ElementType = double;
  std::size_t size() const { return 0; }
  std::size_t dimension() const { return 0; }
  std::vector<double> operator[]( std::size_t ) const { return {}; }
};
struct Metric
{
  using ResultType = double;
  using ElementType = double;
  double operator()( std::vector<double>::iterator, std::vector<double>::iterator, std::size_t ) const { return 0; }
};
}
template class aleph::geometry::BruteForce<aleph::Points, aleph::Metric>;
template class aleph::geometry::RipsSkeleton<aleph::Search>;
template aleph::topology::SimplicialComplex<S>::SimplicialComplex(std::vector<S>::iterator, std::vector<S>::iterator);
namespace F = aleph::topology::filtrations;
template void aleph::topology::SimplicialComplex<S>::sort(F::Data<aleph::topology::Simplex<double, unsigned int>>&&);
template aleph::topology::SimplicialComplex<S> aleph::geometry::buildVietorisRipsComplex(const aleph::Search&, double, unsigned);
template aleph::topology::SimplicialComplex<S> aleph::geometry::buildVietorisRipsComplex(const aleph::Search&, double, unsigned, std::vector<double>::iterator, std::vector<double>::iterator);
"""
PRE = r"""
  (* points closer than e, in the sense of the search structure *)
  function npoints (s:search) : int
  function dist (s:search) (i j:int) : real
  predicate near (s:search) (e:real) (i j:int) = 0 <= i < npoints s /\ 0 <= j < npoints s /\ dist s i j <. e
  predicate rowof (s:search) (e:real) (i:int) (r:seq int) (d:seq real) =
    length r = length d /\ distinct r /\ (forall j. smem j r <-> near s e i j) /\ forall q. 0 <= q < length r -> d[q] = dist s i r[q]
  predicate rows (s:search) (e:real) (r:seq (seq int)) (d:seq (seq real)) =
    length r = npoints s /\ length d = npoints s /\ forall i. 0 <= i < npoints s -> rowof s e i r[i] d[i]
  (* vertices and edges of the neighbourhood graph, larger number first *)
  predicate isv (s:search) (x:simplex) = exists i. 0 <= i < npoints s /\ vs x = singleton i /\ dat x = 0.0
  function pr (w u:int) : seq int = cons w (singleton u)
  lemma pr_at : forall w u. length (pr w u) = 2 /\ (pr w u)[0] = w /\ (pr w u)[1] = u
  predicate edge_of (s:search) (e:real) (u w:int) (x:simplex) = near s e u w /\ u < w /\ vs x = pr w u /\ dat x = dist s u w
  predicate ise (s:search) (e:real) (x:simplex) = exists u w. edge_of s e u w x
  predicate good (s:search) (e:real) (t:seq simplex) = forall q. 0 <= q < length t -> swf t[q] /\ length (vs t[q]) > 0 /\ (isv s t[q] \/ ise s e t[q])
  let ghost pair_vs (u w:int) (l v:seq int)
    requires { u < w /\ vwf v /\ l = snoc (snoc (empty : seq int) u) w /\ forall x. smem x v <-> smem x l }
    ensures { v = pr w u }
  = assert { length l = 2 /\ l[0] = u /\ l[1] = w };
    assert { forall x. smem x l <-> x = u \/ x = w };
    assert { smem w (pr w u) by (pr w u)[0] = w };
    assert { smem u (pr w u) by (pr w u)[1] = u };
    assert { forall x. smem x (pr w u) -> x = u \/ x = w };
    assert { dsorted (pr w u) }
"""
SEARCH = [Fn('search_size', 'Search::size', ensures=['$result = npoints $this']),
          Fn('radius_search', 'Search::radiusSearch', ensures=['rows $this $p1 $p2 $p3'])]
RS = 'RipsSkeleton<Search>'
SI = '$simplices'
NN, EPS = '$p1', '$p2'
RX = '$result.complex_simplices'
SKEL = Fn('rips_skeleton', RS + '::operator()', requires=['npoints $p1 < 4294967296'],
          ensures=['[vertices] forall i. 0 <= i < npoints $p1 -> has %s (singleton i)' % RX,
                   '[edges] forall u w. u < w -> near $p1 $p2 u w -> has %s (pr w u)' % RX,
                   '[nothing else] forall q. 0 <= q < length %s -> isv $p1 %s[q] \\/ ise $p1 $p2 %s[q]' % (RX, RX, RX),
                   '[well-formed] cwf ' + RX],
          loops=[Loop(['[vertices so far] forall q. 0 <= q < $i -> has %s (singleton q)' % SI, '[nothing else] good $p1 $p2 ' + SI]),
                 Loop(['[vertices] forall q. 0 <= q < npoints $p1 -> has %s (singleton q)' % SI, '[nothing else] good $p1 $p2 ' + SI,
                       '[edges so far] forall u w. u < w -> u < $i -> near $p1 $p2 u w -> has %s (pr w u)' % SI],
                      after=['assert { forall u w. u < w -> near $p1 $p2 u w -> has %s (pr w u) };' % SI, 'assert { %s[0 .. length %s] == %s };' % (SI, SI, SI)]),
                 Loop(['[vertices] forall q. 0 <= q < npoints $p1 -> has %s (singleton q)' % SI, '[nothing else] good $p1 $p2 ' + SI,
                       '[edges before] forall u w. u < w -> u < $i -> near $p1 $p2 u w -> has %s (pr w u)' % SI,
                       '[edges so far] forall q. 0 <= q < $j -> $i < $indices[$i][q] -> has %s (pr $indices[$i][q] $i)' % SI],
                      before=['assert { rowof $p1 $p2 $i $indices[$i] $distances[$i] };'],
                      begin=['let ghost s_ = pure { %s } in' % SI, 'let ghost v_ = pure { $indices[$i][$j] } in', 'assert { smem v_ $indices[$i] };', 'assert { near $p1 $p2 $i v_ };',
                             'let ghost l_ = pure { snoc (snoc (empty : seq int) $i) v_ } in', 'assert { forall x. smem x l_ <-> x = $i \\/ x = v_ };'],
                      end=['if pure { $i < v_ } then begin pair_vs (pure { $i }) v_ l_ (pure { vs %s[length s_] }); assert { edge_of $p1 $p2 $i v_ %s[length s_] }; assert { %s = snoc s_ %s[length s_] } end;' % (SI, SI, SI, SI)],
                      after=['assert { forall w. near $p1 $p2 $i w -> smem w $indices[$i] };'])])


LISTC = Fn('simplex_list', S + '::Simplex', params=['initializer_list<unsigned int>', 'double'], requires=['forall x. smem x $p1 -> 0 <= x < 4294967296'],
           ensures=['[vertices of the list] forall x. smem x (vs $result) <-> smem x $p1', '[data] $result.simplex_data = $p2', '[well-formed] swf $result'],
           exit=['dsorted_length (pure { vs $result }) 0 4294967296;'])


def mk():
    fns = [f for f in simplex_fns() if f.why in ('simplex_vertex', 'simplex_range')] + [f for f in range_fns() if f.why == 'krange']
    return Unit('skeleton', SRC, trust(fns + SEARCH) + [LISTC, SKEL], classes={S: 'simplex', K: 'complex', RS: 'rskeleton', 'Search': 'search'},
                prelude=SIMPLEX_PRE + MIC + IS_FACE + CLOSED + PRE, aliases=dict(ALIAS, **{'Simplex': S, 'SimplicialComplex': K, 'IndexType': 'unsigned int', 'ElementType': 'double', 'NearestNeighbours': 'Search'}),
                keys={S: ('vs', '(seq int)')}, adaptors={BI: (S, 'unsigned int')})


DEFS = defs(c15.PRE, 'isedge', 'clique', 'samedata', 'weighted', 'mx', 'heavier') + defs(c08.PRE, 'elem', 'same_elems', 'monotone', 'faces_first', 'data_lt', 'sorted_data_lt')
RIPS = r"""
  predicate cleq (s:search) (e:real) (d:int) (v:seq int) =
    1 <= length v <= d+1 /\ 0 <= v[0] < npoints s /\ forall i j. 0 <= i < j < length v -> v[j] < v[i] /\ near s e v[j] v[i]
  predicate attained (s:search) (v:seq int) (w:real) = exists i j. 0 <= i < j < length v /\ dist s v[j] v[i] = w
  (* w is the largest distance of two of the points v *)
  predicate diam (s:search) (v:seq int) (w:real) =
    (forall i j. 0 <= i < j < length v -> dist s v[j] v[i] <=. w) /\ if length v <= 1 then w = 0.0 else attained s v w
  predicate nonneg (s:search) = forall i j. 0.0 <=. dist s i j
  predicate wsum (s:search) (t:seq simplex) = forall q. 0 <= q < length t ->
    (length (vs t[q]) = 1 -> dat t[q] = 0.0) /\ (length (vs t[q]) = 2 -> dat t[q] = dist s (vs t[q])[1] (vs t[q])[0]) /\
    (length (vs t[q]) > 2 -> mx t (length (vs t[q])) (vs t[q]) 0.0 (dat t[q]))
  predicate down (t:seq simplex) = forall q k. 0 <= q < length t -> 0 <= k < length (vs t[q]) -> length (vs t[q]) > 1 -> has t (face (vs t[q]) k)
  let lemma face_at (v:seq int) (k:int)
    requires { 0 <= k < length v }
    ensures { length (face v k) = length v - 1 /\ forall p. 0 <= p < length v - 1 -> (face v k)[p] = if p < k then v[p] else v[p+1] }
  = ()
  let ghost face_pair (s:search) (v:seq int) (k i j:int) (w:real)
    requires { 0 <= k < length v /\ 0 <= i < j < length v /\ k <> i /\ k <> j /\ diam s (face v k) w }
    ensures { dist s v[j] v[i] <=. w }
  = let i2 = if i < k then i else i - 1 in
    let j2 = if j < k then j else j - 1 in
    assert { (face v k)[i2] = v[i] /\ (face v k)[j2] = v[j] }
  let ghost face_attained (s:search) (v:seq int) (k:int) (w:real)
    requires { 0 <= k < length v /\ attained s (face v k) w }
    ensures { attained s v w }
  = let lemma one (i j:int) requires { 0 <= i < j < length v - 1 /\ dist s (face v k)[j] (face v k)[i] = w } ensures { attained s v w }
    = let i2 = if i < k then i else i + 1 in
      let j2 = if j < k then j else j + 1 in
      assert { v[i2] = (face v k)[i] /\ v[j2] = (face v k)[j] } in
    assert { exists i j. 0 <= i < j < length v - 1 /\ dist s (face v k)[j] (face v k)[i] = w }
  let rec ghost diam_all (s:search) (t:seq simplex) (n q:int)
    requires { nonneg s /\ wsum s t /\ down t /\ cwf t /\ 0 <= q < length t /\ length (vs t[q]) <= n }
    ensures { diam s (vs t[q]) (dat t[q]) }
    variant { n }
  = let ghost v = pure { vs t[q] } in
    let ghost w = pure { dat t[q] } in
    let lemma sub (k p:int) requires { length v > 2 /\ 0 <= k < length v /\ 0 <= p < length t /\ vs t[p] = face v k } ensures { diam s (face v k) (dat t[p]) /\ face_upto t (length v) v p }
    = diam_all s t (n-1) p in
    if length v = 1 then () else
    if length v = 2 then begin
      assert { forall i j. 0 <= i < j < length v -> i = 0 /\ j = 1 };
      assert { attained s v w by 0 <= 0 < 1 < length v /\ dist s v[1] v[0] = w } end
    else begin
      let lemma pair (i j:int) requires { 0 <= i < j < length v } ensures { dist s v[j] v[i] <=. w }
      = let k = if i > 0 then 0 else if j > 1 then 1 else 2 in
        assert { has t (face v k) };
        let lemma any_p (p:int) requires { 0 <= p < length t /\ vs t[p] = face v k } ensures { dist s v[j] v[i] <=. w }
        = sub k p; face_pair s v k i j (pure { dat t[p] }); assert { dat t[p] <=. w } in
        () in
      let lemma att (p:int) requires { face_upto t (length v) v p /\ dat t[p] = w } ensures { attained s v w }
      = let lemma at_k (k:int) requires { 0 <= k < length v /\ vs t[p] = face v k } ensures { attained s v w }
        = sub k p; face_attained s v k w in
        assert { exists k. 0 <= k < length v /\ vs t[p] = face v k } in
      assert { w = 0.0 -> attained s v w by dist s v[1] v[0] = w };
      assert { attained s v w by w = 0.0 \/ exists p. face_upto t (length v) v p /\ dat t[p] = w }
    end
  let lemma face_diam (s:search) (v:seq int) (k:int) (w x:real)
    requires { nonneg s /\ 0 <= k < length v /\ length v > 1 /\ diam s v w /\ diam s (face v k) x }
    ensures { x <=. w }
  = if length v > 2 then begin
      face_attained s v k x;
      assert { attained s v x } end
    else assert { 0.0 <=. w }
  let lemma sk_closed (s:search) (e:real) (t:seq simplex)
    requires { good s e t /\ forall i. 0 <= i < npoints s -> has t (singleton i) }
    ensures { closed t }
  = let lemma one (q:int) requires { 0 <= q < length t } ensures { valid t (vs t[q]) }
    = let lemma ed (u w:int) requires { edge_of s e u w t[q] } ensures { valid t (vs t[q]) }
      = assert { face (pr w u) 0 == singleton u /\ face (pr w u) 1 == singleton w } in
      () in
    ()
  let ghost graph (s:search) (e:real) (d:int) (t:seq simplex)
    requires { good s e t /\ forall i. 0 <= i < npoints s -> has t (singleton i) }
    requires { forall u w. u < w -> near s e u w -> has t (pr w u) }
    ensures { forall v. clique t d v <-> cleq s e d v }
  = let lemma vx (i:int) ensures { has_vertex t i <-> 0 <= i < npoints s }
    = assert { 0 <= i < npoints s -> has t (singleton i) } in
    let lemma ed (w u:int) ensures { isedge t w u <-> u < w /\ near s e u w }
    = assert { u < w /\ near s e u w -> has t (pr w u) };
      assert { forall q. 0 <= q < length t -> length (vs t[q]) = 2 -> ise s e t[q] } in
    let lemma there (v:seq int) requires { clique t d v } ensures { cleq s e d v }
    = assert { forall i j. 0 <= i < j < length v -> isedge t v[i] v[j] } in
    let lemma back (v:seq int) requires { cleq s e d v } ensures { clique t d v }
    = assert { forall i j. 0 <= i < j < length v -> isedge t v[i] v[j] } in
    ()
  let ghost reorder (e w:seq simplex)
    requires { exists o. dim_order e o /\ length w = length e /\ forall q. 0 <= q < length w -> heavier 1 w e[o[q]] w[q] }
    ensures { forall v. has w v <-> has e v }
  = let lemma via (o:seq int) requires { dim_order e o /\ length w = length e /\ forall q. 0 <= q < length w -> heavier 1 w e[o[q]] w[q] } ensures { forall v. has w v <-> has e v }
    = let lemma at_ (q:int) requires { 0 <= q < length e } ensures { 0 <= o[q] < length e } ensures { vs w[q] = vs e[o[q]] } = assert { heavier 1 w e[o[q]] w[q] } in
      let lemma to_e (v:seq int) (q:int) requires { 0 <= q < length w /\ vs w[q] = v } ensures { has e v } = assert { vs e[o[q]] = v } in
      let lemma from_e (v:seq int) (k:int) requires { 0 <= k < length e /\ vs e[k] = v } ensures { has w v }
      = assert { inv_at o k };
        assert { forall i. 0 <= i < length o -> o[i] = k -> vs w[i] = v } in
      () in
    ()
  let ghost same_has (a s:seq simplex)
    requires { same_elems a s }
    ensures { forall v. has s v <-> has a v }
    ensures { forall q. 0 <= q < length s -> elem a s[q] }
  = assert { forall q. 0 <= q < length s -> elem s s[q] };
    assert { forall q. 0 <= q < length a -> elem a a[q] };
    assert { forall q. 0 <= q < length a -> elem s a[q] };
    assert { forall v. has s v -> has a v };
    assert { forall v. has a v -> has s v }
  let ghost cleq_down (s:search) (e:real) (d:int) (t:seq simplex)
    requires { forall v. has t v <-> cleq s e d v }
    ensures { down t }
  = let lemma one (q k:int) requires { 0 <= q < length t /\ 0 <= k < length (vs t[q]) /\ length (vs t[q]) > 1 } ensures { has t (face (vs t[q]) k) }
    = let ghost v = pure { vs t[q] } in
      assert { has t v };
      assert { cleq s e d v };
      assert { 0 <= v[1] < npoints s by near s e v[1] v[0] };
      assert { cleq s e d (face v k) } in
    ()
"""
STEP = {
    'rips_skeleton': ['let ghost t_ = pure { $result.complex_simplices } in', 'assert { good $p1 $p2 t_ };', 'assert { closed t_ };', 'graph (pure { $p1 }) $p2 $p3 t_;'],
    'expand': ['let ghost e_ = pure { $result.complex_simplices } in', 'assert { forall v. has e_ v <-> cleq $p1 $p2 $p3 v };',
               'assert { forall q. 0 <= q < length e_ -> has e_ (vs e_[q]) };',
               'assert { forall q. 0 <= q < length e_ -> length (vs e_[q]) = 1 -> dat e_[q] = 0.0 };',
               'assert { forall q. 0 <= q < length e_ -> length (vs e_[q]) = 2 -> dat e_[q] = dist $p1 (vs e_[q])[1] (vs e_[q])[0] };',
               'assert { forall q. 0 <= q < length e_ -> length (vs e_[q]) > 2 -> dat e_[q] = 0.0 };'],
    'assignMaximumWeight': ['let ghost w_ = pure { $result.complex_simplices } in',
                            'reorder e_ w_;', 'assert { wsum $p1 w_ };', 'cleq_down (pure { $p1 }) $p2 $p3 w_;',
                            'let lemma d_ (q:int) requires { 0 <= q < length w_ } ensures { diam $p1 (vs w_[q]) (dat w_[q]) } = diam_all (pure { $p1 }) w_ (pure { length (vs w_[q]) }) q in',
                            'assert { monotone w_ };'],
    'sort_dataless': ['same_has w_ (pure { $K.complex_simplices });']}
SK, EX, WX = '$skeleton.complex_simplices', 'e_', '$K.complex_simplices'
BUILD = Fn('build', 'buildVietorisRipsComplex', params=['Search', 'double', 'unsigned int'], requires=['npoints $p1 < 4294967296', 'nonneg $p1'],
           ensures=['[sets of points of small diameter] forall v. has %s v <-> cleq $p1 $p2 $p3 v' % RX,
                    '[weight is the diameter] forall q. 0 <= q < length %s -> diam $p1 (vs %s[q]) (dat %s[q])' % (RX, RX, RX),
                    '[by weight] exists f. sorted_data_lt f ' + RX, '[faces come first] faces_first ' + RX, '[well-formed] cwf ' + RX], steps=STEP)


BF = 'BruteForce<Points, Metric>'
BRUTE_PRE = r"""
  function csize (c:points) : int
  function cdim (c:points) : int
  function cpoint (c:points) (i:int) : seq real
  val function metric (a:seq real) (i:int) (b:seq real) (j n:int) : real
  function pdist (c:points) (i j:int) : real = metric (cpoint c i) 0 (cpoint c j) 0 (cdim c)
  predicate row (c:points) (e:real) (i m:int) (r:seq int) (d:seq real) =
    length r = length d /\ distinct r /\ (forall j. smem j r <-> 0 <= j < m /\ pdist c i j <. e) /\ forall q. 0 <= q < length r -> d[q] = pdist c i r[q]
  let ghost row_step (c:points) (e:real) (i m:int) (r r2:seq int) (d d2:seq real)
    requires { row c e i m r d /\ 0 <= m }
    requires { if pdist c i m <. e then r2 = snoc r m /\ d2 = snoc d (pdist c i m) else r2 = r /\ d2 = d }
    ensures { row c e i (m+1) r2 d2 }
  = assert { not smem m r };
    assert { forall q. 0 <= q < length r -> smem r[q] r }
"""


def metric(tr, obj, vs, d):
    return Val('(metric %s %s %s %s %s)' % (tr.elems(vs[0]), tr.read(vs[0]), tr.elems(vs[1]), tr.read(vs[1]), tr.read(vs[2])), ('real',))


CLOUD = [Fn('csize_', 'Points::size', ensures=['$result = csize $this']), Fn('cdim_', 'Points::dimension', ensures=['$result = cdim $this']),
         Fn('cpoint_', 'Points::operator[]', ensures=['$result = cpoint $this $p1']), Fn('metric_', 'Metric::operator()', calls={'handler': metric})]
CN = '$this.brute_container'
RAD = Fn('brute_radius', BF + '::radiusSearch',
         ensures=['[all points closer than the radius] length $p2 = csize %s /\\ length $p3 = csize %s /\\ forall i. 0 <= i < csize %s -> row %s $p1 i (csize %s) $p2[i] $p3[i]' % ((CN,) * 5)],
         loops=[Loop(['[position] $i <= csize %s' % CN, '[rows] length $p2 = csize %s /\\ length $p3 = csize %s' % (CN, CN), '[so far] forall q. 0 <= q < $i -> row %s $p1 q (csize %s) $p2[q] $p3[q]' % (CN, CN),
                      '[rest empty] forall q. $i <= q < csize %s -> length $p2[q] = 0 /\\ length $p3[q] = 0' % CN], variant='csize %s - $i' % CN),
                Loop(['[position] $i < csize %s /\\ $j <= csize %s' % (CN, CN), '[rows] length $p2 = csize %s /\\ length $p3 = csize %s' % (CN, CN), '[so far] forall q. 0 <= q < $i -> row %s $p1 q (csize %s) $p2[q] $p3[q]' % (CN, CN),
                      '[this row so far] row %s $p1 $i $j $p2[$i] $p3[$i]' % CN,
                      '[rest empty] forall q. $i < q < csize %s -> length $p2[q] = 0 /\\ length $p3[q] = 0' % CN],
                     begin=['let ghost r_ = pure { $p2[$i] } in', 'let ghost d_ = pure { $p3[$i] } in'],
                     end=['row_step (pure { %s }) $p1 $i $j r_ (pure { $p2[$i] }) d_ (pure { $p3[$i] });' % CN], variant='csize %s - $j' % CN)])


def mk3():
    return Unit('brute', SRC, trust(CLOUD) + [RAD], classes={S: 'simplex', K: 'complex', BF: 'brute', 'Points': 'points', 'Metric': 'metric_t', 'Traits<Metric>': 'mtraits'},
                prelude=BRUTE_PRE, aliases=dict(ALIAS, **{'IndexType': 'unsigned long', 'ElementType': 'double', 'Container': 'Points', 'DistanceFunctor': 'Metric', 'Traits': 'Traits<Metric>', 'aleph::geometry::distances::Traits<Metric>': 'Traits<Metric>'}),
                keys={S: ('vs', '(seq int)')}, adaptors={BI: (S, 'unsigned int')})


VALS = defs(c15.PRE, 'covered', 'verts', 'vmax') + r"""
  let rec ghost range_at (e:seq int) (n q:int)
    requires { ssorted e /\ 0 <= q < length e /\ forall x. smem x e <-> 0 <= x < n }
    ensures { e[q] = q }
    variant { q }
  = let lemma below (p:int) requires { 0 <= p < q } ensures { e[p] = p } = range_at e n p in
    assert { smem e[q] e };
    assert { q > 0 -> e[q] > e[q-1] };
    assert { e[q] > q -> smem q e };
    assert { forall p. 0 <= p < length e -> e[p] = q -> p < q \/ p = q \/ e[p] > e[q] }
  let lemma range_all (e:seq int) (n:int)
    requires { ssorted e /\ 0 <= n /\ forall x. smem x e <-> 0 <= x < n }
    ensures { length e = n /\ forall q. 0 <= q < n -> e[q] = q }
  = let lemma at_ (q:int) requires { 0 <= q < length e } ensures { e[q] = q } = range_at e n q in
    assert { length e > n -> smem e[n] e };
    assert { length e < n -> smem (length e) e }
  (* w is the largest value of the points v *)
  predicate vlargest (f:seq real) (b:int) (v:seq int) (w:real) =
    (forall i. 0 <= i < length v -> f[b + v[i]] <=. w) /\ exists i. 0 <= i < length v /\ f[b + v[i]] = w
  let ghost to_largest (e:seq int) (f:seq real) (b n:int) (v:seq int) (w:real)
    requires { length e = n /\ (forall q. 0 <= q < n -> e[q] = q) /\ vmax e f b v (length v) w /\ length v > 0 /\ forall i. 0 <= i < length v -> 0 <= v[i] < n }
    ensures { vlargest f b v w }
  = assert { forall i. 0 <= i < length v -> e[v[i]] = v[i] }
  let lemma face_largest (f:seq real) (b:int) (v u:seq int) (w x:real)
    requires { is_face u v /\ vlargest f b v w /\ vlargest f b u x }
    ensures { x <=. w }
  = assert { forall i. 0 <= i < length u -> exists j. 0 <= j < length v /\ u[i] = v[j] }
"""
VALUES = Fn('build_values', 'buildVietorisRipsComplex', params=['Search', 'double', 'unsigned int'] + ['__normal_iterator<double*, vector<double>>'] * 2,
            requires=['npoints $p1 < 4294967296', 'forall k. $begin <= k < $end -> f_lowest <=. $s[k] <=. f_max', 'npoints $p1 <= $end - $begin', '0 <= npoints $p1'],
            ensures=['[sets of points of small diameter] forall v. has %s v <-> cleq $p1 $p2 $p3 v' % RX,
                     '[weight is the largest value] forall q. 0 <= q < length %s -> vlargest $s $begin (vs %s[q]) (dat %s[q])' % (RX, RX, RX),
                     '[by weight] exists f. sorted_data_lt f ' + RX, '[faces come first] faces_first ' + RX, '[well-formed] cwf ' + RX],
            steps={'rips_skeleton': STEP['rips_skeleton'],
                   'expand': STEP['expand'][:3] + ['let lemma v_ (i:int) ensures { has_vertex e_ i <-> 0 <= i < npoints $p1 } = assert { cleq $p1 $p2 $p3 (singleton i) <-> 0 <= i < npoints $p1 }; assert { has e_ (singleton i) <-> has_vertex e_ i by forall q. 0 <= q < length e_ -> length (vs e_[q]) = 1 -> (vs e_[q])[0] = i -> vs e_[q] == singleton i } in',
                              'assert { forall q. 0 <= q < length e_ -> cleq $p1 $p2 $p3 (vs e_[q]) };', 'assert { forall q i. 0 <= q < length e_ -> 0 <= i < length (vs e_[q]) -> 0 <= (vs e_[q])[i] < npoints $p1 by i > 0 -> near $p1 $p2 (vs e_[q])[i] (vs e_[q])[0] };',
                              'assert { covered e_ };', 'let lemma all_ (e:seq int) requires { verts e_ e } ensures { length e = npoints $p1 /\\ forall q. 0 <= q < npoints $p1 -> e[q] = q } = range_all e (pure { npoints $p1 }) in'],
                   'assignMaximumData': ['let ghost w_ = pure { $result.complex_simplices } in', 'assert { forall q. 0 <= q < length w_ -> vs w_[q] = vs e_[q] };', 'assert { forall v. has w_ v <-> has e_ v };',
                                         'let lemma d_ (e:seq int) (q:int) requires { verts e_ e /\\ 0 <= q < length w_ /\\ vmax e $s $begin (vs w_[q]) (length (vs w_[q])) (dat w_[q]) } ensures { vlargest $s $begin (vs w_[q]) (dat w_[q]) } = to_largest e (pure { $s }) $begin (pure { npoints $p1 }) (pure { vs w_[q] }) (pure { dat w_[q] }) in',
                                         'assert { forall q. 0 <= q < length w_ -> vlargest $s $begin (vs w_[q]) (dat w_[q]) };', 'assert { monotone w_ };'],
                   'sort_dataless': STEP['sort_dataless']})


def mk2():
    sk = copy.copy(SKEL); ex = copy.copy(c15.EXPAND); w = copy.copy(c15.WEIGHT)
    srt = [copy.copy(f) for f in c08.FNS if f.why == 'sort_dataless']
    srt[0].params = [c08.DL]
    return Unit('build', SRC, trust([sk, ex, w, copy.copy(c15.DATA)] + srt) + [BUILD, VALUES], classes={S: 'simplex', K: 'complex', RS: 'rskeleton', 'Search': 'search', c15.RE: 'expander', c08.DL: 'dataless'},
                prelude=SIMPLEX_PRE + MIC + IS_FACE + CLOSED + WEIGHTS + PRE + DEFS + RIPS + VALS, aliases=dict(ALIAS, **{'Simplex': S, 'SimplicialComplex': K, 'IndexType': 'unsigned int', 'ElementType': 'double', 'NearestNeighbours': 'Search', c08.DL.replace(S, 'S'): c08.DL}),
                keys={S: ('vs', '(seq int)')}, adaptors={BI: (S, 'unsigned int')})


UNITS = [mk(), mk2(), mk3()]
