"""Expansion of a graph to its clique complex."""
from .sc import *
from .c03 import trust

RE = 'RipsExpander<SimplicialComplex<S>>'
SRC = COMPLEX_SRC + """#include <aleph/geometry/RipsExpander.hh>
template class aleph::geometry::RipsExpander<aleph::topology::SimplicialComplex<S>>;
template aleph::topology::SimplicialComplex<S> aleph::geometry::RipsExpander<aleph::topology::SimplicialComplex<S>>::assignMaximumData(const aleph::topology::SimplicialComplex<S>&, std::vector<double>::iterator, std::vector<double>::iterator);
"""
PRE = r"""
  predicate among (e:seq int) (n x:int) = exists i. 0 <= i < n /\ e[i] = x
  lemma among_step : forall e n m x [among e m x, among e n x]. 0 <= n -> m = n+1 -> (among e m x <-> among e n x \/ e[n] = x)
  type lowmap = fmap int (fset int)
  (* w is a lower neighbour of u *)
  predicate low (m:lowmap) (u w:int) = mdom u m /\ Fset.mem w (mval m u)
  predicate lowwf (m:lowmap) = forall u w. low m u w -> 0 <= w < u /\ u < 4294967296
  predicate below (nb:fset int) (s:seq int) = forall w i. Fset.mem w nb -> 0 <= i < length s -> 0 <= w < s[i]
  (* v arises from s by adding vertices of nb that are pairwise adjacent *)
  predicate ext (m:lowmap) (s:seq int) (nb:fset int) (d:int) (v:seq int) =
    length s < length v <= d+1 /\ (forall i. 0 <= i < length s -> v[i] = s[i]) /\
    (forall i. length s <= i < length v -> Fset.mem v[i] nb) /\
    (forall i j. length s <= i < j < length v -> low m v[i] v[j])
  predicate extby (m:lowmap) (s:seq int) (nb:fset int) (d n:int) (v:seq int) = ext m s nb d v /\ v[length s] = n
  predicate common (m:lowmap) (nb:fset int) (n:int) (c:fset int) = forall x. Fset.mem x c <-> Fset.mem x nb /\ low m n x
  function cset (m:lowmap) (nb:fset int) (n:int) : fset int = if mdom n m then Fset.inter (mval m n) nb else Fset.empty
  let lemma cset_common (m:lowmap) (nb:fset int) (n:int)
    ensures { common m nb n (cset m nb n) }
  = ()
  let ghost ext_split (m:lowmap) (s:seq int) (nb c:fset int) (d n:int)
    requires { Fset.mem n nb /\ common m nb n c /\ length s <= d }
    ensures { forall v. extby m s nb d n v <-> (v = snoc s n \/ ext m (snoc s n) c d v) }
  = let lemma one (v:seq int)
      ensures { extby m s nb d n v <-> (v = snoc s n \/ ext m (snoc s n) c d v) }
    = assert { forall i. 0 <= i < length s -> (snoc s n)[i] = s[i] };
      assert { (snoc s n)[length s] = n };
      assert { length v = length s + 1 -> extby m s nb d n v -> v == snoc s n };
      assert { length v > length s + 1 -> extby m s nb d n v -> ext m (snoc s n) c d v };
      assert { ext m (snoc s n) c d v -> extby m s nb d n v };
      assert { v = snoc s n -> extby m s nb d n v } in
    ()
  let lemma below_next (m:lowmap) (s:seq int) (nb c:fset int) (n:int)
    requires { Fset.mem n nb /\ common m nb n c /\ below nb s /\ lowwf m /\ dsorted s }
    ensures { below c (snoc s n) /\ dsorted (snoc s n) }
  = assert { forall i. 0 <= i < length s -> (snoc s n)[i] = s[i] };
    assert { (snoc s n)[length s] = n }
  lemma ext_empty : forall m s d v. not ext m s Fset.empty d v
  predicate added (a s:seq simplex) (v:seq int) = exists k. length a <= k < length s /\ vs s[k] = v
  predicate keeps (a s:seq simplex) = length a <= length s /\ forall k. 0 <= k < length a -> s[k] = a[k]
  predicate fresh (a s:seq simplex) = forall k. length a <= k < length s -> swf s[k] /\ length (vs s[k]) > 0 /\ dat s[k] = 0.0
  predicate differ (a s:seq simplex) = forall i j. length a <= i < j < length s -> vs s[i] <> vs s[j]
  (* neighbours of lower number in the graph of a complex *)
  predicate isedge (s:seq simplex) (u w:int) = exists k. 0 <= k < length s /\ length (vs s[k]) = 2 /\ (vs s[k])[0] = u /\ (vs s[k])[1] = w
  predicate edge_in (s:seq simplex) (o:seq int) (a b u w:int) = exists k. a <= k < b /\ length (vs s[o[k]]) = 2 /\ (vs s[o[k]])[0] = u /\ (vs s[o[k]])[1] = w
  lemma edge_in_step : forall s o a b c u w [edge_in s o a c u w, edge_in s o a b u w]. a <= b -> c = b+1 ->
    (edge_in s o a c u w <-> edge_in s o a b u w \/ (length (vs s[o[b]]) = 2 /\ (vs s[o[b]])[0] = u /\ (vs s[o[b]])[1] = w))
  let lemma edge_in_all (s:seq simplex) (o:seq int) (a b u w:int)
    requires { dim_order s o /\ 0 <= a <= b <= length s }
    requires { forall j. 0 <= j < length s -> length (vs s[o[j]]) = 2 -> a <= j < b }
    ensures { edge_in s o a b u w <-> isedge s u w }
  = let lemma place (k:int)
      requires { 0 <= k < length s /\ length (vs s[k]) = 2 }
      ensures { exists j. a <= j < b /\ o[j] = k }
    = assert { inv_at o k };
      assert { forall i. 0 <= i < length o -> o[i] = k -> a <= i < b } in
    ()
  let lemma snoc_slice (s t:seq int) (n:int)
    requires { t = snoc s[0 .. length s] n }
    ensures { t[0 .. length s + 1] = snoc s n /\ length t = length s + 1 }
  = assert { length s[0 .. length s] = length s /\ forall i. 0 <= i < length s -> s[0 .. length s][i] = s[i] };
    assert { length t = length s + 1 /\ t[length s] = n /\ forall i. 0 <= i < length s -> t[i] = s[i] };
    assert { t[0 .. length s + 1] == snoc s n }
  lemma added_more : forall a b s v. keeps a b -> keeps b s -> (added a s v <-> added a b v \/ added b s v)
  (* cliques of the graph of a complex, of at most d+1 vertices *)
  predicate clique (s:seq simplex) (d:int) (v:seq int) =
    1 <= length v <= d+1 /\ has_vertex s v[0] /\ forall i j. 0 <= i < j < length v -> isedge s v[i] v[j]
  let ghost clique_split (s:seq simplex) (m:lowmap) (d x:int)
    requires { has_vertex s x /\ 0 <= d /\ forall u w. low m u w <-> isedge s u w }
    ensures { mdom x m -> forall v. clique s d v /\ v[0] = x <-> (v = singleton x \/ ext m (singleton x) (mval m x) d v) }
    ensures { not mdom x m -> forall v. clique s d v /\ v[0] = x <-> v = singleton x }
  = let lemma one (v:seq int)
      requires { length v = 1 }
      ensures { clique s d v /\ v[0] = x <-> v = singleton x }
    = assert { v[0] = x -> v == singleton x } in
    let lemma more (v:seq int)
      requires { length v > 1 /\ mdom x m }
      ensures { clique s d v /\ v[0] = x <-> ext m (singleton x) (mval m x) d v }
    = assert { length (singleton x) = 1 /\ (singleton x)[0] = x };
      assert { ext m (singleton x) (mval m x) d v -> v[0] = x };
      assert { ext m (singleton x) (mval m x) d v -> forall j. 1 <= j < length v -> low m v[0] v[j] };
      assert { ext m (singleton x) (mval m x) d v -> forall i j. 0 <= i < j < length v -> isedge s v[i] v[j] by if i = 0 then low m v[0] v[j] else low m v[i] v[j] };
      assert { ext m (singleton x) (mval m x) d v -> clique s d v };
      assert { clique s d v /\ v[0] = x -> forall j. 1 <= j < length v -> low m x v[j] by isedge s v[0] v[j] };
      assert { clique s d v /\ v[0] = x -> forall i j. 1 <= i < j < length v -> low m v[i] v[j] by isedge s v[i] v[j] };
      assert { clique s d v /\ v[0] = x -> ext m (singleton x) (mval m x) d v } in
    let lemma none (v:seq int)
      requires { length v > 1 /\ not mdom x m }
      ensures { not (clique s d v /\ v[0] = x) }
    = assert { clique s d v -> isedge s v[0] v[1] } in
    assert { forall v. length v = 0 -> not clique s d v }
  let lemma clique_small (s:seq simplex) (d:int) (v:seq int)
    requires { clique s d v /\ length v <= 2 }
    ensures { has s v }
  = assert { length v = 2 -> isedge s v[0] v[1] };
    assert { forall k. 0 <= k < length s -> length v = 2 -> length (vs s[k]) = 2 -> (vs s[k])[0] = v[0] -> (vs s[k])[1] = v[1] -> vs s[k] == v };
    assert { forall k. 0 <= k < length s -> length v = 1 -> length (vs s[k]) = 1 -> (vs s[k])[0] = v[0] -> vs s[k] == v }
  lemma has_more : forall a s v. keeps a s -> (has s v <-> has a v \/ added a s v)
  predicate samedata (s:seq simplex) (x:simplex) = exists k. 0 <= k < length s /\ vs s[k] = vs x /\ dat s[k] = dat x
  predicate weighted (s:seq simplex) (x:simplex) = if length (vs x) <= 2 then samedata s x else dat x = 0.0
  (* w is the largest of w0 and the weights of the first m faces of v *)
  predicate mx (s:seq simplex) (m:int) (v:seq int) (w0 w:real) =
    (forall j. face_upto s m v j -> dat s[j] <=. w) /\ w0 <=. w /\ (w = w0 \/ exists j. face_upto s m v j /\ dat s[j] = w)
  let lemma mx_step (s:seq simplex) (m:int) (v:seq int) (w0 w:real) (j:int)
    requires { uniq s /\ 0 <= m < length v /\ length v > 1 /\ mx s m v w0 w }
    requires { 0 <= j <= length s /\ (j < length s -> vs s[j] = face v m) /\ (j = length s -> not has s (face v m)) }
    ensures { mx s (m+1) v w0 (if j < length s then max_real w (dat s[j]) else w) }
  = upto_step s m v;
    assert { forall i. 0 <= i < length s -> vs s[i] = face v m -> i = j };
    assert { forall i. face_upto s (m+1) v i <-> face_upto s m v i \/ (j < length s /\ i = j) };
    assert { j < length s -> face_upto s (m+1) v j }
  let lemma mx_frame (s:seq simplex) (x:simplex) (v:seq int) (w0 w:real)
    requires { length v <= length (vs x) /\ mx s (length v) v w0 w }
    ensures { mx (snoc s x) (length v) v w0 w }
  = let t = snoc s x in
    assert { forall j. 0 <= j < length s -> t[j] = s[j] };
    assert { t[length s] = x };
    assert { forall j. face_upto t (length v) v j -> j <> length s };
    assert { forall j. face_upto t (length v) v j <-> face_upto s (length v) v j }
  predicate heavier (min:int) (s:seq simplex) (x y:simplex) =
    vs y = vs x /\ if length (vs x) - 1 <= min then dat y = dat x else mx s (length (vs x)) (vs x) (dat x) (dat y)
  predicate verts (s:seq simplex) (e:seq int) = ssorted e /\ forall x. smem x e <-> has_vertex s x
  predicate covered (s:seq simplex) = forall k i. 0 <= k < length s -> 0 <= i < length (vs s[k]) -> has_vertex s (vs s[k])[i]
  (* w is the largest value of the first n vertices of v *)
  predicate vmax (e:seq int) (f:seq real) (b:int) (v:seq int) (n:int) (w:real) =
    (forall i q. 0 <= i < n -> 0 <= q < length e -> e[q] = v[i] -> f[b+q] <=. w) /\
    (if n = 0 then w = f_lowest else exists i q. 0 <= i < n /\ 0 <= q < length e /\ e[q] = v[i] /\ w = f[b+q])
  let ghost vmax_step (e:seq int) (f:seq real) (b:int) (v:seq int) (n:int) (w:real) (p:int)
    requires { vmax e f b v n w /\ 0 <= p < length e /\ e[p] = v[n] /\ distinct e /\ 0 <= n }
    requires { f_lowest <=. f[b+p] }
    ensures { vmax e f b v (n+1) (max_real w f[b+p]) }
  = assert { forall q. 0 <= q < length e -> e[q] = v[n] -> q = p }
"""
LN = '$lowerNeighboursMap'
NB = '$neighbours'
SI = '$simplices'
OS = '(old $simplices)'
V = '(vs $s)'
ADD = Fn('addCofaces', RE + '::addCofaces', variant='(if length (vs $s) > $dimension then 0 else $dimension + 1 - length (vs $s))',
    requires=['swf $s', 'length %s > 0' % V, 'lowwf ' + LN, 'below %s %s' % (NB, V)],
    ensures=['[nothing lost] keeps %s %s' % (OS, SI),
             '[new simplices are the cliques extending the given one] forall v. added %s %s v <-> ext %s %s %s $dimension v' % (OS, SI, LN, V, NB),
             '[no duplicates] differ %s %s' % (OS, SI), '[well-formed] fresh %s %s' % (OS, SI)],
    loops=[Loop(['[nothing lost] keeps %s %s' % (OS, SI),
                 '[cliques so far] forall v. added %s %s v <-> (ext %s %s %s $dimension v /\\ among $E0 $K0 v[length %s])' % (OS, SI, LN, V, NB, V),
                 '[no duplicates] differ %s %s' % (OS, SI), '[well-formed] fresh %s %s' % (OS, SI)],
                begin=['let ghost a_ = pure { %s } in' % SI, 'let ghost n_ = pure { $E0[$K0] } in', 'assert { Fset.mem n_ %s };' % NB,
                       'let ghost c_ = pure { cset %s %s n_ } in' % (LN, NB), 'cset_common (pure { %s }) (pure { %s }) n_;' % (LN, NB),
                       'ext_split (pure { %s }) (pure { %s }) (pure { %s }) c_ $dimension n_;' % (LN, V, NB),
                       'below_next (pure { %s }) (pure { %s }) (pure { %s }) c_ n_;' % (LN, V, NB)],
                end=['assert { keeps a_ %s /\\ length a_ < length %s };' % (SI, SI), 'assert { vs %s[length a_] = snoc %s n_ };' % (SI, V),
                     'assert { forall v. added a_ %s v <-> extby %s %s %s $dimension n_ v };' % (SI, LN, V, NB),
                     'assert { forall v. added %s %s v <-> added %s a_ v \\/ added a_ %s v };' % (OS, SI, OS, SI),
                     'assert { not among $E0 $K0 n_ };',
                     'assert { forall i. length %s <= i < length a_ -> added %s a_ (vs a_[i]) };' % (OS, OS),
                     'assert { forall j. length a_ <= j < length %s -> added a_ %s (vs %s[j]) };' % (SI, SI, SI),
                     'assert { differ a_ %s };' % SI])])
INTER = Fn('intersect', RE + '::intersect', ensures=['[common elements] forall x. Fset.mem x $result <-> Fset.mem x $U /\\ Fset.mem x $V', '[intersection] $result = Fset.inter $U $V'],
    exit=['assert { forall x. Fset.mem x $result <-> Fset.mem x $U /\\ Fset.mem x $V };', 'assert { Fset.($result == Fset.inter $U $V) };'],
    loops=[Loop(['[common elements so far] forall x. Fset.mem x $result <-> among $E0 $K0 x /\\ Fset.mem x $uPtr /\\ Fset.mem x $vPtr'])])
KX = '$p1.complex_simplices'
LOW = Fn('getLowerNeighbours', RE + '::getLowerNeighbours', requires=['cwf ' + KX],
    ensures=['[neighbours of lower number] forall u w. low $result u w <-> isedge %s u w' % KX, '[well-formed] lowwf $result'],
    loops=[Loop(['[so far] forall u w. low $lowerNeighbours u w <-> edge_in %s $ord 0 $it u w' % KX,
                 '[well-formed] lowwf $lowerNeighbours'],
                after=['assert { forall j. $it <= j < length %s -> length (vs %s[$ord[j]]) <> 2 };' % (KX, KX)])])
RX = '$result.complex_simplices'
EXPAND = Fn('expand', RE + '::operator()', requires=['cwf ' + KX, 'closed ' + KX],
    ensures=['[simplices are the cliques] forall v. has %s v <-> clique %s $dimension v' % (RX, KX),
             '[vertices and edges keep their weight] forall k. 0 <= k < length %s -> weighted %s %s[k]' % (RX, KX, RX), '[well-formed] cwf ' + RX],
    loops=[Loop(['[cliques so far] forall v. has %s v <-> (clique %s $dimension v /\\ among $E0 $K0 v[0])' % (SI, KX),
                 '[no duplicates] uniq ' + SI, '[well-formed] fresh (empty : seq simplex) ' + SI],
                begin=['let ghost a_ = pure { %s } in' % SI, 'let ghost x_ = pure { $E0[$K0] } in', 'assert { has_vertex %s x_ };' % KX,
                       'clique_split (pure { %s }) (pure { $lowerNeighbours }) $dimension x_;' % KX],
                end=['assert { keeps a_ %s };' % SI,
                     'assert { forall v. added a_ %s v <-> clique %s $dimension v /\\ v[0] = x_ };' % (SI, KX),
                     'assert { forall i. 0 <= i < length a_ -> has a_ (vs a_[i]) };',
                     'assert { forall j. length a_ <= j < length %s -> added a_ %s (vs %s[j]) };' % (SI, SI, SI),
                     'assert { not among $E0 $K0 x_ };', 'assert { vs %s[length a_] = singleton x_ };' % SI,
                     'assert { forall j. length a_ < j < length %s -> length (vs %s[j]) > 1 };' % (SI, SI),
                     'assert { differ a_ %s };' % SI]),
           Loop(['[same simplices] length %s = length s0_ /\\ forall q. 0 <= q < length s0_ -> vs %s[q] = vs s0_[q]' % (SI, SI),
                 '[weights so far] forall q. 0 <= q < $K0 -> weighted %s %s[q]' % (KX, SI),
                 '[others unchanged] forall q. $K0 <= q < length s0_ -> %s[q] = s0_[q]' % SI],
                before=['let ghost s0_ = pure { %s } in' % SI, 'assert { forall v. has s0_ v <-> clique %s $dimension v };' % KX,
                        'assert { forall q. 0 <= q < length s0_ -> has s0_ (vs s0_[q]) };'],
                after=['assert { cwf %s };' % SI, 'assert { forall v. has %s v <-> has s0_ v };' % SI])])
SS = '$S.complex_simplices'
WEIGHT = Fn('assignMaximumWeight', RE + '::assignMaximumWeight', requires=['cwf ' + KX],
    ensures=['[same simplices, by dimension, with the largest weight of their faces] exists o. dim_order %s o /\\ length %s = length %s /\\ forall q. 0 <= q < length %s -> heavier $minDimension %s %s[o[q]] %s[q]' % (KX, RX, KX, RX, RX, KX, RX),
             '[well-formed] cwf ' + RX],
    loops=[Loop(['[simplices so far] length %s = $it' % SS, '[weights so far] forall q. 0 <= q < $it -> heavier $minDimension %s %s[$ord[q]] %s[q]' % (SS, KX, SS), '[well-formed] cwf ' + SS],
                begin=['let ghost s0_ = pure { %s } in' % SS, 'assert { not has s0_ (vs %s[$ord[$it]]) };' % KX],
                end=['assert { %s = snoc s0_ %s[length s0_] };' % (SS, SS),
                     'assert { forall q. 0 <= q < length s0_ -> length (vs %s[$ord[q]]) <= length (vs %s[length s0_]) };' % (KX, SS)]),
           Loop(['[position] 0 <= $itFace <= length (vs $s)', '[largest weight so far] mx %s $itFace (vs $s) (dat $s) $w' % SS])])
BV = '$s_[$begin + '
DATA = Fn('assignMaximumData', RE + '::assignMaximumData', requires=['cwf ' + KX, 'covered ' + KX,
        'forall k. $begin <= k < $end -> f_lowest <=. $s[k] <=. f_max', 'forall e. verts %s e -> length e <= $end - $begin' % KX],
    ensures=['[same simplices in the same order] same_vs %s %s' % (KX, RX),
             '[largest value of the vertices] exists e. verts %s e /\\ forall k. 0 <= k < length %s -> vmax e $s $begin (vs %s[k]) (length (vs %s[k])) (dat %s[k])' % (KX, RX, RX, RX, RX),
             '[well-formed] cwf ' + RX],
    loops=[Loop(['[numbers so far] forall x. mdom x $vertexToIndex <-> among $E0 $K0 x', '[numbers] forall q. 0 <= q < $K0 -> mval $vertexToIndex $E0[q] = q', '?[counter] $index = $K0'],
                after=['e_ <- $E0;', 'assert { verts %s e_ };' % KX, 'assert { forall q. 0 <= q < length e_ -> among $E0 $K0 e_[q] };']),
           Loop(['[simplices so far] length %s = $K0 /\\ forall q. 0 <= q < $K0 -> vs %s[q] = vs %s[q]' % (SS, SS, KX),
                 '[numbers] forall q. 0 <= q < length e_ -> mdom e_[q] $vertexToIndex /\\ mval $vertexToIndex e_[q] = q',
                 '[weights so far] forall q. 0 <= q < $K0 -> vmax e_ f_ b_ (vs %s[q]) (length (vs %s[q])) (dat %s[q])' % (SS, SS, SS),
                 '[well-formed] cwf ' + SS]),
           Loop(['[numbers] forall q. 0 <= q < length e_ -> mdom e_[q] $vertexToIndex /\\ mval $vertexToIndex e_[q] = q',
                 '[largest so far] vmax e_ f_ b_ $E1 $K1 $data'],
                begin=['let ghost d_ = pure { $data } in', 'assert { has_vertex %s $E1[$K1] };' % KX, 'assert { smem $E1[$K1] e_ };'],
                end=['vmax_step e_ f_ b_ (pure { $E1 }) $K1 d_ (pure { mval $vertexToIndex $E1[$K1] });'])],
    entry=['let ghost f_ = pure { $s } in', 'let ghost b_ = pure { $begin } in', 'let ghost ref e_ = (empty : seq int) in'])
FN = [ADD, INTER, LOW, EXPAND, WEIGHT, DATA]

KVERT = Fn('kvertices', K + '::vertices', params=['insert_iterator<set<unsigned int>>'], requires=['cwf ' + SX],
           ensures=['[adds all vertices] forall v. omem v $p1 <-> omem v (old $p1) \\/ has_vertex %s v' % SX],
           loops=[Loop(['[vertices so far] forall v. smem v $vertices.elts <-> zerov %s $ord $d_it v' % SX])])


def mk():
    fns = [f for f in simplex_fns() if f.why in ('sdimension', 'getData', 'simplex_vertex', 'simplex_range', 'setData', 'deref_boundary')]
    fns += [f for f in complex_fns() if f.why in ('kfind', 'push_back', 'complex_empty')]
    return Unit('expand', SRC, trust(fns) + [KVERT] + FN, classes={S: 'simplex', K: 'complex', RE: 'expander'}, theories=['set.Fset as Fset'],
                prelude=SIMPLEX_PRE + MIC + IS_FACE + CLOSED + WEIGHTS + PRE, aliases=dict(ALIAS, **{'Simplex': S, 'SimplicialComplex': K, 'VertexType': 'unsigned int', 'DataType': 'double', 'VertexContainer': 'unordered_set<unsigned int>', 'SimplexContainer': 'list<%s>' % S, 'LowerNeighboursMap': 'unordered_map<unsigned int, unordered_set<unsigned int>>'}),
                keys={S: ('vs', '(seq int)')}, adaptors={BI: (S, 'unsigned int')})


UNITS = [mk()]
