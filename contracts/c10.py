"""Boundary matrix of a simplicial complex."""
from . import matrix
from .matrix import KINDS
from .sc import *
from .c03 import trust


def src(kind):
    c = KINDS[kind]
    r = matrix.N + c + '<unsigned>'
    return matrix.tu(kind, algos=False) + COMPLEX_SRC + """#include <aleph/topology/Conversions.hh>
template aleph::topology::BoundaryMatrix<%s> aleph::topology::makeBoundaryMatrix<%s, aleph::topology::SimplicialComplex<S>>(const aleph::topology::SimplicialComplex<S>&, std::size_t);
""" % (r, r)


PRE = r"""
  predicate faceno (s:seq simplex) (j m r:int) = exists i. 0 <= i < m /\ vs s[r] = face (vs s[j]) i
  predicate bd (s:seq simplex) (j r:int) = 0 <= r < length s /\ is_face (vs s[r]) (vs s[j])
  predicate taken (mx j:int) = mx = 0 \/ j < mx
  predicate ends (s:seq int) (x:int) = length s > 0 /\ s[length s - 1] = x
  lemma bd_all : forall s j r. 0 <= r < length s -> length (vs s[j]) > 1 -> (bd s j r <-> faceno s j (length (vs s[j])) r)
  lemma faceno_step : forall s j m n r [faceno s j n r, faceno s j m r]. n = m+1 -> 0 <= m -> (faceno s j n r <-> faceno s j m r \/ vs s[r] = face (vs s[j]) m)
  let lemma face_miss (v:seq int) (i:int)
    requires { vwf v /\ 0 <= i < length v }
    ensures { forall x. smem x (face v i) <-> smem x v /\ x <> v[i] }
  = let f = face v i in
    assert { forall k. 0 <= k < length v - 1 -> f[k] = if k < i then v[k] else v[k+1] };
    assert { forall k. 0 <= k < length v -> k <> i -> smem v[k] f by (if k < i then f[k] = v[k] else f[k-1] = v[k]) }
  let lemma face_inj (v:seq int) (i j:int)
    requires { vwf v /\ 0 <= i < length v /\ 0 <= j < length v }
    requires { face v i = face v j }
    ensures { i = j }
  = face_miss v i; face_miss v j;
    assert { smem v[i] v }
  (* the boundary of a boundary vanishes *)
  let rec ghost dot_two (d:mat) (v:vec) (n r a b:int)
    requires { a <> b /\ forall k. 0 <= k < n -> ((v k /\ d k r) <-> (k = a \/ k = b)) }
    ensures { dot d v n r <-> not ((0 <= a < n) <-> (0 <= b < n)) }
    variant { n }
  = if n > 0 then dot_two d v (n-1) r a b
  let lemma face_face (v:seq int) (a b:int)
    requires { vwf v /\ 0 <= a < b < length v }
    ensures { face (face v a) (b-1) = face (face v b) a }
  = assert { face (face v a) (b-1) == face (face v b) a }
  predicate bdmat (s:seq simplex) (d:mat) = forall j r. d j r <-> (0 <= j < length s /\ bd s j r)
  function other (a b:int) : int = if b < a then b else b+1
  let ghost second (s:seq simplex) (d:mat) (j r i a b i2:int)
    requires { cwf s /\ bdmat s d /\ 0 <= j < length s }
    requires { 0 <= i < length s /\ 0 <= i2 < length s /\ 0 <= r < length s }
    requires { let v = vs s[j] in length v > 2 /\ 0 <= a < length v /\ 0 <= b < length v - 1 /\ vs s[i] = face v a /\ vs s[r] = face (face v a) b /\ vs s[i2] = face v (other a b) }
    ensures { dot d (d j) (length s) r = false }
  = let v = pure { vs s[j] } in
    let c = pure { other a b } in
    let w = pure { vs s[r] } in
    assert { vwf v };
    face_miss v a; face_miss v c; face_miss (face v a) b;
    assert { (face v a)[b] = v[c] };
    (if b < a then face_face v b a else face_face v a (b+1));
    assert { a <> c };
    assert { is_face w (face v c) by w = face (face v c) (if b < a then a-1 else a) };
    assert { is_face w (face v a) };
    assert { d j i /\ d i r /\ d j i2 /\ d i2 r };
    assert { not smem v[a] w /\ not smem v[c] w };
    assert { forall x. smem x v -> x <> v[a] -> x <> v[c] -> smem x w };
    let lemma only (k e:int)
      requires { 0 <= k < length s /\ 0 <= e < length v /\ vs s[k] = face v e /\ is_face w (vs s[k]) }
      ensures { k = i \/ k = i2 }
    = face_miss v e;
      let lemma sub (g:int) requires { 0 <= g < length v - 1 /\ w = face (face v e) g } ensures { not smem v[e] w }
      = face_miss (face v e) g in
      assert { not smem v[e] w };
      assert { smem v[e] v };
      assert { v[e] = v[a] \/ v[e] = v[c] };
      assert { e = a \/ e = c } in
    assert { i <> i2 };
    assert { forall k. 0 <= k < length s -> d j k -> d k r -> k = i \/ k = i2 };
    dot_two d (pure { d j }) (length s) r i i2
  let ghost bd_complex (s:seq simplex) (d:mat)
    requires { cwf s /\ closed s /\ bdmat s d }
    ensures { complex d (length s) }
  = let lemma one (j r:int)
      requires { 0 <= j < length s }
      ensures { dot d (d j) (length s) r = false }
    = let lemma two (i a b i2:int)
        requires { 0 <= i < length s /\ 0 <= i2 < length s /\ 0 <= r < length s }
        requires { let v = vs s[j] in length v > 2 /\ 0 <= a < length v /\ 0 <= b < length v - 1 /\ vs s[i] = face v a /\ vs s[r] = face (face v a) b /\ vs s[i2] = face v (other a b) }
        ensures { dot d (d j) (length s) r = false }
      = second s d j r i a b i2 in
      dot_none d (pure { d j }) (length s);
      let lemma have (i a b:int)
        requires { 0 <= i < length s /\ 0 <= r < length s }
        requires { let v = vs s[j] in length v > 2 /\ 0 <= a < length v /\ 0 <= b < length v - 1 /\ vs s[i] = face v a /\ vs s[r] = face (face v a) b }
        ensures { dot d (d j) (length s) r = false }
      = assert { valid s (vs s[j]) };
        assert { has s (face (vs s[j]) (other a b)) } in
      assert { forall i. d j i -> d i r -> dot d (d j) (length s) r = false by (exists a. 0 <= a < length (vs s[j]) /\ vs s[i] = face (vs s[j]) a /\ exists b. 0 <= b < length (vs s[i]) /\ length (vs s[i]) > 1 /\ vs s[r] = face (vs s[i]) b) } in
    ()
  lemma snoc_distinct : forall s:seq int, x. distinct s -> not smem x s -> distinct (snoc s x)
  lemma whole : forall s:seq int. s[0 .. length s] = s
"""
KX = '$p1.complex_simplices'
MAP = '[positions] forall v. (mdom v $simplex_to_index <-> has %s v) /\\ (forall k. 0 <= k < length %s -> vs %s[k] = v -> mval $simplex_to_index v = k)' % (KX, KX, KX)
V = '(vs %s[$j])' % KX


def make(kind):
    return Fn('makeBoundaryMatrix', 'makeBoundaryMatrix',
              requires=['cwf ' + KX, 'closed ' + KX, 'length %s < 4294967296' % KX],
              ensures=['[one column per simplex] nc $result = length ' + KX, '[well-formed] bmwf $result',
                       '[columns hold the faces] forall j r. 0 <= j < length %s -> (matof $result j r <-> taken $max j /\\ bd %s j r)' % (KX, KX),
                       '[dimensions] forall j. 0 <= j < length %s -> dims $result j = length (vs %s[j]) - 1' % (KX, KX),
                       '[not dualized] $result.bm_isDualized = False',
                       '[rows in range] bounded (matof $result) (nc $result)',
                       '[faces have one dimension less] forall j i. matof $result j i -> dims $result j = dims $result i + 1',
                       '[the boundary of a boundary vanishes] $max = 0 -> complex (matof $result) (nc $result)'],
              exit=['assert { $max = 0 -> bdmat %s (matof $result) };' % KX,
                    'if $max = 0 then bd_complex (pure { %s }) (pure { matof $result });' % KX],
              loops=[Loop(['[positions so far] forall v. mdom v $simplex_to_index <-> exists q. 0 <= q < $K0 /\\ vs %s[q] = v' % KX,
                           '[positions] forall q. 0 <= q < $K0 -> mval $simplex_to_index (vs %s[q]) = q' % KX,
                           '?[counter] $i = $K0',
                           '[matrix] bmwf $M /\\ nc $M = length %s /\\ $M.bm_isDualized = False /\\ forall j r. not matof $M j r' % KX]),
                     Loop(['[counter] $j = $itSimplex', MAP,
                           '[matrix well-formed] bmwf $M /\\ nc $M = length %s /\\ $M.bm_isDualized = False' % KX,
                           '[columns so far] forall j r. 0 <= j < length %s -> (matof $M j r <-> j < $itSimplex /\\ taken $max j /\\ bd %s j r)' % (KX, KX),
                           '[dimensions so far] forall j. 0 <= j < $itSimplex -> dims $M j = length (vs %s[j]) - 1' % KX]),
                     Loop([MAP,
                           '[faces so far] forall r. smem r $column <-> 0 <= r < length %s /\\ length %s > 1 /\\ faceno %s $j $itBoundary r' % (KX, V, KX),
                           '[number of faces] length $column = (if length %s > 1 then $itBoundary else 0)' % V,
                           '[distinct] distinct $column',
                           '[position] $itBoundary <= length %s' % V], variant='length %s - $itBoundary' % V)])


def mk(kind):
    C = KINDS[kind] + '<unsigned int>'
    fns = [f for f in simplex_fns() if f.why in ('deref_boundary', 'sdimension', 'ssize', 'getData')]
    cf = [f for f in complex_fns() if f.why in ('ksize', 'kempty')]
    mf = [f for f in matrix.rep_fns(kind) if f.why in ('setNumColumns', 'setColumn', 'setDimension', 'getNumColumns')]
    return Unit('make_' + kind, src(kind), trust(mf + fns + cf) + [make(kind)],
                classes={C: 'rep', 'BoundaryMatrix<%s>' % C: 'bm', S: 'simplex', K: 'complex'}, theories=['bool.Bool', 'z2.Z2', 'z2.Facts'],
                prelude=matrix.prelude(kind) + matrix.BM_PRE + SIMPLEX_PRE + MIC + FACES + PRE,
                aliases=ALIAS, adaptors={BI: (S, 'unsigned int')}, keys={S: ('vs', '(seq int)')})


UNITS = [mk('vec')]
