"""Diagrams of a complex: composition of boundary matrix, dualization, pairing and diagrams."""
import copy
import os
from . import matrix, c03, c04, c10, c12
from .matrix import KINDS
from .sc import *

ALG = 'aleph::persistentHomology::algorithms::'


def src(kind, alg):
    R = matrix.N + KINDS[kind] + '<unsigned>'
    return (matrix.tu(kind, algos=False) + c12.SRC + '#include <aleph/topology/Conversions.hh>\n#include <aleph/persistentHomology/Calculation.hh>\n#include <aleph/persistentHomology/algorithms/Standard.hh>\n'
            'template aleph::topology::BoundaryMatrix<%s> aleph::topology::makeBoundaryMatrix<%s, aleph::topology::SimplicialComplex<S>>(const aleph::topology::SimplicialComplex<S>&, std::size_t);\n' % (R, R) +
            'template aleph::PersistencePairing<unsigned> aleph::calculatePersistencePairing<%s%s, %s>(const aleph::topology::BoundaryMatrix<%s>&, bool, unsigned);\n' % (ALG, alg, R, R) +
            'template std::vector<aleph::PersistenceDiagram<double>> aleph::calculatePersistenceDiagrams<%s%s, %s, S>(const aleph::topology::SimplicialComplex<S>&, bool, bool);\n' % (ALG, alg, R) +
            'template aleph::PersistenceDiagram<double> aleph::calculatePersistenceDiagram<%s%s, %s, double>(const aleph::topology::BoundaryMatrix<%s>&, const std::vector<double>&);\n' % (ALG, alg, R, R))


PRE = r"""
  predicate is_topm (m:bm) (t:int) =
    (forall c. 0 <= c < nc m -> dims m c <= t) /\ (nc m > 0 -> exists c. 0 <= c < nc m /\ dims m c = t)
  (* boundary matrix and dimensions of a complex *)
  function bdm (s:seq simplex) : mat = fun j r -> 0 <= j < length s && bd s j r
  function kdim (s:seq simplex) : int->int = fun j -> length (vs s[j]) - 1
  predicate faces_first (s:seq simplex) = forall i j. 0 <= i < length s -> 0 <= j < length s -> is_face (vs s[i]) (vs s[j]) -> i < j
  predicate diagrams_of (s:seq simplex) (p:seq (int,int)) (x:seq diagram) =
    (forall a b. 0 <= a < b < length x -> x[a].diagram_dimension < x[b].diagram_dimension) /\
    (forall a. 0 <= a < length x -> diagram_of s p x[a]) /\
    (forall d. (exists a. 0 <= a < length x /\ x[a].diagram_dimension = d) <-> length (pts s p d (length p)) > 0)
  (* p is the pairing of the complex s *)
  predicate pairing_of (s:seq simplex) (incl:bool) (p:seq (int,int)) = ascending p /\ pairs_of (bdm s) (length s) (kdim s) incl p

  let ghost of_complex (s:seq simplex) (d:mat) (n:int) (dm:int->int) (incl:bool) (p:seq (int,int))
    requires { n = length s /\ pairs_of d n dm incl p }
    requires { forall j i. 0 <= j < n -> (d j i <-> bdm s j i) }
    requires { forall j. 0 <= j < n -> dm j = kdim s j }
    ensures { pairs_of (bdm s) n (kdim s) incl p }
  = same_reductions (pure { bdm s }) d n;
    let lemma one (r:mat) (t:int)
      requires { bounded r n /\ reduction (bdm s) r n /\ is_top (kdim s) n t }
      ensures { forall u v. smem (u,v) p <-> entry_of r n (kdim s) t incl u v }
    = assert { is_top dm n t };
      assert { reduction d r n };
      assert { forall u v. smem (u,v) p <-> entry_of r n dm t incl u v } in
    ()
  let ghost primal_range (s:seq simplex) (d:mat) (n:int)
    requires { n = length s /\ faces_first s /\ bounded d n }
    requires { forall j i. d j i -> 0 <= j < n }
    requires { forall j i. 0 <= j < n -> (d j i <-> bdm s j i) }
    ensures { forall j i. d j i -> i < j }
  = ()
  predicate values_of (f:seq real) (p:seq (int,int)) (x:seq point) = length x = length p /\ forall q. 0 <= q < length p -> x[q] = vpt f p[q]
  predicate of_matrix (s:seq simplex) (m:bm) =
    nc m = length s /\ length s < 4294967295 /\ bounded (matof m) (nc m) /\ not m.bm_isDualized /\
    (forall j i. 0 <= j < nc m -> (matof m j i <-> bdm s j i)) /\ forall j. 0 <= j < nc m -> dims m j = kdim s j
  predicate dual_of (m e:bm) =
    nc e = nc m /\ anti (matof m) (matof e) (nc m) /\ bounded (matof e) (nc m) /\ e.bm_isDualized /\
    forall j t. 0 <= j < nc m -> is_topm m t -> dims e j = t - dims m (nc m-1-j)
  predicate read_off (s:seq simplex) (incl:bool) (p:seq (int,int)) =
    pairs_of (bdm s) (length s) (kdim s) incl p /\ forall u v. smem (u,v) p -> 0 <= u < length s /\ 0 <= v <= 4294967295
  let ghost read_primal (s:seq simplex) (m:bm) (incl:bool) (p:seq (int,int))
    requires { of_matrix s m }
    requires { is_pairing (matof m) (nc m) 4294967295 (dimf m) false incl p }
    ensures { read_off s incl p }
  = let d = pure { matof m } in let n = pure { nc m } in
    primal_pairs d n (pure { dimf m }) incl p;
    of_complex s d n (pure { dimf m }) incl p
  let ghost read_dual (s:seq simplex) (m e:bm) (incl:bool) (p:seq (int,int))
    requires { of_matrix s m }
    requires { dual_of m e }
    requires { is_pairing (matof e) (nc e) 4294967295 (dimf e) true incl p }
    ensures { read_off s incl p }
  = let d = pure { matof m } in let n = pure { nc m } in
    assert { forall t. is_top (dimf m) n t -> is_topm m t };
    dual_pairs d (pure { matof e }) n (pure { dimf m }) (pure { dimf e }) incl p;
    of_complex s d n (pure { dimf m }) incl p
  let ghost read (s:seq simplex) (m e:bm) (incl:bool) (p:seq (int,int))
    requires { of_matrix s m }
    requires { e = m \/ dual_of m e }
    requires { is_pairing (matof e) (nc e) 4294967295 (dimf e) e.bm_isDualized incl p }
    ensures { read_off s incl p }
  = if pure { e.bm_isDualized } then read_dual s m e incl p else read_primal s m incl p
  let ghost finish (s:seq simplex) (incl:bool) (p:seq (int,int))
    requires { read_off s incl p }
    requires { distinct p }
    requires { forall i j. 0 <= i < j < length p -> not pair_lt p[j] p[i] }
    requires { length s < 4294967295 }
    ensures { pairing_of s incl p }
    ensures { inrange s p }
  = assert { ascending p };
    let lemma at_ (q u v:int) requires { 0 <= q < length p /\ p[q] = (u,v) } ensures { 0 <= u < length s /\ 0 <= v <= 4294967295 } = assert { smem (u,v) p } in
    ()
  let ghost dual_matrix (m e:bm)
    requires { 0 <= nc m /\ bounded (matof m) (nc m) /\ complex (matof m) (nc m) }
    requires { forall j i. matof m j i -> i < j }
    requires { forall j i. matof m j i -> dims m j = dims m i + 1 }
    requires { dual_of m e }
    ensures { complex (matof e) (nc e) }
    ensures { forall j i. matof e j i -> i < j }
    ensures { forall j i. matof e j i -> dims e j = dims e i + 1 }
  = let t = top_of (pure { dimf m }) (pure { nc m }) in
    assert { is_topm m t };
    dual_complex (pure { matof m }) (pure { matof e }) (pure { nc m });
    dual_range (pure { matof m }) (pure { matof e }) (pure { nc m }) (pure { dimf m }) (pure { dimf e }) t
  (* a complex has a single pairing *)
  let ghost single_pairing (s:seq simplex) (incl:bool) (p q:seq (int,int))
    requires { pairing_of s incl p /\ pairing_of s incl q }
    ensures { p = q }
  = let r = a_reduction (pure { bdm s }) (length s) in
    let t = top_of (pure { kdim s }) (length s) in
    assert { forall u v. smem (u,v) p <-> smem (u,v) q };
    assert { forall x. smem x p <-> smem x q };
    let n = if length p <= length q then length p else length q in
    same_prefix p q n;
    if length p > n then (let x = pure { p[n] } in assert { smem x p }; let i = any int ensures { 0 <= result < length q /\ q[result] = x } in assert { p[i] = p[n] }; absurd);
    if length q > n then (let x = pure { q[n] } in assert { smem x q }; let i = any int ensures { 0 <= result < length p /\ p[result] = x } in assert { q[i] = q[n] }; absurd);
    assert { p == q }
"""
KX = '$p1.complex_simplices'
M = '$boundaryMatrix'
P = '$pairing.ppairing_pairs'


def main(alg):
    return Fn('diagrams_' + alg.lower(), 'calculatePersistenceDiagrams',
              requires=['cwf ' + KX, 'closed ' + KX, 'faces_first ' + KX, 'length %s < 4294967295' % KX],
              ensures=['[diagrams of the pairing of the complex] exists p. pairing_of %s $includeAllUnpairedCreators p /\\ diagrams_of %s p $result' % (KX, KX)],
              steps={'makeBoundaryMatrix': ['let ghost m_ = pure { $result } in',
                                            'assert { of_matrix %s m_ };' % KX,
                                            'primal_range (pure { %s }) (pure { matof m_ }) (pure { nc m_ });' % KX],
                     'dualized': ['assert { dual_of m_ $result };', 'dual_matrix m_ (pure { $result });'],
                     'pairing_' + alg.lower(): ['let ghost p_ = pure { $result.ppairing_pairs } in', 'read (pure { %s }) m_ (pure { $a1 }) $includeAllUnpairedCreators p_;' % KX,
                                                'finish (pure { %s }) $includeAllUnpairedCreators p_;' % KX],
                     'makePersistenceDiagrams': ['assert { diagrams_of %s p_ $result };' % KX]})


def values(alg):
    more = ['complex (matof $boundaryMatrix) (nc $boundaryMatrix)', 'forall j i. matof $boundaryMatrix j i -> dims $boundaryMatrix j = dims $boundaryMatrix i + 1'] if alg == 'Twist' else []
    B = '$boundaryMatrix'
    PV = 'exists p. ascending p /\\ is_pairing (matof %s) (nc %s) 4294967295 (dimf %s) %s.bm_isDualized false p /\\ $result.diagram_dimension = 0 /\\ values_of $functionValues p $result.diagram_points' % (B, B, B, B)
    return Fn('values_' + alg.lower(), 'calculatePersistenceDiagram',
              requires=['bmwf ' + B, 'bounded (matof %s) (nc %s)' % (B, B), 'forall j i. matof %s j i -> i < j' % B, 'nc %s < 4294967295' % B,
                        'length $functionValues = nc ' + B] + more,
              ensures=['[values of the pairs of the matrix] ' + PV],
              steps={'pairing_' + alg.lower(): ['let ghost p_ = pure { $result.ppairing_pairs } in',
                                                'pairing_range (pure { matof %s }) (pure { nc %s }) (pure { dimf %s }) (pure { %s.bm_isDualized }) false p_;' % (B, B, B, B),
                                                'assert { ascending p_ };'],
                     'makePersistenceDiagram': ['assert { values_of $functionValues p_ $result.diagram_points };']})


def mk(kind, alg):
    d = c04.dualize(kind)
    d.why = 'dualized'
    d.ensures = [x.replace('is_top $this', 'is_topm $this') for x in d.ensures]
    fns = [c10.make(kind), d, c03.pairing_fn(alg), copy.copy(c12.MAKE), copy.copy(c12.MAKE1)]
    for f, i in zip(fns, ('C10', 'C04', 'C03', 'C12', 'C12')):
        f.trusted, f.reason = True, 'proved by the check of ' + i
    C = KINDS[kind] + '<unsigned int>'
    return Unit(kind + '_' + alg.lower(), src(kind, alg), fns + [main(alg), values(alg)],
                classes={C: 'rep', 'BoundaryMatrix<%s>' % C: 'bm', S: 'simplex', K: 'complex', c12.PT: 'point', c12.DG: 'diagram', c12.PP: 'ppairing'},
                theories=['bool.Bool', 'z2.Z2', 'z2.Facts', 'z2.Pivots', 'duality.Duality', 'duality.Pairing'],
                prelude=matrix.prelude(kind) + matrix.BM_PRE + SIMPLEX_PRE + MIC + IS_FACE + CLOSED + defs(c10.PRE, 'bd', 'taken') +
                defs(c03.PRE, 'dimf') + c12.PRE + c12.MPRE + c12.VPRE + PRE,
                aliases=c12.AL, adaptors={BI: (S, 'unsigned int')}, pure=[c12.PT], keys={S: ('vs', '(seq int)')})


# the theory repeats the definitions that the contract of the pairing (C03) uses
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'theory', 'duality.mlw')) as f:
    TEXT = f.read()
for n in ('keep', 'tr', 'birth', 'death', 'paired', 'allowed', 'nocol', 'essential', 'pairing_by', 'is_top', 'is_pairing'):
    assert defs(c03.PRE, n).strip() in TEXT, n

UNITS = [mk('vec', 'Twist'), mk('vec', 'Standard'), mk('lst', 'Twist'), mk('set', 'Twist')]
THEORIES = ['z2', 'duality']
