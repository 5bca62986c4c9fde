"""Persistence pairing: reading the pairs off the reduced matrix."""
from .matrix import *

PRE = r'''
  function dimf (m:bm) : int->int = fun c -> dims m c
  predicate keep (mx n u:int) = mx > n \/ u < mx
  function tr (dual:bool) (n c:int) : int = if dual then n-1-c else c
  function birth (dual:bool) (n k i:int) : int = if dual then n-1-k else i
  function death (dual:bool) (n k i:int) : int = if dual then n-1-i else k
  (* the entry stems from the pivot of one of the first m reduced columns *)
  predicate paired (r:mat) (n mx:int) (dual:bool) (m:int) (u v:int) =
    (exists k i. 0 <= k < m /\ pivot r k i /\ u = birth dual n k i /\ v = death dual n k i) /\ keep mx n u
  predicate allowed (dm:int->int) (top:int) (dual incl:bool) (j:int) =
    incl \/ (if dual then dm j <> 0 else dm j <> top)
  predicate nocol (r:mat) (j:int) = forall i. not r j i
  (* column j creates a feature that none of the first m columns destroys *)
  predicate essential (r:mat) (dm:int->int) (top:int) (dual incl:bool) (m:int) (j:int) =
    0 <= j < m /\ nocol r j /\ (forall k. 0 <= k < m -> not pivot r k j) /\ allowed dm top dual incl j
  predicate destroys (r:mat) (n:int) (dual:bool) (m:int) (v:int) =
    exists k i. 0 <= k < m /\ pivot r k i /\ v = death dual n k i
  predicate among (e:seq int) (m:int) (c:int) = exists q. 0 <= q < m /\ e[q] = c

  predicate pairing_by (d r:mat) (n mx:int) (dm:int->int) (top:int) (dual incl:bool) (s:seq (int,int)) =
    reduction d r n /\
    (forall u v. smem (u,v) s <-> (paired r n mx dual n u v
       \/ (v = 4294967295 /\ keep mx n u /\ essential r dm top dual incl n (tr dual n u))))
  predicate is_top (dm:int->int) (n top:int) =
    (forall c. 0 <= c < n -> dm c <= top) /\ (n > 0 -> exists c. 0 <= c < n /\ dm c = top) /\ (n = 0 -> top = 0)

  predicate is_pairing (d:mat) (n mx:int) (dm:int->int) (dual incl:bool) (s:seq (int,int)) =
    exists r:mat, top. is_top dm n top /\ pairing_by d r n mx dm top dual incl s
  let ghost conclude (d r:mat) (n mx:int) (dm:int->int) (top:int) (dual incl:bool) (s:seq (int,int))
    requires { is_top dm n top }
    requires { pairing_by d r n mx dm top dual incl s }
    ensures { forall s2. (forall x. smem x s2 <-> smem x s) -> is_pairing d n mx dm dual incl s2 }
  = let lemma one (s2:seq (int,int)) requires { forall x. smem x s2 <-> smem x s } ensures { is_pairing d n mx dm dual incl s2 }
    = assert { pairing_by d r n mx dm top dual incl s2 } in ()

  let rec ghost top_of (dm:int->int) (n:int) : int
    requires { n >= 0 }
    ensures { is_top dm n result }
    variant { n }
  = if n = 0 then 0 else if n = 1 then dm 0 else
    let t = top_of dm (n-1) in if dm (n-1) > t then dm (n-1) else t

  let rec ghost find_pivot (r:mat) (k m:int) : int
    requires { m >= 0 }
    requires { forall i. r k i -> 0 <= i < m }
    ensures { result = -1 -> nocol r k }
    ensures { result <> -1 -> r k result /\ pivot r k result /\ not nocol r k /\ 0 <= result < m }
    variant { m }
  = if m = 0 then -1 else if pure { r k (m-1) } then m-1 else find_pivot r k (m-1)

  (* what the next column k contributes *)
  let ghost next_column (r:mat) (n mx:int) (dm:int->int) (top:int) (dual incl:bool) (k:int) : (i:int)
    requires { 0 <= k < n }
    requires { forall c i. 0 <= c < n -> r c i -> 0 <= i < c }
    ensures { i = -1 -> nocol r k }
    ensures { i <> -1 -> r k i /\ pivot r k i /\ not nocol r k }
    ensures { i <> -1 -> 0 <= i < k }
    ensures { i = -1 -> forall u v. paired r n mx dual (k+1) u v <-> paired r n mx dual k u v }
    ensures { i = -1 -> forall v. destroys r n dual (k+1) v <-> destroys r n dual k v }
    ensures { i = -1 -> forall c. essential r dm top dual incl (k+1) c <-> (essential r dm top dual incl k c \/ (c = k /\ allowed dm top dual incl k)) }
    ensures { i <> -1 -> forall u v. paired r n mx dual (k+1) u v <-> (paired r n mx dual k u v \/ (u = birth dual n k i /\ v = death dual n k i /\ keep mx n u)) }
    ensures { i <> -1 -> not paired r n mx dual k (birth dual n k i) (death dual n k i) }
    ensures { i <> -1 -> forall v. destroys r n dual (k+1) v <-> (destroys r n dual k v \/ v = death dual n k i) }
    ensures { i <> -1 -> forall c. essential r dm top dual incl (k+1) c <-> (essential r dm top dual incl k c /\ c <> i) }
  = let lemma uniq (i i2:int) requires { pivot r k i /\ pivot r k i2 } ensures { i = i2 } = () in
    find_pivot r k k
  (* what the next of the remaining creators contributes *)
  let ghost next_creator (r:mat) (n mx:int) (dm:int->int) (top:int) (dual incl:bool) (e:seq int) (k:int)
    requires { 0 <= k < length e }
    requires { distinct e }
    requires { forall c i. 0 <= c < n -> r c i -> 0 <= i < c }
    requires { forall c. smem c e <-> essential r dm top dual incl n c }
    ensures { forall c. among e (k+1) c <-> (among e k c \/ c = e[k]) }
    ensures { not among e k e[k] }
    ensures { essential r dm top dual incl n e[k] }
    ensures { 0 <= e[k] < n }
    ensures { not destroys r n dual n (tr dual n e[k]) }
    ensures { tr dual n (tr dual n e[k]) = e[k] }
  = ()
  lemma tr_tr : forall dual n c. tr dual n (tr dual n c) = c
  let ghost all_creators (r:mat) (n:int) (dm:int->int) (top:int) (dual incl:bool) (e:seq int)
    requires { forall c. smem c e <-> essential r dm top dual incl n c }
    ensures { forall c. among e (length e) c <-> essential r dm top dual incl n c }
  = ()
  let ghost paired_small (r:mat) (n mx:int) (dual:bool)
    requires { forall c i. 0 <= c < n -> r c i -> 0 <= i < c }
    ensures { forall u v. paired r n mx dual n u v -> 0 <= v < n }
  = ()
'''
TRUST = 'proved by the check of C01'


def trust(fns):
    for f in fns:
        f.trusted, f.reason = True, TRUST
    return fns


PAIRS = '$pairing.ppairing_pairs'
R = '(matof $B)'
N = '(nc $B)'
ARGS = '(dimf $M)'


DU, IN = '$M.bm_isDualized', '$includeAllUnpairedCreators'


def pairing_fn(alg):
    more = ['complex (matof $M) (nc $M)', 'forall j i. matof $M j i -> dims $M j = dims $M i + 1'] if alg == 'Twist' else []
    return Fn('pairing_' + alg.lower(), 'calculatePersistencePairing',
              requires=['bmwf $M', 'bounded (matof $M) (nc $M)', 'forall j i. matof $M j i -> i < j', 'nc $M < 4294967295'] + more,
              entry=['let ghost top = top_of (pure { %s }) (pure { nc $M }) in' % ARGS],
              ensures=['[sorted] forall i j. 0 <= i < j < length $result.ppairing_pairs -> not pair_lt $result.ppairing_pairs[j] $result.ppairing_pairs[i]',
                       '[no entry twice] distinct $result.ppairing_pairs',
                       '[exactly the pivots and the unpaired creators of a reduction] is_pairing (matof $M) (nc $M) $max %s %s %s $result.ppairing_pairs' % (ARGS, DU, IN)],
              loops=[Loop([
                  '[creators] forall c. Fset.mem c $creators <-> essential %s %s top %s %s $K0 c' % (R, ARGS, DU, IN),
                  '[destroyers] forall v. Fset.mem v $destroyers <-> destroys %s %s %s $K0 v' % (R, N, DU),
                  '[pairs so far] forall u v. smem (u,v) %s <-> paired %s %s $max %s $K0 u v' % (PAIRS, R, N, DU),
                  '[no entry twice] distinct ' + PAIRS],
                  before=['reach_upper (pure { matof $M }) (pure { nc $M }) (pure { matof $B });',
                          'assert { [@expl:largest dimension] (forall c. 0 <= c < nc $B -> dimof $B.bm_representation c <= top) /\\ (nc $B > 0 -> exists c. 0 <= c < nc $B /\\ dimof $B.bm_representation c = top) };'],
                  begin=['let ghost _ = next_column (pure { matof $B }) (pure { nc $B }) $max (pure { %s }) top %s %s $K0 in' % (ARGS, DU, IN),
                         'assert { [@expl:admissible dimension] allowed %s top %s %s $K0 <-> (%s \\/ (if %s then dimof $B.bm_representation $K0 <> 0 else dimof $B.bm_representation $K0 <> top)) };' % (ARGS, DU, IN, IN, DU)]),
                  Loop([
                  '[entries so far] forall u v. smem (u,v) %s <-> (smem (u,v) p0 \\/ (v = 4294967295 /\\ keep $max %s u /\\ among $E0 $K0 (tr %s %s u)))' % (PAIRS, N, DU, N),
                  '[no entry twice] distinct ' + PAIRS],
                  before=['let ghost p0 = pure { %s } in' % PAIRS,
                          'paired_small (pure { matof $B }) (pure { nc $B }) $max %s;' % DU,
                          'all_creators (pure { matof $B }) (pure { nc $B }) (pure { %s }) top %s %s $E0;' % (ARGS, DU, IN)],
                  begin=['next_creator (pure { matof $B }) (pure { nc $B }) $max (pure { %s }) top %s %s $E0 $K0;' % (ARGS, DU, IN)],
                  after=['assert { [@expl:entries] pairing_by (matof $M) (matof $B) (nc $M) $max %s top %s %s %s };' % (ARGS, DU, IN, PAIRS),
                         'conclude (pure { matof $M }) (pure { matof $B }) (pure { nc $M }) $max (pure { %s }) top %s %s (pure { %s });' % (ARGS, DU, IN, PAIRS)])])


def cpp(k, alg):
    r = N_ + KINDS[k] + '<unsigned>'
    return ('#include <aleph/persistentHomology/Calculation.hh>\n'
            'template aleph::PersistencePairing<unsigned> aleph::calculatePersistencePairing<aleph::persistentHomology::algorithms::%s, %s>'
            '(const aleph::topology::BoundaryMatrix<%s>&, bool, unsigned);\n'
            'template class aleph::PersistencePairing<unsigned>;\n' % (alg, r, r))


N_ = 'aleph::topology::representations::'


def mk(k, alg):
    u = unit(k, name=k + '_' + alg.lower(), fns=trust(rep_fns(k)), extra_fns=trust(reduction_fns(k)) + [pairing_fn(alg)],
             pre=PRE, cpp=cpp(k, alg), theories=('bool.Bool', 'z2.Z2', 'z2.Facts'))
    u.classes['PersistencePairing<unsigned int>'] = 'ppairing'
    return u


UNITS = [mk(k, a) for k in KINDS for a in ('Standard', 'Twist')]
THEORIES = ['z2']
