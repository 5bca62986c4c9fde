"""Zero-dimensional persistence by merging components."""
import copy
from .sc import *
from .c03 import trust
from . import uf, c12

SRC = c12.SRC + uf.SRC + """#include <aleph/persistentHomology/ConnectedComponents.hh>
template std::tuple<aleph::PersistenceDiagram<double>, aleph::PersistencePairing<unsigned>> aleph::calculateZeroDimensionalPersistenceDiagram<S>(const aleph::topology::SimplicialComplex<S>&, aleph::utilities::EmptyFunctor&&);
"""
PRE = r"""
  function one (v:int) : seq int = singleton v
  lemma app_empty : forall s:seq int. empty ++ s = s
  lemma whole : forall s:seq int. s[0 .. length s] = s
  let lemma vertex_simplex (s:seq simplex) (v:int)
    requires { cwf s /\ has_vertex s v }
    ensures { 0 <= v < 4294967296 /\ has s (one v) }
  = let lemma at_ (k:int) requires { 0 <= k < length s /\ length (vs s[k]) = 1 /\ (vs s[k])[0] = v } ensures { vs s[k] = one v /\ 0 <= v < 4294967296 }
    = assert { vs s[k] == one v };
      assert { swf s[k] } in ()
  let rec ghost function posr (s:seq simplex) (v:int) (n:int) : int
    variant { n }
  = if n <= 0 then -1 else if pure { vs s[n-1] = one v } then n-1 else posr s v (n-1)
  (* position of a vertex *)
  function pos (s:seq simplex) (v:int) : int = posr s v (length s)
  let rec lemma posr_at (s:seq simplex) (v n i:int)
    requires { uniq s /\ 0 <= i < n <= length s /\ vs s[i] = one v }
    ensures { posr s v n = i }
    variant { n }
  = if n - 1 > i then posr_at s v (n-1) i
  let lemma pos_at (s:seq simplex) (v i:int)
    requires { cwf s /\ 0 <= i < length s /\ vs s[i] = one v }
    ensures { pos s v = i }
  = posr_at s v (length s) i
  predicate isedge (s:seq simplex) (n:int) = length (vs s[n]) = 2
  function va (s:seq simplex) (n:int) : int = (vs s[n])[0]
  function vb (s:seq simplex) (n:int) : int = (vs s[n])[1]
  function younger (s:seq simplex) (a b:int) : int = if pos s a < pos s b then b else a
  function older (s:seq simplex) (a b:int) : int = if pos s a < pos s b then a else b
  (* representative of the component of a vertex after n simplices: joining two
     components keeps the representative that entered first *)
  let rec ghost function elder (s:seq simplex) (n:int) (x:int) : int
    variant { n }
  = if n <= 0 then x
    else let e = elder s (n-1) x in
      if pure { isedge s (n-1) } then
        let a = elder s (n-1) (pure { va s (n-1) }) in
        let b = elder s (n-1) (pure { vb s (n-1) }) in
        if a <> b && e = (pure { younger s a b }) then pure { older s a b } else e
      else e
  predicate merges (s:seq simplex) (n:int) = isedge s n /\ elder s n (va s n) <> elder s n (vb s n)
  function dying (s:seq simplex) (n:int) : int = younger s (elder s n (va s n)) (elder s n (vb s n))
  (* points of the merges among the first n simplices *)
  let rec ghost function zpts (s:seq simplex) (n:int) : seq point
    variant { n }
  = if n <= 0 then (empty : seq point)
    else if pure { merges s (n-1) /\ dat s[pos s (dying s (n-1))] <> dat s[n-1] }
      then snoc (zpts s (n-1)) (pure { { point_x = dat s[pos s (dying s (n-1))]; point_y = dat s[n-1] } })
      else zpts s (n-1)
  predicate rootlist (s:seq simplex) (r:seq int) = distinct r /\ forall v. smem v r <-> has_vertex s v /\ elder s (length s) v = v
  predicate rootpts (s:seq simplex) (r:seq int) (p:seq point) =
    length p = length (zpts s (length s)) + length r /\
    (forall q. 0 <= q < length (zpts s (length s)) -> p[q] = (zpts s (length s))[q]) /\
    (forall q. 0 <= q < length r -> p[length (zpts s (length s)) + q] = { point_x = dat s[pos s r[q]]; point_y = f_inf })

  function keeping (s:seq simplex) (n:int) : int = older s (elder s n (va s n)) (elder s n (vb s n))
  let ghost next (s:seq simplex) (n:int)
    requires { 0 <= n }
    ensures { forall x. elder s (n+1) x = if merges s n && elder s n x = dying s n then keeping s n else elder s n x }
    ensures { zpts s (n+1) = if merges s n && dat s[pos s (dying s n)] <> dat s[n] then snoc (zpts s n) ({ point_x = dat s[pos s (dying s n)]; point_y = dat s[n] }) else zpts s n }
  = ()
  (* the representatives distinguish exactly the components *)
  predicate relates (s:seq simplex) (n:int) (r:int->int->bool) =
    (forall x. r x x) /\ (forall x y. r x y -> r y x) /\ (forall x y z. r x y -> r y z -> r x z) /\
    (forall k. 0 <= k < n -> isedge s k -> r (va s k) (vb s k))
  predicate conn (s:seq simplex) (n:int) (x y:int) = forall r. relates s n r -> r x y
  let rec ghost elder_rel (s:seq simplex) (n:int) (r:int->int->bool) (x:int)
    requires { relates s n r /\ 0 <= n }
    ensures { r x (elder s n x) }
    variant { n }
  = if n > 0 then begin
      elder_rel s (n-1) r x; elder_rel s (n-1) r (pure { va s (n-1) }); elder_rel s (n-1) r (pure { vb s (n-1) });
      let ghost a = elder s (n-1) (pure { va s (n-1) }) in
      let ghost b = elder s (n-1) (pure { vb s (n-1) }) in
      assert { isedge s (n-1) -> r (va s (n-1)) (vb s (n-1)) };
      assert { isedge s (n-1) -> r a b /\ r b a };
      assert { elder s n x = elder s (n-1) x \/ (isedge s (n-1) /\ ((elder s (n-1) x = a /\ elder s n x = b) \/ (elder s (n-1) x = b /\ elder s n x = a))) };
      assert { r x (elder s (n-1) x) };
      assert { r (elder s (n-1) x) (elder s n x) }
    end
  let rec ghost kernel (s:seq simplex) (n k:int)
    requires { 0 <= k < n }
    requires { isedge s k }
    ensures { elder s n (va s k) = elder s n (vb s k) }
    variant { n }
  = if k < n-1 then kernel s (n-1) k
  let lemma components (s:seq simplex) (n x y:int)
    requires { 0 <= n }
    ensures { elder s n x = elder s n y <-> conn s n x y }
  = let ghost r = pure { fun a b -> elder s n a = elder s n b } in
    let lemma ed (k:int) requires { 0 <= k < n /\ isedge s k } ensures { elder s n (va s k) = elder s n (vb s k) } = kernel s n k in
    assert { relates s n r };
    assert { conn s n x y -> r x y };
    let lemma al (q:int->int->bool) requires { relates s n q /\ elder s n x = elder s n y } ensures { q x y }
    = elder_rel s n q x; elder_rel s n q y in ()
  let lemma edge_vertices (s:seq simplex) (n:int)
    requires { closed s /\ cwf s /\ 0 <= n < length s /\ isedge s n }
    ensures { has_vertex s (va s n) /\ has_vertex s (vb s n) }
  = let v = pure { vs s[n] } in
    assert { valid s v };
    assert { length (face v 0) = 1 /\ (face v 0)[0] = v[1] };
    assert { length (face v 1) = 1 /\ (face v 1)[0] = v[0] };
    assert { has s (face v 0) /\ has s (face v 1) }
  let rec lemma elder_vertex (s:seq simplex) (n x:int)
    requires { closed s /\ cwf s /\ 0 <= n <= length s /\ has_vertex s x }
    ensures { has_vertex s (elder s n x) }
    ensures { pos s (elder s n x) <= pos s x }
    variant { n }
  = if n > 0 then begin
      elder_vertex s (n-1) x;
      if pure { isedge s (n-1) } then begin
        edge_vertices s (n-1);
        elder_vertex s (n-1) (pure { va s (n-1) }); elder_vertex s (n-1) (pure { vb s (n-1) });
        let ghost a = elder s (n-1) (pure { va s (n-1) }) in
        let ghost b = elder s (n-1) (pure { vb s (n-1) }) in
        assert { pos s (older s a b) <= pos s (younger s a b) };
        assert { elder s n x = elder s (n-1) x \/ (elder s (n-1) x = younger s a b /\ elder s n x = older s a b) }
      end
    end
"""
KS = '$p1.complex_simplices'
ROOT = ['let ghost p0_ = pure { $uf.uf_parent } in', 'assert { is_rt p0_ (root_of p0_) };',
        'let ghost r0_ = pure { root_of p0_ } in',
        'next (pure { %s }) $K0;' % KS,
        'if pure { isedge %s $K0 } then edge_vertices (pure { %s }) $K0;' % (KS, KS),
        'assert { forall x. has_vertex %s x -> r0_ x = elder %s $K0 x };' % (KS, KS),
        'assert { forall x. mdom x p0_ -> r0_ (r0_ x) = r0_ x };',
        'assert { merges %s $K0 -> mdom (dying %s $K0) p0_ /\\ mdom (keeping %s $K0) p0_ /\\ r0_ (dying %s $K0) = dying %s $K0 /\\ r0_ (keeping %s $K0) = keeping %s $K0 };' % ((KS,)*7)]
END = ['let ghost p1_ = pure { $uf.uf_parent } in', 'assert { is_rt p1_ (root_of p1_) };',
       'assert { not (merges %s $K0) -> forall x. mdom x p0_ -> root_of p1_ x = r0_ x };' % KS,
       'assert { merges %s $K0 -> forall x. mdom x p0_ -> root_of p1_ x = if r0_ x = r0_ (dying %s $K0) then r0_ (keeping %s $K0) else r0_ x };' % ((KS,)*3),
       'assert { forall x. has_vertex %s x -> root_of p1_ x = if merges %s $K0 && r0_ x = dying %s $K0 then keeping %s $K0 else r0_ x };' % (KS, KS, KS, KS),
       'assert { [@expl:representatives] forall x. has_vertex %s x -> root_of p1_ x = elder %s ($K0+1) x };' % (KS, KS),
       'assert { forall rt. is_rt p1_ rt -> forall x. mdom x p1_ -> rt x = root_of p1_ x };']
UF = ['[union-find] ufwf $uf', '[vertices] forall x. mdom x $uf.uf_parent <-> has_vertex %s x' % KS]
ZERO = Fn('zeroPersistence', 'calculateZeroDimensionalPersistenceDiagram', requires=['cwf ' + KS, 'closed ' + KS, 'length %s < 4294967296' % KS],
    ensures=['[one point per merge of two components, one per component] exists r. rootlist %s r /\\ rootpts %s r (fst_l $result).diagram_points' % (KS, KS)],
    loops=[Loop(UF),
           Loop(UF + ['[representatives] forall rt x. is_rt $uf.uf_parent rt -> has_vertex %s x -> rt x = elder %s $K0 x' % (KS, KS),
                 '[points so far] $pd.diagram_points = zpts %s $K0' % KS],
                begin=ROOT, end=END),
           Loop(['[points] forall q. 0 <= q < length (zpts %s (length %s)) -> $pd.diagram_points[q] = (zpts %s (length %s))[q]' % (KS, KS, KS, KS),
                 '[number of points] length $pd.diagram_points = length (zpts %s (length %s)) + $K0' % (KS, KS),
                 '[components so far] forall q. 0 <= q < $K0 -> $pd.diagram_points[length (zpts %s (length %s)) + q] = { point_x = dat %s[pos %s $E0[q]]; point_y = f_inf }' % (KS, KS, KS, KS)],
                before=['assert { rootlist %s $E0 };' % KS], begin=['let ghost d0_ = pure { $pd.diagram_points } in'],
                end=['assert { $pd.diagram_points = snoc d0_ { point_x = dat %s[pos %s $E0[$K0]]; point_y = f_inf } };' % (KS, KS)])])


def mk():
    fns = [f for f in simplex_fns() if f.why in ('sdimension', 'getData', 'simplex_vertex', 'deref_boundary')]
    fns += [f for f in complex_fns() if f.why in ('kidx', 'kindex', 'kfind', 'kvertices')]
    df = [copy.copy(f) for f in c12.FNS if f.why in ('add1', 'add2')]
    return Unit('zero', SRC, trust(fns + df + uf.fns()) + [ZERO],
                classes={c12.PT: 'point', c12.DG: 'diagram', c12.PP: 'ppairing', S: 'simplex', K: 'complex', uf.C: 'uf'},
                prelude=SIMPLEX_PRE + MIC + IS_FACE + CLOSED + c12.PRE + uf.PRE + PRE, aliases=c12.AL, pure=[c12.PT],
                keys={S: ('vs', '(seq int)')}, adaptors={BI: (S, 'unsigned int')})


UNITS = [mk()]
