"""Enumeration of maximal cliques."""
import copy
from .sc import *
from .c03 import trust

SRC = COMPLEX_SRC + """#include <aleph/topology/MaximalCliques.hh>
template class aleph::math::SparseBinaryMatrix<unsigned>;
template void aleph::math::SparseBinaryMatrix<unsigned>::get(unsigned, std::insert_iterator<std::unordered_set<unsigned>>) const;
template void aleph::math::SparseBinaryMatrix<unsigned>::setIndices(std::set<unsigned>::iterator, std::set<unsigned>::iterator);
template std::vector< std::set<unsigned> > aleph::topology::maximalCliquesKoch<S>(const aleph::topology::SimplicialComplex<S>&);
template std::vector< std::set<unsigned> > aleph::topology::maximalCliquesBronKerbosch<S>(const aleph::topology::SimplicialComplex<S>&);
"""
BM = 'SparseBinaryMatrix<unsigned int>'
US = 'unordered_set<unsigned int>'
AL = dict(ALIAS, **{'VertexType': 'unsigned int', 'IndexType': 'unsigned int', 'ColumnType': 'set<unsigned int>', 'ColumnsType': 'vector<set<unsigned int>>',
                    'IndexMap': 'vector<unsigned int>', 'SparseBinaryMatrix<VertexType>': BM, 'math::SparseBinaryMatrix<VertexType>': BM, 'Matrix': BM})
PRE = r"""
  predicate among (e:seq int) (n x:int) = exists i. 0 <= i < n /\ e[i] = x
  lemma among_step : forall e n m x [among e m x, among e n x]. 0 <= n -> m = n+1 -> (among e m x <-> among e n x \/ e[n] = x)
  (* the graph of a matrix *)
  function dim (m:bmat) : int = length m.bmat_columns
  predicate adj (m:bmat) (u v:int) = 0 <= v < dim m /\ omem u m.bmat_columns[v]
  function lab (m:bmat) (v:int) : int = if length m.bmat_indexMap = 0 then v else m.bmat_indexMap[v]
  predicate gwf (m:bmat) =
    (forall u v. adj m u v -> adj m v u /\ u <> v /\ 0 <= u < dim m) /\ dim m < 4294967296 /\
    (length m.bmat_indexMap = 0 \/ (length m.bmat_indexMap = dim m /\ distinct m.bmat_indexMap)) /\
    forall i. 0 <= i < length m.bmat_indexMap -> 0 <= m.bmat_indexMap[i] < 4294967296
  predicate isclique (m:bmat) (q:fset int) =
    (forall u. Fset.mem u q -> 0 <= u < dim m) /\ forall u v. Fset.mem u q -> Fset.mem v q -> u <> v -> adj m u v
  predicate alladj (m:bmat) (q:fset int) (w:int) = forall u. Fset.mem u q -> adj m u w
  predicate maximal (m:bmat) (q:fset int) = isclique m q /\ forall w. 0 <= w < dim m -> not Fset.mem w q -> not alladj m q w
  predicate hits (x q:fset int) = exists u. Fset.mem u x /\ Fset.mem u q
  (* maximal cliques that contain c and avoid x *)
  predicate wanted (m:bmat) (c x q:fset int) = maximal m q /\ Fset.subset c q /\ not hits x q
  (* i and x are the vertices adjacent to all of c *)
  predicate cand (m:bmat) (c i x:fset int) =
    isclique m c /\ (forall w. Fset.mem w i \/ Fset.mem w x <-> 0 <= w < dim m /\ alladj m c w) /\ not hits i x
  predicate image (m:bmat) (q:fset int) (y:int) = exists u. Fset.mem u q /\ y = lab m u
  predicate rep (m:bmat) (q:fset int) (o:oset) = forall y. omem y o <-> image m q y
  predicate found (m:bmat) (c x:fset int) (o:oset) = exists q. wanted m c x q /\ rep m q o
  predicate foundhit (m:bmat) (c x h:fset int) (o:oset) = exists q. wanted m c x q /\ hits h q /\ rep m q o
  predicate foundwith (m:bmat) (c x:fset int) (v:int) (o:oset) = exists q. wanted m c x q /\ Fset.mem v q /\ rep m q o
  predicate listed (m:bmat) (s:seq oset) (a b:int) (q:fset int) = exists j. a <= j < b /\ rep m q s[j]
  predicate keeps (a s:seq oset) = length a <= length s /\ forall k. 0 <= k < length a -> s[k] = a[k]
  predicate differ (s:seq oset) (a b:int) = forall i j. a <= i < j < b -> s[i] <> s[j]
  let lemma lab_inj (m:bmat) (u v:int)
    requires { gwf m /\ 0 <= u < dim m /\ 0 <= v < dim m /\ lab m u = lab m v }
    ensures { u = v }
  = ()
  let lemma rep_inj (m:bmat) (q r:fset int) (o:oset)
    requires { gwf m /\ isclique m q /\ isclique m r /\ rep m q o /\ rep m r o }
    ensures { q = r }
  = assert { forall u. Fset.mem u q -> Fset.mem u r by image m q (lab m u) so image m r (lab m u) };
    assert { forall u. Fset.mem u r -> Fset.mem u q by image m r (lab m u) so image m q (lab m u) };
    assert { Fset.(q == r) }
  let lemma goal_in (m:bmat) (c i x q:fset int) (u:int)
    requires { gwf m /\ cand m c i x /\ wanted m c x q /\ Fset.mem u q /\ not Fset.mem u c }
    ensures { Fset.mem u i }
  = assert { alladj m c u }
  let lemma goal_step (m:bmat) (c i x nc ni nx q:fset int) (v:int)
    requires { gwf m /\ cand m c i x /\ Fset.mem v i }
    requires { nc = Fset.add v c /\ (forall w. Fset.mem w nx <-> Fset.mem w x /\ adj m w v) }
    ensures { wanted m nc nx q <-> wanted m c x q /\ Fset.mem v q }
  = assert { forall u. wanted m nc nx q -> Fset.mem u x -> Fset.mem u q -> Fset.mem u nx };
    assert { wanted m nc nx q -> wanted m c x q };
    assert { wanted m nc nx q -> Fset.mem v q };
    assert { wanted m c x q /\ Fset.mem v q -> Fset.subset nc q };
    assert { wanted m c x q /\ Fset.mem v q -> not hits nx q }
  let lemma cand_step (m:bmat) (c i x nc ni nx:fset int) (v:int)
    requires { gwf m /\ cand m c i x /\ Fset.mem v i }
    requires { nc = Fset.add v c /\ (forall w. Fset.mem w nx <-> Fset.mem w x /\ adj m w v) }
    requires { forall w. Fset.mem w ni <-> Fset.mem w i /\ w <> v /\ adj m w v }
    ensures { cand m nc ni nx }
  = assert { alladj m c v };
    assert { isclique m nc };
    assert { forall w. alladj m nc w <-> alladj m c w /\ adj m v w };
    assert { forall w. Fset.mem w ni \/ Fset.mem w nx <-> 0 <= w < dim m /\ alladj m nc w }
  predicate erased (s:seq int) (i:int) (t:seq int) =
    length t = length s - 1 /\ (forall k. 0 <= k < i -> t[k] = s[k]) /\ forall k. i <= k < length t -> t[k] = s[k+1]
  let lemma erase_one (s:seq int) (i:int) (t:seq int)
    requires { erased s i t /\ distinct s /\ 0 <= i < length s }
    ensures { distinct t }
    ensures { forall x. smem x t <-> smem x s /\ x <> s[i] }
  = assert { forall k. i < k < length s -> t[k-1] = s[k] };
    assert { forall x. smem x t -> smem x s /\ x <> s[i] };
    assert { forall k. 0 <= k < length s -> k <> i -> smem s[k] t }
  lemma hits_add : forall x q v [hits (Fset.add v x) q]. hits (Fset.add v x) q <-> hits x q \/ Fset.mem v q
  let ghost step_all (m:bmat) (c i x i0:fset int) (v:int)
    requires { gwf m /\ cand m c i x /\ Fset.mem v i /\ Fset.subset i i0 }
    ensures { forall ni nx [cand m (Fset.add v c) ni nx]. (forall w. Fset.mem w nx <-> Fset.mem w x /\ adj m w v) -> (forall w. Fset.mem w ni <-> Fset.mem w i /\ w <> v /\ adj m w v) -> cand m (Fset.add v c) ni nx }
    ensures { forall nx q [wanted m (Fset.add v c) nx q]. (forall w. Fset.mem w nx <-> Fset.mem w x /\ adj m w v) -> (wanted m (Fset.add v c) nx q <-> wanted m c x q /\ Fset.mem v q) }
    ensures { forall ni [Fset.cardinal ni]. (forall w. Fset.mem w ni -> Fset.mem w i /\ w <> v) -> Fset.cardinal ni < Fset.cardinal i0 }
    ensures { cand m c (Fset.remove v i) (Fset.add v x) }
    ensures { forall nx o [found m (Fset.add v c) nx o]. (forall w. Fset.mem w nx <-> Fset.mem w x /\ adj m w v) -> found m (Fset.add v c) nx o -> foundwith m c x v o }
  = assert { Fset.cardinal (Fset.remove v i) < Fset.cardinal i <= Fset.cardinal i0 };
    assert { forall ni [Fset.cardinal ni]. (forall w. Fset.mem w ni -> Fset.mem w i /\ w <> v) -> Fset.subset ni (Fset.remove v i) };
    assert { forall w. Fset.mem w (Fset.remove v i) \/ Fset.mem w (Fset.add v x) <-> Fset.mem w i \/ Fset.mem w x }
  (* nothing is left without a vertex that has been dealt with *)
  let lemma goal_none (m:bmat) (c i x q:fset int) (p:int)
    requires { gwf m /\ cand m c i x /\ Fset.mem p x /\ wanted m c x q /\ forall u. Fset.mem u i -> adj m u p }
    ensures { false }
  = assert { alladj m c p };
    assert { not Fset.mem p q };
    assert { forall u. Fset.mem u q -> adj m u p }
"""
# $p1 = C, $p2 = I, $p3 = X, $p4 = cliques, $p5 = A
ENSURES = ['[nothing lost] keeps (old $p4) $p4',
           '[only maximal cliques] forall j. length (old $p4) <= j < length $p4 -> found $p5 (old $p1) (old $p3) $p4[j]',
           '[all maximal cliques] forall q. wanted $p5 (old $p1) (old $p3) q -> listed $p5 $p4 (length (old $p4)) (length $p4) q',
           '[each once] differ $p4 (length (old $p4)) (length $p4)']
NEW = '(length s0_)'
EMPTY_LOOP = Loop(['[labels so far] forall y. omem y $newClique <-> exists i. 0 <= i < $K0 /\\ y = lab $p5 $E0[i]',
                   ],
                  after=['assert { forall y. omem y $newClique -> image $p5 $p1 y };', 'assert { forall y. image $p5 $p1 y -> omem y $newClique by exists u. Fset.mem u $p1 /\\ y = lab $p5 u so smem u $E0 };',
                         'assert { rep $p5 $p1 $newClique };', 'assert { forall q. wanted $p5 $p1 $p3 q -> Fset.(q == $p1) };',
                         'assert { wanted $p5 $p1 $p3 $p1 };'])


def traverse(koch):
    inv = ['[position] 0 <= $it <= length $it_order', '[remaining vertices] distinct $it_order /\\ forall x. Fset.mem x $p2 <-> smem x $it_order',
           '[vertices dealt with] cand $p5 $p1 $p2 $p3 /\\ Fset.subset x0_ $p3 /\\ forall u. Fset.mem u $p3 -> Fset.mem u x0_ \\/ Fset.mem u i0_',
           '[candidates] Fset.subset $p2 i0_',
           '[nothing lost] keeps s0_ $p4',
           '[only maximal cliques] forall j. %s <= j < length $p4 -> foundhit $p5 $p1 x0_ $p3 $p4[j]' % NEW,
           '[all maximal cliques so far] forall q. wanted $p5 $p1 x0_ q -> hits $p3 q -> listed $p5 $p4 %s (length $p4) q' % NEW,
           '[each once] differ $p4 %s (length $p4)' % NEW, '[clique unchanged] $p1 = c0_']
    if koch:
        inv += ['[skipped vertices] forall q. 0 <= q < $it -> adj $p5 $it_order[q] $pivot', '[pivot] Fset.mem $pivot $p2 \\/ Fset.mem $pivot $p3']
        after = ['assert { Fset.mem $pivot $p3 };', 'assert { forall u. Fset.mem u $p2 -> adj $p5 u $pivot };']
    else:
        inv += ['[front] $it = 0', '[some vertex] Fset.mem w_ i0_ \\/ Fset.mem w_ x0_', '[no vertex lost] Fset.mem w_ $p2 \\/ Fset.mem w_ $p3']
        after = ['assert { forall u. not Fset.mem u $p2 };', 'assert { Fset.mem w_ $p3 };']
    after += ['assert { forall q. wanted $p5 $p1 x0_ q -> hits $p3 q };']
    return Loop(inv, variant='length $it_order - $it',
                begin=['let ghost v_ = pure { $it_order[$it] } in', 'let ghost i1_ = pure { $p2 } in', 'let ghost x1_ = pure { $p3 } in', 'let ghost s1_ = pure { $p4 } in',
                       'let ghost o1_ = pure { $it_order } in', 'let ghost it1_ = pure { $it } in',
                       'assert { Fset.mem v_ i1_ };', 'step_all $p5 c0_ i1_ x1_ i0_ v_;', 'assert { forall q. wanted $p5 c0_ x1_ q -> wanted $p5 c0_ x0_ q };'],
                end=['assert { $it_order = o1_ \\/ erased o1_ it1_ $it_order };', 'assert { Fset.mem v_ $p3 -> $p3 = Fset.add v_ x1_ };', 'assert { not Fset.mem v_ $p3 -> $p3 = x1_ /\\ $p4 = s1_ };',
                     'assert { keeps s1_ $p4 };',
                     'assert { Fset.mem v_ $p3 -> forall j. length s1_ <= j < length $p4 -> foundwith $p5 c0_ x1_ v_ $p4[j] };',
                     'assert { Fset.mem v_ $p3 -> forall q. Fset.mem v_ q -> hits $p3 q };',
                     'assert { forall j. length s1_ <= j < length $p4 -> foundhit $p5 c0_ x0_ $p3 $p4[j] };',
                     'assert { forall j. %s <= j < length s1_ -> foundhit $p5 c0_ x0_ x1_ $p4[j] };' % NEW,
                     'assert { forall j. %s <= j < length s1_ -> foundhit $p5 c0_ x0_ $p3 $p4[j] };' % NEW,
                     'assert { Fset.mem v_ $p3 -> forall q. wanted $p5 c0_ x1_ q /\\ Fset.mem v_ q -> listed $p5 $p4 (length s1_) (length $p4) q };',
                     'assert { forall q. listed $p5 s1_ %s (length s1_) q -> listed $p5 $p4 %s (length $p4) q };' % (NEW, NEW),
                     'assert { forall q. listed $p5 $p4 (length s1_) (length $p4) q -> listed $p5 $p4 %s (length $p4) q };' % NEW,
                     'assert { Fset.mem v_ $p3 -> forall q. wanted $p5 c0_ x0_ q -> hits $p3 q -> not hits x1_ q -> wanted $p5 c0_ x1_ q /\\ Fset.mem v_ q };',
                     'assert { forall i j. %s <= i < length s1_ -> length s1_ <= j < length $p4 -> $p4[i] <> $p4[j] };' % NEW,
                     ], after=after)


def enum(name, koch):
    entry = ['let ghost c0_ = pure { $p1 } in', 'let ghost i0_ = pure { $p2 } in', 'let ghost x0_ = pure { $p3 } in', 'let ghost s0_ = pure { $p4 } in']
    loops = [EMPTY_LOOP]
    if koch:
        loops.append(Loop(['[pivot is a candidate] Fset.mem $pivot $p2']))
    t = traverse(koch)
    if not koch:
        t.before = ['let ghost w_ = (any int ensures { Fset.mem result i0_ \\/ Fset.mem result x0_ }) in']
    loops.append(t)
    return Fn(name, name, requires=['gwf $p5', 'cand $p5 $p1 $p2 $p3'], ensures=ENSURES, loops=loops, entry=entry, variant='Fset.cardinal $p2')


R = ['0 <= $column < dim $this']
FN = [
    Fn('bmat_new', BM + '::SparseBinaryMatrix', params=['unsigned int'], ensures=['[no entries] dim $result = $columns /\\ forall u v. not adj $result u v', '[no labels] length $result.bmat_indexMap = 0']),
    Fn('bset', BM + '::set', requires=R, ensures=['[entry added] forall u v. adj $this u v <-> adj (old $this) u v \\/ (u = $row /\\ v = $column)',
                                                  '[size and labels unchanged] dim $this = dim (old $this) /\\ $this.bmat_indexMap = (old $this).bmat_indexMap']),
    Fn('bget', BM + '::get', params=['unsigned int', 'unsigned int'], requires=R, ensures=['[entry] $result <-> adj $this $row $column']),
    Fn('bcolumn', BM + '::get', params=['unsigned int', 'insert_iterator<%s>' % US], requires=R, ensures=['[adds the entries of the column] forall u. Fset.mem u $p2 <-> Fset.mem u (old $p2) \\/ adj $this u $column']),
    Fn('bindices', BM + '::setIndices', requires=['0 <= $begin <= $end <= length $s', '$end - $begin = dim $this'],
       ensures=['[labels] $this.bmat_indexMap = $s[$begin .. $end]', '[entries unchanged] $this.bmat_columns = (old $this).bmat_columns']),
    Fn('bindex', BM + '::getIndex', requires=R + ['forall i. 0 <= i < length $this.bmat_indexMap -> 0 <= $this.bmat_indexMap[i] < 4294967296', 'length $this.bmat_indexMap = 0 \\/ length $this.bmat_indexMap = dim $this'], ensures=['[label] $result = lab $this $column']),
    Fn('bentries', BM + '::numEntries', requires=R, ensures=['[size of the column] $result = length $this.bmat_columns[$column].elts']),
    Fn('bdim', BM + '::numColumns', ensures=['[size] $result = dim $this']),
    Fn('inter', 'set_intersection', variant='(if Fset.cardinal $p2 < Fset.cardinal $p1 then 1 else 0)',
       ensures=['[adds the common elements] forall x. Fset.mem x $p3 <-> Fset.mem x (old $p3) \\/ (Fset.mem x $p1 /\\ Fset.mem x $p2)'],
       loops=[Loop(['[so far] forall x. Fset.mem x $p3 <-> Fset.mem x (old $p3) \\/ (among $E0 $K0 x /\\ Fset.mem x $p2)'])]),
    enum('enumerateKoch', True), enum('enumerateBronKerbosch', False),
]

CPRE = r"""
  predicate verts (s:seq simplex) (e:seq int) = ssorted e /\ forall x. smem x e <-> has_vertex s x
  predicate isedge (s:seq simplex) (u w:int) = exists k. 0 <= k < length s /\ length (vs s[k]) = 2 /\ (vs s[k])[0] = u /\ (vs s[k])[1] = w
  predicate edge_in (s:seq simplex) (o:seq int) (a b u w:int) = exists k. a <= k < b /\ length (vs s[o[k]]) = 2 /\ (vs s[o[k]])[0] = u /\ (vs s[o[k]])[1] = w
  lemma edge_in_step : forall s o a b c u w [edge_in s o a c u w, edge_in s o a b u w]. a <= b -> c = b+1 ->
    (edge_in s o a c u w <-> edge_in s o a b u w \/ (length (vs s[o[b]]) = 2 /\ (vs s[o[b]])[0] = u /\ (vs s[o[b]])[1] = w))
  let lemma edge_in_all (s:seq simplex) (o:seq int) (a b u w:int)
    requires { dim_order s o /\ 0 <= a <= b <= length s }
    requires { forall j. 0 <= j < length s -> length (vs s[o[j]]) = 2 -> a <= j < b }
    ensures { edge_in s o a b u w <-> isedge s u w }
  = let lemma place (k:int)
      requires { 0 <= k < length s /\ length (vs s[k]) = 2 }
      ensures { exists j. a <= j < b /\ o[j] = k }
    = assert { inv_at o k };
      assert { forall i. 0 <= i < length o -> o[i] = k -> a <= i < b } in
    ()
  predicate nb (s:seq simplex) (u w:int) = isedge s u w \/ isedge s w u
  predicate nb_in (s:seq simplex) (o:seq int) (a b u w:int) = edge_in s o a b u w \/ edge_in s o a b w u
  predicate covered (s:seq simplex) = forall k i. 0 <= k < length s -> 0 <= i < length (vs s[k]) -> has_vertex s (vs s[k])[i]
  predicate graph (s:seq simplex) (m:bmat) =
    verts s m.bmat_indexMap /\ dim m = length m.bmat_indexMap /\
    forall u v. adj m u v <-> 0 <= u < dim m /\ 0 <= v < dim m /\ nb s m.bmat_indexMap[u] m.bmat_indexMap[v]
  let lemma graph_wf (s:seq simplex) (m:bmat)
    requires { cwf s /\ graph s m /\ dim m < 4294967296 }
    ensures { gwf m }
  = assert { forall u. not nb s u u };
    assert { forall u v. adj m u v -> adj m v u /\ u <> v /\ 0 <= u < dim m };
    assert { distinct m.bmat_indexMap };
    assert { forall i. 0 <= i < dim m -> has_vertex s m.bmat_indexMap[i] by smem m.bmat_indexMap[i] m.bmat_indexMap };
    assert { forall v. has_vertex s v -> 0 <= v < 4294967296 }
  (* number of elements *)
  let rec ghost count (e:seq int) (f:fset int)
    requires { distinct e /\ forall x. Fset.mem x f <-> smem x e }
    ensures { Fset.cardinal f = length e }
    variant { length e }
  = if length e = 0 then assert { Fset.is_empty f }
    else begin
      let d = pure { e[0 .. length e - 1] } in
      let x = pure { e[length e - 1] } in
      assert { length d = length e - 1 /\ forall k. 0 <= k < length d -> d[k] = e[k] };
      assert { forall y. smem y e <-> smem y d \/ y = x };
      assert { not smem x d };
      count d (Fset.remove x f);
      assert { smem x e }
    end
  let ghost same_verts (s:seq simplex) (a b:seq int)
    requires { verts s a /\ verts s b }
    ensures { a = b }
  = assert { forall x. smem x a <-> smem x b };
    sorted_ext a b
  (* maximal cliques of a complex, by vertex *)
  predicate kclique (s:seq simplex) (o:oset) =
    (forall x. omem x o -> has_vertex s x) /\ forall x y. omem x o -> omem y o -> x <> y -> nb s x y
  predicate kall (s:seq simplex) (o:oset) (w:int) = forall x. omem x o -> nb s x w
  predicate kmaximal (s:seq simplex) (o:oset) = kclique s o /\ forall w. has_vertex s w -> not omem w o -> not kall s o w
  let rec ghost function pre (e:seq int) (o:oset) (n:int) : fset int
    requires { 0 <= n <= length e }
    ensures { forall i. Fset.mem i result <-> 0 <= i < n /\ omem e[i] o }
    variant { n }
  = if n = 0 then Fset.empty else let r = pre e o (n-1) in if pure { omem e[n-1] o } then Fset.add (n-1) r else r
  let lemma max_sound (s:seq simplex) (m:bmat) (q:fset int) (o:oset)
    requires { cwf s /\ graph s m /\ gwf m /\ maximal m q /\ rep m q o }
    ensures { kmaximal s o }
  = assert { forall u. Fset.mem u q -> lab m u = m.bmat_indexMap[u] };
    assert { forall u. Fset.mem u q -> has_vertex s m.bmat_indexMap[u] by smem m.bmat_indexMap[u] m.bmat_indexMap };
    assert { kclique s o };
    let lemma no (w:int)
      requires { has_vertex s w /\ not omem w o }
      ensures { not kall s o w }
    = assert { smem w m.bmat_indexMap };
      assert { forall i. 0 <= i < dim m -> m.bmat_indexMap[i] = w -> not Fset.mem i q by image m q w };
      assert { forall i. 0 <= i < dim m -> m.bmat_indexMap[i] = w -> not alladj m q i };
      assert { forall i u. 0 <= i < dim m -> m.bmat_indexMap[i] = w -> Fset.mem u q -> kall s o w -> adj m u i by image m q (lab m u) } in
    ()
  let lemma max_complete (s:seq simplex) (m:bmat) (o:oset) (q:fset int)
    requires { cwf s /\ graph s m /\ gwf m /\ kmaximal s o /\ forall i. Fset.mem i q <-> 0 <= i < dim m /\ omem m.bmat_indexMap[i] o }
    ensures { maximal m q /\ rep m q o }
  = assert { forall u. 0 <= u < dim m -> lab m u = m.bmat_indexMap[u] };
    assert { forall x. omem x o -> exists i. 0 <= i < dim m /\ m.bmat_indexMap[i] = x by has_vertex s x so smem x m.bmat_indexMap };
    assert { forall y. omem y o -> image m q y };
    assert { rep m q o };
    assert { isclique m q };
    let lemma no (w:int)
      requires { 0 <= w < dim m /\ not Fset.mem w q }
      ensures { not alladj m q w }
    = assert { has_vertex s m.bmat_indexMap[w] by smem m.bmat_indexMap[w] m.bmat_indexMap };
      assert { not kall s o m.bmat_indexMap[w] };
      assert { alladj m q w -> forall x. omem x o -> nb s x m.bmat_indexMap[w] } in
    ()
  let lemma rep_same (m:bmat) (q:fset int) (a b:oset)
    requires { rep m q a /\ rep m q b }
    ensures { a = b }
  = assert { forall x. omem x a <-> omem x b };
    sorted_ext a.elts b.elts
  lemma all_sound : forall s m c x o [graph s m, found m c x o]. cwf s -> graph s m -> gwf m -> found m c x o -> kmaximal s o
  let lemma all_complete (s:seq simplex) (m:bmat) (o:oset)
    requires { cwf s /\ graph s m /\ gwf m /\ kmaximal s o }
    ensures { exists q. wanted m Fset.empty Fset.empty q /\ rep m q o }
  = let q = pre m.bmat_indexMap o (length m.bmat_indexMap) in
    max_complete s m o q;
    assert { wanted m Fset.empty Fset.empty q }
  lemma all_listed : forall s m o l a b [graph s m, kmaximal s o, differ l a b]. cwf s -> graph s m -> gwf m -> kmaximal s o ->
    (forall q. wanted m Fset.empty Fset.empty q -> listed m l a b q) -> exists j. a <= j < b /\ l[j] = o
"""
SX1 = '$p1.complex_simplices'
RV = ['cwf ' + SX1]
FEW = 'forall e. verts %s e -> length e < 4294967296' % SX1


def vertices(why, t, mem, var):
    return Fn(why, K + '::vertices', params=['insert_iterator<%s>' % t], requires=['cwf ' + SX],
              ensures=['[adds all vertices] forall v. %s v $p1 <-> %s v (old $p1) \\/ has_vertex %s v' % (mem, mem, SX)],
              loops=[Loop(['[vertices so far] forall v. smem v $vertices.elts <-> zerov %s $ord $d_it v' % SX])])


VS_O = vertices('kvertices_set', 'set<unsigned int>', 'omem', 'elts')
VS_U = vertices('kvertices_uset', US, 'Fset.mem', '')
INIT = Fn('createInitialVertexSet', 'createInitialVertexSet', requires=RV + [FEW],
          ensures=['[numbers of the vertices] forall e i. verts %s e -> (Fset.mem i $result <-> 0 <= i < length e)' % SX1],
          loops=[Loop(['[numbers so far] forall x. Fset.mem x $I <-> 0 <= x < $i', '[bound] $i <= Fset.cardinal $vertices'],
                      before=['let ghost n_ = pure { Fset.cardinal $vertices } in',
                              'let ghost all (e:seq int) requires { verts %s e } ensures { length e = n_ } = count e (pure { $vertices }) in' % SX1,
                              'let lemma all2 (e:seq int) requires { verts %s e } ensures { length e = n_ } = all e in' % SX1])])
ADJ = Fn('adjacencyMatrix', 'adjacencyMatrix', requires=RV + [FEW, 'covered ' + SX1],
         ensures=['[adjacency of the vertices] graph %s $result' % SX1],
         loops=[Loop(['[numbers so far] forall x. mdom x $vertex_to_id <-> among $E0 $K0 x', '[numbers] forall q. 0 <= q < $K0 -> mval $vertex_to_id $E0[q] = q', '?[counter] $index = $K0'],
                     after=['e_ <- $E0;', 'assert { verts %s e_ };' % SX1, 'assert { forall q. 0 <= q < length e_ -> among $E0 $K0 e_[q] };', 'assert { forall q. 0 <= q < length e_ -> mdom e_[q] $vertex_to_id /\\ mval $vertex_to_id e_[q] = q };']),
                Loop(['[size] dim $A = length e_ /\\ length $A.bmat_indexMap = 0',
                      '[position] lo_ <= $itPair_first <= $itPair_second', '[edges so far] forall u v. adj $A u v <-> 0 <= u < length e_ /\\ 0 <= v < length e_ /\\ nb_in %s $ord lo_ $itPair_first e_[u] e_[v]' % SX1],
                     before=['let ghost lo_ = $itPair_first in'], begin=['let ghost x_ = pure { vs %s[$ord[$itPair_first]] } in' % SX1, 'assert { length x_ = 2 };', 'assert { has_vertex %s x_[0] /\\ has_vertex %s x_[1] };' % (SX1, SX1), 'assert { smem x_[0] e_ /\\ smem x_[1] e_ };', 'let ghost a_ = pure { mval $vertex_to_id x_[0] } in', 'let ghost b_ = pure { mval $vertex_to_id x_[1] } in', 'assert { 0 <= a_ < length e_ /\\ 0 <= b_ < length e_ /\\ e_[a_] = x_[0] /\\ e_[b_] = x_[1] };'], after=['assert { forall j. 0 <= j < length %s -> length (vs %s[$ord[j]]) = 2 -> lo_ <= j < $itPair_first };' % (SX1, SX1), 'assert { forall u w. edge_in %s $ord lo_ $itPair_first u w <-> isedge %s u w };' % (SX1, SX1)], variant='$itPair_second - $itPair_first')],
         entry=['let ghost ref e_ = (empty : seq int) in'], exit=['assert { $A.bmat_indexMap == e_ };'])
TOPENS = ['[only maximal cliques] forall j. 0 <= j < length $result -> kmaximal %s $result[j]' % SX1,
          '[all maximal cliques] forall o. kmaximal %s o -> exists j. 0 <= j < length $result /\\ $result[j] = o' % SX1,
          '[each once] forall i j. 0 <= i < j < length $result -> $result[i] <> $result[j]']


def top(n):
    return Fn(n, n, requires=RV + [FEW, 'covered ' + SX1], ensures=TOPENS)


TOP = [top('maximalCliquesKoch'), top('maximalCliquesBronKerbosch')]


def mk2():
    fns = [f for f in simplex_fns() if f.why in ('sdimension', 'sat')]
    return Unit('cliques', SRC, trust(fns + [copy.copy(f) for f in FN]) + [VS_O, VS_U, INIT, ADJ] + TOP, classes={S: 'simplex', K: 'complex', BM: 'bmat'}, theories=['set.Fset as Fset'],
                prelude=SIMPLEX_PRE + MIC + IS_FACE + CLOSED + PRE + CPRE, aliases=AL, keys={S: ('vs', '(seq int)')}, adaptors={BI: (S, 'unsigned int')})


UNITS = [Unit('enumerate', SRC, FN, classes={BM: 'bmat'}, theories=['set.Fset as Fset'], prelude=PRE, aliases=AL), mk2()]
