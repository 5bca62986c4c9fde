"""Contracts of simplices and simplicial complexes."""
import re
from cxx2why.run import Unit
from cxx2why.trans import Fn, Loop, walk, qual

S = 'Simplex<double, unsigned int>'
K = 'SimplicialComplex<%s>' % S
BI = 'boundary_iterator'

ALIAS = {'S': S, 'SimplicialComplex<S>': K, 'Simplex<DataType, VertexType>': S, 'Simplex<D, V>': S}


def concrete(n):
    """An instantiation, not the template itself."""
    return not any(x.get('kind') in ('CXXUnresolvedConstructExpr', 'CXXDependentScopeMemberExpr', 'DependentScopeDeclRefExpr') for x in walk(n))


SIMPLEX_PRE = r'''
  let function vs (x:simplex) : seq int = x.simplex_vertices
  predicate ids (s:seq int) = forall k. 0 <= k < length s -> 0 <= s[k] < 4294967296
  predicate vwf (s:seq int) = dsorted s /\ ids s /\ length s <= 4294967296
  predicate swf (x:simplex) = vwf (vs x)
'''

RNG = 'forall x. smem x $s[$begin .. $end] -> 0 <= x < 4294967296'


def simplex_fns():
    R = ['swf $this']
    return [
        Fn('simplex_empty', S + '::Simplex', params=[], ensures=['[no vertices] length (vs $result) = 0', '[data] $result.simplex_data = 0.0']),
        Fn('simplex_vertex', S + '::Simplex', params=['unsigned int', 'double'],
           ensures=['[single vertex] vs $result = singleton $u', '[data] $result.simplex_data = $data']),
        Fn('simplex_range', S + '::Simplex', params=['__normal_iterator<unsigned int*, vector<unsigned int>>'] * 2 + ['double'],
           requires=[RNG], exit=['dsorted_length (pure { vs $result }) 0 4294967296;'],
           ensures=['[vertices of the range] forall x. smem x (vs $result) <-> smem x $s[$begin .. $end]',
                    '[sorted ranges are kept] dsorted $s[$begin .. $end] -> vs $result = $s[$begin .. $end]',
                    '[data] $result.simplex_data = $data', '[well-formed] swf $result']),
        Fn('simplex_data', S + '::Simplex', params=['Simplex<DataType, VertexType>', 'double'], requires=['swf $simplex'],
           ensures=['[vertices] vs $result = vs $simplex', '[data] $result.simplex_data = $data']),
        Fn('contains', S + '::contains', requires=R, ensures=['[membership] $result <-> smem $vertex (vs $this)']),
        Fn('setData', S + '::setData', requires=R, ensures=['[vertices] vs $this = vs (old $this)', '[data] $this.simplex_data = $data']),
        Fn('getData', S + '::data', ensures=['[data] $result = $this.simplex_data']),
        Fn('sempty', S + '::empty', ensures=['[empty] $result <-> length (vs $this) = 0']),
        Fn('sbool', S + '::operator bool', ensures=['[not empty] $result <-> length (vs $this) > 0']),
        Fn('sdimension', S + '::dimension', requires=R, throw_when='length (vs $this) = 0',
           ensures=['[dimension] $result = length (vs $this) - 1']),
        Fn('ssize', S + '::size', ensures=['[size] $result = length (vs $this)']),
        Fn('sat', S + '::operator[]', requires=R + ['0 <= $index < length (vs $this)'], ensures=['[vertex] $result = (vs $this)[$index]']),
        Fn('seq', S + '::operator==', requires=R + ['swf $p1'], ensures=['[same vertex set] $result <-> forall x. smem x (vs $this) <-> smem x (vs $p1)',
                                                                       '[same vertices] $result <-> vs $this = vs $p1']),
        Fn('sne', S + '::operator!=', requires=R + ['swf $p1'], ensures=['[different vertex set] $result <-> vs $this <> vs $p1']),
        Fn('slt', S + '::operator<', requires=R + ['swf $p1'], ensures=['[lexicographic] $result <-> lexlt (vs $this) (vs $p1)']),
        Fn('deref_boundary', BI + '::dereference', requires=['vwf this_s', '0 <= this < length this_s'],
           pred=concrete,
           ensures=['[face] vs $result = face this_s this', '[data] $result.simplex_data = 0.0']),
    ]


MIC = r"""
  (* boost::multi_index container: sequence order, unique by vertices, also
     ordered by dimension *)
  function dat (x:simplex) : real = x.simplex_data
  predicate has (s:seq simplex) (v:seq int) = exists k. 0 <= k < length s /\ vs s[k] = v
  predicate uniq (s:seq simplex) = forall i j. 0 <= i < j < length s -> vs s[i] <> vs s[j]
  predicate allwf (s:seq simplex) = forall i. 0 <= i < length s -> swf s[i] /\ length (vs s[i]) > 0
  predicate cwf (s:seq simplex) = uniq s /\ allwf s
  let lemma has_snoc (s:seq simplex) (x:simplex) (v:seq int)
    ensures { has (snoc s x) v <-> (has s v \/ vs x = v) }
  = assert { forall k. 0 <= k < length s -> (snoc s x)[k] = s[k] };
    assert { (snoc s x)[length s] = x }
  lemma cwf_snoc : forall s x. cwf s -> swf x -> length (vs x) > 0 -> not has s (vs x) -> cwf (snoc s x)

  val mic_find (s:seq simplex) (x:simplex) : int
    ensures { 0 <= result <= length s }
    ensures { result < length s -> vs s[result] = vs x }
    ensures { result = length s -> not has s (vs x) }

  val mic_push_back (s:seq simplex) (x:simplex) : seq simplex
    requires { [@expl:simplex inserted into a complex is not empty] length (vs x) > 0 }
    ensures { result = if has s (vs x) then s else snoc s x }

  predicate from (s t:seq simplex) (x:simplex) = exists j. 0 <= j < length t /\ x = t[j] /\ not has s (vs t[j])
  predicate given (t:seq simplex) (x:simplex) = exists j. 0 <= j < length t /\ x = t[j]
  val mic_append (s t:seq simplex) : seq simplex
    requires { [@expl:simplices inserted into a complex are not empty] forall k. 0 <= k < length t -> length (vs t[k]) > 0 }
    ensures { length s <= length result }
    ensures { forall k. 0 <= k < length s -> result[k] = s[k] }
    ensures { forall v. has result v <-> (has s v \/ has t v) }
    ensures { forall k. length s <= k < length result -> from s t result[k] }
    ensures { uniq s -> uniq result }
    ensures { uniq t -> (forall j. 0 <= j < length t -> not has s (vs t[j])) -> result = s ++ t }

  val mic_of_seq (t:seq simplex) : seq simplex
    requires { [@expl:simplices inserted into a complex are not empty] forall k. 0 <= k < length t -> length (vs t[k]) > 0 }
    ensures { forall v. has result v <-> has t v }
    ensures { forall k. 0 <= k < length result -> given t result[k] }
    ensures { uniq result }
    ensures { uniq t -> result = t }

  val mic_can_replace (s:seq simplex) (i:int) (x:simplex) : bool
    requires { [@expl:valid position] 0 <= i < length s }
    ensures { result <-> forall k. 0 <= k < length s -> k <> i -> vs s[k] <> vs x }

  val mic_replace (s:seq simplex) (i:int) (x:simplex) : seq simplex
    requires { [@expl:valid position] 0 <= i < length s }
    requires { [@expl:simplex inserted into a complex is not empty] length (vs x) > 0 }
    ensures { (forall k. 0 <= k < length s -> k <> i -> vs s[k] <> vs x) -> result = s[i <- x] }
    ensures { (exists k. 0 <= k < length s /\ k <> i /\ vs s[k] = vs x) -> result = s }

  let function del (s:seq simplex) (i:int) : seq simplex
    requires { 0 <= i < length s }
    ensures { length result = length s - 1 }
    ensures { forall k. 0 <= k < i -> result[k] = s[k] }
    ensures { forall k. i <= k < length s - 1 -> result[k] = s[k+1] }
  = Seq.create (length s - 1) (fun k -> if k < i then Seq.get s k else Seq.get s (k+1))
  let lemma del_has (s:seq simplex) (i:int) (v:seq int)
    requires { uniq s /\ 0 <= i < length s }
    ensures { has (del s i) v <-> has s v /\ v <> vs s[i] }
  = assert { forall k. 0 <= k < length s -> k <> i -> s[k] = if k < i then (del s i)[k] else (del s i)[k-1] };
    assert { forall k. 0 <= k < length s - 1 -> (del s i)[k] = if k < i then s[k] else s[k+1] }
  let lemma del_cwf (s:seq simplex) (i:int)
    requires { cwf s /\ 0 <= i < length s }
    ensures { cwf (del s i) }
  = assert { forall k. 0 <= k < length s - 1 -> (del s i)[k] = if k < i then s[k] else s[k+1] }

  val mic_remove (s:seq simplex) (x:simplex) : seq simplex
    ensures { not has s (vs x) -> result = s }
    ensures { uniq s -> forall i. 0 <= i < length s -> vs s[i] = vs x -> result = del s i }

  val mic_erase (s:seq simplex) (i:int) : seq simplex
    requires { [@expl:valid position] 0 <= i < length s }
    ensures { result = del s i }

  (* order seen by the index sorted by dimension *)
  predicate inv_at (o:seq int) (k:int) = exists i. 0 <= i < length o /\ o[i] = k
  predicate dim_order (s:seq simplex) (o:seq int) =
    length o = length s /\ (forall i. 0 <= i < length o -> 0 <= o[i] < length s) /\ distinct o /\
    (forall k. 0 <= k < length s -> inv_at o k) /\
    (forall i j. 0 <= i <= j < length o -> length (vs s[o[i]]) <= length (vs s[o[j]]))
  val mic_dim_order (s:seq simplex) : seq int
    ensures { dim_order s result }
  let function mic_dget (s:seq simplex) (o:seq int) (i:int) : int
    requires { [@expl:dimension iterator is valid] dim_order s o /\ 0 <= i < length o }
  = Seq.get o i
  let function mic_dim (s:seq simplex) (o:seq int) (i:int) : int
    requires { [@expl:dimension iterator is valid] dim_order s o /\ 0 <= i < length o }
    ensures { result = length (vs s[o[i]]) - 1 }
  = Seq.length (Seq.get s (Seq.get o i)).simplex_vertices - 1

  let lemma dim_last (s:seq simplex) (o:seq int) (k:int)
    requires { dim_order s o /\ 0 <= k < length s }
    ensures { length (vs s[k]) <= length (vs s[o[length o - 1]]) }
  = assert { inv_at o k };
    assert { exists i. 0 <= i <= length o - 1 /\ o[i] = k }

  predicate single (v:int) (x:seq int) = length x = 1 /\ x[0] = v
  predicate has_vertex (s:seq simplex) (v:int) = exists k. 0 <= k < length s /\ length (vs s[k]) = 1 /\ (vs s[k])[0] = v
  predicate zerov (s:seq simplex) (o:seq int) (m v:int) = exists j. 0 <= j < m /\ length (vs s[o[j]]) = 1 /\ (vs s[o[j]])[0] = v
  lemma zerov_step : forall s o m n v [zerov s o n v, zerov s o m v]. 0 <= m -> n = m+1 -> (zerov s o n v <-> zerov s o m v \/ (length (vs s[o[m]]) = 1 /\ (vs s[o[m]])[0] = v))
  let lemma zerov_all (s:seq simplex) (o:seq int) (hi v:int)
    requires { dim_order s o /\ 0 <= hi <= length s }
    requires { forall j. hi <= j < length s -> length (vs s[o[j]]) <> 1 }
    ensures { zerov s o hi v <-> has_vertex s v }
  = let lemma place (k:int)
      requires { 0 <= k < length s /\ length (vs s[k]) = 1 }
      ensures { exists j. 0 <= j < hi /\ o[j] = k }
    = assert { inv_at o k };
      assert { forall i. 0 <= i < length o -> o[i] = k -> i < hi } in
    ()
"""
IS_FACE = r"""
  predicate is_face (f v:seq int) = length v > 1 /\ exists i. 0 <= i < length v /\ f = face v i
"""
CLOSED = r"""
  (* faces and validity *)
  predicate valid (s:seq simplex) (v:seq int) = length v > 1 -> forall i. 0 <= i < length v -> has s (face v i)
  predicate closed (s:seq simplex) = forall k. 0 <= k < length s -> valid s (vs s[k])
"""
FACES = IS_FACE + CLOSED + r"""
  predicate prefix (a s:seq simplex) = length a <= length s /\ forall k. 0 <= k < length a -> s[k] = a[k]
  predicate sub (a b:seq int) = forall x. smem x a -> smem x b
  predicate under (a:seq simplex) (v:seq int) = exists k. 0 <= k < length a /\ sub v (vs a[k])
  (* s[k] was added as a face of an earlier simplex and carries its weight *)
  predicate born (s:seq simplex) (k:int) = exists j. 0 <= j < k /\ is_face (vs s[k]) (vs s[j]) /\ dat s[k] = dat s[j]
  predicate adds (a s:seq simplex) (x:simplex) = forall k. length a <= k < length s -> is_face (vs s[k]) (vs x) /\ dat s[k] = dat x
  lemma prefix_has : forall a s v. prefix a s -> has a v -> has s v
  lemma prefix_valid : forall a s v. prefix a s -> valid a v -> valid s v
  lemma prefix_trans : forall a b c. prefix a b -> prefix b c -> prefix a c
  lemma prefix_snoc : forall a s x. prefix a s -> prefix a (snoc s x)
  let lemma face_vwf (v:seq int) (i:int)
    requires { vwf v /\ 0 <= i < length v }
    ensures { vwf (face v i) }
  = assert { forall k. 0 <= k < length v - 1 -> (face v i)[k] = if k < i then v[k] else v[k+1] }
  let lemma face_sub (v:seq int) (i:int)
    requires { 0 <= i < length v }
    ensures { sub (face v i) v }
  = assert { forall k. 0 <= k < length v - 1 -> (face v i)[k] = if k < i then v[k] else v[k+1] }
  lemma sub_trans : forall a b c. sub a b -> sub b c -> sub a c
  lemma under_face : forall a v f. under a v -> is_face f v -> under a f

  (* removal *)
  predicate closedp (p:seq int -> bool) (a:seq simplex) (x:seq int) =
    (forall v. p v -> has a v /\ v <> x) /\ (forall v i. p v -> length v > 1 -> 0 <= i < length v -> p (face v i))
  predicate survives (a:seq simplex) (x:seq int) (s:seq simplex) = forall p v. closedp p a x -> p v -> has s v
  predicate seat (a:seq simplex) (k:int) (x:simplex) = 0 <= k < length a /\ a[k] = x
  predicate in_order (s a:seq simplex) =
    (forall i. 0 <= i < length s -> exists k. seat a k s[i]) /\
    (forall i j k l. 0 <= i < j < length s -> seat a k s[i] -> seat a l s[j] -> k < l)
  lemma survives_step : forall a x s i [survives a x (del s i)]. uniq s -> 0 <= i < length s -> survives a x s -> not valid s (vs s[i]) -> survives a x (del s i)
  let lemma in_order_refl (a:seq simplex)
    requires { uniq a }
    ensures { in_order a a }
  = assert { forall i. 0 <= i < length a -> seat a i a[i] }
  function up (i k:int) : int = if k < i then k else k+1
  lemma born_prefix : forall a s k. prefix a s -> 0 <= k < length a -> born a k -> born s k
  let lemma in_order_del (s a:seq simplex) (i:int)
    requires { in_order s a /\ 0 <= i < length s }
    ensures { in_order (del s i) a }
  = assert { forall k. 0 <= k < length s - 1 -> (del s i)[k] = s[up i k] /\ 0 <= up i k < length s };
    assert { forall k l. k < l -> up i k < up i l }
"""
WEIGHTS = r"""
  (* weights inherited from faces *)
  predicate same_vs (a s:seq simplex) = length a = length s /\ forall k. 0 <= k < length a -> vs s[k] = vs a[k]
  predicate face_upto (s:seq simplex) (m:int) (v:seq int) (j:int) =
    0 <= j < length s /\ length v > 1 /\ exists i. 0 <= i < m /\ vs s[j] = face v i
  predicate w_upto (b:bool) (s:seq simplex) (m:int) (v:seq int) (w:real) =
    (forall j. face_upto s m v j -> if b then dat s[j] <=. w else w <=. dat s[j]) /\
    ((exists j. face_upto s m v j /\ dat s[j] = w) \/
     (w = (if b then f_lowest else f_max) /\ forall j. not face_upto s m v j))
  (* w is the maximum (minimum) weight of the faces of v that are in s *)
  predicate w_of (b:bool) (s:seq simplex) (v:seq int) (w:real) = w_upto b s (length v) v w
  predicate finite (s:seq simplex) = forall k. 0 <= k < length s -> f_lowest <=. dat s[k] <=. f_max
  predicate fixedw (skip:bool) (x:simplex) = length (vs x) = 1 \/ (skip /\ length (vs x) = 2)

  let lemma upto_step (s:seq simplex) (m:int) (v:seq int)
    requires { 0 <= m < length v /\ length v > 1 }
    ensures { forall j. face_upto s (m+1) v j <-> face_upto s m v j \/ (0 <= j < length s /\ vs s[j] = face v m) }
  = assert { forall i. 0 <= i < m+1 <-> (0 <= i < m \/ i = m) }
  let lemma w_step (b:bool) (s:seq simplex) (m:int) (v:seq int) (w:real) (j:int)
    requires { uniq s /\ finite s /\ 0 <= m < length v /\ length v > 1 /\ w_upto b s m v w }
    requires { 0 <= j <= length s /\ (j < length s -> vs s[j] = face v m) /\ (j = length s -> not has s (face v m)) }
    ensures { j = length s -> w_upto b s (m+1) v w }
    ensures { j < length s -> b -> dat s[j] <=. w -> w_upto b s (m+1) v w }
    ensures { j < length s -> b -> w <=. dat s[j] -> w_upto b s (m+1) v (dat s[j]) }
    ensures { j < length s -> not b -> w <=. dat s[j] -> w_upto b s (m+1) v w }
    ensures { j < length s -> not b -> dat s[j] <=. w -> w_upto b s (m+1) v (dat s[j]) }
  = upto_step s m v;
    assert { forall i. 0 <= i < length s -> vs s[i] = face v m -> i = j };
    assert { forall i. face_upto s (m+1) v i <-> face_upto s m v i \/ (j < length s /\ i = j) };
    assert { j < length s -> face_upto s (m+1) v j };
    assert { (forall i. not face_upto s m v i) \/ (exists i. face_upto s m v i /\ dat s[i] = w) }
  (* replacing a simplex that is not smaller than v does not affect the weight of v *)
  let lemma w_frame (b:bool) (s:seq simplex) (i:int) (x:simplex) (v:seq int) (w:real)
    requires { 0 <= i < length s /\ vs x = vs s[i] /\ length v <= length (vs x) /\ w_of b s v w }
    ensures { w_of b (set s i x) v w }
  = let t = set s i x in
    assert { forall j. 0 <= j < length s -> vs t[j] = vs s[j] };
    assert { forall j. face_upto t (length v) v j -> j <> i };
    assert { forall j. face_upto s (length v) v j -> j <> i };
    assert { forall j. face_upto t (length v) v j <-> face_upto s (length v) v j };
    assert { forall j. face_upto t (length v) v j -> t[j] = s[j] };
    assert { (forall j. not face_upto s (length v) v j) \/ (exists j. face_upto s (length v) v j /\ dat s[j] = w) }
  predicate inv_lt (o:seq int) (m k:int) = exists j. 0 <= j < m /\ o[j] = k
  let lemma vertex_place (s:seq simplex) (o:seq int) (m k:int)
    requires { dim_order s o /\ 0 <= m <= length s /\ 0 <= k < length s /\ length (vs s[k]) = 1 }
    requires { forall j. m <= j < length s -> length (vs s[o[j]]) > 1 }
    ensures { inv_lt o m k }
  = assert { inv_at o k };
    assert { forall i. 0 <= i < length o -> o[i] = k -> i < m }
  let lemma order_same (a s:seq simplex) (o:seq int)
    requires { dim_order a o /\ same_vs a s }
    ensures { dim_order s o }
  = assert { forall i. 0 <= i < length o -> 0 <= o[i] < length a };
    assert { forall i. 0 <= i < length o -> vs s[o[i]] = vs a[o[i]] };
    assert { forall i j. 0 <= i <= j < length o -> length (vs s[o[i]]) <= length (vs s[o[j]]) }
"""
SX = '$this.complex_simplices'
OSX = '(old $this).complex_simplices'


def defs(text, *names):
    """The definitions of the named predicates and functions in a prelude."""
    out = []
    for x in re.split(r'\n(?=  (?:let|lemma|predicate|function|val|type|axiom|\(\*))', '\n' + text):
        m = re.match(r'  (?:predicate|function) (\w+)', x)
        if m and m.group(1) in names:
            out.append(x.rstrip())
    assert len(out) == len(names), (names, out)
    return '\n'.join(out) + '\n'


def is_const(n):
    return qual(n).strip().endswith('const')


def complex_fns():
    R = ['cwf ' + SX]
    X = ['swf $simplex']
    return [
        Fn('complex_empty', K + '::SimplicialComplex', params=[], ensures=['[no simplices] length $result.complex_simplices = 0']),
        Fn('clear', K + '::clear', requires=R, ensures=['[no simplices] length %s = 0' % SX, '[well-formed] cwf ' + SX]),
        Fn('push_back', K + '::push_back', requires=R + X + ['length (vs $simplex) > 0'],
           ensures=['[appended unless present] %s = (if has %s (vs $simplex) then %s else snoc %s $simplex)' % (SX, OSX, OSX, OSX), '[well-formed] cwf ' + SX]),
        Fn('kat', K + '::at', requires=R + ['0 <= $index < length ' + SX], ensures=['[simplex] $result = %s[$index]' % SX]),
        Fn('kidx', K + '::operator[]', requires=R + ['0 <= $index < length ' + SX], ensures=['[simplex] $result = %s[$index]' % SX]),
        Fn('kcontains', K + '::contains', requires=R + X, ensures=['[membership] $result <-> has %s (vs $simplex)' % SX]),
        Fn('kfind', K + '::find', pred=is_const, ret_field=['_simplices'], requires=R + X,
           ensures=['[range] 0 <= $result <= length ' + SX, '[found] $result < length %s -> vs %s[$result] = vs $simplex' % (SX, SX),
                    '[absent] $result = length %s -> not has %s (vs $simplex)' % (SX, SX)]),
        Fn('kindex', K + '::index', requires=R + X, throw_when='not has %s (vs $simplex)' % SX,
           ensures=['[position] 0 <= $result < length %s /\\ vs %s[$result] = vs $simplex' % (SX, SX)]),
        Fn('ksize', K + '::size', ensures=['[number of simplices] $result = length ' + SX]),
        Fn('kempty', K + '::empty', ensures=['[empty] $result <-> length %s = 0' % SX]),
        Fn('kdimension', K + '::dimension', requires=R, throw_when='length %s = 0' % SX,
           ensures=['[upper bound] forall i. 0 <= i < length %s -> length (vs %s[i]) - 1 <= $result' % (SX, SX),
                    '[attained] exists i. 0 <= i < length %s /\\ length (vs %s[i]) - 1 = $result' % (SX, SX)]),
        Fn('kvertices', K + '::vertices', requires=R,
           ensures=['[appends all vertices in ascending order] exists s. $p1 = old $p1 ++ s /\\ ssorted s /\\ forall v. smem v s <-> has_vertex %s v' % SX],
           loops=[Loop(['[vertices so far] forall v. smem v $vertices.elts <-> zerov %s $ord $d_it v' % SX])]),
        Fn('remove_without_validation', K + '::remove_without_validation', requires=R + X,
           ensures=['[others kept] forall v. has %s v <-> has %s v /\\ v <> vs $simplex' % (SX, OSX), '[well-formed] cwf ' + SX]),
        Fn('checkValidity', K + '::checkValidity', requires=R + X + ['length (vs $simplex) > 0'],
           ensures=['[all faces present] $result <-> valid %s (vs $simplex)' % SX, '[complex unchanged] %s = %s' % (SX, OSX)],
           loops=[Loop(['[faces so far] forall i. 0 <= i < $itFace -> length (vs $simplex) > 1 -> has %s (face (vs $simplex) i)' % SX])]),
        Fn('checkAndRestoreValidity', K + '::checkAndRestoreValidity', requires=R + X + ['length (vs $simplex) > 0'],
           ensures=['[nothing lost] prefix %s %s' % (OSX, SX), '[only faces added] adds %s %s $simplex' % (OSX, SX),
                    '[all faces present] valid %s (vs $simplex)' % SX, '[well-formed] cwf ' + SX],
           loops=[Loop(['[nothing lost] prefix %s %s' % (OSX, SX), '[only faces added] adds %s %s $simplex' % (OSX, SX),
                        '[faces so far] forall i. 0 <= i < $itFace -> length (vs $simplex) > 1 -> has %s (face (vs $simplex) i)' % SX,
                        '[well-formed] cwf ' + SX])]),
        Fn('createMissingFaces', K + '::createMissingFaces', requires=R,
           ensures=['[nothing lost] prefix %s %s' % (OSX, SX), '[all faces present] closed ' + SX,
                    '[new simplices are faces with the weight of a coface] forall k. length %s <= k < length %s -> born %s k' % (OSX, SX, SX),
                    '[only faces of given simplices] forall k. 0 <= k < length %s -> under %s (vs %s[k])' % (SX, OSX, SX),
                    '[well-formed] cwf ' + SX],
           loops=[Loop(['[nothing lost] prefix %s %s' % (OSX, SX), '[all faces present so far] forall k. 0 <= k < $itSimplex -> valid %s (vs %s[k])' % (SX, SX),
                        '[new simplices are faces] forall k. length %s <= k < length %s -> born %s k' % (OSX, SX, SX),
                        '[only faces of given simplices] forall k. 0 <= k < length %s -> under %s (vs %s[k])' % (SX, OSX, SX),
                        '[well-formed] cwf ' + SX], variant='none',
                       begin=['let ghost s0_ = pure { %s } in' % SX],
                       end=['assert { forall k. length s0_ <= k < length %s -> is_face (vs %s[k]) (vs %s[$itSimplex]) /\\ dat %s[k] = dat %s[$itSimplex] };' % (SX, SX, SX, SX, SX)])]),
        Fn('remove', K + '::remove', requires=R + X + ['length (vs $simplex) > 0'],
           ensures=['[what is left is valid] closed ' + SX, '[removed] not has %s (vs $simplex)' % SX,
                    '[only unsupported simplices removed] survives %s (vs $simplex) %s' % (OSX, SX),
                    '[order kept] in_order %s %s' % (SX, OSX), '[well-formed] cwf ' + SX],
           loops=[Loop(['[removed] not has %s (vs $simplex)' % SX, '[supported simplices kept] survives %s (vs $simplex) %s' % (OSX, SX),
                        '[order kept] in_order %s %s' % (SX, OSX), '[well-formed] cwf ' + SX,
                        '[closed unless another pass follows] $first \\/ $foundInvalidSimplex \\/ closed ' + SX],
                       begin=['let ghost n0_ = pure { length %s } in' % SX],
                       variant='2 * length %s + (if $first || $foundInvalidSimplex then 1 else 0)' % SX),
                  Loop(['[removed] not has %s (vs $simplex)' % SX, '[supported simplices kept] survives %s (vs $simplex) %s' % (OSX, SX),
                        '[order kept] in_order %s %s' % (SX, OSX), '[well-formed] cwf ' + SX,
                        '[position] 0 <= $itSimplex <= length ' + SX,
                        '[valid so far] $foundInvalidSimplex \\/ forall k. 0 <= k < $itSimplex -> valid %s (vs %s[k])' % (SX, SX),
                        '[another pass only after a removal] length %s <= n0_ /\\ ($foundInvalidSimplex -> length %s < n0_)' % (SX, SX)],
                       variant='length %s - $itSimplex' % SX)]),
        Fn('keq', K + '::operator==', requires=R + ['cwf $p1.complex_simplices'],
           ensures=['[same simplices in the same order] $result <-> (length %s = length $p1.complex_simplices /\\ forall i. 0 <= i < length %s -> vs %s[i] = vs $p1.complex_simplices[i])' % (SX, SX, SX)],
           loops=[Loop(['[equal so far] $it1 = $it2 /\\ 0 <= $it1 <= length %s /\\ forall i. 0 <= i < $it1 -> vs %s[i] = vs $p1.complex_simplices[i]' % (SX, SX)])]),
        Fn('kne', K + '::operator!=', requires=R + ['cwf $p1.complex_simplices'],
           ensures=['[differs] $result <-> not (length %s = length $p1.complex_simplices /\\ forall i. 0 <= i < length %s -> vs %s[i] = vs $p1.complex_simplices[i])' % (SX, SX, SX)]),
    ]


RANGE_SRC = """template aleph::topology::SimplicialComplex<S>::SimplicialComplex(std::vector<S>::iterator, std::vector<S>::iterator);
template void aleph::topology::SimplicialComplex<S>::insert(std::vector<S>::iterator, std::vector<S>::iterator);
"""
GIVEN = 'forall q. $begin <= q < $end -> swf $s[q] /\\ length (vs $s[q]) > 0'


def range_fns():
    it = ['__normal_iterator<Simplex<double, unsigned int>*, vector<Simplex<double, unsigned int>>>'] * 2
    return [
        Fn('krange', K + '::SimplicialComplex', params=it, requires=[GIVEN],
           exit=['let lemma at_ (q j:int) requires { 0 <= j < length $s[$begin .. $end] /\\ $result.complex_simplices[q] = $s[$begin .. $end][j] } ensures { exists j. $begin <= j < $end /\\ $result.complex_simplices[q] = $s[j] } = assert { $s[$begin .. $end][j] = $s[$begin + j] } in',
                 'assert { forall q. 0 <= q < length $result.complex_simplices -> given $s[$begin .. $end] $result.complex_simplices[q] };'],
           ensures=['[simplices of the range] forall v. has $result.complex_simplices v <-> has $s[$begin .. $end] v',
                    '[only given simplices] forall q. 0 <= q < length $result.complex_simplices -> exists j. $begin <= j < $end /\\ $result.complex_simplices[q] = $s[j]',
                    '[distinct simplices keep their order] uniq $s[$begin .. $end] -> $result.complex_simplices = $s[$begin .. $end]',
                    '[well-formed] cwf $result.complex_simplices']),
        Fn('kinsert', K + '::insert', params=it, requires=['cwf ' + SX, GIVEN],
           ensures=['[nothing lost] length %s <= length %s /\\ forall q. 0 <= q < length %s -> %s[q] = %s[q]' % (OSX, SX, OSX, SX, OSX),
                    '[simplices of the range are added] forall v. has %s v <-> has %s v \\/ has $s[$begin .. $end] v' % (SX, OSX),
                    '[only given simplices] forall q. length %s <= q < length %s -> from %s $s[$begin .. $end] %s[q]' % (OSX, SX, OSX, SX),
                    '[distinct new simplices are appended in their order] uniq $s[$begin .. $end] -> (forall j. 0 <= j < length $s[$begin .. $end] -> not has %s (vs $s[$begin .. $end][j])) -> %s = %s ++ $s[$begin .. $end]' % (OSX, SX, OSX),
                    '[well-formed] cwf ' + SX]),
        Fn('kreplace', K + '::replace', requires=['cwf ' + SX, '0 <= $position < length ' + SX, 'swf $simplex', 'length (vs $simplex) > 0'],
           ensures=['[replaced unless another simplex has these vertices] $result <-> forall q. 0 <= q < length %s -> q <> $position -> vs %s[q] <> vs $simplex' % (OSX, OSX),
                    '[only that position] $result -> %s = %s[$position <- $simplex]' % (SX, OSX), '[unchanged otherwise] not $result -> %s = %s' % (SX, OSX), '[well-formed] cwf ' + SX]),
    ]


COMPLEX_SRC = """#include <vector>
#include <set>
#include <iterator>
#include <functional>
#include <aleph/topology/Simplex.hh>
#include <aleph/topology/SimplicialComplex.hh>
using S = aleph::topology::Simplex<double,unsigned>;
template class aleph::topology::Simplex<double,unsigned>;
template class aleph::topology::SimplicialComplex<S>;
template aleph::topology::Simplex<double,unsigned>::Simplex(std::vector<unsigned>::iterator, std::vector<unsigned>::iterator, double);
template void aleph::topology::SimplicialComplex<S>::vertices(std::back_insert_iterator<std::vector<unsigned>>) const;
"""


def weight_fns():
    R = ['cwf ' + SX]
    return [
        Fn('recalculate', K + '::recalculateWeights', params=['bool', 'bool'], requires=R + ['finite ' + SX],
           ensures=['[same simplices in the same order] same_vs %s %s' % (OSX, SX),
                    '[vertices and skipped edges untouched] forall k. 0 <= k < length %s -> fixedw $skipOneDimensionalSimplices %s[k] -> %s[k] = %s[k]' % (SX, SX, SX, OSX),
                    '[extremal weight of the faces] forall k. 0 <= k < length %s -> not fixedw $skipOneDimensionalSimplices %s[k] -> w_of $useMaximum %s (vs %s[k]) (dat %s[k])' % (SX, SX, SX, SX, SX),
                    '[finite] finite ' + SX, '[well-formed] cwf ' + SX],
           loops=[Loop(['[same simplices] same_vs %s %s' % (OSX, SX), '[order] dim_order %s $ord' % SX,
                        '[vertices and skipped edges untouched] forall k. 0 <= k < length %s -> fixedw $skipOneDimensionalSimplices %s[k] -> %s[k] = %s[k]' % (SX, SX, SX, OSX),
                        '[weights so far] forall j. 0 <= j < $itSimplex -> not fixedw $skipOneDimensionalSimplices %s[$ord[j]] -> w_of $useMaximum %s (vs %s[$ord[j]]) (dat %s[$ord[j]])' % (SX, SX, SX, SX),
                        '[finite] finite ' + SX, '[well-formed] cwf ' + SX],
                       begin=['let ghost s0_ = pure { %s } in' % SX],
                       end=['assert { forall k. 0 <= k < length s0_ -> vs %s[k] = vs s0_[k] };' % SX],
                       after=['assert { forall k. 0 <= k < length %s -> inv_at $ord k };' % SX]),
                  Loop(['[range] $itBoundary <= length (vs %s[$ord[$itSimplex]])' % SX, '[weight of the faces so far] w_upto $useMaximum %s $itBoundary (vs %s[$ord[$itSimplex]]) $weight' % (SX, SX),
                        '[finite] f_lowest <=. $weight <=. f_max'])]),
    ]


def vertex_weight_fns():
    R = ['cwf ' + SX]
    VW = 'length (vs %s[k]) = 1 -> dat %s[k] = $s[$begin + (vs %s[k])[0]]' % (SX, SX, SX)
    VO = 'length (vs %s[$ord[j]]) = 1 /\\ dat %s[$ord[j]] = $s[$begin + (vs %s[$ord[j]])[0]]' % (SX, SX, SX)
    return [
        Fn('recalculate_vertices', K + '::recalculateWeights', params=['__normal_iterator<double*, vector<double>>'] * 2,
           requires=R + ['forall k. 0 <= k < length %s -> length (vs %s[k]) = 1 -> (vs %s[k])[0] < $end - $begin' % (SX, SX, SX),
                         'forall k. $begin <= k < $end -> f_lowest <=. $s[k] <=. f_max'],
           ensures=['[same simplices in the same order] same_vs %s %s' % (OSX, SX),
                    '[vertices carry the given weights] forall k. 0 <= k < length %s -> %s' % (SX, VW),
                    '[maximum weight of the faces] forall k. 0 <= k < length %s -> length (vs %s[k]) > 1 -> w_of true %s (vs %s[k]) (dat %s[k])' % (SX, SX, SX, SX, SX),
                    '[well-formed] cwf ' + SX],
           loops=[Loop(['[same simplices] same_vs %s %s' % (OSX, SX), '[well-formed] cwf ' + SX,
                        '[finite so far] forall k. 0 <= k < $itSimplex -> f_lowest <=. dat %s[k] <=. f_max' % SX],
                       before=['assert { length $weights = $end - $begin /\\ forall k. 0 <= k < length $weights -> $weights[k] = $s[$begin + k] };'],
                       begin=['let ghost s0_ = pure { %s } in' % SX],
                       end=['assert { forall k. 0 <= k < length s0_ -> vs %s[k] = vs s0_[k] };' % SX]),
                  Loop(['[same simplices] same_vs %s %s' % (OSX, SX), '[order] dim_order %s $ord' % SX,
                        '[weights so far] forall j. 0 <= j < $itSimplex -> ' + VO,
                        '[finite] finite ' + SX, '[well-formed] cwf ' + SX],
                       begin=['let ghost s0_ = pure { %s } in' % SX],
                       end=['assert { forall k. 0 <= k < length s0_ -> vs %s[k] = vs s0_[k] };' % SX,
                            'assert { forall j. 0 <= j < $itSimplex -> %s[$ord[j]] = s0_[$ord[j]] };' % SX,
                            'assert { length (vs %s[$ord[$itSimplex]]) = 1 };' % SX,
                            'assert { vs %s[$ord[$itSimplex]] = vs s0_[$ord[$itSimplex]] };' % SX,
                            'assert { let v_ = (vs %s[$ord[$itSimplex]])[0] in 0 <= v_ < length $weights /\\ dat %s[$ord[$itSimplex]] = $weights[v_] };' % (SX, SX),
                            'assert { dat %s[$ord[$itSimplex]] = $s[$begin + (vs %s[$ord[$itSimplex]])[0]] };' % (SX, SX)],
                       after=['assert { [@expl:only vertices come first] forall j. $itSimplex <= j < length %s -> length (vs %s[$ord[j]]) > 1 };' % (SX, SX),
                              'assert { forall k. 0 <= k < length %s -> length (vs %s[k]) = 1 -> inv_lt $ord $itSimplex k };' % (SX, SX),
                              'assert { [@expl:all vertices done] forall k. 0 <= k < length %s -> %s };' % (SX, VW)])]),
    ]


WEIGHT_SRC = COMPLEX_SRC + """template void aleph::topology::SimplicialComplex<S>::recalculateWeights(std::vector<double>::iterator, std::vector<double>::iterator);
"""
