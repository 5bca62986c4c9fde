(* Reducing a matrix or its anti-transpose gives the same pairs.  Proved on every
   run; no axioms. *)

module Duality
  use int.Int
  use bool.Bool
  use z2.Z2
  use z2.Facts
  use z2.Pivots

  (* inner product of the first n entries *)
  let rec ghost function ip (a b:vec) (n:int) : bool
    variant { n }
  = if n <= 0 then false else xorb (ip a b (n-1)) (andb (a (n-1)) (b (n-1)))

  let rec ghost ip_ext (a b c e:vec) (n:int)
    requires { forall k. 0 <= k < n -> a k = c k /\ b k = e k }
    ensures { ip a b n = ip c e n }
    variant { n }
  = if n > 0 then ip_ext a b c e (n-1)

  let rec ghost ip_none (a b:vec) (n:int)
    requires { forall k. 0 <= k < n -> not (a k /\ b k) }
    ensures { ip a b n = false }
    variant { n }
  = if n > 0 then ip_none a b (n-1)

  let rec ghost ip_single (a b:vec) (n k:int)
    requires { 0 <= k < n /\ a k /\ b k /\ forall l. 0 <= l < n -> l <> k -> not (a l /\ b l) }
    ensures { ip a b n = true }
    variant { n }
  = if n - 1 = k then ip_none a b (n-1) else ip_single a b (n-1) k

  let rec ghost ip_add (a b c:vec) (n:int)
    ensures { ip a (vadd b c) n = xorb (ip a b n) (ip a c n) }
    variant { n }
  = if n > 0 then ip_add a b c (n-1)

  function scale (x:bool) (b:vec) : vec = fun k -> andb x (b k)
  let rec ghost ip_scale (a b:vec) (x:bool) (n:int)
    ensures { ip a (scale x b) n = andb x (ip a b n) }
    variant { n }
  = if n > 0 then ip_scale a b x (n-1)

  function image (d:mat) (v:vec) (n:int) : vec = fun i -> dot d v n i
  function against (d:mat) (u:vec) (m:int) : vec = fun k -> ip u (d k) m

  (* both ways of evaluating the bilinear form of d *)
  let rec ghost exchange (d:mat) (u v:vec) (n m:int)
    ensures { ip u (image d v n) m = ip v (against d u m) n }
    variant { n }
  = if n <= 0 then ip_none u (pure { image d v n }) m
    else begin
      exchange d u v (n-1) m;
      let b = pure { image d v (n-1) } in
      let c = pure { scale (v (n-1)) (d (n-1)) } in
      ip_add u b c m;
      ip_scale u (pure { d (n-1) }) (v (n-1)) m;
      ip_ext u (pure { image d v n }) u (pure { vadd b c }) m
    end

  function shift (a:vec) : vec = fun k -> a (k+1)
  let rec ghost ip_front (a b:vec) (n:int)
    requires { 0 < n }
    ensures { ip a b n = xorb (andb (a 0) (b 0)) (ip (shift a) (shift b) (n-1)) }
    variant { n }
  = if n > 1 then begin
      ip_front a b (n-1);
      assert { ip (shift a) (shift b) (n-1) = xorb (ip (shift a) (shift b) (n-2)) (andb (a (n-1)) (b (n-1))) }
    end

  function rev (n:int) (a:vec) : vec = fun k -> a (n-1-k)
  let rec ghost ip_rev (a b:vec) (n:int)
    ensures { ip (rev n a) (rev n b) n = ip a b n }
    variant { n }
  = if n > 0 then begin
      ip_rev a b (n-1);
      ip_front (pure { rev n a }) (pure { rev n b }) n;
      ip_ext (pure { shift (rev n a) }) (pure { shift (rev n b) }) (pure { rev (n-1) a }) (pure { rev (n-1) b }) (n-1)
    end

  let rec ghost dot_ip (d:mat) (v b:vec) (n i:int)
    requires { forall k. 0 <= k < n -> b k = d k i }
    ensures { dot d v n i = ip v b n }
    variant { n }
  = if n > 0 then dot_ip d v b (n-1) i

  (* e is the anti-transpose of d *)
  predicate anti (d e:mat) (n:int) = forall j i. 0 <= j < n -> 0 <= i < n -> (e j i <-> d (n-1-i) (n-1-j))

  let ghost dual_entry (d e:mat) (w:vec) (n k i:int)
    requires { anti d e n /\ 0 <= k < n /\ 0 <= i < n }
    ensures { dot e w n (n-1-k) = ip (rev n w) (d k) n }
  = let b = pure { rev n (d k) } in
    dot_ip e w b n (n-1-k);
    ip_rev w b n;
    ip_ext (pure { rev n w }) (pure { rev n b }) (pure { rev n w }) (pure { d k }) n

  (* the entry (j,i) of the matrix reduced from both sides *)
  let ghost cross (d e r s:mat) (n j i:int) : bool
    requires { anti d e n /\ 0 <= j < n /\ 0 <= i < n }
    requires { reach d n j (r j) /\ reach e n (n-1-i) (s (n-1-i)) }
    ensures { (forall m. i <= m < n -> not r j m) -> result = false }
    ensures { r j i -> (forall m. i < m < n -> not r j m) -> result = true }
    ensures { (forall k. 0 <= k <= j -> not s (n-1-i) (n-1-k)) -> result = false }
    ensures { s (n-1-i) (n-1-j) -> (forall k. 0 <= k < j -> not s (n-1-i) (n-1-k)) -> result = true }
  = let v = reach_wit d n j (pure { r j }) in
    let w = reach_wit e n (n-1-i) (pure { s (n-1-i) }) in
    let u = pure { rev n w } in
    let x = pure { ip u (image d v n) n } in
    let t = pure { against d u n } in
    exchange d u v n n;
    assert { x = ip v t n };
    assert { u i /\ forall m. 0 <= m < i -> not u m };
    assert { forall m. image d v n m = r j m };
    let lemma ent (k:int) requires { 0 <= k < n } ensures { t k <-> s (n-1-i) (n-1-k) } = dual_entry d e w n k i in
    assert { v j /\ forall k. 0 <= k < n -> j < k -> not v k };
    assert { forall k. 0 <= k < n -> (t k <-> s (n-1-i) (n-1-k)) };
    (if pure { forall m. i <= m < n -> not r j m } then ip_none u (pure { image d v n }) n);
    (if pure { r j i /\ forall m. i < m < n -> not r j m } then ip_single u (pure { image d v n }) n i);
    (if pure { forall k. 0 <= k <= j -> not s (n-1-i) (n-1-k) } then begin assert { forall k. 0 <= k <= j -> not t k }; assert { forall k. 0 <= k < n -> not (v k /\ t k) }; ip_none v t n end);
    (if pure { s (n-1-i) (n-1-j) /\ forall k. 0 <= k < j -> not s (n-1-i) (n-1-k) } then begin assert { t j }; assert { forall k. 0 <= k < j -> not t k }; ip_single v t n j end);
    x

  let rec ghost dual_primal (d e r s:mat) (n j i:int)
    requires { anti d e n /\ 0 <= j < n /\ 0 <= i < n }
    requires { bounded r n /\ bounded s n /\ reduction d r n /\ reduction e s n }
    requires { pivot s (n-1-i) (n-1-j) }
    ensures { pivot r j i }
    variant { n - i }
  = assert { 0 <= n-1-i < n };
    assert { reach d n j (r j) };
    assert { reach e n (n-1-i) (s (n-1-i)) };
    let x = cross d e r s n j i in
    assert { forall k. 0 <= k < j -> not s (n-1-i) (n-1-k) };
    assert { x = true };
    let i1 = top (pure { r j }) n in
    pivot_top r n j i1;
    assert { i <= i1 };
    if i1 <> i then begin
      assert { 0 <= n-1-i1 < n };
      assert { reach e n (n-1-i1) (s (n-1-i1)) };
      let x1 = cross d e r s n j i1 in
      assert { x1 = true };
      let h = top (pure { s (n-1-i1) }) n in
      pivot_top s n (n-1-i1) h;
      let j1 = n-1-h in
      assert { exists k. 0 <= k <= j /\ s (n-1-i1) (n-1-k) };
      assert { 0 <= j1 <= j };
      assert { pivot s (n-1-i1) (n-1-j1) };
      assert { j1 <> j };
      dual_primal d e r s n j1 i1
    end

  let ghost primal_dual (d e r s:mat) (n j i:int)
    requires { anti d e n /\ 0 <= j < n /\ 0 <= i < n }
    requires { bounded r n /\ bounded s n /\ reduction d r n /\ reduction e s n }
    requires { pivot r j i }
    ensures { pivot s (n-1-i) (n-1-j) }
  = assert { 0 <= n-1-i < n };
    assert { reach d n j (r j) };
    assert { reach e n (n-1-i) (s (n-1-i)) };
    let x = cross d e r s n j i in
    assert { x = true };
    let h = top (pure { s (n-1-i) }) n in
    pivot_top s n (n-1-i) h;
    let j1 = n-1-h in
    assert { exists k. 0 <= k <= j /\ s (n-1-i) (n-1-k) };
    assert { 0 <= j1 <= j };
    dual_primal d e r s n j1 i;
    assert { pivot r j1 i }

  (* the pairs agree *)
  let ghost same_pairs (d e r s:mat) (n:int)
    requires { anti d e n }
    requires { bounded r n /\ bounded s n /\ reduction d r n /\ reduction e s n }
    ensures { forall j i. 0 <= j < n -> 0 <= i < n -> (pivot r j i <-> pivot s (n-1-i) (n-1-j)) }
  = let lemma a (j i:int) requires { 0 <= j < n /\ 0 <= i < n /\ pivot r j i } ensures { pivot s (n-1-i) (n-1-j) } = primal_dual d e r s n j i in
    let lemma b (j i:int) requires { 0 <= j < n /\ 0 <= i < n /\ pivot s (n-1-i) (n-1-j) } ensures { pivot r j i } = dual_primal d e r s n j i in
    ()

  (* u creates a feature that v destroys; u creates a feature that is never destroyed *)
  predicate pr (r:mat) (n u v:int) = 0 <= v < n /\ pivot r v u
  predicate unp (r:mat) (n u:int) = 0 <= u < n /\ (forall v. not pr r n u v) /\ forall w. not pr r n w u

  let ghost pr_range (r:mat) (n:int)
    requires { bounded r n }
    ensures { forall u v. pr r n u v -> 0 <= u < n /\ 0 <= v < n }
  = ()

  let ghost same_features (d r1 r2:mat) (n:int)
    requires { bounded r1 n /\ bounded r2 n /\ reduction d r1 n /\ reduction d r2 n }
    ensures { forall u v. pr r1 n u v <-> pr r2 n u v }
    ensures { forall u. unp r1 n u <-> unp r2 n u }
  = let lemma one (u v:int) requires { 0 <= v < n } ensures { pivot r1 v u <-> pivot r2 v u } = pivots_unique d r1 r2 n v u in
    assert { forall u v. pr r1 n u v <-> pr r2 n u v }

  let ghost dual_features (d e r s:mat) (n:int)
    requires { anti d e n }
    requires { bounded r n /\ bounded s n /\ reduction d r n /\ reduction e s n }
    ensures { forall u v. pr r n u v <-> pr s n (n-1-v) (n-1-u) }
    ensures { forall u. unp r n u <-> unp s n (n-1-u) }
  = pr_range r n; pr_range s n;
    same_pairs d e r s n;
    assert { forall u v. 0 <= u < n -> 0 <= v < n -> (pr r n u v <-> pr s n (n-1-v) (n-1-u)) };
    assert { forall u v. pr r n u v -> pr s n (n-1-v) (n-1-u) };
    assert { forall u v. pr s n (n-1-v) (n-1-u) -> pr r n u v };
    let lemma one (u:int) requires { unp r n u } ensures { unp s n (n-1-u) }
    = assert { forall v. pr s n (n-1-u) v -> pr r n (n-1-v) u };
      assert { forall w. pr s n w (n-1-u) -> pr r n u (n-1-w) } in
    let lemma two (u:int) requires { unp s n (n-1-u) } ensures { unp r n u } = () in
    ()

  (* a reduction with empty column j has no pivot there, and conversely *)
  let ghost no_pivot (r:mat) (n j:int)
    requires { bounded r n /\ 0 <= j < n }
    ensures { (forall i. not r j i) <-> forall i. not pivot r j i }
  = let h = top (pure { r j }) n in
    pivot_top r n j h

  (* the anti-transpose of a complex is a complex *)
  let rec ghost ip_comm (a b:vec) (n:int) ensures { ip a b n = ip b a n } variant { n }
  = if n > 0 then ip_comm a b (n-1)

  let ghost dual_complex (d e:mat) (n:int)
    requires { anti d e n /\ complex d n /\ bounded d n /\ bounded e n }
    ensures { complex e n }
  = let lemma one (j r:int) requires { 0 <= j < n } ensures { dot e (e j) n r = false }
    = if 0 <= r < n then begin
        let a = pure { d (n-1-r) } in
        let b = pure { fun m -> d m (n-1-j) } in
        dot_ip d a b n (n-1-j);
        let f = pure { fun k -> e k r } in
        dot_ip e (pure { e j }) f n r;
        ip_ext (pure { e j }) f (pure { rev n b }) (pure { rev n a }) n;
        ip_rev b a n;
        ip_comm a b n
      end else begin
        assert { forall k. 0 <= k < n -> not e k r };
        dot_none e (pure { e j }) n
      end in
    ()

  (* every matrix has a reduction *)
  predicate vbounded (c:vec) (n:int) = forall i. c i -> 0 <= i < n
  predicate low (c:vec) (i:int) = c i /\ forall k. c k -> k <= i
  let rec ghost with_pivot (r:mat) (m i:int) : int
    requires { 0 <= m }
    ensures { -1 <= result < m }
    ensures { result >= 0 -> pivot r result i }
    ensures { result < 0 -> forall k. 0 <= k < m -> not pivot r k i }
    variant { m }
  = if m = 0 then -1 else if pure { pivot r (m-1) i } then m-1 else with_pivot r (m-1) i
  let rec ghost reduce_column (d r:mat) (n j:int) (c:vec) : vec
    requires { 0 <= j < n /\ reach d n j c /\ vbounded c n }
    requires { forall k. 0 <= k < j -> reach d n k (r k) /\ vbounded (r k) n }
    ensures { reach d n j result /\ vbounded result n }
    ensures { forall k i. 0 <= k < j -> pivot r k i -> not low result i }
    variant { top c n + 1 }
  = let i = top c n in
    if i < 0 then begin assert { forall k. not c k }; c end
    else begin
      assert { low c i };
      let k = with_pivot r j i in
      if k < 0 then c
      else begin
        let f = pure { vadd c (r k) } in
        assert { forall x. f x = xorb (c x) (r k x) };
        reach_add d n j k c (pure { r k }) f;
        assert { vbounded f n };
        assert { forall x. f x -> x < i };
        reduce_column d r n j f
      end
    end
  let rec ghost reduce_columns (d:mat) (n m:int) : mat
    requires { 0 <= m <= n /\ bounded d n }
    ensures { forall k. 0 <= k < m -> reach d n k (result k) /\ vbounded (result k) n }
    ensures { reduced result m }
    variant { m }
  = if m = 0 then d
    else begin
      let r = reduce_columns d n (m-1) in
      reach_all d n;
      let c = reduce_column d r n (m-1) (pure { d (m-1) }) in
      let s = pure { fun j -> if j = m-1 then c else r j } in
      assert { forall j i. 0 <= j < m-1 -> (pivot s j i <-> pivot r j i) };
      assert { forall i. pivot s (m-1) i <-> low c i };
      s
    end
  let ghost a_reduction (d:mat) (n:int) : mat
    requires { 0 <= n /\ bounded d n }
    ensures { bounded result n /\ reduction d result n }
  = reduce_columns d n n
end

module Pairing
  use int.Int
  use bool.Bool
  use z2.Z2
  use z2.Facts
  use z2.Pivots
  use seq.Seq
  use cxx.Base
  use cxx.Vec
  use cxx.Sorted
  use cxx.Pairs
  use Duality

  (* what a pairing lists, as in the contract of C03 *)
  predicate keep (mx n u:int) = mx > n \/ u < mx
  function tr (dual:bool) (n c:int) : int = if dual then n-1-c else c
  function birth (dual:bool) (n k i:int) : int = if dual then n-1-k else i
  function death (dual:bool) (n k i:int) : int = if dual then n-1-i else k
  predicate paired (r:mat) (n mx:int) (dual:bool) (m:int) (u v:int) =
    (exists k i. 0 <= k < m /\ pivot r k i /\ u = birth dual n k i /\ v = death dual n k i) /\ keep mx n u
  predicate allowed (dm:int->int) (top:int) (dual incl:bool) (j:int) =
    incl \/ (if dual then dm j <> 0 else dm j <> top)
  predicate nocol (r:mat) (j:int) = forall i. not r j i
  predicate essential (r:mat) (dm:int->int) (top:int) (dual incl:bool) (m:int) (j:int) =
    0 <= j < m /\ nocol r j /\ (forall k. 0 <= k < m -> not pivot r k j) /\ allowed dm top dual incl j
  predicate pairing_by (d r:mat) (n mx:int) (dm:int->int) (top:int) (dual incl:bool) (s:seq (int,int)) =
    reduction d r n /\
    (forall u v. smem (u,v) s <-> (paired r n mx dual n u v
       \/ (v = 4294967295 /\ keep mx n u /\ essential r dm top dual incl n (tr dual n u))))
  predicate is_top (dm:int->int) (n top:int) =
    (forall c. 0 <= c < n -> dm c <= top) /\ (n > 0 -> exists c. 0 <= c < n /\ dm c = top) /\ (n = 0 -> top = 0)
  predicate is_pairing (d:mat) (n mx:int) (dm:int->int) (dual incl:bool) (s:seq (int,int)) =
    exists r:mat, top. is_top dm n top /\ pairing_by d r n mx dm top dual incl s

  predicate entry_of (r:mat) (n:int) (dm:int->int) (t:int) (incl:bool) (u v:int) =
    pr r n u v \/ (v = 4294967295 /\ unp r n u /\ (incl \/ dm u <> t))
  (* p lists the pairs and the unpaired creators of every reduction of d *)
  predicate pairs_of (d:mat) (n:int) (dm:int->int) (incl:bool) (p:seq (int,int)) =
    forall r:mat, t. bounded r n -> reduction d r n -> is_top dm n t -> forall u v. smem (u,v) p <-> entry_of r n dm t incl u v
  predicate ascending (p:seq (int,int)) = distinct p /\ forall i j. 0 <= i < j < length p -> not pair_lt p[j] p[i]
  let ghost reduction_bounded (d r:mat) (n:int)
    requires { bounded d n /\ reduction d r n }
    ensures { bounded r n }
  = let lemma one (j i:int) requires { 0 <= j < n /\ r j i } ensures { 0 <= i < n }
    = let v = reach_wit d n j (pure { r j }) in
      if not (0 <= i < n) then begin
        assert { forall k. 0 <= k < n -> not d k i };
        dot_none d v n
      end in
    ()
  let ghost tops_agree (dm:int->int) (n a b:int)
    requires { is_top dm n a /\ is_top dm n b /\ 0 <= n }
    ensures { a = b }
  = ()
  let ghost primal_entries (r:mat) (n:int) (dm:int->int) (t:int) (incl:bool)
    requires { bounded r n /\ n < 4294967295 }
    ensures { forall u v. (paired r n 4294967295 false n u v \/ (v = 4294967295 /\ keep 4294967295 n u /\ essential r dm t false incl n (tr false n u))) <-> entry_of r n dm t incl u v }
  = let lemma e (j:int) requires { 0 <= j < n } ensures { nocol r j <-> forall i. not pr r n i j } = no_pivot r n j in
    assert { forall u v. paired r n 4294967295 false n u v <-> pr r n u v };
    assert { forall u. essential r dm t false incl n u <-> unp r n u /\ (incl \/ dm u <> t) }
  let ghost dual_entries (s:mat) (n:int) (dm:int->int) (t:int) (incl:bool)
    requires { bounded s n /\ n < 4294967295 }
    ensures { forall u v. (paired s n 4294967295 true n u v \/ (v = 4294967295 /\ keep 4294967295 n u /\ essential s dm t true incl n (tr true n u)))
              <-> (pr s n (n-1-v) (n-1-u) \/ (v = 4294967295 /\ unp s n (n-1-u) /\ (incl \/ dm (n-1-u) <> 0))) }
  = let lemma e (j:int) requires { 0 <= j < n } ensures { nocol s j <-> forall i. not pr s n i j } = no_pivot s n j in
    let lemma there (u v:int) requires { paired s n 4294967295 true n u v } ensures { pr s n (n-1-v) (n-1-u) } = () in
    let lemma back (u v:int) requires { pr s n (n-1-v) (n-1-u) } ensures { paired s n 4294967295 true n u v }
    = assert { pivot s (n-1-u) (n-1-v) /\ u = birth true n (n-1-u) (n-1-v) /\ v = death true n (n-1-u) (n-1-v) } in
    assert { forall u. essential s dm t true incl n u <-> unp s n u /\ (incl \/ dm u <> 0) }
  let ghost by_reduction (d r:mat) (n mx:int) (dm:int->int) (t:int) (dual incl:bool) (p:seq (int,int))
    requires { pairing_by d r n mx dm t dual incl p }
    ensures { reduction d r n }
    ensures { forall u v. smem (u,v) p <-> (paired r n mx dual n u v \/ (v = 4294967295 /\ keep mx n u /\ essential r dm t dual incl n (tr dual n u))) }
  = ()
  let ghost primal_one (d:mat) (n:int) (dm:int->int) (incl:bool) (p:seq (int,int)) (r:mat) (t:int) (r2:mat) (t2:int)
    requires { bounded d n /\ 0 <= n < 4294967295 }
    requires { is_top dm n t }
    requires { pairing_by d r n 4294967295 dm t false incl p }
    requires { bounded r2 n /\ reduction d r2 n /\ is_top dm n t2 }
    ensures { forall u v. smem (u,v) p <-> entry_of r2 n dm t2 incl u v }
  = tops_agree dm n t t2;
    by_reduction d r n 4294967295 dm t false incl p;
    reduction_bounded d r n;
    primal_entries r n dm t incl;
    same_features d r r2 n;
    assert { forall u v. smem (u,v) p <-> entry_of r n dm t incl u v }
  let ghost primal_pairs (d:mat) (n:int) (dm:int->int) (incl:bool) (p:seq (int,int))
    requires { bounded d n /\ 0 <= n < 4294967295 }
    requires { is_pairing d n 4294967295 dm false incl p }
    ensures { pairs_of d n dm incl p }
    ensures { forall u v. smem (u,v) p -> 0 <= u < n /\ 0 <= v <= 4294967295 }
  = let r, t = any (r:mat, t:int) ensures { is_top dm n t /\ pairing_by d r n 4294967295 dm t false incl p } in
    let lemma one (r2:mat) (t2:int)
      requires { bounded r2 n }
      requires { reduction d r2 n }
      requires { is_top dm n t2 }
      ensures { forall u v. smem (u,v) p <-> entry_of r2 n dm t2 incl u v }
    = primal_one d n dm incl p r t r2 t2 in
    by_reduction d r n 4294967295 dm t false incl p;
    reduction_bounded d r n;
    primal_entries r n dm t incl;
    pr_range r n
  let ghost dual_one (d e:mat) (n:int) (dm de:int->int) (incl:bool) (p:seq (int,int)) (s:mat) (t:int) (r:mat) (t2:int)
    requires { anti d e n /\ bounded d n /\ bounded e n /\ 0 <= n < 4294967295 }
    requires { forall j t. 0 <= j < n -> is_top dm n t -> de j = t - dm (n-1-j) }
    requires { pairing_by e s n 4294967295 de t true incl p }
    requires { bounded r n /\ reduction d r n /\ is_top dm n t2 }
    ensures { forall u v. smem (u,v) p <-> entry_of r n dm t2 incl u v }
  = by_reduction e s n 4294967295 de t true incl p;
    reduction_bounded e s n;
    dual_entries s n de t incl;
    dual_features d e r s n;
    assert { forall u. unp r n u -> (de (n-1-u) <> 0 <-> dm u <> t2) }
  let ghost dual_pairs (d e:mat) (n:int) (dm de:int->int) (incl:bool) (p:seq (int,int))
    requires { anti d e n /\ bounded d n /\ bounded e n /\ 0 <= n < 4294967295 }
    requires { is_pairing e n 4294967295 de true incl p }
    requires { forall j t. 0 <= j < n -> is_top dm n t -> de j = t - dm (n-1-j) }
    ensures { pairs_of d n dm incl p }
    ensures { forall u v. smem (u,v) p -> 0 <= u < n /\ 0 <= v <= 4294967295 }
  = let s, t = any (s:mat, t:int) ensures { is_top de n t /\ pairing_by e s n 4294967295 de t true incl p } in
    let lemma one (r:mat) (t2:int)
      requires { bounded r n }
      requires { reduction d r n }
      requires { is_top dm n t2 }
      ensures { forall u v. smem (u,v) p <-> entry_of r n dm t2 incl u v }
    = dual_one d e n dm de incl p s t r t2 in
    by_reduction e s n 4294967295 de t true incl p;
    reduction_bounded e s n;
    dual_entries s n de t incl;
    pr_range s n
  let ghost dot_same (d e:mat) (v:vec) (n:int)
    requires { forall j i. 0 <= j < n -> (d j i <-> e j i) }
    ensures { forall i. dot d v n i = dot e v n i }
  = let rec lemma one (m i:int) requires { m <= n } ensures { dot d v m i = dot e v m i } variant { m } = if m > 0 then one (m-1) i in
    ()
  let ghost same_reductions (d e:mat) (n:int)
    requires { forall j i. 0 <= j < n -> (d j i <-> e j i) }
    ensures { forall r. reduction d r n -> reduction e r n }
  = let lemma one (r:mat) (j:int) requires { reduction d r n /\ 0 <= j < n } ensures { reach e n j (r j) }
    = let v = reach_wit d n j (pure { r j }) in
      dot_same d e v n;
      reach_intro e n j (pure { r j }) v in
    ()
  let rec ghost top_of (dm:int->int) (n:int) : int
    requires { n >= 0 }
    ensures { is_top dm n result }
    variant { n }
  = if n = 0 then 0 else if n = 1 then dm 0 else
    let t = top_of dm (n-1) in if dm (n-1) > t then dm (n-1) else t
  let ghost dual_range (d e:mat) (n:int) (dm de:int->int) (t:int)
    requires { bounded d n /\ bounded e n /\ anti d e n /\ 0 <= n }
    requires { forall j i. d j i -> 0 <= j < n }
    requires { forall j i. e j i -> 0 <= j < n }
    requires { forall j i. d j i -> i < j }
    requires { forall j i. d j i -> dm j = dm i + 1 }
    requires { forall j. 0 <= j < n -> de j = t - dm (n-1-j) }
    ensures { forall j i. e j i -> i < j }
    ensures { forall j i. e j i -> de j = de i + 1 }
  = assert { forall j i. e j i -> d (n-1-i) (n-1-j) }
  let ghost pairing_range (d:mat) (n:int) (dm:int->int) (dual incl:bool) (p:seq (int,int))
    requires { bounded d n /\ 0 <= n < 4294967295 }
    requires { is_pairing d n 4294967295 dm dual incl p }
    ensures { forall u v. smem (u,v) p -> 0 <= u < n /\ 0 <= v <= 4294967295 }
  = let r, t = any (r:mat, t:int) ensures { is_top dm n t /\ pairing_by d r n 4294967295 dm t dual incl p } in
    by_reduction d r n 4294967295 dm t dual incl p;
    reduction_bounded d r n;
    pr_range r n;
    if dual then dual_entries r n dm t incl else primal_entries r n dm t incl
  let ghost pair_total (x y:(int,int))
    requires { not pair_lt x y /\ not pair_lt y x }
    ensures { x = y }
  = let (_,_) = x in let (_,_) = y in ()
  let rec ghost same_prefix (p q:seq (int,int)) (k:int)
    requires { ascending p /\ ascending q /\ (forall x. smem x p <-> smem x q) /\ 0 <= k <= length p /\ k <= length q }
    ensures { forall i. 0 <= i < k -> p[i] = q[i] }
    variant { k }
  = if k > 0 then begin
      same_prefix p q (k-1);
      assert { smem p[k-1] q /\ smem q[k-1] p };
      let i = any int ensures { 0 <= result < length q /\ q[result] = p[k-1] } in
      let j = any int ensures { 0 <= result < length p /\ p[result] = q[k-1] } in
      if i < k-1 then (assert { p[i] = p[k-1] }; absurd);
      if j < k-1 then (assert { q[j] = q[k-1] }; absurd);
      if i > k-1 && j > k-1 then begin
        assert { not pair_lt p[k-1] q[k-1] };
        assert { not pair_lt q[k-1] p[k-1] };
        pair_total (pure { p[k-1] }) (pure { q[k-1] })
      end
    end
end
