(* Linear algebra over Z2 for matrix reduction.  Everything here is proved on
   every run; there are no axioms.  Facts are ghost functions that are applied
   explicitly, so that they do not burden the context of other proofs. *)

module Z2
  use int.Int
  use bool.Bool

  type vec = int -> bool
  type mat = int -> int -> bool            (* column, row *)

  let rec ghost function dot (d:mat) (v:vec) (n i:int) : bool
    variant { n }
  = if n <= 0 then false else xorb (dot d v (n-1) i) (andb (v (n-1)) (d (n-1) i))

  function vadd (u v:vec) : vec = fun k -> xorb (u k) (v k)
  function vzero : vec = fun _ -> false

  (* column c is a combination of the columns of d whose last member is j *)
  predicate reach_by (d:mat) (n j:int) (c v:vec) =
    v j /\ (forall k. j < k -> not v k) /\ forall i. c i = dot d v n i
  predicate reach (d:mat) (n j:int) (c:vec) = exists v:vec. reach_by d n j c v

  (* all columns of d are cycles *)
  predicate complex (d:mat) (n:int) = forall j r. 0 <= j < n -> dot d (d j) n r = false

  predicate pivot (r:mat) (j i:int) = r j i /\ forall k. r j k -> k <= i

  predicate reduced (r:mat) (n:int) =
    forall j k i. 0 <= j < n -> 0 <= k < n -> pivot r j i -> pivot r k i -> j = k

  (* the same for pivots among the first n rows *)
  predicate reduced_low (r:mat) (n:int) =
    forall j k i. 0 <= j < n -> 0 <= k < n -> 0 <= i < n -> pivot r j i -> pivot r k i -> j = k

  predicate bounded (r:mat) (n:int) = forall j i. 0 <= j < n -> r j i -> 0 <= i < n

  predicate reduction (d r:mat) (n:int) =
    (forall j. 0 <= j < n -> reach d n j (r j)) /\ reduced r n
end

module Facts
  use int.Int
  use bool.Bool
  use Z2

  let rec ghost dot_none (d:mat) (v:vec) (n:int)
    ensures { forall i. (forall k. 0 <= k < n -> v k -> not d k i) -> dot d v n i = false }
    variant { n }
  = if n > 0 then dot_none d v (n-1)

  let rec ghost dot_ext (d:mat) (u v:vec) (n:int)
    requires { forall k. 0 <= k < n -> u k = v k }
    ensures { forall i. dot d u n i = dot d v n i }
    variant { n }
  = if n > 0 then dot_ext d u v (n-1)

  let rec ghost dot_add (d:mat) (u v:vec) (n:int)
    ensures { forall i. dot d (vadd u v) n i = xorb (dot d u n i) (dot d v n i) }
    variant { n }
  = if n > 0 then dot_add d u v (n-1)

  let rec ghost dot_single (d:mat) (v:vec) (n k:int)
    requires { 0 <= k < n }
    requires { v k }
    ensures { forall i. (forall l. 0 <= l < n -> l <> k -> v l -> not d l i) -> dot d v n i = d k i }
    variant { n }
  = if n - 1 = k then dot_none d v (n-1)
    else dot_single d v (n-1) k

  let ghost reach_wit (d:mat) (n j:int) (c:vec) : vec
    requires { reach d n j c }
    ensures { reach_by d n j c result }
  = any vec ensures { reach_by d n j c result }

  let ghost reach_intro (d:mat) (n j:int) (c v:vec)
    requires { reach_by d n j c v }
    ensures { reach d n j c }
  = ()

  let ghost reach_self (d:mat) (n j:int) (c:vec)
    requires { 0 <= j < n }
    requires { forall i. c i = d j i }
    ensures { reach d n j c }
  = let v = pure { fun k -> k = j } in
    dot_single d v n j;
    assert { forall i. dot d v n i = d j i };
    reach_intro d n j c v

  let ghost reach_all (d:mat) (n:int)
    ensures { forall j. 0 <= j < n -> reach d n j (d j) }
  = let lemma one (j:int)
      requires { 0 <= j < n }
      ensures { reach d n j (d j) }
    = reach_self d n j (pure { d j }) in
    ()

  let ghost reach_ext (d:mat) (n j:int) (c e:vec)
    requires { reach d n j c }
    requires { forall i. c i = e i }
    ensures { reach d n j e }
  = let v = reach_wit d n j c in
    reach_intro d n j e v

  let ghost reach_add (d:mat) (n j k:int) (c e f:vec)
    requires { reach d n j c }
    requires { reach d n k e }
    requires { k < j }
    requires { forall i. f i = xorb (c i) (e i) }
    ensures { reach d n j f }
  = let u = reach_wit d n j c in
    let v = reach_wit d n k e in
    dot_add d u v n;
    assert { reach_by d n j f (vadd u v) };
    reach_intro d n j f (pure { vadd u v })

  (* column j was changed, column i possibly cleared, others kept *)
  let ghost reach_frame (d:mat) (n:int) (r s:mat) (j i:int)
    requires { forall c k. c <> j -> c <> i -> s c k = r c k }
    requires { 0 <= i < n -> i <> j -> ((forall k. not s i k) /\ reach d n i vzero) }
    requires { forall c. 0 <= c < n -> reach d n c (r c) }
    requires { 0 <= j < n -> reach d n j (s j) }
    ensures { forall c. 0 <= c < n -> reach d n c (s c) }
  = let lemma one (c:int)
      requires { 0 <= c < n }
      ensures { reach d n c (s c) }
    = if c <> j then
        if c <> i then reach_ext d n c (pure { r c }) (pure { s c })
        else reach_ext d n c (pure { vzero }) (pure { s c }) in
    ()

  let rec ghost dot_dot (d:mat) (v w:vec) (n m:int)
    requires { complex d n }
    requires { 0 <= m <= n }
    requires { forall i. w i = dot d v m i }
    ensures { forall r. dot d w n r = false }
    variant { m }
  = if m > 0 then begin
      let w1 = pure { fun i -> dot d v (m-1) i } in
      dot_dot d v w1 n (m-1);
      if pure { v (m-1) } then begin
        dot_add d w1 (pure { d (m-1) }) n;
        assert { forall i. w i = (vadd w1 (d (m-1))) i };
        dot_ext d w (pure { vadd w1 (d (m-1)) }) n
      end else
        dot_ext d w w1 n
    end else dot_none d w n

  (* the column with pivot i of a reduced column j may be cleared *)
  let ghost reach_clear (d:mat) (n j i:int) (c z:vec)
    requires { complex d n }
    requires { 0 <= n }
    requires { reach d n j c }
    requires { c i }
    requires { forall k. c k -> 0 <= k <= i }
    requires { forall k. not z k }
    ensures { reach d n i z }
  = let v = reach_wit d n j c in
    dot_dot d v c n n;
    reach_intro d n i z c

  let rec ghost dot_upper (d:mat) (v:vec) (n j i:int)
    requires { forall k. j < k -> not v k }
    requires { forall k r. 0 <= k < n -> d k r -> r < k }
    requires { j <= i }
    ensures { dot d v n i = false }
    variant { n }
  = if n > 0 then dot_upper d v (n-1) j i

  (* the columns reached from a strictly upper triangular matrix are such columns *)
  let ghost reach_upper (d:mat) (n:int) (r:mat)
    requires { forall k i. 0 <= k < n -> d k i -> i < k }
    requires { forall c. 0 <= c < n -> reach d n c (r c) }
    ensures { forall c i. 0 <= c < n -> r c i -> i < c }
  = let lemma one (c i:int)
      requires { 0 <= c < n }
      ensures { r c i -> i < c }
    = let v = reach_wit d n c (pure { r c }) in
      if i >= c then dot_upper d v n c i in
    ()
end

module Pivots
  use int.Int
  use bool.Bool
  use Z2
  use Facts

  (* largest row of a non-empty bounded column *)
  let rec ghost function top (c:vec) (n:int) : int
    requires { 0 <= n }
    ensures { -1 <= result < n }
    ensures { result >= 0 -> c result }
    ensures { forall k. result < k < n -> not c k }
    variant { n }
  = if n = 0 then -1 else if c (n-1) then n-1 else top c (n-1)

  let ghost pivot_top (r:mat) (n j i:int)
    requires { 0 <= j < n }
    requires { bounded r n }
    ensures { pivot r j i <-> i >= 0 /\ i = top (r j) n }
  = ()

  (* every combination of columns of d ending in j is a combination of columns of r ending in j *)
  let rec ghost express (d r:mat) (v:vec) (n j:int) : vec
    requires { 0 <= n }
    requires { j < n }
    requires { forall k. 0 <= k < n -> reach d n k (r k) }
    requires { forall k. j < k < n -> not v k }
    requires { forall k. 0 <= k < n \/ not v k }
    ensures { forall i. dot d v n i = dot r result n i }
    ensures { forall k. j < k -> not result k }
    ensures { j >= 0 -> result j = v j }
    variant { j + 1 }
  = if j < 0 then begin
      let z = pure { vzero } in
      dot_none d v n;
      assert { forall i. dot d v n i = false };
      dot_none r z n;
      assert { forall i. dot r z n i = false };
      z
    end else if not (pure { v j }) then begin
      assert { forall k. j-1 < k < n -> not v k };
      let e = express d r v n (j-1) in
      assert { not e j };
      e
    end else begin
      let u = reach_wit d n j (pure { r j }) in
      let u0 = pure { fun k -> 0 <= k && u k } in
      dot_ext d u u0 n;
      let v1 = pure { vadd v u0 } in
      dot_add d v u0 n;
      assert { forall i. dot d v1 n i = xorb (dot d v n i) (r j i) };
      assert { forall k. j-1 < k < n -> not v1 k };
      assert { forall k. 0 <= k < n \/ not v1 k };
      let e = express d r v1 n (j-1) in
      let s = pure { fun k -> k = j } in
      dot_single r s n j;
      assert { forall i. dot r s n i = r j i };
      let f = pure { vadd e s } in
      dot_add r e s n;
      assert { forall i. dot r f n i = xorb (dot r e n i) (r j i) };
      f
    end

  (* in a combination of columns with distinct pivots the highest pivot survives *)
  let rec ghost highest (r:mat) (a:vec) (n m:int) : (k:int)
    requires { 0 <= m <= n }
    requires { bounded r n }
    requires { reduced r n }
    ensures { -1 <= k < m }
    ensures { k >= 0 -> a k /\ top (r k) n >= 0 }
    ensures { forall l. 0 <= l < m -> a l -> l <> k -> top (r l) n < 0 \/ (k >= 0 /\ top (r l) n < top (r k) n) }
    ensures { k < 0 -> forall l. 0 <= l < m -> a l -> top (r l) n < 0 }
    variant { m }
  = if m = 0 then -1 else
    let k = highest r a n (m-1) in
    if pure { a (m-1) && top (r (m-1)) n >= 0 } then begin
      if k < 0 then m-1
      else begin
        pivot_top r n k (top (pure { r k }) n);
        pivot_top r n (m-1) (top (pure { r (m-1) }) n);
        if pure { top (r k) n < top (r (m-1)) n } then m-1 else k
      end
    end else k

  let ghost low_minimal (d r:mat) (v:vec) (n j:int) (i:int)
    requires { 0 <= j < n }
    requires { bounded r n }
    requires { reduction d r n }
    requires { v j }
    requires { forall k. j < k -> not v k }
    requires { pivot r j i }
    ensures  { exists h. h >= i /\ dot d v n h }
  = let v0 = pure { fun k -> 0 <= k && v k } in
    dot_ext d v v0 n;
    assert { forall k. j < k < n -> not v0 k };
    assert { forall k. 0 <= k < n \/ not v0 k };
    let a = express d r v0 n j in
    assert { a j };
    let k = highest r a n n in
    pivot_top r n j i;
    assert { k >= 0 };
    let h = top (pure { r k }) n in
    assert { h >= i };
    pivot_top r n k h;
    assert { forall l. 0 <= l < n -> l <> k -> a l -> not r l h };
    dot_single r a n k;
    assert { dot r a n h = r k h };
    assert { dot d v n h }

  (* pivots do not depend on how the matrix was reduced *)
  let ghost pivots_unique_half (d r s:mat) (n j i:int)
    requires { 0 <= j < n }
    requires { bounded r n }
    requires { bounded s n }
    requires { reduction d r n }
    requires { reduction d s n }
    requires { pivot r j i }
    ensures  { top (s j) n >= i }
  = let v = reach_wit d n j (pure { s j }) in
    low_minimal d r v n j i;
    assert { exists g. g >= i /\ s j g }

  let lemma pivots_unique (d r s:mat) (n j i:int)
    requires { 0 <= j < n }
    requires { bounded r n }
    requires { bounded s n }
    requires { reduction d r n }
    requires { reduction d s n }
    ensures  { pivot r j i <-> pivot s j i }
  = let a = top (pure { r j }) n in
    let b = top (pure { s j }) n in
    pivot_top r n j a;
    pivot_top s n j b;
    if a >= 0 then pivots_unique_half d r s n j a;
    if b >= 0 then pivots_unique_half d s r n j b;
    pivot_top r n j i;
    pivot_top s n j i
end
