module Sums
  (* the sum does not depend on the order of the values *)
  use real.RealInfix
  use int.Int
  use seq.Seq
  use seq.Occ
  use seq.Permut as P
  use cxx.Reals

  axiom permuted_def : forall s t. permuted s t <-> P.permut_all s t

  let rec ghost function rsum (s:seq real) (n:int) : real
    variant { n }
  = if n <= 0 then 0.0 else rsum s (n-1) +. (pure { s[n-1] })

  let rec lemma rsum_ext (s t:seq real) (n:int)
    requires { forall i. 0 <= i < n -> s[i] = t[i] }
    ensures { rsum s n = rsum t n }
    variant { n }
  = if n > 0 then rsum_ext s t (n-1)

  let rec lemma rsum_set (s:seq real) (n k:int) (x:real)
    requires { 0 <= k < length s /\ 0 <= n <= length s }
    ensures { rsum s[k <- x] n = if k < n then rsum s n -. s[k] +. x else rsum s n }
    variant { n }
  = if n > 0 then rsum_set s (n-1) k x

  let rec lemma rsum_perm (s t:seq real)
    requires { permuted s t }
    ensures { rsum s (length s) = rsum t (length t) }
    variant { length s }
  = let n = length s in
    assert { P.permut_all s t };
    assert { length t = n };
    if n > 0 then begin
      let x = s[n-1] in
      let ghost y = t[n-1] in
      assert { s[n-1] = x };
      assert { exists i. 0 <= i < n /\ s[i] = x };
      assert { occ x s 0 n > 0 };
      assert { occ x t 0 n > 0 };
      assert { exists k. 0 <= k < n /\ t[k] = x };
      let lemma go (k:int)
        requires { 0 <= k < n /\ t[k] = x }
        ensures { rsum s n = rsum t n }
      = let ghost t1 = t[k <- y] in
        assert { length t1 = n };
        let ghost t2 = t1[n-1 <- x] in
        let ghost a = s[0 .. n-1] in
        let ghost b = t2[0 .. n-1] in
        assert { P.exchange t t2 k (n-1) };
        assert { P.permut_all t t2 };
        assert { forall v. occ v s 0 n = occ v t2 0 n };
        assert { forall v. occ v s 0 n = occ v s 0 (n-1) + (if v = x then 1 else 0) };
        assert { forall v. occ v t2 0 n = occ v t2 0 (n-1) + (if v = x then 1 else 0) };
        assert { forall v. occ v a 0 (n-1) = occ v s 0 (n-1) };
        assert { forall v. occ v b 0 (n-1) = occ v t2 0 (n-1) };
        assert { P.permut a b 0 (n-1) };
        assert { P.permut_all a b };
        rsum_perm a b;
        rsum_ext a s (n-1); rsum_ext b t2 (n-1);
        rsum_set t n k y; rsum_set t1 n (n-1) x in
      ()
    end
end

