(* Model of the C++ subset that cxx2why extracts: machine integers, the
   standard containers, and the standard algorithms used by the library.
   Every `val` and `axiom` is an assumption about the C++ standard library or
   the machine; the runner lists them mechanically in the evidence.  Everything
   declared with `let` is proved in this file on every run that uses it. *)

module IntsImpl8
  (* the interface modules below are implementable: same contracts, proved *)
  use int.Int
  use int.EuclideanDivision
  use int.ComputerDivision as CD

  let function add_u8 (x y:int) : int
    ensures { 0 <= result < 256 }
    ensures { 0 <= x+y < 256 -> result = x+y }
    ensures { 256 <= x+y < 512 -> result = x+y-256 }
  = while false do variant { 0 } () done; mod (x+y) 256

  let function sub_u8 (x y:int) : int
    ensures { 0 <= result < 256 }
    ensures { 0 <= x-y < 256 -> result = x-y }
    ensures { -256 <= x-y < 0 -> result = x-y+256 }
  = while false do variant { 0 } () done; mod (x-y) 256
  let function to_u8 (x:int) : int
    ensures { 0 <= result < 256 }
    ensures { 0 <= x < 256 -> result = x }
    ensures { -256 <= x < 0 -> result = x + 256 }
  = while false do variant { 0 } () done; mod x 256

  let function to_s8 (x:int) : int
    ensures { -128 <= result < 128 }
    ensures { -128 <= x < 128 -> result = x }
    ensures { 128 <= x < 256 -> result = x - 256 }
  = while false do variant { 0 } () done; mod (x + 128) 256 - 128
end

module Ints8
  use int.Int

  val function add_u8 (x y:int) : int
    ensures { 0 <= result < 256 }
    ensures { 0 <= x+y < 256 -> result = x+y }
    ensures { 256 <= x+y < 512 -> result = x+y-256 }

  val function sub_u8 (x y:int) : int
    ensures { 0 <= result < 256 }
    ensures { 0 <= x-y < 256 -> result = x-y }
    ensures { -256 <= x-y < 0 -> result = x-y+256 }

  val function to_u8 (x:int) : int
    ensures { 0 <= result < 256 }
    ensures { 0 <= x < 256 -> result = x }
    ensures { -256 <= x < 0 -> result = x + 256 }

  val function to_s8 (x:int) : int
    ensures { -128 <= result < 128 }
    ensures { -128 <= x < 128 -> result = x }
    ensures { 128 <= x < 256 -> result = x - 256 }
end


module IntsImpl16
  (* the interface modules below are implementable: same contracts, proved *)
  use int.Int
  use int.EuclideanDivision
  use int.ComputerDivision as CD

  let function add_u16 (x y:int) : int
    ensures { 0 <= result < 65536 }
    ensures { 0 <= x+y < 65536 -> result = x+y }
    ensures { 65536 <= x+y < 131072 -> result = x+y-65536 }
  = while false do variant { 0 } () done; mod (x+y) 65536

  let function sub_u16 (x y:int) : int
    ensures { 0 <= result < 65536 }
    ensures { 0 <= x-y < 65536 -> result = x-y }
    ensures { -65536 <= x-y < 0 -> result = x-y+65536 }
  = while false do variant { 0 } () done; mod (x-y) 65536
  let function to_u16 (x:int) : int
    ensures { 0 <= result < 65536 }
    ensures { 0 <= x < 65536 -> result = x }
    ensures { -65536 <= x < 0 -> result = x + 65536 }
  = while false do variant { 0 } () done; mod x 65536

  let function to_s16 (x:int) : int
    ensures { -32768 <= result < 32768 }
    ensures { -32768 <= x < 32768 -> result = x }
    ensures { 32768 <= x < 65536 -> result = x - 65536 }
  = while false do variant { 0 } () done; mod (x + 32768) 65536 - 32768
end

module Ints16
  use int.Int

  val function add_u16 (x y:int) : int
    ensures { 0 <= result < 65536 }
    ensures { 0 <= x+y < 65536 -> result = x+y }
    ensures { 65536 <= x+y < 131072 -> result = x+y-65536 }

  val function sub_u16 (x y:int) : int
    ensures { 0 <= result < 65536 }
    ensures { 0 <= x-y < 65536 -> result = x-y }
    ensures { -65536 <= x-y < 0 -> result = x-y+65536 }

  val function to_u16 (x:int) : int
    ensures { 0 <= result < 65536 }
    ensures { 0 <= x < 65536 -> result = x }
    ensures { -65536 <= x < 0 -> result = x + 65536 }

  val function to_s16 (x:int) : int
    ensures { -32768 <= result < 32768 }
    ensures { -32768 <= x < 32768 -> result = x }
    ensures { 32768 <= x < 65536 -> result = x - 65536 }
end


module IntsImpl32
  (* the interface modules below are implementable: same contracts, proved *)
  use int.Int
  use int.EuclideanDivision
  use int.ComputerDivision as CD

  let function add_u32 (x y:int) : int
    ensures { 0 <= result < 4294967296 }
    ensures { 0 <= x+y < 4294967296 -> result = x+y }
    ensures { 4294967296 <= x+y < 8589934592 -> result = x+y-4294967296 }
  = while false do variant { 0 } () done; mod (x+y) 4294967296

  let function sub_u32 (x y:int) : int
    ensures { 0 <= result < 4294967296 }
    ensures { 0 <= x-y < 4294967296 -> result = x-y }
    ensures { -4294967296 <= x-y < 0 -> result = x-y+4294967296 }
  = while false do variant { 0 } () done; mod (x-y) 4294967296

  let function mul_u32 (x y:int) : int
    ensures { 0 <= result < 4294967296 }
    ensures { 0 <= x*y < 4294967296 -> result = x*y }
  = while false do variant { 0 } () done; mod (x*y) 4294967296

  let function add_s32 (x y:int) : int
    requires { [@expl:signed overflow] -2147483648 <= x+y < 2147483648 }
    ensures { result = x+y }
  = x + y

  let function sub_s32 (x y:int) : int
    requires { [@expl:signed overflow] -2147483648 <= x-y < 2147483648 }
    ensures { result = x-y }
  = x - y

  let function mul_s32 (x y:int) : int
    requires { [@expl:signed overflow] -2147483648 <= x*y < 2147483648 }
    ensures { result = x*y }
  = x * y

  let function neg_s32 (x:int) : int
    requires { [@expl:signed overflow] -2147483648 < x }
    ensures { result = -x }
  = -x

  let function to_u32 (x:int) : int
    ensures { 0 <= result < 4294967296 }
    ensures { 0 <= x < 4294967296 -> result = x }
    ensures { -4294967296 <= x < 0 -> result = x + 4294967296 }
  = while false do variant { 0 } () done; mod x 4294967296

  let function to_s32 (x:int) : int
    ensures { -2147483648 <= result < 2147483648 }
    ensures { -2147483648 <= x < 2147483648 -> result = x }
    ensures { 2147483648 <= x < 4294967296 -> result = x - 4294967296 }
  = while false do variant { 0 } () done; mod (x + 2147483648) 4294967296 - 2147483648  let function div_u32 (x y:int) : int
    requires { [@expl:division by zero] y <> 0 }
    ensures { 0 <= x /\ 0 < y -> result = div x y }
    ensures { 0 <= x /\ 0 < y -> 0 <= result <= x }
    ensures { 0 <= x /\ 0 < y -> result * y <= x < (result + 1) * y }
  = while false do variant { 0 } () done;
    if 0 <= x && 0 < y then div x y else CD.div x y

  let function rem_u32 (x y:int) : int
    requires { [@expl:division by zero] y <> 0 }
    ensures { 0 <= x /\ 0 < y -> result = mod x y }
    ensures { 0 <= x /\ 0 < y -> 0 <= result < y }
    ensures { 0 <= x /\ 0 < y -> result <= x }
  = while false do variant { 0 } () done;
    if 0 <= x && 0 < y then mod x y else CD.mod x y

  let function div_s32 (x y:int) : int
    requires { [@expl:division by zero] y <> 0 }
    ensures { 0 <= x /\ 0 < y -> result = div x y }
    ensures { 0 <= x /\ 0 < y -> 0 <= result <= x }
    ensures { 0 <= x /\ 0 < y -> result * y <= x < (result + 1) * y }
  = while false do variant { 0 } () done;
    if 0 <= x && 0 < y then div x y else CD.div x y

  let function rem_s32 (x y:int) : int
    requires { [@expl:division by zero] y <> 0 }
    ensures { 0 <= x /\ 0 < y -> result = mod x y }
    ensures { 0 <= x /\ 0 < y -> 0 <= result < y }
    ensures { 0 <= x /\ 0 < y -> result <= x }
  = while false do variant { 0 } () done;
    if 0 <= x && 0 < y then mod x y else CD.mod x y
end

module Ints32
  use int.Int

  val function add_u32 (x y:int) : int
    ensures { 0 <= result < 4294967296 }
    ensures { 0 <= x+y < 4294967296 -> result = x+y }
    ensures { 4294967296 <= x+y < 8589934592 -> result = x+y-4294967296 }

  val function sub_u32 (x y:int) : int
    ensures { 0 <= result < 4294967296 }
    ensures { 0 <= x-y < 4294967296 -> result = x-y }
    ensures { -4294967296 <= x-y < 0 -> result = x-y+4294967296 }

  val function mul_u32 (x y:int) : int
    ensures { 0 <= result < 4294967296 }
    ensures { 0 <= x*y < 4294967296 -> result = x*y }

  val function add_s32 (x y:int) : int
    requires { [@expl:signed overflow] -2147483648 <= x+y < 2147483648 }
    ensures { result = x+y }

  val function sub_s32 (x y:int) : int
    requires { [@expl:signed overflow] -2147483648 <= x-y < 2147483648 }
    ensures { result = x-y }

  val function mul_s32 (x y:int) : int
    requires { [@expl:signed overflow] -2147483648 <= x*y < 2147483648 }
    ensures { result = x*y }

  val function neg_s32 (x:int) : int
    requires { [@expl:signed overflow] -2147483648 < x }
    ensures { result = -x }

  val function to_u32 (x:int) : int
    ensures { 0 <= result < 4294967296 }
    ensures { 0 <= x < 4294967296 -> result = x }
    ensures { -4294967296 <= x < 0 -> result = x + 4294967296 }

  val function to_s32 (x:int) : int
    ensures { -2147483648 <= result < 2147483648 }
    ensures { -2147483648 <= x < 2147483648 -> result = x }
    ensures { 2147483648 <= x < 4294967296 -> result = x - 4294967296 }
end

module IntsDiv32
  use int.Int
  use int.EuclideanDivision

  val function div_u32 (x y:int) : int
    requires { [@expl:division by zero] y <> 0 }
    ensures { 0 <= x /\ 0 < y -> result = div x y }
    ensures { 0 <= x /\ 0 < y -> 0 <= result <= x }
    ensures { 0 <= x /\ 0 < y -> result * y <= x < (result + 1) * y }

  val function rem_u32 (x y:int) : int
    requires { [@expl:division by zero] y <> 0 }
    ensures { 0 <= x /\ 0 < y -> result = mod x y }
    ensures { 0 <= x /\ 0 < y -> 0 <= result < y }
    ensures { 0 <= x /\ 0 < y -> result <= x }

  val function div_s32 (x y:int) : int
    requires { [@expl:division by zero] y <> 0 }
    ensures { 0 <= x /\ 0 < y -> result = div x y }
    ensures { 0 <= x /\ 0 < y -> 0 <= result <= x }
    ensures { 0 <= x /\ 0 < y -> result * y <= x < (result + 1) * y }

  val function rem_s32 (x y:int) : int
    requires { [@expl:division by zero] y <> 0 }
    ensures { 0 <= x /\ 0 < y -> result = mod x y }
    ensures { 0 <= x /\ 0 < y -> 0 <= result < y }
    ensures { 0 <= x /\ 0 < y -> result <= x }
end

module IntsImpl64
  (* the interface modules below are implementable: same contracts, proved *)
  use int.Int
  use int.EuclideanDivision
  use int.ComputerDivision as CD

  let function add_u64 (x y:int) : int
    ensures { 0 <= result < 18446744073709551616 }
    ensures { 0 <= x+y < 18446744073709551616 -> result = x+y }
    ensures { 18446744073709551616 <= x+y < 36893488147419103232 -> result = x+y-18446744073709551616 }
  = while false do variant { 0 } () done; mod (x+y) 18446744073709551616

  let function sub_u64 (x y:int) : int
    ensures { 0 <= result < 18446744073709551616 }
    ensures { 0 <= x-y < 18446744073709551616 -> result = x-y }
    ensures { -18446744073709551616 <= x-y < 0 -> result = x-y+18446744073709551616 }
  = while false do variant { 0 } () done; mod (x-y) 18446744073709551616

  let function mul_u64 (x y:int) : int
    ensures { 0 <= result < 18446744073709551616 }
    ensures { 0 <= x*y < 18446744073709551616 -> result = x*y }
  = while false do variant { 0 } () done; mod (x*y) 18446744073709551616

  let function add_s64 (x y:int) : int
    requires { [@expl:signed overflow] -9223372036854775808 <= x+y < 9223372036854775808 }
    ensures { result = x+y }
  = x + y

  let function sub_s64 (x y:int) : int
    requires { [@expl:signed overflow] -9223372036854775808 <= x-y < 9223372036854775808 }
    ensures { result = x-y }
  = x - y

  let function mul_s64 (x y:int) : int
    requires { [@expl:signed overflow] -9223372036854775808 <= x*y < 9223372036854775808 }
    ensures { result = x*y }
  = x * y

  let function neg_s64 (x:int) : int
    requires { [@expl:signed overflow] -9223372036854775808 < x }
    ensures { result = -x }
  = -x

  let function to_u64 (x:int) : int
    ensures { 0 <= result < 18446744073709551616 }
    ensures { 0 <= x < 18446744073709551616 -> result = x }
    ensures { -18446744073709551616 <= x < 0 -> result = x + 18446744073709551616 }
  = while false do variant { 0 } () done; mod x 18446744073709551616

  let function to_s64 (x:int) : int
    ensures { -9223372036854775808 <= result < 9223372036854775808 }
    ensures { -9223372036854775808 <= x < 9223372036854775808 -> result = x }
    ensures { 9223372036854775808 <= x < 18446744073709551616 -> result = x - 18446744073709551616 }
  = while false do variant { 0 } () done; mod (x + 9223372036854775808) 18446744073709551616 - 9223372036854775808  let function div_u64 (x y:int) : int
    requires { [@expl:division by zero] y <> 0 }
    ensures { 0 <= x /\ 0 < y -> result = div x y }
    ensures { 0 <= x /\ 0 < y -> 0 <= result <= x }
    ensures { 0 <= x /\ 0 < y -> result * y <= x < (result + 1) * y }
  = while false do variant { 0 } () done;
    if 0 <= x && 0 < y then div x y else CD.div x y

  let function rem_u64 (x y:int) : int
    requires { [@expl:division by zero] y <> 0 }
    ensures { 0 <= x /\ 0 < y -> result = mod x y }
    ensures { 0 <= x /\ 0 < y -> 0 <= result < y }
    ensures { 0 <= x /\ 0 < y -> result <= x }
  = while false do variant { 0 } () done;
    if 0 <= x && 0 < y then mod x y else CD.mod x y

  let function div_s64 (x y:int) : int
    requires { [@expl:division by zero] y <> 0 }
    ensures { 0 <= x /\ 0 < y -> result = div x y }
    ensures { 0 <= x /\ 0 < y -> 0 <= result <= x }
    ensures { 0 <= x /\ 0 < y -> result * y <= x < (result + 1) * y }
  = while false do variant { 0 } () done;
    if 0 <= x && 0 < y then div x y else CD.div x y

  let function rem_s64 (x y:int) : int
    requires { [@expl:division by zero] y <> 0 }
    ensures { 0 <= x /\ 0 < y -> result = mod x y }
    ensures { 0 <= x /\ 0 < y -> 0 <= result < y }
    ensures { 0 <= x /\ 0 < y -> result <= x }
  = while false do variant { 0 } () done;
    if 0 <= x && 0 < y then mod x y else CD.mod x y
end

module Ints64
  use int.Int

  val function add_u64 (x y:int) : int
    ensures { 0 <= result < 18446744073709551616 }
    ensures { 0 <= x+y < 18446744073709551616 -> result = x+y }
    ensures { 18446744073709551616 <= x+y < 36893488147419103232 -> result = x+y-18446744073709551616 }

  val function sub_u64 (x y:int) : int
    ensures { 0 <= result < 18446744073709551616 }
    ensures { 0 <= x-y < 18446744073709551616 -> result = x-y }
    ensures { -18446744073709551616 <= x-y < 0 -> result = x-y+18446744073709551616 }

  val function mul_u64 (x y:int) : int
    ensures { 0 <= result < 18446744073709551616 }
    ensures { 0 <= x*y < 18446744073709551616 -> result = x*y }

  val function add_s64 (x y:int) : int
    requires { [@expl:signed overflow] -9223372036854775808 <= x+y < 9223372036854775808 }
    ensures { result = x+y }

  val function sub_s64 (x y:int) : int
    requires { [@expl:signed overflow] -9223372036854775808 <= x-y < 9223372036854775808 }
    ensures { result = x-y }

  val function mul_s64 (x y:int) : int
    requires { [@expl:signed overflow] -9223372036854775808 <= x*y < 9223372036854775808 }
    ensures { result = x*y }

  val function neg_s64 (x:int) : int
    requires { [@expl:signed overflow] -9223372036854775808 < x }
    ensures { result = -x }

  val function to_u64 (x:int) : int
    ensures { 0 <= result < 18446744073709551616 }
    ensures { 0 <= x < 18446744073709551616 -> result = x }
    ensures { -18446744073709551616 <= x < 0 -> result = x + 18446744073709551616 }

  val function to_s64 (x:int) : int
    ensures { -9223372036854775808 <= result < 9223372036854775808 }
    ensures { -9223372036854775808 <= x < 9223372036854775808 -> result = x }
    ensures { 9223372036854775808 <= x < 18446744073709551616 -> result = x - 18446744073709551616 }
end

module IntsDiv64
  use int.Int
  use int.EuclideanDivision

  val function div_u64 (x y:int) : int
    requires { [@expl:division by zero] y <> 0 }
    ensures { 0 <= x /\ 0 < y -> result = div x y }
    ensures { 0 <= x /\ 0 < y -> 0 <= result <= x }
    ensures { 0 <= x /\ 0 < y -> result * y <= x < (result + 1) * y }

  val function rem_u64 (x y:int) : int
    requires { [@expl:division by zero] y <> 0 }
    ensures { 0 <= x /\ 0 < y -> result = mod x y }
    ensures { 0 <= x /\ 0 < y -> 0 <= result < y }
    ensures { 0 <= x /\ 0 < y -> result <= x }

  val function div_s64 (x y:int) : int
    requires { [@expl:division by zero] y <> 0 }
    ensures { 0 <= x /\ 0 < y -> result = div x y }
    ensures { 0 <= x /\ 0 < y -> 0 <= result <= x }
    ensures { 0 <= x /\ 0 < y -> result * y <= x < (result + 1) * y }

  val function rem_s64 (x y:int) : int
    requires { [@expl:division by zero] y <> 0 }
    ensures { 0 <= x /\ 0 < y -> result = mod x y }
    ensures { 0 <= x /\ 0 < y -> 0 <= result < y }
    ensures { 0 <= x /\ 0 < y -> result <= x }
end

module Ints
  use int.Int

  let function b2i (b:bool) : int
    ensures { result = if b then 1 else 0 }
  = if b then 1 else 0

  let function i2b (x:int) : bool
    ensures { result <-> x <> 0 }
  = x <> 0

  let function max_int (x y:int) : int
    ensures { result = if x < y then y else x }
  = if x < y then y else x

  let function min_int (x y:int) : int
    ensures { result = if y < x then y else x }
  = if y < x then y else x

  function max_int_l (x y:int) : int = if x < y then y else x
end


module Base
  (* equality, tuples *)
  predicate eqv_l (x y:'a) = x = y

  val beq (x y:bool) : bool
    ensures { result <-> x = y }

  (* operator== of containers whose model has logical equality *)
  val eqv (x y:'a) : bool
    ensures { result <-> x = y }

  let fst (p:('a,'b)) : 'a
    ensures { result = (let (x,_) = p in x) }
  = let (x,_) = p in x
  let snd (p:('a,'b)) : 'b
    ensures { result = (let (_,y) = p in y) }
  = let (_,y) = p in y
  function fst_l (p:('a,'b)) : 'a = let (x,_) = p in x
  function snd_l (p:('a,'b)) : 'b = let (_,y) = p in y

  exception Cxx_throw
end

module Vec
  use int.Int
  use seq.Seq

  predicate smem (x:'a) (s:seq 'a) = exists k. 0 <= k < length s /\ s[k] = x

  lemma smem_snoc : forall s:seq 'a, x y. smem x (snoc s y) <-> (smem x s \/ x = y)

  lemma smem_get : forall s:seq 'a, i. 0 <= i < length s -> smem s[i] s

  (* any value *)
  val havoc () : 'a

  let vget (s:seq 'a) (i:int) : 'a
    requires { [@expl:index in bounds] 0 <= i < length s }
    ensures { result = s[i] }
  = Seq.get s i

  let vset (s:seq 'a) (i:int) (x:'a) : seq 'a
    requires { [@expl:index in bounds] 0 <= i < length s }
    ensures { result = set s i x }
  = Seq.set s i x

  (* no container holds 2^63 or more elements (max_size of the platform) *)
  val vsize (s:seq 'a) : int
    ensures { result = length s }
    ensures { 0 <= result < 9223372036854775808 }

  let vmake (n:int) (x:'a) : seq 'a
    requires { [@expl:vector size is not negative] 0 <= n }
    ensures { length result = n }
    ensures { forall i. 0 <= i < n -> result[i] = x }
  = Seq.create n (fun _ -> x)

  let vpop (s:seq 'a) : seq 'a
    requires { [@expl:pop_back on a non-empty container] length s > 0 }
    ensures { result = s[.. length s - 1] }
    ensures { length result = length s - 1 }
    ensures { forall i. 0 <= i < length s - 1 -> result[i] = s[i] }
  = s[.. length s - 1]

  let vresize (s:seq 'a) (n:int) (x:'a) : seq 'a
    requires { 0 <= n }
    ensures { length result = n }
    ensures { forall i. 0 <= i < n -> result[i] = if i < length s then s[i] else x }
  = Seq.create n (fun i -> if i < length s then Seq.get s i else x)

  let vsub (s:seq 'a) (b e:int) : seq 'a
    requires { [@expl:valid iterator range] 0 <= b <= e <= length s }
    ensures { length result = e - b }
    ensures { forall i. 0 <= i < e - b -> result[i] = s[b+i] }
    ensures { b = 0 /\ e = length s -> result = s }
    ensures { result = s[b .. e] }
  = let r = s[b .. e] in
    if b = 0 && e = length s then assert { r == s };
    r

  let vrevsub (s:seq 'a) (b e:int) : seq 'a
    requires { [@expl:valid iterator range] 0 <= b <= e <= length s }
    ensures { length result = e - b }
    ensures { forall i. 0 <= i < e - b -> result[i] = s[e-1-i] }
  = Seq.create (e-b) (fun i -> Seq.get s (e-1-i))

  let verase (s:seq 'a) (b e:int) : seq 'a
    requires { [@expl:valid iterator range] 0 <= b <= e <= length s }
    ensures { length result = length s - (e - b) }
    ensures { forall i. 0 <= i < b -> result[i] = s[i] }
    ensures { forall i. b <= i < length result -> result[i] = s[i + (e - b)] }
    ensures { e = length s -> result = s[..b] }
  = let r = Seq.create (length s - (e-b)) (fun i -> if i < b then Seq.get s i else Seq.get s (i + (e-b))) in
    assert { e = length s -> r == s[..b] };
    r

  let vinsert1 (s:seq 'a) (p:int) (x:'a) : seq 'a
    requires { [@expl:valid position] 0 <= p <= length s }
    ensures { length result = length s + 1 }
    ensures { forall i. 0 <= i < p -> result[i] = s[i] }
    ensures { result[p] = x }
    ensures { forall i. p < i <= length s -> result[i] = s[i-1] }
  = Seq.create (length s + 1) (fun i -> if i < p then Seq.get s i else if i = p then x else Seq.get s (i-1))

  let vinsert (s:seq 'a) (p:int) (t:seq 'a) : seq 'a
    requires { [@expl:valid position] 0 <= p <= length s }
    ensures { length result = length s + length t }
    ensures { forall i. 0 <= i < p -> result[i] = s[i] }
    ensures { forall i. p <= i < p + length t -> result[i] = t[i-p] }
    ensures { forall i. p + length t <= i < length result -> result[i] = s[i-length t] }
  = Seq.create (length s + length t)
      (fun i -> if i < p then Seq.get s i else if i < p + length t then Seq.get t (i-p) else Seq.get s (i-length t))

  (* std::find on a type with logical equality *)
  val vfind (s:seq 'a) (b e:int) (x:'a) : int
    requires { [@expl:valid iterator range] 0 <= b <= e <= length s }
    ensures { b <= result <= e }
    ensures { forall i. b <= i < result -> s[i] <> x }
    ensures { result < e -> s[result] = x }

end

module Sorted
  use int.Int
  use seq.Seq
  use Vec

  predicate distinct (s:seq 'a) = forall i j. 0 <= i < j < length s -> s[i] <> s[j]

  predicate ssorted (s:seq int) = forall i j. 0 <= i < j < length s -> s[i] < s[j]
  predicate wsorted (s:seq int) = forall i j. 0 <= i < j < length s -> s[i] <= s[j]

  (* a strictly sorted sequence is determined by its elements *)
  let rec ghost sorted_prefix (a b:seq int) (k:int)
    requires { ssorted a }
    requires { ssorted b }
    requires { forall x. smem x a <-> smem x b }
    requires { 0 <= k <= length a }
    ensures { k <= length b }
    ensures { forall i. 0 <= i < k -> a[i] = b[i] }
    variant { k }
  = if k > 0 then begin
      sorted_prefix a b (k-1);
      assert { smem a[k-1] b };
      assert { exists l. k-1 <= l < length b /\ b[l] = a[k-1] };
      assert { smem b[k-1] a };
      assert { exists l. k-1 <= l < length a /\ a[l] = b[k-1] }
    end

  let lemma sorted_ext (a b:seq int)
    requires { ssorted a }
    requires { ssorted b }
    requires { forall x. smem x a <-> smem x b }
    ensures { a = b }
  = sorted_prefix a b (length a);
    sorted_prefix b a (length b);
    assert { a == b }

  let rec ghost sorted_length (s:seq int) (lo hi:int)
    requires { ssorted s }
    requires { forall x. smem x s -> lo <= x < hi }
    requires { lo <= hi }
    ensures { length s <= hi - lo }
    variant { length s }
  = if length s > 0 then begin
      let l = length s - 1 in
      assert { smem s[l] s };
      assert { forall x. smem x s[..l] -> smem x s };
      assert { forall x. smem x s[..l] -> lo <= x < s[l] };
      sorted_length (s[..l]) lo (pure { s[l] })
    end

  lemma ssorted_distinct : forall s:seq int. ssorted s -> distinct s

  (* std::sort, std::list::sort *)
  val sort_int (s:seq int) : seq int
    ensures { wsorted result }
    ensures { length result = length s }
    ensures { forall x. smem x result <-> smem x s }
    ensures { distinct s -> ssorted result }

  val max_element_int (s:seq int) (b e:int) : int
    requires { [@expl:valid iterator range] 0 <= b <= e <= length s }
    ensures { b <= result <= e }
    ensures { b < e -> result < e }
    ensures { forall i. b <= i < e -> s[i] <= s[result] }

  val min_element_int (s:seq int) (b e:int) : int
    requires { [@expl:valid iterator range] 0 <= b <= e <= length s }
    ensures { b <= result <= e }
    ensures { b < e -> result < e }
    ensures { forall i. b <= i < e -> s[i] >= s[result] }

  (* std::set_symmetric_difference on strictly sorted ranges *)
  val set_symdiff (a b:seq int) : seq int
    requires { [@expl:sorted input of set_symmetric_difference] ssorted a }
    requires { [@expl:sorted input of set_symmetric_difference] ssorted b }
    ensures { ssorted result }
    ensures { forall x. smem x result <-> (smem x a /\ not smem x b) \/ (not smem x a /\ smem x b) }

  val seq_set_intersection (a b:seq int) : seq int
    requires { [@expl:sorted input of set_intersection] ssorted a }
    requires { [@expl:sorted input of set_intersection] ssorted b }
    ensures { ssorted result }
    ensures { forall x. smem x result <-> smem x a /\ smem x b }

  val seq_set_union (a b:seq int) : seq int
    requires { [@expl:sorted input of set_union] ssorted a }
    requires { [@expl:sorted input of set_union] ssorted b }
    ensures { ssorted result }
    ensures { forall x. smem x result <-> smem x a \/ smem x b }

  val seq_set_difference (a b:seq int) : seq int
    requires { [@expl:sorted input of set_difference] ssorted a }
    requires { [@expl:sorted input of set_difference] ssorted b }
    ensures { ssorted result }
    ensures { forall x. smem x result <-> smem x a /\ not smem x b }
end

module Desc
  (* descending vertex sequences: std::sort with std::greater, std::unique,
     std::lexicographical_compare, filtering *)
  use int.Int
  use seq.Seq
  use Vec
  use Sorted

  predicate dsorted (s:seq int) = forall i j. 0 <= i < j < length s -> s[i] > s[j]
  predicate wdesc (s:seq int) = forall i j. 0 <= i < j < length s -> s[i] >= s[j]

  val sort_int_desc (s:seq int) : seq int
    ensures { wdesc result }
    ensures { length result = length s }
    ensures { forall x. smem x result <-> smem x s }
    ensures { dsorted s -> result = s }

  (* std::unique: the kept prefix has no equal neighbours and the same elements *)
  val vunique (s:seq int) : (p:seq int, n:int)
    ensures { length p = length s }
    ensures { 0 <= n <= length s }
    ensures { forall x. smem x p[..n] <-> smem x s }
    ensures { wdesc s -> dsorted p[..n] }
    ensures { wsorted s -> ssorted p[..n] }
    ensures { distinct s -> p = s /\ n = length s }

  predicate lexlt_at (a b:seq int) (k:int) =
    0 <= k <= length a /\ k < length b /\ (forall i. 0 <= i < k -> a[i] = b[i]) /\ (k = length a \/ a[k] < b[k])
  predicate lexlt (a b:seq int) = exists k. lexlt_at a b k

  let lex_lt (a b:seq int) : bool
    ensures { result <-> lexlt a b }
  = let ref k = 0 in
    while k < length a && k < length b && Seq.get a k = Seq.get b k do
      invariant { 0 <= k <= length a /\ k <= length b /\ forall i. 0 <= i < k -> a[i] = b[i] }
      variant { length a - k }
      k <- k + 1
    done;
    assert { lexlt_at a b k -> lexlt a b };
    assert { forall j. lexlt_at a b j -> j = k };
    k < length b && (k = length a || Seq.get a k < Seq.get b k)

  let lemma lexlt_total (a b:seq int)
    ensures { lexlt a b \/ lexlt b a \/ a = b }
  = let ref k = 0 in
    while k < length a && k < length b && Seq.get a k = Seq.get b k do
      invariant { 0 <= k <= length a /\ k <= length b /\ forall i. 0 <= i < k -> a[i] = b[i] }
      variant { length a - k }
      k <- k + 1
    done;
    assert { k = length a -> k = length b -> a == b };
    assert { lexlt_at a b k -> lexlt a b };
    assert { lexlt_at b a k -> lexlt b a }

  let lemma lexlt_asym (a b:seq int)
    requires { lexlt a b }
    ensures { not lexlt b a }
  = ()

  let lemma lexlt_trans (a b c:seq int)
    requires { lexlt a b /\ lexlt b c }
    ensures { lexlt a c }
  = let k = any int ensures { lexlt_at a b result } in
    let l = any int ensures { lexlt_at b c result } in
    if k < l then begin
      assert { forall i. 0 <= i < k -> a[i] = c[i] };
      assert { k = length a \/ a[k] < c[k] };
      assert { lexlt_at a c k }
    end else begin
      assert { forall i. 0 <= i < l -> a[i] = c[i] };
      assert { l = length a \/ a[l] < c[l] };
      assert { lexlt_at a c l }
    end

  (* removal of one entry *)
  let function face (s:seq int) (i:int) : seq int
    requires { 0 <= i < length s }
    ensures { length result = length s - 1 }
    ensures { forall j. 0 <= j < i -> result[j] = s[j] }
    ensures { forall j. i <= j < length s - 1 -> result[j] = s[j+1] }
  = Seq.create (length s - 1) (fun j -> if j < i then Seq.get s j else Seq.get s (j+1))

  lemma face_dsorted : forall s i. dsorted s -> 0 <= i < length s -> dsorted (face s i)
  lemma face_lexlt : forall s i. dsorted s -> 0 <= i < length s -> lexlt_at (face s i) s i
  let lemma face_mem (s:seq int) (i x:int)
    requires { dsorted s /\ 0 <= i < length s }
    ensures { smem x (face s i) <-> smem x s /\ x <> s[i] }
  = assert { forall k. 0 <= k < length s -> k <> i -> s[k] = (if k < i then (face s i)[k] else (face s i)[k-1]) }

  let ghost face_snoc (s t:seq int) (z i:int)
    requires { 0 <= i < length t }
    requires { s = snoc t z }
    ensures { face s i = snoc (face t i) z }
  = let ghost f = face t i in
    let ghost g = snoc f z in
    assert { length g = length t };
    assert { forall j. 0 <= j < i -> g[j] = f[j] = t[j] = s[j] };
    assert { forall j. i <= j < length t - 1 -> g[j] = f[j] = t[j+1] = s[j+1] };
    assert { g[length t - 1] = z = s[length t] };
    assert { face s i == g }

  (* elements other than x, in order *)
  let rec function filter_ne (s:seq int) (x:int) : seq int
    variant { length s }
    ensures { (forall k. 0 <= k < length s -> s[k] <> x) -> result = s }
    ensures { forall i. dsorted s -> 0 <= i < length s -> s[i] = x -> result = face s i }
    ensures { forall y. smem y result <-> smem y s /\ y <> x }
  = while false do variant { 0 } () done;
    if length s = 0 then begin assert { s == empty }; (empty : seq int) end
    else begin
      let l = length s - 1 in
      let t = s[..l] in
      let z = Seq.get s l in
      assert { forall k. 0 <= k < l -> t[k] = s[k] };
      assert { forall k. 0 <= k < length s -> (snoc t z)[k] = s[k] };
      assert { snoc t z == s };
      assert { s = snoc t z };
      assert { dsorted s -> dsorted t };
      let r = filter_ne t x in
      if z = x then begin
        assert { dsorted s -> r = t };
        assert { t == face s l };
        assert { forall i. dsorted s -> 0 <= i < length s -> s[i] = x -> i = l };
        r
      end else begin
        let lemma step (i:int)
          requires { 0 <= i < l }
          ensures { face s i = snoc (face t i) z }
        = face_snoc s t z i in
        assert { forall i. dsorted s -> 0 <= i < length s -> s[i] = x -> 0 <= i < l /\ r = face t i /\ face s i = snoc (face t i) z };
        snoc r z
      end
    end

  let rec ghost dsorted_length (s:seq int) (lo hi:int)
    requires { dsorted s }
    requires { forall k. 0 <= k < length s -> lo <= s[k] < hi }
    requires { lo <= hi }
    ensures { length s <= hi - lo }
    variant { length s }
  = if length s > 0 then begin
      let l = length s - 1 in
      let t = s[..l] in
      assert { forall k. 0 <= k < l -> t[k] = s[k] };
      dsorted_length t (pure { s[l] + 1 }) hi
    end

  (* a strictly descending sequence is determined by its elements *)
  let rec ghost dsorted_prefix (a b:seq int) (k:int)
    requires { dsorted a }
    requires { dsorted b }
    requires { forall x. smem x a <-> smem x b }
    requires { 0 <= k <= length a }
    ensures { k <= length b }
    ensures { forall i. 0 <= i < k -> a[i] = b[i] }
    variant { k }
  = if k > 0 then begin
      dsorted_prefix a b (k-1);
      assert { smem a[k-1] b };
      assert { exists l. k-1 <= l < length b /\ b[l] = a[k-1] };
      assert { smem b[k-1] a };
      assert { exists l. k-1 <= l < length a /\ a[l] = b[k-1] }
    end

  let lemma dsorted_ext (a b:seq int)
    requires { dsorted a }
    requires { dsorted b }
    requires { forall x. smem x a <-> smem x b }
    ensures { a = b }
  = dsorted_prefix a b (length a);
    dsorted_prefix b a (length b);
    assert { a == b }
end

module Pairs
  (* std::pair of integers: lexicographic order, std::sort of pairs *)
  use int.Int
  use seq.Seq
  use Vec
  use Sorted

  let predicate pair_lt (x y:(int,int)) : bool
    ensures { result <-> (let (a,b) = x in let (c,d) = y in a < c \/ (a = c /\ b < d)) }
  = let (a,b) = x in let (c,d) = y in a < c || (a = c && b < d)

  val sort_pair (s:seq (int,int)) : seq (int,int)
    ensures { length result = length s }
    ensures { forall x. smem x result <-> smem x s }
    ensures { forall i j. 0 <= i < j < length result -> not pair_lt result[j] result[i] }
    ensures { distinct s -> distinct result }
end

module Filters
  (* std::count_if, std::remove_if: a predicate along a sequence is given by
     the sequence of its truth values *)
  use int.Int
  use seq.Seq
  use Vec

  let rec function ones (b:seq bool) (n:int) : int
    requires { 0 <= n <= length b }
    ensures { 0 <= result <= n }
    variant { n }
  = if n = 0 then 0 else ones b (n-1) + (if b[n-1] then 1 else 0)

  (* elements whose flag is not set *)
  let rec function filt (b:seq bool) (s:seq 'a) (n:int) : seq 'a
    requires { 0 <= n <= length b /\ n <= length s }
    ensures { length result + ones b n = n }
    variant { n }
  = if n = 0 then (empty : seq 'a) else if b[n-1] then filt b s (n-1) else snoc (filt b s (n-1)) s[n-1]

  val ones_of (b:seq bool) : int
    ensures { result = ones b (length b) }
    ensures { 0 <= result < 9223372036854775808 }

  (* elements beyond the returned position are left unspecified *)
  val vremove (s:seq 'a) (b:seq bool) : (t:seq 'a, n:int)
    requires { length b = length s }
    ensures { length t = length s }
    ensures { n = length (filt b s (length s)) }
    ensures { forall i. 0 <= i < n -> t[i] = (filt b s (length s))[i] }
end

module Multi
  use int.Int
  use seq.Seq
  use Vec
  use seq.Occ

  function times (x:'a) (s:seq 'a) : int = occ x s 0 (length s)
end

module OSet
  (* std::set of integers: strictly sorted sequence of its elements *)
  use int.Int
  use seq.Seq
  use Vec
  use Sorted

  type oset = { elts : seq int }
    invariant { ssorted elts }
    by { elts = empty }

  (* operator== of std::set compares the elements *)
  axiom oset_ext : forall a b:oset. a.elts = b.elts -> a = b

  predicate omem (x:int) (s:oset) = smem x s.elts

  let oset_empty () : oset
    ensures { result.elts = empty }
    ensures { forall x. not omem x result }
  = { elts = empty }

  val oset_mem (x:int) (s:oset) : bool
    ensures { result <-> omem x s }

  val oset_add (s:oset) (x:int) : oset
    ensures { forall y. omem y result <-> y = x \/ omem y s }

  val oset_remove (s:oset) (x:int) : oset
    ensures { forall y. omem y result <-> y <> x /\ omem y s }

  val oset_add_seq (s:oset) (t:seq int) : oset
    ensures { forall y. omem y result <-> smem y t \/ omem y s }

  val oset_of_seq (t:seq int) : oset
    ensures { forall y. omem y result <-> smem y t }

  val oset_find (s:oset) (x:int) : int
    ensures { 0 <= result <= length s.elts }
    ensures { result < length s.elts -> s.elts[result] = x }
    ensures { result = length s.elts -> not omem x s }
end

module Reals
  use real.RealInfix
  use real.FromInt
  use real.Abs
  use int.Int
  use seq.Seq
  use Vec

  (* Floating point values are modelled by real numbers; the three special
     constants are ordered as IEEE orders them. *)
  val constant f_lowest : real
  val constant f_max : real
  val constant f_inf : real
  axiom f_order : f_lowest <. 0.0 <. f_max <. f_inf
  axiom f_sym : f_lowest = -. f_max

  let f_isinf (x:real) : bool
    ensures { result <-> x >=. f_inf \/ x <=. -. f_inf }
  = x >=. f_inf || x <=. -. f_inf

  let f_isfinite (x:real) : bool
    ensures { result <-> not (x >=. f_inf \/ x <=. -. f_inf) }
  = not (x >=. f_inf || x <=. -. f_inf)

  let function max_real (x y:real) : real
    ensures { result = if x <. y then y else x }
  = if x <. y then y else x

  let function min_real (x y:real) : real
    ensures { result = if y <. x then y else x }
  = if y <. x then y else x

  let function f_abs (x:real) : real
    ensures { result = abs x }
  = if x <. 0.0 then -. x else x

  val rdiv (x y:real) : real
    requires { [@expl:division by zero] y <> 0.0 }
    ensures { result = x /. y }

  val function rpow (x y:real) : real
  val function rsqrt (x:real) : real

  val i2r (x:int) : real
    ensures { result = from_int x }

  val max_element_real (s:seq real) (b e:int) : int
    requires { [@expl:valid iterator range] 0 <= b <= e <= length s }
    ensures { b <= result <= e }
    ensures { b < e -> result < e }
    ensures { forall i. b <= i < e -> s[i] <=. s[result] }

  val min_element_real (s:seq real) (b e:int) : int
    requires { [@expl:valid iterator range] 0 <= b <= e <= length s }
    ensures { b <= result <= e }
    ensures { b < e -> result < e }
    ensures { forall i. b <= i < e -> s[i] >=. s[result] }

  (* same values with the same multiplicities; defined in sums.mlw *)
  predicate permuted (s t:seq real)

  val sort_real (s:seq real) : seq real
    ensures { length result = length s }
    ensures { forall i j. 0 <= i < j < length result -> result[i] <=. result[j] }
    ensures { forall x. smem x result <-> smem x s }
    ensures { permuted s result }
end

module USet
  (* std::unordered_set *)
  use int.Int
  use seq.Seq
  use set.Fset as Fset
  use Vec
  use Sorted

  type fset 'a = Fset.fset 'a

  val uset_mem (x:'a) (s:fset 'a) : bool
    ensures { result <-> Fset.mem x s }
  val uset_add (x:'a) (s:fset 'a) : fset 'a
    ensures { result = Fset.add x s }
  val uset_remove (x:'a) (s:fset 'a) : fset 'a
    ensures { result = Fset.remove x s }
  val uset_size (s:fset 'a) : int
    ensures { result = Fset.cardinal s }
    ensures { 0 <= result < 9223372036854775808 }
  val uset_empty (s:fset 'a) : bool
    ensures { result <-> forall x. not Fset.mem x s }
  val uset_new () : fset 'a
    ensures { result = Fset.empty }
  val uset_of_seq (t:seq 'a) : fset 'a
    ensures { forall x. Fset.mem x result <-> smem x t }
  val uset_add_seq (s:fset 'a) (t:seq 'a) : fset 'a
    ensures { forall x. Fset.mem x result <-> Fset.mem x s \/ smem x t }
  (* iteration order is arbitrary *)
  val uset_elements (s:fset 'a) : seq 'a
    ensures { distinct result }
    ensures { forall x. Fset.mem x s <-> smem x result }
    ensures { length result = Fset.cardinal s }
end

module Maps
  (* std::unordered_map and std::map *)
  use int.Int
  use seq.Seq
  use Vec

  type fmap 'k 'v
  predicate mdom (k:'k) (m:fmap 'k 'v)
  function mval (m:fmap 'k 'v) (k:'k) : 'v

  predicate meq (m1 m2:fmap 'k 'v) =
    (forall k. mdom k m1 <-> mdom k m2) /\ (forall k. mdom k m1 -> mval m1 k = mval m2 k)

  val mempty () : fmap 'k 'v
    ensures { forall k. not mdom k result }
  val mmem (k:'k) (m:fmap 'k 'v) : bool
    ensures { result <-> mdom k m }
  val mget (m:fmap 'k 'v) (k:'k) : 'v
    requires { [@expl:key is present] mdom k m }
    ensures { result = mval m k }
  val function mset (m:fmap 'k 'v) (k:'k) (v:'v) : fmap 'k 'v
    ensures { forall j. mdom j result <-> j = k \/ mdom j m }
    ensures { mval result k = v }
    ensures { forall j. j <> k -> mval result j = mval m j }
  (* insert unless the key is already present *)
  val function mtouch (m:fmap 'k 'v) (k:'k) (v:'v) : fmap 'k 'v
    ensures { forall j. mdom j result <-> j = k \/ mdom j m }
    ensures { mval result k = if mdom k m then mval m k else v }
    ensures { mdom k m -> result = m }
    ensures { forall j. j <> k -> mval result j = mval m j }
  val function mremove (m:fmap 'k 'v) (k:'k) : fmap 'k 'v
    ensures { forall j. mdom j result <-> j <> k /\ mdom j m }
    ensures { forall j. mval result j = mval m j }
  val mis_empty (m:fmap 'k 'v) : bool
    ensures { result <-> forall k. not mdom k m }
  val msize (_m:fmap 'k 'v) : int
    ensures { 0 <= result < 9223372036854775808 }
  (* iteration order is arbitrary, every key exactly once *)
  val melements (m:fmap 'k 'v) : seq ('k,'v)
    ensures { forall i. 0 <= i < length result -> (let (k,v) = result[i] in mdom k m /\ v = mval m k) }
    ensures { forall k. mdom k m -> exists i. 0 <= i < length result /\ result[i] = (k, mval m k) }
    ensures { forall i j. 0 <= i < j < length result -> (let (k,_) = result[i] in let (l,_) = result[j] in k <> l) }
end

module OMaps
  use int.Int
  use seq.Seq
  use Vec
  use Maps

  (* std::map with integer keys iterates in ascending order *)
  (* largest key of an ordered map *)
  val mlast (m:fmap int 'v) : int
    requires { [@expl:map is not empty] exists k. mdom k m }
    ensures { mdom result m /\ forall k. mdom k m -> k <= result }
  val moelements (m:fmap int 'v) : seq (int,'v)
    ensures { forall i. 0 <= i < length result -> (let (k,v) = result[i] in mdom k m /\ v = mval m k) }
    ensures { forall k. mdom k m -> exists i. 0 <= i < length result /\ result[i] = (k, mval m k) }
    ensures { forall i j. 0 <= i < j < length result -> (let (k,_) = result[i] in let (l,_) = result[j] in k < l) }
end


