(* Models of the C++ standard-library operations the extracted code uses.
   vectors/strings/arrays are mathematical sequences; iterators into them are indices.
   Everything marked `val` here without a body is part of the trusted base; the rest is
   defined or proved. *)
module Stl
  use export int.Int
  use export ref.Ref
  use export seq.Seq
  use int.ComputerDivision as CD
  use int.EuclideanDivision as ED

  exception CppThrow
  type opaque

  let cpp_assert_fail () : unit
    requires { [@expl:assert() holds] false }
  = absurd

  let function eqb (a b : bool) : bool = if a then b else not b

  (* ---- machine integers *)
  let function to_u8 (x : int) : int ensures { 0 <= result <= 255 } ensures { 0 <= x <= 255 -> result = x }
    = if 0 <= x && x <= 255 then x else ED.mod x 256
  let function to_i8 (x : int) : int = let y = ED.mod x 256 in if y >= 128 then y - 256 else y
  let function to_u16 (x : int) : int = if 0 <= x && x < 65536 then x else ED.mod x 65536
  let function to_i16 (x : int) : int = if -32768 <= x && x < 32768 then x else let y = ED.mod x 65536 in if y >= 32768 then y - 65536 else y
  let function to_u32 (x : int) : int = if 0 <= x && x < 4294967296 then x else ED.mod x 4294967296
  let function to_i32 (x : int) : int = if -2147483648 <= x && x < 2147483648 then x else
     let y = ED.mod x 4294967296 in if y >= 2147483648 then y - 4294967296 else y
  let function to_u64 (x : int) : int = if 0 <= x && x < 18446744073709551616 then x else ED.mod x 18446744073709551616
  let function to_i64 (x : int) : int = if -9223372036854775808 <= x && x < 9223372036854775808 then x else
     let y = ED.mod x 18446744073709551616 in if y >= 9223372036854775808 then y - 18446744073709551616 else y
  let usub (a b : int) : int
    requires { [@expl:unsigned subtraction does not wrap] b <= a }
    ensures { result = a - b }
  = a - b
  let cdiv (a b : int) : int requires { [@expl:division by zero] b <> 0 } ensures { result = CD.div a b } = CD.div a b
  let cmod (a b : int) : int requires { [@expl:division by zero] b <> 0 } ensures { result = CD.mod a b } = CD.mod a b

  (* ---- vectors *)
  let vget (s : seq 'a) (i : int) : 'a
    requires { [@expl:index in bounds] 0 <= i < length s } ensures { result = s[i] }
  = s[i]
  let vset (s : seq 'a) (i : int) (v : 'a) : seq 'a
    requires { [@expl:index in bounds] 0 <= i < length s } ensures { result = set s i v }
  = set s i v
  let vback (s : seq 'a) : 'a
    requires { [@expl:back of a non-empty vector] length s > 0 } ensures { result = s[length s - 1] }
  = s[length s - 1]
  let vfront (s : seq 'a) : 'a
    requires { [@expl:front of a non-empty vector] length s > 0 } ensures { result = s[0] }
  = s[0]
  let vset_back (s : seq 'a) (v : 'a) : seq 'a
    requires { [@expl:back of a non-empty vector] length s > 0 } ensures { result = set s (length s - 1) v }
  = set s (length s - 1) v
  let vset_front (s : seq 'a) (v : 'a) : seq 'a
    requires { [@expl:front of a non-empty vector] length s > 0 } ensures { result = set s 0 v }
  = set s 0 v
  let vpop (s : seq 'a) : seq 'a
    requires { [@expl:pop_back of a non-empty vector] length s > 0 } ensures { result = s[0 .. length s - 1] }
  = s[0 .. length s - 1]
  let vslice (s : seq 'a) (i j : int) : seq 'a
    requires { [@expl:iterator range valid] 0 <= i <= j <= length s } ensures { result = s[i .. j] }
  = s[i .. j]
  let vinsert (s : seq 'a) (p : int) (t : seq 'a) : seq 'a
    requires { [@expl:insert position valid] 0 <= p <= length s }
    ensures { p = length s -> result = s ++ t }
    ensures { result = s[0 .. p] ++ t ++ s[p ..] }
  = if p = length s then begin assert { s[0 .. p] == s }; assert { s ++ t == s[0 .. p] ++ t ++ s[p ..] } end;
    s[0 .. p] ++ t ++ s[p ..]
  let verase (s : seq 'a) (i j : int) : seq 'a
    requires { [@expl:erase range valid] 0 <= i <= j <= length s } ensures { result = s[0 .. i] ++ s[j ..] }
  = s[0 .. i] ++ s[j ..]
  let vmake (n : int) (v : 'a) : seq 'a
    requires { [@expl:vector size non-negative] n >= 0 }
    ensures { length result = n } ensures { forall i. 0 <= i < n -> result[i] = v }
  = create n (fun _ -> v)
  let vresize (s : seq 'a) (n : int) (v : 'a) : seq 'a
    requires { [@expl:vector size non-negative] n >= 0 }
    ensures { length result = n }
    ensures { forall i. 0 <= i < n -> result[i] = if i < length s then s[i] else v }
    ensures { n <= length s -> result = s[0 .. n] }
  = if n <= length s then s[0 .. n] else
    let r = create n (fun i -> if i < length s then s[i] else v) in r

  (* ---- algorithms with a pure element predicate *)
  predicate pfound (p : 'a -> bool) (s : seq 'a) (i : int) = 0 <= i < length s /\ p s[i]
  let vfind_if (p : 'a -> bool) (s : seq 'a) : int
    ensures { 0 <= result <= length s }
    ensures { result < length s -> p s[result] }
    ensures { forall k. 0 <= k < result -> not (p s[k]) }
  = let i = ref 0 in
    while !i < length s && not (p s[!i]) do
      invariant { 0 <= !i <= length s }
      invariant { forall k. 0 <= k < !i -> not (p s[k]) }
      variant { length s - !i }
      i := !i + 1
    done;
    !i
  let vany_of (p : 'a -> bool) (s : seq 'a) : bool
    ensures { result <-> exists k. 0 <= k < length s /\ p s[k] }
  = vfind_if p s < length s
  let vall_of (p : 'a -> bool) (s : seq 'a) : bool
    ensures { result <-> forall k. 0 <= k < length s -> p s[k] }
  = vfind_if (fun x -> not (p x)) s = length s
  let vnone_of (p : 'a -> bool) (s : seq 'a) : bool
    ensures { result <-> forall k. 0 <= k < length s -> not (p s[k]) }
  = vfind_if p s = length s
  let veq_prefix (e : 'a -> 'a -> bool) (s t : seq 'a) : bool
    requires { [@expl:std::equal second range long enough] length s <= length t }
    ensures { result <-> forall k. 0 <= k < length s -> e s[k] t[k] }
  = let i = ref 0 in
    while !i < length s && e s[!i] t[!i] do
      invariant { 0 <= !i <= length s }
      invariant { forall k. 0 <= k < !i -> e s[k] t[k] }
      variant { length s - !i }
      i := !i + 1
    done;
    !i = length s
  let veq (e : 'a -> 'a -> bool) (s t : seq 'a) : bool
    ensures { result <-> length s = length t /\ forall k. 0 <= k < length s -> e s[k] t[k] }
  = length s = length t && veq_prefix e s t

  val function seq_int_eq (s t : seq int) : bool ensures { result <-> s = t }

  (* ---- wide-character classification: only the facts that hold in every locale *)
  function c_iswspace (c : int) : int
  axiom iswspace_facts : c_iswspace 0 = 0 /\ c_iswspace 47 = 0 /\ c_iswspace 42 = 0 /\ c_iswspace 32 <> 0 /\ c_iswspace 9 <> 0 /\ c_iswspace 10 <> 0 /\ c_iswspace 13 <> 0
  val c_iswspace (c : int) : int ensures { result = c_iswspace c }

  (* ---- pairs and tuples *)
  type tup2 'a 'b = { t20 : 'a; t21 : 'b }
  type tup3 'a 'b 'c = { t30 : 'a; t31 : 'b; t32 : 'c }
  type tup4 'a 'b 'c 'd = { t40 : 'a; t41 : 'b; t42 : 'c; t43 : 'd }
end

module Heap
  use int.Int
  (* typed memory: address -> value *)
  type heap 'a
  val function hget (h : heap 'a) (p : int) : 'a
  val function hset (h : heap 'a) (p : int) (v : 'a) : heap 'a
  axiom hget_hset : forall h : heap 'a, p q v. hget (hset h p v) q = if q = p then v else hget h q
end
