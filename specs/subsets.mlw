(* there are at most 2^n distinct increasing sequences over [0, n) *)
module Subsets
  use stl.Stl
  use sets.Sets
  use pigeon.Pigeonhole
  let lemma vmem_slice (s : seq 'a) : unit ensures { forall x. vmem x s[0 .. length s] <-> vmem x s }
  = assert { s[0 .. length s] == s }
  let lemma vmem_snoc (s : seq 'a) (y : 'a) : unit ensures { forall x. vmem x (snoc s y) <-> vmem x s \/ x = y }
  = let t = snoc s y in assert { forall k. 0 <= k < length s -> t[k] = s[k] }; assert { t[length s] = y };
    assert { forall x. vmem x s -> vmem x t }
  let rec function pow2 (n : int) : int requires { n >= 0 } variant { n } ensures { result >= 1 }
  = if n = 0 then 1 else 2 * pow2 (n - 1)
  let rec ghost function mask (s : seq int) (n : int) : int requires { n >= 0 } variant { n } ensures { 0 <= result < pow2 n }
  = if n = 0 then 0 else (if pure { vmem (n - 1) s } then mask s (n - 1) + pow2 (n - 1) else mask s (n - 1))
  let rec ghost mask_inj (s t : seq int) (n x : int) : unit
    requires { n >= 0 /\ mask s n = mask t n /\ 0 <= x < n } variant { n }
    ensures { vmem x s <-> vmem x t }
  = assert { vmem (n - 1) s <-> vmem (n - 1) t };
    assert { mask s (n - 1) = mask t (n - 1) };
    if x < n - 1 then mask_inj s t (n - 1) x
  let ghost incr_ext_le (s t : seq int) : unit
    requires { incr s /\ incr t } requires { forall x. vmem x s <-> vmem x t }
    ensures { length s <= length t }
    ensures { forall i. 0 <= i < length s -> i < length t /\ s[i] = t[i] }
  = let rec aux (i : int) : unit
      requires { 0 <= i < length s } variant { i }
      ensures { forall k. 0 <= k <= i -> k < length t /\ s[k] = t[k] }
    = if i > 0 then aux (i - 1);
      assert { vmem s[i] t };
      let a = any int ensures { 0 <= result < length t /\ t[result] = s[i] } in
      if a < i then begin assert { t[a] = s[a] }; absurd end
      else if a > i then begin
        assert { vmem t[i] s };
        let b = any int ensures { 0 <= result < length s /\ s[result] = t[i] } in
        if b < i then begin assert { s[b] = t[b] /\ t[b] < t[i] }; absurd end
        else begin assert { s[i] <= s[b] /\ t[i] < t[a] }; absurd end
      end in
    if length s > 0 then begin aux (length s - 1); assert { s[length s - 1] = t[length s - 1] /\ length s - 1 < length t } end
  let ghost incr_ext (s t : seq int) : unit
    requires { incr s /\ incr t } requires { forall x. vmem x s <-> vmem x t }
    ensures { s = t }
  = incr_ext_le s t; incr_ext_le t s; assert { s == t }
  predicate within (s : seq int) (n : int) = forall k. 0 <= k < length s -> 0 <= s[k] < n
  let ghost distinct_bound (l : seq (seq int)) (n : int) : unit
    requires { n >= 0 }
    requires { forall i. 0 <= i < length l -> incr l[i] /\ within l[i] n }
    requires { forall i j. 0 <= i < j < length l -> l[i] <> l[j] }
    ensures { length l <= pow2 n }
  = if length l > pow2 n then begin
      let f = pure { fun i -> mask l[i] n } in
      pigeonhole (length l) (pow2 n) f;
      let i = any int ensures { 0 <= result < length l /\ exists j. result < j < length l /\ f result = f j } in
      let j = any int ensures { i < result < length l /\ f i = f result } in
      let si = l[i] in let sj = l[j] in
      assert { mask si n = mask sj n };
      let lemma same (x : int) : unit ensures { vmem x si <-> vmem x sj }
      = if 0 <= x < n then mask_inj si sj n x else assert { not (vmem x si) /\ not (vmem x sj) } in
      incr_ext si sj;
      absurd
    end
end
