(* std::sort: some rearrangement of the elements (the order itself is not used) *)
module Perm
  use stl.Stl
  predicate perm_idx (p : seq int) (n : int) =
    length p = n /\ (forall i. 0 <= i < n -> 0 <= p[i] < n) /\ (forall i j. 0 <= i < n -> 0 <= j < n -> p[i] = p[j] -> i = j) /\
    (forall k. 0 <= k < n -> exists i. 0 <= i < n /\ p[i] = k)
  predicate perm_by (s t : seq 'a) (p : seq int) = length t = length s /\ perm_idx p (length s) /\ forall i. 0 <= i < length t -> t[i] = s[p[i]]
  val vsort (s : seq 'a) : seq 'a ensures { exists p. perm_by s result p }
end
