(* std::set<int>: the elements in increasing order (trusted model) *)
module Sets
  use stl.Stl
  type fset 'a
  val function set_elements (s : fset 'a) : seq 'a
  predicate vmem (x : 'a) (s : seq 'a) = exists k. 0 <= k < length s /\ s[k] = x
  predicate smem (x : 'a) (s : fset 'a) = exists k. 0 <= k < length (set_elements s) /\ (set_elements s)[k] = x
  predicate incr (s : seq int) = forall i j. 0 <= i < j < length s -> s[i] < s[j]
  axiom set_sorted : forall s : fset int. incr (set_elements s)
  predicate same_set (s t : fset 'a) = forall x. smem x s <-> smem x t
  axiom set_ext : forall s t : fset int. same_set s t -> s = t
  val constant set_empty : fset 'a
  axiom set_empty_elements : forall s : fset 'a. s = set_empty <-> length (set_elements s) = 0
  let lemma set_empty_mem (x : 'a) : unit ensures { not (smem x set_empty) } = assert { length (set_elements (set_empty : fset 'a)) = 0 }
  val set_size (s : fset 'a) : int ensures { result = length (set_elements s) }
  val cont_mem (x : 'a) (s : fset 'a) : bool ensures { result <-> smem x s }
  val function set_add (x : int) (s : fset int) : fset int
  axiom set_add_mem : forall x s y. smem y (set_add x s) <-> smem y s \/ y = x
  axiom set_add_size : forall x s. not (smem x s) -> length (set_elements (set_add x s)) = length (set_elements s) + 1
  val function set_add_all (l : seq int) (s : fset int) : fset int
  axiom set_add_all_mem : forall l s y. smem y (set_add_all l s) <-> smem y s \/ vmem y l
  val set_eq (s t : fset int) : bool ensures { result <-> s = t }
  predicate subset (s t : fset 'a) = forall x. smem x s -> smem x t
  let lemma set_elements_inj (s t : fset int) : unit
    requires { set_elements s = set_elements t } ensures { s = t }
  = let e = set_elements s in
    assert { forall x. smem x s <-> exists k. 0 <= k < length e /\ e[k] = x };
    assert { forall x. smem x t <-> exists k. 0 <= k < length e /\ e[k] = x };
    assert { same_set s t }
  let lemma set_add_same (x : int) (s : fset int) : unit
    requires { smem x s } ensures { set_add x s = s }
  = assert { same_set (set_add x s) s }
  let rec ghost sorted_above (s : seq int) (lo k : int) : unit
    requires { incr s /\ 0 <= k < length s } requires { forall i. 0 <= i < length s -> lo <= s[i] } variant { k }
    ensures { s[k] >= lo + k }
  = if k > 0 then sorted_above s lo (k - 1)
  let lemma set_bounded (s : fset int) (n : int) : unit
    requires { n >= 0 } requires { forall x. smem x s -> 0 <= x < n }
    ensures { length (set_elements s) <= n }
  = let e = set_elements s in
    assert { forall i. 0 <= i < length e -> smem e[i] s };
    if length e > 0 then sorted_above e 0 (length e - 1)
end
