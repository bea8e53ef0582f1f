"""Contracts for rule networks (src/core/ATN.hpp, ATN.cpp): simplification, and the reading of rules."""
import charclass

T = 'char'

PRE = r'''
  use list.List
  (* ---- a rule network: walks are lists of edge numbers *)
  type net = seq anode
  function tr (s : net) (n : int) : seq atrans = (s[n]).anode__m_transitions
  function dst (s : net) (n e : int) : int = (tr s n)[e].atrans__m_dest
  function tg (s : net) (n e : int) : int = (tr s n)[e].atrans__m_tag
  predicate blk (s : net) (n : int) = (s[n]).anode__m_type = 0
  type tok = { k_type : int; k_inv : ident; k_nfa : nfa; k_lit : seq int; k_id : int }
  function tk (a : anode) : tok = { k_type = a.anode__m_type; k_inv = a.anode__m_invoke; k_nfa = a.anode__m_nfa; k_lit = a.anode__m_literal; k_id = a.anode__m_localid }
  predicate inside (s : net) = forall n e. 0 <= n < length s -> 0 <= e < length (tr s n) -> 0 <= dst s n e < length s
  predicate ok (s : net) (mk : seq bool) (n : int) (l : list int) = match l with Nil -> true
    | Cons e t -> 0 <= e < length (tr s n) /\ 0 <= dst s n e < length s /\ mk[dst s n e] /\ ok s mk (dst s n e) t end
  function fin (s : net) (n : int) (l : list int) : int = match l with Nil -> n | Cons e t -> fin s (dst s n e) t end
  function own (s : net) (n : int) (w : list tok) : list tok = if blk s n then w else Cons (tk s[n]) w
  (* what a walk spells: the terminals, rule uses and white space on its way *)
  function spell (s : net) (n : int) (l : list int) : list tok = match l with Nil -> own s n Nil | Cons e t -> own s n (spell s (dst s n e) t) end
  (* which of two walks is preferred: decided where they first part; negative if the first *)
  function cmp (s : net) (n : int) (l m : list int) : int = match l, m with
    | Cons e t, Cons f u -> if e = f then cmp s (dst s n e) t u else tg s n e - tg s n f
    | _ -> 0 end
  predicate acc (s : net) (mk : seq bool) (l : list int) = ok s mk 0 l /\ fin s 0 l = length s - 1
  predicate pair (s : net) (mk : seq bool) (x y : list tok) (c : int) =
    exists l m. acc s mk l /\ acc s mk m /\ spell s 0 l = x /\ spell s 0 m = y /\ cmp s 0 l m = c
  (* the same sequences, and the same preference between any two of them *)
  predicate same (s : net) (mk : seq bool) (t : net) (mt : seq bool) = forall x y c. pair s mk x y c <-> pair t mt x y c
  function allof (n : int) : seq bool = create n (fun _ -> true)
  function nall (s : net) : seq bool = allof (length s)
  lemma same_trans : forall s t u ms mt mu. same s ms t mt -> same t mt u mu -> same s ms u mu
'''

STEP = r'''
  (* ---- dropping one node: the only edge into i is edge e0 of w; the edges of i are appended to those of w *)
  predicate stepped (s t : net) (w i e0 : int) =
    length t = length s /\ 0 <= w < length s /\ 0 < i < length s - 1 /\ w <> i /\ blk s i
    /\ 0 <= e0 < length (tr s w) /\ dst s w e0 = i
    /\ (forall n e. 0 <= n < length s -> 0 <= e < length (tr s n) -> dst s n e = i -> n = w /\ e = e0)
    /\ (forall n. 0 <= n < length s -> n <> w -> t[n] = s[n])
    /\ tk t[w] = tk s[w]
    /\ length (tr t w) = length (tr s w) + length (tr s i)
    /\ (forall e. 0 <= e < length (tr s w) -> (tr t w)[e] = (tr s w)[e])
    /\ (forall f. 0 <= f < length (tr s i) -> dst t w (length (tr s w) + f) = dst s i f)
  predicate alone (s : net) (mk : seq bool) (w i : int) = forall e. 0 <= e < length (tr s w) -> dst s w e = i \/ not mk[dst s w e]
  predicate ranked (s t : net) (mk : seq bool) (w i e0 : int) =
    (alone s mk w i /\ forall f. 0 <= f < length (tr s i) -> tg t w (length (tr s w) + f) = tg s i f)
    \/ ((forall f. 0 <= f < length (tr s i) -> tg s i f = tg s i 0) /\ forall f. 0 <= f < length (tr s i) -> tg t w (length (tr s w) + f) = tg s w e0)
  let rec function len (l : list int) : int ensures { result >= 0 } variant { l } = match l with Nil -> 0 | Cons _ t -> 1 + len t end
  function conv (s : net) (w e0 n : int) (l : list int) : list int = match l with Nil -> Nil
    | Cons e t -> if n = w && e = e0 then (match t with Nil -> Nil | Cons f u -> Cons (length (tr s w) + f) (conv s w e0 (dst s (dst s w e0) f) u) end)
                  else Cons e (conv s w e0 (dst s n e) t) end
  function back (s t : net) (w e0 n : int) (l : list int) : list int = match l with Nil -> Nil
    | Cons e u -> if n = w && e >= length (tr s w) then Cons e0 (Cons (e - length (tr s w)) (back s t w e0 (dst t n e) u)) else Cons e (back s t w e0 (dst t n e) u) end
  let rec ghost step_conv (s t : net) (mk mk2 : seq bool) (w i e0 n : int) (l : list int) : unit
    requires { stepped s t w i e0 /\ inside s /\ length mk = length s /\ length mk2 = length s }
    requires { forall k. 0 <= k < length s -> k <> i -> mk2[k] = mk[k] }
    requires { 0 <= n < length s /\ n <> i /\ ok s mk n l /\ fin s n l <> i } variant { len l }
    ensures { ok t mk2 n (conv s w e0 n l) } ensures { fin t n (conv s w e0 n l) = fin s n l } ensures { spell t n (conv s w e0 n l) = spell s n l }
  = assert { blk t n <-> blk s n }; assert { tk t[n] = tk s[n] };
    match l with Nil -> ()
    | Cons e u ->
      if pure { n = w /\ e = e0 } then match u with Nil -> ()
        | Cons f v -> assert { dst s i f <> i }; assert { dst t w (length (tr s w) + f) = dst s i f }; step_conv s t mk mk2 w i e0 (pure { dst s i f }) v end
      else begin assert { dst t n e = dst s n e }; assert { dst s n e <> i }; step_conv s t mk mk2 w i e0 (pure { dst s n e }) u end end
  let rec ghost step_back (s t : net) (mk mk2 : seq bool) (w i e0 n : int) (l : list int) : unit
    requires { stepped s t w i e0 /\ inside s /\ length mk = length s /\ length mk2 = length s }
    requires { forall k. 0 <= k < length s -> k <> i -> mk2[k] = mk[k] } requires { mk[i] /\ not mk2[i] }
    requires { 0 <= n < length s /\ n <> i /\ ok t mk2 n l } variant { len l }
    ensures { ok s mk n (back s t w e0 n l) } ensures { fin s n (back s t w e0 n l) = fin t n l } ensures { spell s n (back s t w e0 n l) = spell t n l }
    ensures { conv s w e0 n (back s t w e0 n l) = l }
  = assert { blk t n <-> blk s n }; assert { tk t[n] = tk s[n] };
    match l with Nil -> ()
    | Cons e u ->
      step_back s t mk mk2 w i e0 (pure { dst t n e }) u;
      if pure { n = w /\ e >= length (tr s w) } then assert { dst t w e = dst s i (e - length (tr s w)) }
      else assert { dst t n e = dst s n e /\ e <> e0 \/ n <> w }  end
  lemma cmp_diff : forall s n x p y q. x <> y -> cmp s n (Cons x p) (Cons y q) = tg s n x - tg s n y
  let ghost rank1 (s t : net) (mk : seq bool) (w i e0 f g : int) : unit
    requires { ranked s t mk w i e0 /\ 0 <= f < length (tr s i) /\ 0 <= g < length (tr s i) }
    ensures { tg t w (length (tr s w) + f) - tg t w (length (tr s w) + g) = tg s i f - tg s i g }
    ensures { not (alone s mk w i) -> tg t w (length (tr s w) + f) = tg s w e0 }
  = if pure { alone s mk w i /\ forall f. 0 <= f < length (tr s i) -> tg t w (length (tr s w) + f) = tg s i f } then ()
    else begin assert { tg s i f = tg s i 0 /\ tg s i g = tg s i 0 }; assert { tg t w (length (tr s w) + f) = tg s w e0 } end
  let rec ghost step_cmp (s t : net) (mk : seq bool) (w i e0 n : int) (l m : list int) : unit
    requires { stepped s t w i e0 /\ inside s /\ length mk = length s /\ ranked s t mk w i e0 }
    requires { 0 <= n < length s /\ n <> i /\ ok s mk n l /\ ok s mk n m /\ fin s n l <> i /\ fin s n m <> i } variant { len l }
    ensures { cmp t n (conv s w e0 n l) (conv s w e0 n m) = cmp s n l m }
  = match l with Nil -> () | Cons e u -> match m with Nil -> () | Cons f v ->
      if pure { n = w /\ e = e0 } then begin
        match u with Nil -> () | Cons e2 u2 ->
          assert { conv s w e0 n l = Cons (length (tr s w) + e2) (conv s w e0 (dst s i e2) u2) };
          if pure { f = e0 } then match v with Nil -> () | Cons f2 v2 ->
             assert { conv s w e0 n m = Cons (length (tr s w) + f2) (conv s w e0 (dst s i f2) v2) };
             if e2 = f2 then begin assert { dst s i e2 <> i }; assert { dst t w (length (tr s w) + e2) = dst s i e2 }; step_cmp s t mk w i e0 (pure { dst s i e2 }) u2 v2; assert { cmp s n l m = cmp s i u v }; assert { cmp s i u v = cmp s (dst s i e2) u2 v2 }; assert { cmp t n (conv s w e0 n l) (conv s w e0 n m) = cmp t (dst s i e2) (conv s w e0 (dst s i e2) u2) (conv s w e0 (dst s i e2) v2) }; assert { cmp t n (conv s w e0 n l) (conv s w e0 n m) = cmp s n l m } end
             else begin rank1 s t mk w i e0 e2 f2; assert { cmp s n l m = tg s i e2 - tg s i f2 }; assert { cmp t n (conv s w e0 n l) (conv s w e0 n m) = cmp s n l m } end end
          else begin assert { conv s w e0 n m = Cons f (conv s w e0 (dst s n f) v) }; assert { tg t w f = tg s w f }; assert { not (alone s mk w i) }; rank1 s t mk w i e0 e2 e2; assert { cmp t n (conv s w e0 n l) (conv s w e0 n m) = cmp s n l m } end end end
      else begin
        assert { conv s w e0 n l = Cons e (conv s w e0 (dst s n e) u) };
        if e = f then begin assert { dst t n e = dst s n e }; assert { dst s n e <> i }; step_cmp s t mk w i e0 (pure { dst s n e }) u v; assert { cmp t n (conv s w e0 n l) (conv s w e0 n m) = cmp s n l m } end
        else if pure { n = w /\ f = e0 } then match v with Nil -> () | Cons f2 v2 -> assert { conv s w e0 n m = Cons (length (tr s w) + f2) (conv s w e0 (dst s i f2) v2) }; assert { tg t w e = tg s w e }; assert { not (alone s mk w i) }; rank1 s t mk w i e0 f2 f2; assert { cmp t n (conv s w e0 n l) (conv s w e0 n m) = cmp s n l m } end
        else begin assert { conv s w e0 n m = Cons f (conv s w e0 (dst s n f) v) }; assert { tg t n e = tg s n e /\ tg t n f = tg s n f }; assert { cmp t n (conv s w e0 n l) (conv s w e0 n m) = cmp s n l m } end end end end
  let ghost step_same (s t : net) (mk mk2 : seq bool) (w i e0 : int) : unit
    requires { stepped s t w i e0 /\ inside s /\ length mk = length s /\ length mk2 = length s /\ ranked s t mk w i e0 }
    requires { forall k. 0 <= k < length s -> k <> i -> mk2[k] = mk[k] } requires { mk[i] /\ not mk2[i] }
    ensures { same s mk t mk2 } ensures { inside t }
  = let lemma fw (x y : list tok) (c : int) : unit requires { pair s mk x y c } ensures { pair t mk2 x y c }
    = let l, m = any (list int, list int) ensures { let l, m = result in acc s mk l /\ acc s mk m /\ spell s 0 l = x /\ spell s 0 m = y /\ cmp s 0 l m = c } in
      step_conv s t mk mk2 w i e0 0 l; step_conv s t mk mk2 w i e0 0 m; step_cmp s t mk w i e0 0 l m;
      assert { acc t mk2 (conv s w e0 0 l) }; assert { acc t mk2 (conv s w e0 0 m) } in
    let lemma bw (x y : list tok) (c : int) : unit requires { pair t mk2 x y c } ensures { pair s mk x y c }
    = let l, m = any (list int, list int) ensures { let l, m = result in acc t mk2 l /\ acc t mk2 m /\ spell t 0 l = x /\ spell t 0 m = y /\ cmp t 0 l m = c } in
      step_back s t mk mk2 w i e0 0 l; step_back s t mk mk2 w i e0 0 m;
      let l2 = pure { back s t w e0 0 l } in let m2 = pure { back s t w e0 0 m } in
      assert { fin s 0 l2 <> i /\ fin s 0 m2 <> i }; step_cmp s t mk w i e0 0 l2 m2;
      assert { acc s mk l2 }; assert { acc s mk m2 } in
    let lemma ins (n e : int) : unit requires { 0 <= n < length t /\ 0 <= e < length (tr t n) } ensures { 0 <= dst t n e < length t }
    = if pure { n = w } then if pure { e < length (tr s w) } then () else assert { dst t w (length (tr s w) + (e - length (tr s w))) = dst s i (e - length (tr s w)) } else () in ()
'''

COUNT = r'''
  (* ---- edges into node x among those before edge k of node i *)
  predicate sooner (n f i k : int) = n < i \/ n = i /\ f < k
  predicate none (s : net) (x i k : int) = forall n f. 0 <= n < length s -> 0 <= f < length (tr s n) -> sooner n f i k -> dst s n f <> x
  predicate only (s : net) (x w e i k : int) = 0 <= w < length s /\ 0 <= e < length (tr s w) /\ sooner w e i k /\ dst s w e = x
    /\ forall n f. 0 <= n < length s -> 0 <= f < length (tr s n) -> sooner n f i k -> dst s n f = x -> n = w /\ f = e
  predicate one (s : net) (x w i k : int) = exists e. only s x w e i k
  lemma only_first : forall s x i k. 0 <= i < length s -> 0 <= k < length (tr s i) -> none s x i k -> dst s i k = x -> only s x i k i (k + 1)
  lemma only_miss : forall s x w e i k. 0 <= i < length s -> 0 <= k < length (tr s i) -> only s x w e i k -> dst s i k <> x -> only s x w e i (k + 1)
  lemma only_row : forall s x w e i. 0 <= i < length s -> only s x w e i (length (tr s i)) -> only s x w e (i + 1) 0
  lemma one_first : forall s x i k. 0 <= i < length s -> 0 <= k < length (tr s i) -> none s x i k -> dst s i k = x -> one s x i i (k + 1)
  lemma one_miss : forall s x w i k. 0 <= i < length s -> 0 <= k < length (tr s i) -> one s x w i k -> dst s i k <> x -> one s x w i (k + 1)
  lemma one_row : forall s x w i. 0 <= i < length s -> one s x w i (length (tr s i)) -> one s x w (i + 1) 0
'''

FILT = r'''
  (* ---- leaving nodes out: the number of kept ones before i, the edges to kept ones among the first n *)
  let rec function cnt (m : seq bool) (i : int) : int variant { i } = if i <= 0 then 0 else cnt m (i - 1) + (if 0 <= i - 1 < length m && m[i - 1] then 1 else 0)
  let rec lemma cnt_mono (m : seq bool) (i j : int) : unit requires { 0 <= i <= j } variant { j } ensures { 0 <= cnt m i <= cnt m j }
  = if i < j then cnt_mono m i (j - 1) else if i > 0 then cnt_mono m (i - 1) (i - 1)
  let ghost cnt_lt (m : seq bool) (i : int) : unit requires { 0 <= i < length m }
    ensures { m[i] -> cnt m (i + 1) = cnt m i + 1 } ensures { not m[i] -> cnt m (i + 1) = cnt m i }
    ensures { forall j. 0 <= j < i -> m[j] -> cnt m j < cnt m i }
  = let lemma one (j : int) : unit requires { 0 <= j < i /\ m[j] } ensures { cnt m j < cnt m i } = assert { cnt m (j + 1) = cnt m j + 1 }; cnt_mono m (j + 1) i in ()
  let rec function ith (m : seq bool) (n j : int) : int variant { n } = if n <= 0 then 0 else if n <= length m && m[n - 1] && cnt m (n - 1) = j then n - 1 else ith m (n - 1) j
  let rec ghost cnt_onto (m : seq bool) (n : int) : unit requires { 0 <= n <= length m } variant { n }
    ensures { forall j. 0 <= j < cnt m n -> 0 <= ith m n j < n /\ m[ith m n j] /\ cnt m (ith m n j) = j } ensures { 0 <= cnt m n <= n }
  = if n > 0 then cnt_onto m (n - 1)
  let rec function fe (m : seq bool) (s : seq atrans) (n : int) : seq atrans variant { n }
  = if n <= 0 || n > length s then empty else
    let d = s[n - 1].atrans__m_dest in if 0 <= d < length m && m[d] then snoc (fe m s (n - 1)) s[n - 1] else fe m s (n - 1)
  predicate keeps (m : seq bool) (s : seq atrans) (e : int) = 0 <= e < length s /\ 0 <= s[e].atrans__m_dest < length m /\ m[s[e].atrans__m_dest]
  let rec ghost fe_pos (m : seq bool) (s : seq atrans) (n e : int) : unit requires { 0 <= e < n <= length s /\ keeps m s e } variant { n }
    ensures { 0 <= length (fe m s e) < length (fe m s n) } ensures { (fe m s n)[length (fe m s e)] = s[e] }
    ensures { forall f. e < f <= n -> length (fe m s f) > length (fe m s e) }
  = if e < n - 1 then begin fe_pos m s (n - 1) e; assert { fe m s n = fe m s (n - 1) \/ fe m s n = snoc (fe m s (n - 1)) s[n - 1] } end
    else assert { fe m s n = snoc (fe m s e) s[e] }
  let rec ghost fe_onto (m : seq bool) (s : seq atrans) (n k : int) : int requires { 0 <= n <= length s /\ 0 <= k < length (fe m s n) } variant { n }
    ensures { 0 <= result < n /\ keeps m s result /\ length (fe m s result) = k }
  = let d = pure { s[n - 1].atrans__m_dest } in
    assert { keeps m s (n - 1) -> fe m s n = snoc (fe m s (n - 1)) s[n - 1] }; assert { not (keeps m s (n - 1)) -> fe m s n = fe m s (n - 1) };
    if pure { length (fe m s (n - 1)) > k } then fe_onto m s (n - 1) k else n - 1
  predicate filtered (s t : net) (mk : seq bool) =
    length mk = length s /\ length t = cnt mk (length s)
    /\ (forall n. 0 <= n < length s -> mk[n] -> tk t[cnt mk n] = tk s[n] /\ length (tr t (cnt mk n)) = length (fe mk (tr s n) (length (tr s n))))
    /\ (forall n k. 0 <= n < length s -> mk[n] -> 0 <= k < length (fe mk (tr s n) (length (tr s n))) ->
         dst t (cnt mk n) k = cnt mk (fe mk (tr s n) (length (tr s n)))[k].atrans__m_dest /\ tg t (cnt mk n) k = (fe mk (tr s n) (length (tr s n)))[k].atrans__m_tag)
  function nr (mk : seq bool) (s : net) (n e : int) : int = length (fe mk (tr s n) e)
  function fwd (s : net) (mk : seq bool) (n : int) (l : list int) : list int = match l with Nil -> Nil | Cons e u -> Cons (nr mk s n e) (fwd s mk (dst s n e) u) end
  let ghost edge_fwd (s t : net) (mk : seq bool) (n e : int) : unit
    requires { filtered s t mk /\ inside s /\ 0 <= n < length s /\ mk[n] /\ 0 <= e < length (tr s n) /\ mk[dst s n e] }
    ensures { 0 <= nr mk s n e < length (tr t (cnt mk n)) /\ dst t (cnt mk n) (nr mk s n e) = cnt mk (dst s n e) /\ tg t (cnt mk n) (nr mk s n e) = tg s n e }
    ensures { 0 <= cnt mk (dst s n e) < length t }
    ensures { forall f. e < f <= length (tr s n) -> nr mk s n f > nr mk s n e }
  = fe_pos mk (pure { tr s n }) (pure { length (tr s n) }) e; cnt_lt mk (pure { dst s n e }); cnt_mono mk (pure { dst s n e + 1 }) (length s); cnt_mono mk 0 (pure { dst s n e })
  let rec ghost filt_fwd (s t : net) (mk : seq bool) (n : int) (l : list int) : unit
    requires { filtered s t mk /\ inside s /\ 0 <= n < length s /\ mk[n] /\ ok s mk n l } variant { l }
    ensures { ok t (nall t) (cnt mk n) (fwd s mk n l) } ensures { fin t (cnt mk n) (fwd s mk n l) = cnt mk (fin s n l) } ensures { spell t (cnt mk n) (fwd s mk n l) = spell s n l }
    ensures { 0 <= fin s n l < length s /\ mk[fin s n l] }
  = assert { tk t[cnt mk n] = tk s[n] }; assert { blk t (cnt mk n) <-> blk s n };
    match l with Nil -> () | Cons e u -> edge_fwd s t mk n e; filt_fwd s t mk (pure { dst s n e }) u end
  let rec ghost filt_back (s t : net) (mk : seq bool) (n : int) (k : list int) : list int
    requires { filtered s t mk /\ inside s /\ 0 <= n < length s /\ mk[n] /\ ok t (nall t) (cnt mk n) k } variant { k }
    ensures { ok s mk n result } ensures { fwd s mk n result = k }
  = match k with Nil -> Nil
    | Cons f u -> let e = fe_onto mk (pure { tr s n }) (pure { length (tr s n) }) f in edge_fwd s t mk n e; assert { nr mk s n e = f };
        Cons e (filt_back s t mk (pure { dst s n e }) u) end
  let rec ghost filt_cmp (s t : net) (mk : seq bool) (n : int) (l m : list int) : unit
    requires { filtered s t mk /\ inside s /\ 0 <= n < length s /\ mk[n] /\ ok s mk n l /\ ok s mk n m } variant { l }
    ensures { cmp t (cnt mk n) (fwd s mk n l) (fwd s mk n m) = cmp s n l m }
  = match l with Nil -> () | Cons e u -> match m with Nil -> () | Cons f v ->
      edge_fwd s t mk n e; edge_fwd s t mk n f; assert { fwd s mk n l = Cons (nr mk s n e) (fwd s mk (dst s n e) u) }; assert { fwd s mk n m = Cons (nr mk s n f) (fwd s mk (dst s n f) v) };
      if e = f then filt_cmp s t mk (pure { dst s n e }) u v else assert { nr mk s n e <> nr mk s n f } end end
  let ghost filt_same (s t : net) (mk : seq bool) : unit
    requires { filtered s t mk /\ inside s /\ length s > 0 /\ mk[0] /\ mk[length s - 1] }
    ensures { same s mk t (nall t) } ensures { inside t } ensures { length t > 0 }
  = cnt_lt mk 0; cnt_lt mk (length s - 1); cnt_mono mk 0 (length s); cnt_mono mk 1 (length s); cnt_onto mk (length s); assert { cnt mk (length s - 1) = length t - 1 };
    let lemma last (n : int) : unit requires { 0 <= n < length s /\ mk[n] } ensures { cnt mk n = length t - 1 <-> n = length s - 1 }
    = if n < length s - 1 then cnt_lt mk (length s - 1) in
    let lemma fw (x y : list tok) (c : int) : unit requires { pair s mk x y c } ensures { pair t (nall t) x y c }
    = let l, m = any (list int, list int) ensures { let l, m = result in acc s mk l /\ acc s mk m /\ spell s 0 l = x /\ spell s 0 m = y /\ cmp s 0 l m = c } in
      filt_fwd s t mk 0 l; filt_fwd s t mk 0 m; filt_cmp s t mk 0 l m; assert { acc t (nall t) (fwd s mk 0 l) }; assert { acc t (nall t) (fwd s mk 0 m) } in
    let lemma bw (x y : list tok) (c : int) : unit requires { pair t (nall t) x y c } ensures { pair s mk x y c }
    = let k, j = any (list int, list int) ensures { let l, m = result in acc t (nall t) l /\ acc t (nall t) m /\ spell t 0 l = x /\ spell t 0 m = y /\ cmp t 0 l m = c } in
      let l = filt_back s t mk 0 k in let m = filt_back s t mk 0 j in
      filt_fwd s t mk 0 l; filt_fwd s t mk 0 m; filt_cmp s t mk 0 l m; assert { acc s mk l }; assert { acc s mk m } in
    let lemma ins (j e : int) : unit requires { 0 <= j < length t /\ 0 <= e < length (tr t j) } ensures { 0 <= dst t j e < length t }
    = let n = ith mk (length s) j in assert { 0 <= n < length s /\ mk[n] /\ cnt mk n = j };
      let o = fe_onto mk (pure { tr s n }) (pure { length (tr s n) }) e in edge_fwd s t mk n o in ()
'''

def functions():
    F = {}
    M, N = 'ATNMachine<%s>' % T, 'ATNNode<%s>' % T
    nd = '!this.amach__m_nodes'
    hit = 'dst this.amach__m_nodes %s %s = index'
    this = 'this.amach__m_nodes'
    def inv(i, k): return ['!count >= 0', '!count = 0 -> none %s index %s %s' % (this, i, k), '!count = 1 -> one %s index !where %s %s' % (this, i, k)]
    F['count_in'] = dict(key=M + '::count_incoming_edges', requires=[],
        ensures=['a single edge is the only one:: result = 1 -> one %s index !where (length %s) 0' % (this, this),
                 'no edge is none:: result = 0 -> none %s index (length %s) 0' % (this, this), 'result >= 0'],
        loops=[dict(inv=['0 <= !i <= length ' + this] + inv('!i', '0'), var=['length %s - !i' % this]), dict(inv=['0 <= !i < length ' + this] + inv('!i', '@ix'))])
    d0 = 'd0.amach__m_nodes'
    nodeinv = ['!this = d0', '0 <= !src_index <= length %s' % d0, 'length !index_map = length %s' % d0, '!dest_index = cnt mask !src_index', 'length !nodes = !dest_index',
               'forall i. 0 <= i < !src_index -> (!index_map)[i] = if mask[i] then cnt mask i else -1',
               'forall i. 0 <= i < !src_index -> mask[i] -> 0 <= cnt mask i < !dest_index /\\ tk (!nodes)[cnt mask i] = tk %s[i] /\\ tr !nodes (cnt mask i) = fe mask (tr %s i) (length (tr %s i))' % (d0, d0, d0)]
    ren = ['length !nodes = length n1', 'forall j. 0 <= j < length n1 -> tk (!nodes)[j] = tk n1[j] /\\ length (tr !nodes j) = length (tr n1 j)',
           'forall j k. 0 <= j < length n1 -> 0 <= k < length (tr n1 j) -> tg !nodes j k = tg n1 j k', '!index_map = im', '!this = d0']
    rend = lambda c: 'forall j k. 0 <= j < length n1 -> 0 <= k < length (tr n1 j) -> dst !nodes j k = if %s then im[dst n1 j k] else dst n1 j k' % c
    F['filter'] = dict(key=M + '::filter_nodes', requires=['length mask = length ' + nd, 'inside ' + nd],
        ensures=['kept nodes keep what they stand for and their edges to kept nodes, with their ranking:: filtered (old !this).amach__m_nodes %s mask' % nd, '!this.amach__m_globalid = (old !this).amach__m_globalid'],
        ghost={'entry': 'let ghost d0 = !this in cnt_onto mask (length %s);' % d0, 'begin0': 'cnt_lt mask !src_index; let ghost s0 = !src_index in let ghost n0 = !nodes in',
               'end0': 'assert { not mask[s0] -> !nodes = n0 }; assert { mask[s0] -> forall j. 0 <= j < length n0 -> (!nodes)[j] = n0[j] }; assert { mask[s0] -> cnt mask s0 = length n0 /\\ tr !nodes (cnt mask s0) = fe mask (tr %s s0) (length (tr %s s0)) };' % (d0, d0),
               'before2': '''cnt_onto mask (length %(d)s); let ghost n1 = !nodes in let ghost im = !index_map in
                  let ghost lemma dok (j k : int) : unit requires { 0 <= j < length n1 /\\ 0 <= k < length (tr n1 j) }
                    ensures { 0 <= dst n1 j k < length %(d)s } ensures { mask[dst n1 j k] }
                  = let i = ith mask (length %(d)s) j in assert { 0 <= i < length %(d)s /\\ mask[i] /\\ cnt mask i = j };
                    let _ = fe_onto mask (pure { tr %(d)s i }) (pure { length (tr %(d)s i) }) k in fe_pos mask (pure { tr %(d)s i }) (pure { length (tr %(d)s i) }) (fe_onto mask (pure { tr %(d)s i }) (pure { length (tr %(d)s i) }) k) in''' % dict(d=d0),
               'before3': 'let ghost j0 = !ix_n in'},
        loops=[dict(inv=nodeinv, var=['length %s - !src_index' % d0]), dict(inv=['!this = d0', '!filtered = fe mask (tr %s !src_index) @ix' % d0]),
               dict(inv=ren + [rend('j < @ix')]), dict(inv=ren + [rend('(j < j0 || j = j0 && k < @ix)')])])
    g0 = 'g0.amach__m_nodes'
    F['drop'] = dict(key=M + '::drop_passthrough_nodes', requires=['inside ' + nd, 'length %s > 0' % nd],
        ensures=['the same sequences with the same preferences:: same (old !this).amach__m_nodes (nall (old !this).amach__m_nodes) %s (nall %s)' % (nd, nd),
                 'every transition stays inside the network:: inside ' + nd, 'length %s > 0' % nd, '!this.amach__m_globalid = (old !this).amach__m_globalid'],
        ghost={'entry': 'let ghost g0 = !this in let ghost g1 = ref !this in let ghost n0 = ref %s in let ghost e0 = ref 0 in' % g0, 'before1': 'n0 := !this.amach__m_nodes; e0 := any int ensures { only !n0 !i !where result (length !n0) 0 };',
               'before0': 'assert { !mask == nall %s };' % g0, 'after3': '''assert { only !n0 !i !where !e0 (length !n0) 0 }; assert { forall f. 0 <= f < length (tr !n0 !i) -> dst !this.amach__m_nodes !where (length (tr !n0 !where) + f) = dst !n0 !i f }; assert { stepped !n0 !this.amach__m_nodes !where !i !e0 }; assert { !priority = tg !n0 !where !e0 }; assert { !sole = True <-> alone !n0 !mask !where !i }; assert { !sole = True -> forall f. 0 <= f < length (tr !n0 !i) -> tg !this.amach__m_nodes !where (length (tr !n0 !where) + f) = tg !n0 !i f };
                assert { not (!sole = True) -> forall f. 0 <= f < length (tr !n0 !i) -> tg !n0 !i f = tg !n0 !i 0 }; assert { not (!sole = True) -> forall f. 0 <= f < length (tr !n0 !i) -> tg !this.amach__m_nodes !where (length (tr !n0 !where) + f) = tg !n0 !where !e0 };
                assert { ranked !n0 !this.amach__m_nodes !mask !where !i !e0 }; step_same !n0 !this.amach__m_nodes !mask (pure { set !mask !i false }) !where !i !e0;''', 'exit': 'filt_same !g1.amach__m_nodes !this.amach__m_nodes !mask;', 'after0': 'g1 := !this;'},
        loops=[dict(inv=['length %s = length %s' % (nd, g0), 'length !mask = length ' + g0, '1 <= !i', 'inside ' + nd, '(!mask)[0] /\\ (!mask)[length %s - 1]' % g0,
                         'forall k. !i <= k < length %s -> (!mask)[k]' % g0, '!this.amach__m_globalid = g0.amach__m_globalid',
                         'the dropped nodes so far change nothing:: same %s (nall %s) %s !mask' % (g0, g0, nd)], var=['length %s - !i' % g0]),
               dict(inv=['forall e. 0 <= e < @ix -> dst !n0 !where e = !i -> !priority = tg !n0 !where e', '!sole = True <-> forall e. 0 <= e < @ix -> dst !n0 !where e = !i \\/ not (!mask)[dst !n0 !where e]']),
               dict(inv=['!uniform = True <-> forall f. 0 <= f < @ix -> tg !n0 !i f = tg !n0 !i 0']),
               dict(inv=['length %s = length !n0' % nd, 'forall n. 0 <= n < length !n0 -> n <> !where -> (%s)[n] = (!n0)[n]' % nd, 'tk (%s)[!where] = tk (!n0)[!where]' % nd, '!this.amach__m_globalid = g0.amach__m_globalid',
                         'length (tr %s !where) = length (tr !n0 !where) + @ix' % nd, 'forall e. 0 <= e < length (tr !n0 !where) -> (tr %s !where)[e] = (tr !n0 !where)[e]' % nd,
                         'forall f. 0 <= f < @ix -> dst %s !where (length (tr !n0 !where) + f) = dst !n0 !i f' % nd,
                         'forall f. 0 <= f < @ix -> tg %s !where (length (tr !n0 !where) + f) = if !sole then tg !n0 !i f else !priority' % nd])])
    return F

def spec():
    a = charclass.spec(T)
    return dict(tu='#include "CompositeATN.hpp"\n#include "CharClass.cpp"\n#include "ATN.cpp"\n',
        files=['ATN.hpp', 'ATN.cpp', 'Identifier.hpp', 'NFA.hpp', 'CharClass.hpp'],
        typenames=dict(a['typenames'], **{'Identifier': 'ident', 'NFATransition<%s>' % T: 'ntrans', 'NFABaseState<%s,int>' % T: 'nstate', 'NFABase<NFABaseState<%s,int>>' % T: 'nbase', 'NFA<%s>' % T: 'nfa',
            'ATNTransition<%s>' % T: 'atrans', 'ATNNode<%s>' % T: 'anode', 'ATNMachine<%s>' % T: 'amach'}),
        tyaliases={'NFAState<%s>' % T: 'NFABaseState<%s,int>' % T},
        types=a['types'] + ['ATNMachine<%s>' % T], preamble=PRE + STEP + COUNT + FILT, functions=functions())
