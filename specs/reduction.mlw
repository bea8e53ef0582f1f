(* Serial meaning of a parse trace, and how a partially reduced stack represents what is left of a chunk. *)
module Reduction
  use stl.Stl

  constant two48 : int = 281474976710656
  constant two63 : int = 9223372036854775808
  predicate u64 (w : int) = 0 <= w < 18446744073709551616
  function w_off (w : int) : int = ED.mod w two48
  function w_id (w : int) : int = ED.mod (ED.div w two48) 32768
  predicate w_sgn (w : int) = w >= two63

  type cstmarker = { cstmarker__m_value : int }
  type tok = TS int | TE int | TV int
  type call = { c_id : int; c_start : int; c_end : int; c_vals : seq int }
  (* what the action returns: any function of its arguments *)
  function act (c : call) : int

  let ghost sq_last (b : seq 'a) : unit
    requires { length b > 0 } ensures { b = snoc b[0 .. length b - 1] b[length b - 1] }
  = assert { b == snoc b[0 .. length b - 1] b[length b - 1] }
  let ghost sq_cat_snoc (a b : seq 'a) (t : 'a) : unit
    ensures { a ++ snoc b t = snoc (a ++ b) t }
  = assert { a ++ snoc b t == snoc (a ++ b) t }
  let ghost sq_split (r : seq 'a) (p : int) : unit
    requires { 0 <= p <= length r } ensures { r = r[0 .. p] ++ r[p .. length r] }
  = assert { r == r[0 .. p] ++ r[p .. length r] }
  let ghost sq_empty (a : seq 'a) : unit
    ensures { a ++ empty = a } ensures { empty ++ a = a } ensures { length a = 0 -> a = empty }
  = assert { a ++ empty == a }; assert { empty ++ a == a }; assert { length a = 0 -> a == empty }

  let ghost sq_pre (t : seq 'a) (a b : int) : unit
    requires { 0 <= a <= b <= length t } ensures { t[0 .. b][0 .. a] = t[0 .. a] }
  = assert { forall j. 0 <= j < a -> t[0 .. b][0 .. a][j] = t[j] }; assert { t[0 .. b][0 .. a] == t[0 .. a] }

  predicate is_s (t : tok) = match t with TS _ -> true | _ -> false end
  predicate is_e (t : tok) = match t with TE _ -> true | _ -> false end
  function tokval (t : tok) : int = match t with TV v -> v | TS v -> v | TE v -> v end

  (* position of the last begin marker, -1 if there is none *)
  let rec ghost function lasts (k : seq tok) (n : int) : int
    requires { 0 <= n <= length k } variant { n }
    ensures { -1 <= result < n }
    ensures { result >= 0 -> is_s k[result] }
    ensures { forall j. result < j < n -> not (is_s k[j]) }
  = if n = 0 then -1 else match k[n - 1] with TS _ -> n - 1 | _ -> lasts k (n - 1) end
  function lastb (k : seq tok) : int = lasts k (length k)

  let ghost lastb_is (k : seq tok) (p : int) : unit
    requires { -1 <= p < length k } requires { p >= 0 -> is_s k[p] } requires { forall j. p < j < length k -> not (is_s k[j]) }
    ensures { lastb k = p }
  = ()

  function vals_from (k : seq tok) (p : int) : seq int = create (length k - p) (fun j -> tokval k[p + j])
  function mkcall (k : seq tok) (m : int) : call =
    { c_id = w_id m; c_start = w_off (tokval k[lastb k]); c_end = w_off m; c_vals = vals_from k (lastb k + 1) }
  function push (k : seq tok) (v : int) : seq tok = if v = 0 then k else snoc k (TV v)
  (* one step of the serial pass: new stack, and the calls made (at most one) *)
  function stepk (k : seq tok) (t : tok) : seq tok =
    match t with
    | TE m -> if lastb k >= 0 then push k[0 .. lastb k] (act (mkcall k m)) else snoc k t
    | _ -> snoc k t
    end
  function stepc (k : seq tok) (t : tok) : seq call =
    match t with
    | TE m -> if lastb k >= 0 then snoc empty (mkcall k m) else empty
    | _ -> empty
    end
  let rec ghost function foldk (k : seq tok) (w : seq tok) (n : int) : seq tok
    requires { 0 <= n <= length w } variant { n }
  = if n = 0 then k else stepk (foldk k w (n - 1)) w[n - 1]
  let rec ghost function foldc (k : seq tok) (w : seq tok) (n : int) : seq call
    requires { 0 <= n <= length w } variant { n }
  = if n = 0 then empty else foldc k w (n - 1) ++ stepc (foldk k w (n - 1)) w[n - 1]
  function run (k w : seq tok) : seq tok = foldk k w (length w)
  function runc (k w : seq tok) : seq call = foldc k w (length w)

  (* folding depends only on the tokens folded *)
  let rec ghost fold_prefix (k w1 w2 : seq tok) (n : int) : unit
    requires { 0 <= n <= length w1 /\ n <= length w2 } requires { forall j. 0 <= j < n -> w1[j] = w2[j] } variant { n }
    ensures { foldk k w1 n = foldk k w2 n } ensures { foldc k w1 n = foldc k w2 n }
  = if n > 0 then fold_prefix k w1 w2 (n - 1)
  let ghost run_snoc (k w : seq tok) (t : tok) : unit
    ensures { run k (snoc w t) = stepk (run k w) t }
    ensures { runc k (snoc w t) = runc k w ++ stepc (run k w) t }
  = fold_prefix k w (snoc w t) (length w)
  let rec ghost run_cat (k a b : seq tok) : unit
    variant { length b }
    ensures { run k (a ++ b) = run (run k a) b }
    ensures { runc k (a ++ b) = runc k a ++ runc (run k a) b }
  = if length b > 0 then begin
      let b0 = b[0 .. length b - 1] in let t = b[length b - 1] in
      run_cat k a b0;
      sq_last b; sq_cat_snoc a b0 t; assert { b = snoc b0 t }; assert { a ++ b = snoc (a ++ b0) t };
      run_snoc k (a ++ b0) t; run_snoc (run k a) b0 t;
      assert { (runc k a ++ runc (run k a) b0) ++ stepc (run (run k a) b0) t == runc k a ++ (runc (run k a) b0 ++ stepc (run (run k a) b0) t) }
    end else begin assert { a ++ b == a }; assert { runc k a ++ empty == runc k a } end
  let rec ghost run_noend (k w : seq tok) : unit
    requires { forall j. 0 <= j < length w -> not (is_e w[j]) } variant { length w }
    ensures { run k w = k ++ w } ensures { runc k w = empty }
  = if length w > 0 then begin
      let w0 = w[0 .. length w - 1] in let t = w[length w - 1] in
      run_noend k w0; sq_last w; assert { w = snoc w0 t }; run_snoc k w0 t;
      sq_last w; sq_cat_snoc k w0 t; assert { runc k w = empty ++ empty }; sq_empty (empty : seq call)
    end else assert { k ++ w == k }

  (* bags of calls *)
  let rec ghost function cnt (c : call) (s : seq call) (n : int) : int
    requires { 0 <= n <= length s } variant { n }
  = if n = 0 then 0 else cnt c s (n - 1) + (if pure { s[n - 1] = c } then 1 else 0)
  function bag (c : call) (s : seq call) : int = cnt c s (length s)
  let rec ghost cnt_prefix (c : call) (s t : seq call) (n : int) : unit
    requires { 0 <= n <= length s /\ n <= length t } requires { forall j. 0 <= j < n -> s[j] = t[j] } variant { n }
    ensures { cnt c s n = cnt c t n }
  = if n > 0 then cnt_prefix c s t (n - 1)
  let rec lemma bag_cat (c : call) (s t : seq call) : unit
    variant { length t }
    ensures { bag c (s ++ t) = bag c s + bag c t }
  = if length t > 0 then begin
      let t0 = t[0 .. length t - 1] in
      bag_cat c s t0; cnt_prefix c (s ++ t) (s ++ t0) (length (s ++ t0)); cnt_prefix c t t0 (length t0)
    end else cnt_prefix c (s ++ t) s (length s)

  (* --- reducing a chunk on its own and running what it leaves gives what running the chunk gives *)
  predicate order (k : seq tok) =  (* no end marker above a begin marker *)
    forall i j. 0 <= i < j < length k -> is_s k[i] -> not (is_e k[j])
  let ghost order_step (k : seq tok) (t : tok) : unit
    requires { order k } ensures { order (stepk k t) }
  = let p = lasts k (length k) in
    match t with TE _ -> if p >= 0 then begin
       assert { forall j. 0 <= j < p -> k[0 .. p][j] = k[j] };
       assert { forall j. 0 <= j < length (stepk k t) -> j < p /\ (stepk k t)[j] = k[j] \/ not (is_e (stepk k t)[j]) /\ j = p } end
     else assert { forall j. 0 <= j < length k -> (stepk k t)[j] = k[j] }
    | _ -> assert { forall j. 0 <= j < length k -> (stepk k t)[j] = k[j] } end
  let rec ghost order_run (w : seq tok) (n : int) : unit
    requires { 0 <= n <= length w } variant { n } ensures { order (foldk empty w n) }
  = if n > 0 then begin order_run w (n - 1); order_step (foldk empty w (n - 1)) w[n - 1] end

  let ghost chunk_step (k0 r : seq tok) (t : tok) : unit
    requires { order r }
    ensures { run k0 (stepk r t) = stepk (run k0 r) t }
    ensures { forall c. bag c (stepc (run k0 r) t) + bag c (runc k0 r) = bag c (stepc r t) + bag c (runc k0 (stepk r t)) }
  = let p = lasts r (length r) in
    match t with
    | TE m ->
      if p >= 0 then begin
        let a = r[0 .. p] in let b = r[p .. length r] in
        sq_split r p; assert { r = a ++ b };
        assert { forall j. 0 <= j < length b -> b[j] = r[p + j] };
        assert { forall j. 0 <= j < length b -> not (is_e b[j]) };
        run_cat k0 a b;
        let ka = foldk k0 a (length a) in
        run_noend ka b;
        let full = ka ++ b in
        assert { run k0 r = full };
        assert { forall j. 0 <= j < length b -> full[length ka + j] = r[p + j] };
        lastb_is full (length ka);
        assert { full[0 .. length ka] == ka };
        assert { vals_from full (length ka + 1) == vals_from r (p + 1) };
        assert { mkcall full m = mkcall r m };
        let v = pure { act (mkcall r m) } in
        assert { stepk full t = push ka v };
        assert { stepk r t = push a v };
        if v = 0 then () else run_snoc k0 a (TV v);
        assert { run k0 (stepk r t) = push ka v };
        assert { stepc full t = stepc r t };
        assert { runc k0 r = runc k0 a ++ empty };
        assert { runc k0 a ++ empty == runc k0 a };
        assert { runc k0 (stepk r t) = runc k0 a }
      end else begin
        run_snoc k0 r t;
        assert { stepc r t = empty };
        assert { forall c. bag c (runc k0 r ++ stepc (run k0 r) t) = bag c (runc k0 r) + bag c (stepc (run k0 r) t) }
      end
    | _ -> run_snoc k0 r t;
        assert { stepc r t = empty /\ stepc (run k0 r) t = empty };
        assert { runc k0 r ++ empty == runc k0 r }
    end
  let rec ghost chunk_run (k0 w : seq tok) (n : int) : unit
    requires { 0 <= n <= length w } variant { n }
    ensures { [@expl:a reduced chunk stands for the chunk] run k0 (foldk empty w n) = foldk k0 w n }
    ensures { [@expl:no reduction is lost, repeated or changed] forall c. bag c (foldc k0 w n) = bag c (foldc empty w n) + bag c (runc k0 (foldk empty w n)) }
  = if n > 0 then begin
      chunk_run k0 w (n - 1);
      order_run w (n - 1);
      let r = foldk empty w (n - 1) in let t = w[n - 1] in
      chunk_step k0 r t;
      assert { forall c. bag c (foldc k0 w n) = bag c (foldc k0 w (n - 1)) + bag c (stepc (foldk k0 w (n - 1)) t) };
      assert { forall c. bag c (foldc empty w n) = bag c (foldc empty w (n - 1)) + bag c (stepc r t) }
    end

  (* --- any cut: chunks w[cut i .. cut (i+1)), each reduced alone, then combined in order *)
  function residue (w : seq tok) : seq tok = foldk empty w (length w)
  let ghost two_chunks (k0 a b : seq tok) : unit
    ensures { [@expl:same stack for every cut] run (run k0 a) (residue b) = run k0 (a ++ b) }
    ensures { [@expl:same reductions for every cut] forall c. bag c (runc k0 (a ++ b)) = bag c (runc k0 a) + bag c (runc empty b) + bag c (runc (run k0 a) (residue b)) }
  = run_cat k0 a b; chunk_run (pure { run k0 a }) b (length b);
    assert { forall c. bag c (runc k0 a ++ runc (run k0 a) b) = bag c (runc k0 a) + bag c (runc (run k0 a) b) }

  type chunks = seq (seq tok)
  let rec ghost function joined (cs : chunks) (n : int) : seq tok
    requires { 0 <= n <= length cs } variant { n }
  = if n = 0 then empty else joined cs (n - 1) ++ cs[n - 1]
  let rec ghost function combined (cs : chunks) (n : int) : seq tok   (* the combining pass over the residues *)
    requires { 0 <= n <= length cs } variant { n }
  = if n = 0 then empty else foldk (combined cs (n - 1)) (residue cs[n - 1]) (length (residue cs[n - 1]))
  let rec ghost function bags (c : call) (cs : chunks) (n : int) : int   (* calls made per chunk plus calls made when combining *)
    requires { 0 <= n <= length cs } variant { n }
  = if n = 0 then 0 else bags c cs (n - 1) + bag c (runc empty cs[n - 1]) + bag c (runc (combined cs (n - 1)) (residue cs[n - 1]))
  let rec ghost every_cut (cs : chunks) (n : int) : unit
    requires { 0 <= n <= length cs } variant { n }
    ensures { [@expl:combining the chunks gives the serial stack] combined cs n = run empty (joined cs n) }
    ensures { [@expl:the chunks together make exactly the serial reductions] forall c. bags c cs n = bag c (runc empty (joined cs n)) }
  = if n > 0 then begin every_cut cs (n - 1); 
      let a = joined cs (n - 1) in let b = cs[n - 1] in
      two_chunks empty a b;
      assert { joined cs n = a ++ b };
      assert { combined cs (n - 1) = run empty a };
      assert { forall c. bags c cs n = bags c cs (n - 1) + bag c (runc empty b) + bag c (runc (run empty a) (residue b)) } end

  (* ------------------------------------------------------------------ the four stacks of a runner *)
  let rec ghost function cs (t : seq int) (n : int) : int
    requires { 0 <= n <= length t } variant { n } ensures { 0 <= result <= n }
  = if n = 0 then 0 else cs t (n - 1) + (if t[n - 1] = -1 then 1 else 0)
  let rec ghost function ce (t : seq int) (n : int) : int
    requires { 0 <= n <= length t } variant { n } ensures { 0 <= result <= n }
  = if n = 0 then 0 else ce t (n - 1) + (if t[n - 1] = 0 then 1 else 0)
  let rec ghost function cv (t : seq int) (n : int) : int
    requires { 0 <= n <= length t } variant { n } ensures { 0 <= result }
  = if n = 0 then 0 else cv t (n - 1) + (if t[n - 1] > 0 then t[n - 1] else 0)
  function vtoks (v : seq int) (a n : int) : seq tok = create n (fun j -> TV v[a + j])
  let ghost vtoks_eq (v u : seq int) (a n : int) : unit
    requires { 0 <= n } requires { forall k. a <= k < a + n -> v[k] = u[k] }
    ensures { vtoks v a n = vtoks u a n }
  = assert { forall j. 0 <= j < n -> (vtoks v a n)[j] = TV v[a + j] };
    assert { forall j. 0 <= j < n -> (vtoks u a n)[j] = TV u[a + j] };
    assert { forall j. 0 <= j < n -> (vtoks v a n)[j] = (vtoks u a n)[j] };
    assert { length (vtoks v a n) = n /\ length (vtoks u a n) = n };
    assert { vtoks v a n == vtoks u a n }
  let rec ghost function render (st en : seq cstmarker) (va t : seq int) (n : int) : seq tok
    requires { 0 <= n <= length t } variant { n }
  = if n = 0 then empty else
    let p = render st en va t (n - 1) in let x = t[n - 1] in
    if x = -1 then pure { snoc p (TS st[cs t (n - 1)].cstmarker__m_value) } else if x = 0 then pure { snoc p (TE en[ce t (n - 1)].cstmarker__m_value) }
    else p ++ pure { vtoks va (cv t (n - 1)) x }
  predicate wft (t : seq int) =
    (forall j. 0 <= j < length t -> t[j] >= -1) /\
    (forall j. 0 <= j < length t - 1 -> t[j] > 0 -> t[j + 1] <= 0) /\
    (forall i j. 0 <= i < j < length t -> t[i] = -1 -> t[j] <> 0)
  predicate wf (st en : seq cstmarker) (va t : seq int) =
    wft t /\ cs t (length t) = length st /\ ce t (length t) = length en /\ cv t (length t) = length va
  let ghost wft_snoc (t : seq int) (x : int) : unit
    requires { wft t } requires { x >= -1 } requires { length t > 0 -> t[length t - 1] > 0 -> x <= 0 }
    requires { x = 0 -> forall i. 0 <= i < length t -> t[i] <> -1 }
    ensures { wft (snoc t x) }
  = let u = snoc t x in
    assert { forall j. 0 <= j < length t -> u[j] = t[j] };
    assert { forall j. 0 <= j < length u - 1 -> u[j] > 0 -> (u[j + 1] <= 0 by if j + 1 < length t then u[j + 1] = t[j + 1] else u[j + 1] = x /\ u[j] = t[length t - 1]) }
  let ghost wft_slice (t : seq int) (n : int) : unit
    requires { wft t } requires { 0 <= n <= length t } ensures { wft t[0 .. n] }
  = let u = t[0 .. n] in
    assert { forall j. 0 <= j < n -> u[j] = t[j] }
  let ghost wft_set (t : seq int) (x : int) : unit
    requires { wft t } requires { x > 0 } requires { length t > 0 } requires { t[length t - 1] > 0 }
    ensures { wft (set t (length t - 1) x) }
  = let u = set t (length t - 1) x in
    assert { forall j. 0 <= j < length t - 1 -> u[j] = t[j] };
    assert { forall j. 0 <= j < length u - 1 -> u[j] > 0 -> (u[j + 1] <= 0 by j + 1 < length t - 1) }
  function rend (st en : seq cstmarker) (va t : seq int) : seq tok = render st en va t (length t)

  let rec ghost counts_prefix (t u : seq int) (n : int) : unit
    requires { 0 <= n <= length t /\ n <= length u } requires { forall j. 0 <= j < n -> t[j] = u[j] } variant { n }
    ensures { cs t n = cs u n /\ ce t n = ce u n /\ cv t n = cv u n }
  = if n > 0 then counts_prefix t u (n - 1)
  let rec ghost counts_mono (t : seq int) (m n : int) : unit
    requires { 0 <= m <= n <= length t } variant { n }
    ensures { cs t m <= cs t n /\ ce t m <= ce t n /\ cv t m <= cv t n }
  = if n > m then counts_mono t m (n - 1)
  let rec ghost render_frame (st en : seq cstmarker) (va t : seq int) (st' en' : seq cstmarker) (va' t' : seq int) (n : int) : unit
    requires { 0 <= n <= length t /\ n <= length t' } requires { forall j. 0 <= j < n -> t[j] = t'[j] }
    requires { forall j. 0 <= j < cs t n -> st[j] = st'[j] }
    requires { forall j. 0 <= j < ce t n -> en[j] = en'[j] }
    requires { forall j. 0 <= j < cv t n -> va[j] = va'[j] }
    requires { forall j. 0 <= j < length t -> t[j] >= -1 }
    variant { n }
    ensures { render st en va t n = render st' en' va' t' n }
  = if n > 0 then begin
      counts_mono t (n - 1) n; counts_prefix t t' (n - 1);
      render_frame st en va t st' en' va' t' (n - 1);
      let a = cv t (n - 1) in
      assert { t[n - 1] > 0 -> cv t n = a + t[n - 1] }; assert { 0 <= a };
      if t[n - 1] > 0 then vtoks_eq va va' a t[n - 1];
      assert { cs t n <= length t /\ ce t n <= length t };
      assert { t[n - 1] = -1 -> st[cs t (n - 1)] = st'[cs t (n - 1)] };
      assert { t[n - 1] = 0 -> en[ce t (n - 1)] = en'[ce t (n - 1)] };
      let p = render st en va t (n - 1) in
      if t[n - 1] = -1 then begin assert { render st en va t n = snoc p (TS st[cs t (n - 1)].cstmarker__m_value) }; assert { render st' en' va' t' n = snoc p (TS st'[cs t' (n - 1)].cstmarker__m_value) } end
      else if t[n - 1] = 0 then begin assert { render st en va t n = snoc p (TE en[ce t (n - 1)].cstmarker__m_value) }; assert { render st' en' va' t' n = snoc p (TE en'[ce t' (n - 1)].cstmarker__m_value) } end
      else begin assert { render st en va t n = p ++ vtoks va a t[n - 1] }; assert { render st' en' va' t' n = p ++ vtoks va' a t[n - 1] } end
    end
  (* begin markers of the rendering are exactly the tags -1; the last one is above everything without one *)
  let rec ghost render_lasts (st en : seq cstmarker) (va t : seq int) (n : int) : unit
    requires { 0 <= n <= length t } requires { forall j. 0 <= j < length t -> t[j] >= -1 } variant { n }
    ensures { cs t n = 0 <-> lastb (render st en va t n) < 0 }
  = if n > 0 then begin
      render_lasts st en va t (n - 1);
      let p = render st en va t (n - 1) in let k = render st en va t n in
      let b = lasts p (length p) in
      let x = t[n - 1] in
      if x = -1 then begin assert { k = snoc p (TS st[cs t (n - 1)].cstmarker__m_value) }; lastb_is k (length p) end
      else if x = 0 then begin let e = pure { TE en[ce t (n - 1)].cstmarker__m_value } in assert { k = snoc p e }; assert { forall j. 0 <= j < length p -> k[j] = p[j] }; lastb_is k b end
      else begin
        let q = pure { vtoks va (cv t (n - 1)) x } in
        assert { k = p ++ q }; assert { forall j. 0 <= j < length p -> k[j] = p[j] };
        assert { forall j. length p <= j < length k -> k[j] = q[j - length p] }; lastb_is k b end
    end

  (* ------------------------------------------------------------------ what each operation does to the rendering *)
  let rec ghost cs_exists (t : seq int) (n : int) : int
    requires { 0 <= n <= length t } requires { cs t n > 0 } variant { n }
    ensures { 0 <= result < n /\ t[result] = -1 }
  = if t[n - 1] = -1 then n - 1 else cs_exists t (n - 1)
  let rec ghost cs_none_all (t : seq int) (n : int) : unit
    requires { 0 <= n <= length t } requires { cs t n = 0 } variant { n }
    ensures { forall i. 0 <= i < n -> t[i] <> -1 }
  = if n > 0 then cs_none_all t (n - 1)

  let ghost rep_start (st en : seq cstmarker) (va t : seq int) (m : cstmarker) : unit
    requires { wf st en va t }
    ensures { wf (snoc st m) en va (snoc t (-1)) }
    ensures { rend (snoc st m) en va (snoc t (-1)) = snoc (rend st en va t) (TS m.cstmarker__m_value) }
  = let t' = snoc t (-1) in let n = length t in wft_snoc t (-1);
    counts_prefix t t' n;
    render_frame st en va t (snoc st m) en va t' n;
    assert { t'[n] = -1 }; assert { (snoc st m)[length st] = m };
    assert { forall j. 0 <= j < n -> t'[j] = t[j] }
  let ghost rep_end (st en : seq cstmarker) (va t : seq int) (m : cstmarker) : unit
    requires { wf st en va t } requires { length st = 0 }
    ensures { wf st (snoc en m) va (snoc t 0) }
    ensures { rend st (snoc en m) va (snoc t 0) = snoc (rend st en va t) (TE m.cstmarker__m_value) }
  = let t' = snoc t 0 in let n = length t in
    counts_prefix t t' n;
    render_frame st en va t st (snoc en m) va t' n;
    assert { t'[n] = 0 }; assert { (snoc en m)[length en] = m };
    assert { forall j. 0 <= j < n -> t'[j] = t[j] };
    cs_none_all t n; wft_snoc t 0
  let ghost rep_append (st en : seq cstmarker) (va t x : seq int) : unit
    requires { wf st en va t } requires { length x > 0 }
    ensures { (length t > 0 /\ t[length t - 1] > 0) -> let t' = set t (length t - 1) (t[length t - 1] + length x) in
              wf st en (va ++ x) t' /\ rend st en (va ++ x) t' = rend st en va t ++ vtoks x 0 (length x) }
    ensures { not (length t > 0 /\ t[length t - 1] > 0) -> let t' = snoc t (length x) in
              wf st en (va ++ x) t' /\ rend st en (va ++ x) t' = rend st en va t ++ vtoks x 0 (length x) }
  = let n = length t in let va' = va ++ x in
    assert { forall k. length va <= k < length va' -> va'[k] = x[k - length va] };
    assert { forall k. 0 <= k < length va -> va'[k] = va[k] };
    if n > 0 && t[n - 1] > 0 then begin
      let c = t[n - 1] in
      let t' = set t (n - 1) (c + length x) in
      wft_set t (c + length x);
      counts_prefix t t' (n - 1);
      counts_mono t (n - 1) n;
      render_frame st en va t st en va' t' (n - 1);
      let a = cv t (n - 1) in
      assert { length va = a + c };
      let b = render st en va t (n - 1) in
      assert { rend st en va t = b ++ vtoks va a c };
      assert { rend st en va' t' = b ++ vtoks va' a (c + length x) };
      let p = pure { vtoks va' a (c + length x) } in let q1 = pure { vtoks va a c } in let q2 = pure { vtoks x 0 (length x) } in
      assert { forall j. 0 <= j < c -> p[j] = q1[j] by va'[a + j] = va[a + j] };
      assert { forall j. 0 <= j < length x -> q2[j] = TV x[j] };
      assert { forall j. c <= j < c + length x -> p[j] = TV va'[a + j] };
      assert { forall j. c <= j < c + length x -> p[j] = q2[j - c] by va'[a + j] = x[a + j - length va] };
      assert { p == q1 ++ q2 };
      assert { vtoks va' a (c + length x) = vtoks va a c ++ vtoks x 0 (length x) };
      assert { b ++ (vtoks va a c ++ vtoks x 0 (length x)) == (b ++ vtoks va a c) ++ vtoks x 0 (length x) };
      assert { forall j. 0 <= j < n - 1 -> t'[j] = t[j] }
    end else begin
      let t' = snoc t (length x) in wft_snoc t (length x);
      counts_prefix t t' n;
      render_frame st en va t st en va' t' n;
      assert { rend st en va' t' = rend st en va t ++ vtoks va' (length va) (length x) };
      assert { vtoks va' (length va) (length x) == vtoks x 0 (length x) };
      assert { forall j. 0 <= j < n -> t'[j] = t[j] }
    end
  let ghost rep_value (st en : seq cstmarker) (va t : seq int) (v : int) : unit
    requires { wf st en va t }
    ensures { (length t > 0 /\ t[length t - 1] > 0) -> let t' = set t (length t - 1) (t[length t - 1] + 1) in
              wf st en (snoc va v) t' /\ rend st en (snoc va v) t' = snoc (rend st en va t) (TV v) }
    ensures { not (length t > 0 /\ t[length t - 1] > 0) -> let t' = snoc t 1 in
              wf st en (snoc va v) t' /\ rend st en (snoc va v) t' = snoc (rend st en va t) (TV v) }
  = let x = snoc empty v in
    rep_append st en va t x;
    assert { length x = 1 /\ x[0] = v }; assert { forall j. 0 <= j < length va -> (va ++ x)[j] = (snoc va v)[j] }; assert { (va ++ x)[length va] = x[0] }; assert { va ++ x == snoc va v };
    assert { rend st en va t ++ vtoks x 0 1 == snoc (rend st en va t) (TV v) }

  (* the value count on top, and the tags with it removed *)
  function topc (t : seq int) : int = if length t > 0 /\ t[length t - 1] > 0 then t[length t - 1] else 0
  function lessv (t : seq int) : seq int = if topc t > 0 then t[0 .. length t - 1] else t
  let ghost rep_reduce (st en : seq cstmarker) (va t : seq int) : unit
    requires { wf st en va t } requires { length st > 0 }
    ensures { length t > 0 }
    ensures { let t1 = lessv t in length t1 > 0 /\ t1[length t1 - 1] = -1 }
    ensures { 0 <= topc t <= length va }
    ensures { let t1 = lessv t in wf st[0 .. length st - 1] en va[0 .. length va - topc t] t1[0 .. length t1 - 1] }
    ensures { let t1 = lessv t in let k = rend st en va t in lastb k >= 0 /\
              rend st[0 .. length st - 1] en va[0 .. length va - topc t] t1[0 .. length t1 - 1] = k[0 .. lastb k] /\
              tokval k[lastb k] = st[length st - 1].cstmarker__m_value /\
              vals_from k (lastb k + 1) = va[length va - topc t .. length va] }
  = let n = length t in
    let i = cs_exists t n in
    let c = if t[n - 1] > 0 then t[n - 1] else 0 in
    let n1 = if c > 0 then n - 1 else n in
    assert { t[n1 - 1] = -1 };
    let t2 = t[0 .. n1 - 1] in wft_slice t (n1 - 1);
    let st2 = st[0 .. length st - 1] in
    counts_mono t 0 (n1 - 1);
    counts_mono t (n1 - 1) n1;
    counts_mono t n1 n;
    let va2 = va[0 .. length va - c] in
    counts_prefix t t2 (n1 - 1);
    assert { cs t (n1 - 1) = length st - 1 };
    assert { ce t (n1 - 1) = length en };
    assert { cv t (n1 - 1) = length va - c };
    render_frame st en va t st2 en va2 t2 (n1 - 1);
    let b = render st en va t (n1 - 1) in
    let m = pure { st[length st - 1].cstmarker__m_value } in
    let k1 = snoc b (TS m) in
    assert { render st en va t n1 = k1 };
    let k = rend st en va t in
    if c > 0 then begin
      let q = pure { vtoks va (length va - c) c } in
      assert { k = k1 ++ q };
      assert { forall j. 0 <= j < length k1 -> k[j] = k1[j] };
      assert { forall j. length k1 <= j < length k -> k[j] = q[j - length k1] };
      assert { forall j. 0 <= j < c -> q[j] = TV va[length va - c + j] };
      assert { forall j. 0 <= j < c -> k[length k1 + j] = q[j] }
    end else assert { k = k1 };
    lastb_is k (length b);
    assert { k[0 .. length b] == b };
    let x1 = pure { vals_from k (length b + 1) } in let x2 = va[length va - c .. length va] in
    assert { length x1 = c /\ length x2 = c };
    assert { forall j. 0 <= j < c -> x1[j] = tokval k[length k1 + j] };
    assert { forall j. 0 <= j < c -> x1[j] = va[length va - c + j] };
    assert { forall j. 0 <= j < c -> x2[j] = va[length va - c + j] };
    assert { x1 == x2 };
    sq_pre t (n1 - 1) n1;
    assert { wf st2 en va2 t2 }

  (* ------------------------------------------------------------------ well-nested traces *)
  (* the end marker closes the innermost open instance, which has the same id *)
  predicate closes_top (k : seq tok) (m : int) = lastb k >= 0 /\ w_id (tokval k[lastb k]) = w_id m
  predicate is_val (t : tok) = match t with TV _ -> true | _ -> false end
  predicate nested_from (k w : seq tok) =   (* every end marker finds its begin marker *)
    forall j. 0 <= j < length w -> is_e w[j] -> closes_top (foldk k w j) (tokval w[j])
  predicate locally_nested (w : seq tok) =  (* every end marker whose begin marker is in the chunk matches it *)
    forall j. 0 <= j < length w -> is_e w[j] -> lastb (foldk empty w j) >= 0 -> closes_top (foldk empty w j) (tokval w[j])

  (* the begin marker on top of a chunk's own stack is the one on top of the whole stack *)
  let ghost same_top (k0 r : seq tok) : unit
    requires { order r } requires { lastb r >= 0 }
    ensures { let k = run k0 r in lastb k >= 0 /\ k[lastb k] = r[lastb r] }
  = let p = lasts r (length r) in
    let a = r[0 .. p] in let b = r[p .. length r] in
    sq_split r p;
    assert { forall j. 0 <= j < length b -> b[j] = r[p + j] };
    assert { forall j. 0 <= j < length b -> not (is_e b[j]) };
    run_cat k0 a b;
    let ka = foldk k0 a (length a) in
    run_noend ka b;
    let full = ka ++ b in
    assert { run k0 r = full };
    assert { forall j. 0 <= j < length b -> full[length ka + j] = r[p + j] };
    assert { full[length ka] = r[p] };
    lastb_is full (length ka)
  let ghost chunk_nested (k0 b : seq tok) : unit
    requires { nested_from k0 b }
    ensures { [@expl:a chunk of a well-nested trace is locally well nested] locally_nested b }
  = let lemma one (j : int) : unit
      requires { 0 <= j < length b } requires { is_e b[j] } requires { lastb (foldk empty b j) >= 0 }
      ensures { closes_top (foldk empty b j) (tokval b[j]) }
    = order_run b j; chunk_run k0 b j; same_top k0 (foldk empty b j) in ()
  (* an end marker left over in a chunk was met when everything below it was already final *)
  let rec ghost left_over (b : seq tok) (n j : int) : int
    requires { 0 <= n <= length b } requires { 0 <= j < length (foldk empty b n) } requires { is_e (foldk empty b n)[j] } variant { n }
    ensures { 0 <= result < n } ensures { b[result] = (foldk empty b n)[j] } ensures { foldk empty b result = (foldk empty b n)[0 .. j] }
  = let r = foldk empty b (n - 1) in let t = b[n - 1] in
    order_run b (n - 1);
    let k = foldk empty b n in
    assert { k = stepk r t };
    let p = lasts r (length r) in
    match t with
    | TE _ ->
      if p >= 0 then begin
        assert { j < p }; assert { k[j] = r[j] };
        let q = left_over b (n - 1) j in
        assert { r[0 .. j] == k[0 .. j] }; q
      end else if j < length r then begin
        assert { k[j] = r[j] };
        let q = left_over b (n - 1) j in assert { r[0 .. j] == k[0 .. j] }; q
      end else begin assert { k[0 .. j] == r }; n - 1 end
    | _ ->
        assert { j < length r }; assert { k[j] = r[j] };
        let q = left_over b (n - 1) j in assert { r[0 .. j] == k[0 .. j] }; q
    end
  let ghost residue_nested (k0 b : seq tok) : unit
    requires { nested_from k0 b }
    ensures { [@expl:combining the residue of a chunk finds every begin marker] nested_from k0 (residue b) }
  = let ghost n = length b in let ghost r = foldk empty b n in
    let lemma one (j : int) : unit
      requires { 0 <= j < length r } requires { is_e r[j] }
      ensures { closes_top (foldk k0 r j) (tokval r[j]) }
    = let q = left_over b n j in
      chunk_run k0 b q;
      fold_prefix k0 r r[0 .. j] j;
      assert { foldk k0 r j = run k0 r[0 .. j] };
      assert { foldk k0 b q = foldk k0 r j } in ()

  predicate all_nested (cs : chunks) = forall i. 0 <= i < length cs -> nested_from (combined cs i) cs[i]
  predicate parse_trace (w : seq tok) =   (* a complete parse: well nested, and one instance (or none) is left *)
    nested_from empty w /\ length (run empty w) <= 1 /\ (forall j. 0 <= j < length (run empty w) -> is_val (run empty w)[j])
  let rec ghost cut_nested (cs : chunks) (n : int) : unit
    requires { 0 <= n <= length cs } requires { nested_from empty (joined cs n) } variant { n }
    ensures { forall i. 0 <= i < n -> nested_from (combined cs i) cs[i] }
  = if n > 0 then begin
      let a = joined cs (n - 1) in let b = cs[n - 1] in let w = joined cs n in
      assert { w = a ++ b };
      let lemma left (j : int) : unit
        requires { 0 <= j < length a } requires { is_e a[j] } ensures { closes_top (foldk empty a j) (tokval a[j]) }
      = fold_prefix empty w a j; assert { w[j] = a[j] } in
      assert { nested_from empty a };
      cut_nested cs (n - 1); every_cut cs (n - 1);
      let k0 = foldk empty a (length a) in
      assert { combined cs (n - 1) = k0 };
      let lemma right (j : int) : unit
        requires { 0 <= j < length b } requires { is_e b[j] } ensures { closes_top (foldk k0 b j) (tokval b[j]) }
      = let b1 = b[0 .. j] in let w1 = a ++ b1 in
        fold_prefix k0 b b1 j;
        run_cat empty a b1;
        assert { forall i. 0 <= i < length w1 -> w[i] = w1[i] };
        fold_prefix empty w w1 (length a + j);
        assert { foldk empty w (length a + j) = foldk k0 b j };
        assert { w[length a + j] = b[j] } in
      assert { nested_from k0 b }
    end

  (* ------------------------------------------------------------------ the trace of a syntax tree *)
  type tree = N int forest int
  with forest = Nil | Cons forest tree
  function toks_t (t : tree) : seq tok = match t with N s f e -> snoc (snoc empty (TS s) ++ toks_f f) (TE e) end
  with toks_f (f : forest) : seq tok = match f with Nil -> empty | Cons f t -> toks_f f ++ toks_t t end
  function keep (k : seq int) (v : int) : seq int = if v = 0 then k else snoc k v
  (* value of an instance: the action on the non-zero values of its direct children, in order *)
  function val_t (t : tree) : int = match t with N s f e -> act { c_id = w_id e; c_start = w_off s; c_end = w_off e; c_vals = vals_f f } end
  with vals_f (f : forest) : seq int = match f with Nil -> empty | Cons f t -> keep (vals_f f) (val_t t) end
  (* reductions: children left to right, then the instance itself *)
  function calls_t (t : tree) : seq call = match t with N s f e ->
    snoc (calls_f f) { c_id = w_id e; c_start = w_off s; c_end = w_off e; c_vals = vals_f f } end
  with calls_f (f : forest) : seq call = match f with Nil -> empty | Cons f t -> calls_f f ++ calls_t t end
  function tvs (v : seq int) : seq tok = create (length v) (fun j -> TV v[j])

  let ghost tvs_snoc (v : seq int) (x : int) : unit
    ensures { tvs (snoc v x) = snoc (tvs v) (TV x) }
  = let u = pure { tvs (snoc v x) } in let r = pure { snoc (tvs v) (TV x) } in
    assert { length u = length v + 1 /\ length r = length v + 1 };
    assert { forall j. 0 <= j < length v -> u[j] = TV v[j] };
    assert { forall j. 0 <= j < length v -> r[j] = TV v[j] };
    assert { u[length v] = TV x }; assert { r[length v] = TV x };
    assert { u == r }
  let rec ghost tree_meaning (k : seq tok) (t : tree) : unit
    variant { t }
    ensures { [@expl:an instance is replaced by its value] run k (toks_t t) = push k (val_t t) }
    ensures { [@expl:one reduction per instance, inner before outer, left before right] runc k (toks_t t) = calls_t t }
  = match t with N s f e ->
      let k1 = snoc k (TS s) in
      let b = pure { toks_f f } in
      let h = pure { snoc empty (TS s) } in
      run_snoc k empty (TS s);
      assert { snoc empty (TS s) = h };
      assert { run k h = k1 }; assert { runc k h == empty };
      run_cat k h b;
      forest_meaning k1 f;
      let v = pure { vals_f f } in
      let full = pure { k1 ++ tvs v } in
      assert { run k (h ++ b) = full };
      run_snoc k (pure { h ++ b }) (TE e);
      assert { forall j. 0 <= j < length v -> full[length k1 + j] = TV v[j] };
      assert { full[length k] = TS s };
      lastb_is full (length k);
      assert { full[0 .. length k] == k };
      assert { vals_from full (length k + 1) == v };
      assert { runc k (h ++ b) == calls_f f };
      assert { mkcall full e = { c_id = w_id e; c_start = w_off s; c_end = w_off e; c_vals = v } };
      let c = pure { mkcall full e } in
      assert { calls_f f ++ snoc empty c == snoc (calls_f f) c }
    end
  with ghost forest_meaning (k : seq tok) (f : forest) : unit
    variant { f }
    ensures { run k (toks_f f) = k ++ tvs (vals_f f) }
    ensures { runc k (toks_f f) = calls_f f }
  = match f with
    | Nil -> assert { k ++ tvs empty == k }
    | Cons f1 t ->
      forest_meaning k f1;
      let a = pure { toks_f f1 } in let b = pure { toks_t t } in
      run_cat k a b;
      let k1 = pure { k ++ tvs (vals_f f1) } in
      tree_meaning k1 t;
      let v = pure { val_t t } in let vs = pure { vals_f f1 } in
      tvs_snoc vs v;
      assert { v <> 0 -> k ++ snoc (tvs vs) (TV v) == snoc k1 (TV v) }
    end

  (* ------------------------------------------------------------------ facts used by the combining pass *)
  let rec ghost render_len (st en : seq cstmarker) (va t : seq int) (n : int) : unit
    requires { 0 <= n <= length t } requires { wft t } variant { n }
    ensures { length (render st en va t n) = cs t n + ce t n + cv t n } ensures { n <= cs t n + ce t n + cv t n }
  = if n > 0 then begin
      render_len st en va t (n - 1);
      let x = t[n - 1] in
      assert { x > 0 -> length (vtoks va (cv t (n - 1)) x) = x }
    end
  let rec ghost render_prefix (st en : seq cstmarker) (va t : seq int) (m n : int) : unit
    requires { 0 <= m <= n <= length t } requires { wft t } variant { n }
    ensures { length (render st en va t m) <= length (render st en va t n) }
    ensures { forall j. 0 <= j < length (render st en va t m) -> (render st en va t n)[j] = (render st en va t m)[j] }
  = if m < n then begin
      render_prefix st en va t m (n - 1);
      let p = render st en va t (n - 1) in let k = render st en va t n in
      let x = t[n - 1] in
      assert { x > 0 -> length (vtoks va (cv t (n - 1)) x) = x };
      assert { forall j. 0 <= j < length p -> k[j] = p[j] }
    end
  let rec ghost render_no_e (st en : seq cstmarker) (va t : seq int) (n : int) : unit
    requires { 0 <= n <= length t } requires { wft t } variant { n }
    requires { forall j. 0 <= j < length (render st en va t n) -> not (is_e (render st en va t n)[j]) }
    ensures { ce t n = 0 }
  = if n > 0 then begin
      render_prefix st en va t (n - 1) n;
      let p = render st en va t (n - 1) in let k = render st en va t n in
      assert { t[n - 1] = 0 -> is_e k[length p] && false };
      render_no_e st en va t (n - 1)
    end
  let rec ghost nested_no_e (k w : seq tok) (n : int) : unit
    requires { nested_from k w } requires { forall j. 0 <= j < length k -> not (is_e k[j]) } requires { 0 <= n <= length w } variant { n }
    ensures { forall j. 0 <= j < length (foldk k w n) -> not (is_e (foldk k w n)[j]) }
  = if n > 0 then begin
      nested_no_e k w (n - 1);
      let r = foldk k w (n - 1) in let t = w[n - 1] in let u = foldk k w n in
      assert { u = stepk r t };
      let p = lasts r (length r) in
      let ghost c = pure { is_e t } in
      if c then begin
        assert { closes_top r (tokval t) }; assert { p >= 0 };
        assert { forall j. 0 <= j < p -> r[0 .. p][j] = r[j] };
        let r2 = r[0 .. p] in
        let v = pure { act (mkcall r (tokval t)) } in
        match t with TE _ -> assert { u = push r2 v } | _ -> () end;
        assert { forall j. 0 <= j < p -> u[j] = r2[j] };
        assert { forall j. p <= j < length u -> u[j] = TV v }
      end else begin
        assert { u = snoc r t };
        assert { forall j. 0 <= j < length r -> u[j] = r[j] }; assert { u[length r] = t }
      end
    end
  (* calls of the combining pass, and of the chunks on their own *)
  let rec ghost function combc (cs : chunks) (n : int) : seq call
    requires { 0 <= n <= length cs } variant { n }
  = if n = 0 then empty else combc cs (n - 1) ++ pure { runc (combined cs (n - 1)) (residue cs[n - 1]) }
  let rec ghost function own (c : call) (cs : chunks) (n : int) : int
    requires { 0 <= n <= length cs } variant { n }
  = if n = 0 then 0 else own c cs (n - 1) + pure { bag c (runc empty cs[n - 1]) }
  let rec ghost bags_split (cs : chunks) (n : int) : unit
    requires { 0 <= n <= length cs } variant { n }
    ensures { forall c. bags c cs n = own c cs n + bag c (combc cs n) }
  = if n > 0 then begin
      bags_split cs (n - 1);
      let a = combc cs (n - 1) in let b = pure { runc (combined cs (n - 1)) (residue cs[n - 1]) } in
      assert { combc cs n = a ++ b };
      assert { forall c. bag c (a ++ b) = bag c a + bag c b }
    end
  let ghost parallel_serial (cs : chunks) (w : seq tok) : unit
    requires { w = joined cs (length cs) }
    ensures { [@expl:the final stack is the serial one] combined cs (length cs) = run empty w }
    ensures { [@expl:chunks and combination together make the serial reductions] forall c. own c cs (length cs) + bag c (combc cs (length cs)) = bag c (runc empty w) }
  = every_cut cs (length cs); bags_split cs (length cs)
  let ghost noend_all (k w : seq tok) : unit
    requires { forall j. 0 <= j < length w -> not (is_e w[j]) }
    ensures { run k w = k ++ w } ensures { runc k w = empty }
  = run_noend k w
end
