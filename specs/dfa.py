"""Contracts for the automata of src/core/NFA.hpp and DFA.hpp: subset construction (P04), minimisation (P05)."""
import charclass

PRE = r'''
  use list.List
  (* ---- edges of an automaton *)
  type trs = seq ntrans
  predicate cempty (x : cclass) = forall c. not (cin x c)
  predicate lwf (s : trs) = forall k. 0 <= k < length s -> cwf s[k].ntrans__m_label
  predicate dests (s : trs) (n : int) = forall k. 0 <= k < length s -> 0 <= s[k].ntrans__m_dest < n
  predicate tin (s : trs) (c j : int) = exists k. 0 <= k < length s /\ s[k].ntrans__m_dest = j /\ cin s[k].ntrans__m_label c
  predicate tep (s : trs) (j : int) = exists k. 0 <= k < length s /\ s[k].ntrans__m_dest = j /\ cempty s[k].ntrans__m_label
  predicate udest (s : trs) = forall k l. 0 <= k < length s -> 0 <= l < length s -> s[k].ntrans__m_dest = s[l].ntrans__m_dest -> k = l
  predicate proper (s : trs) = forall k. 0 <= k < length s -> not (cempty s[k].ntrans__m_label)
  let lemma tin_snoc (s : trs) (t : ntrans) : unit
    ensures { forall c j. tin (snoc s t) c j <-> tin s c j \/ (j = t.ntrans__m_dest /\ cin t.ntrans__m_label c) }
    ensures { forall j. tep (snoc s t) j <-> tep s j \/ (j = t.ntrans__m_dest /\ cempty t.ntrans__m_label) }
    ensures { forall n. dests s n -> 0 <= t.ntrans__m_dest < n -> dests (snoc s t) n }
    ensures { lwf s -> cwf t.ntrans__m_label -> lwf (snoc s t) }
  = let u = snoc s t in
    assert { forall k. 0 <= k < length s -> u[k] = s[k] };
    assert { u[length s] = t }
  (* adding a class to the transition at k *)
  let ghost tin_upd (s u : trs) (k : int) (cc : cclass) : unit
    requires { 0 <= k < length s /\ length u = length s /\ lwf s /\ cwf u[k].ntrans__m_label }
    requires { forall l. 0 <= l < length s -> l <> k -> u[l] = s[l] }
    requires { u[k].ntrans__m_dest = s[k].ntrans__m_dest /\ forall c. cin u[k].ntrans__m_label c <-> cin s[k].ntrans__m_label c \/ cin cc c }
    requires { not (cempty s[k].ntrans__m_label) }
    ensures { forall c j. tin u c j <-> tin s c j \/ (j = s[k].ntrans__m_dest /\ cin cc c) }
    ensures { forall j. tep u j <-> tep s j }
    ensures { lwf u } ensures { udest s -> udest u } ensures { proper s -> proper u } ensures { forall n. dests s n -> dests u n }
  = assert { not (cempty u[k].ntrans__m_label) };
    assert { forall l. 0 <= l < length s -> u[l].ntrans__m_dest = s[l].ntrans__m_dest };
    assert { forall l c. 0 <= l < length s -> cin s[l].ntrans__m_label c -> cin u[l].ntrans__m_label c };
    assert { forall l. 0 <= l < length s -> (cempty u[l].ntrans__m_label <-> cempty s[l].ntrans__m_label) };
    assert { forall c j. tin s c j -> tin u c j };
    assert { forall c. cin cc c -> tin u c s[k].ntrans__m_dest };
    assert { forall c j. tin u c j -> tin s c j \/ (j = s[k].ntrans__m_dest /\ cin cc c) };
    assert { forall j. tep u j -> tep s j }; assert { forall j. tep s j -> tep u j }
  (* ---- source automaton *)
  function nst (n : nfa) : seq nstate = n.nfa__base.nbase__m_states
  function nn (n : nfa) : int = length (nst n)
  function ntr (n : nfa) (i : int) : trs = (nst n)[i].nstate__m_transitions
  predicate nwf (n : nfa) = nn n > 0 /\ forall i. 0 <= i < nn n -> lwf (ntr n i) /\ dests (ntr n i) (nn n)
  predicate node (n : nfa) (i : int) = 0 <= i < nn n
  predicate epath (n : nfa) (p : seq int) =
    length p >= 1 /\ (forall k. 0 <= k < length p -> node n p[k]) /\ (forall k. 0 <= k < length p - 1 -> tep (ntr n p[k]) p[k + 1])
  predicate ereach (n : nfa) (i j : int) = exists p. epath n p /\ p[0] = i /\ p[length p - 1] = j
  let ghost ereach_refl (n : nfa) (i : int) : unit requires { node n i } ensures { ereach n i i }
  = let p = snoc (empty : seq int) i in assert { epath n p /\ p[0] = i /\ p[length p - 1] = i }
  let ghost ereach_cons (n : nfa) (i k j : int) : unit
    requires { node n i /\ tep (ntr n i) k /\ ereach n k j } ensures { ereach n i j }
  = let p = any seq int ensures { epath n result /\ result[0] = k /\ result[length result - 1] = j } in
    let q = cons i p in
    assert { q[0] = i /\ forall m. 1 <= m < length q -> q[m] = p[m - 1] };
    assert { epath n q /\ q[0] = i /\ q[length q - 1] = j }
  let ghost ereach_trans (n : nfa) (i k j : int) : unit
    requires { ereach n i k /\ ereach n k j } ensures { ereach n i j }
  = let p = any seq int ensures { epath n result /\ result[0] = i /\ result[length result - 1] = k } in
    let q = any seq int ensures { epath n result /\ result[0] = k /\ result[length result - 1] = j } in
    let r = p ++ q[1 .. length q] in
    assert { forall m. 0 <= m < length p -> r[m] = p[m] };
    assert { forall m. length p <= m < length r -> r[m] = q[m - length p + 1] };
    assert { r[length p - 1] = q[0] };
    assert { forall m. 0 <= m < length p - 1 -> tep (ntr n r[m]) r[m + 1] };
    assert { forall m. length p - 1 <= m < length r - 1 -> r[m] = q[m - length p + 1] && r[m + 1] = q[m - length p + 2] };
    assert { forall m. length p - 1 <= m < length r - 1 -> tep (ntr n r[m]) r[m + 1] };
    assert { epath n r /\ r[0] = i /\ r[length r - 1] = j }
  predicate eclosed (n : nfa) (s : fset int) = forall x y. smem x s -> node n x -> tep (ntr n x) y -> smem y s
  predicate inn (n : nfa) (s : fset int) = forall x. smem x s -> node n x
  let rec ghost walk (n : nfa) (s : fset int) (p : seq int) (k : int) : unit
    requires { eclosed n s /\ epath n p /\ smem p[0] s /\ 0 <= k < length p } variant { k } ensures { smem p[k] s }
  = if k > 0 then begin walk n s p (k - 1); assert { tep (ntr n p[k - 1]) p[k - 1 + 1] } end
  let ghost closed_reach (n : nfa) (s : fset int) : unit
    requires { eclosed n s } ensures { forall i j. smem i s -> ereach n i j -> smem j s }
  = let lemma one (i j : int) : unit requires { smem i s /\ ereach n i j } ensures { smem j s }
    = let p = any seq int ensures { epath n result /\ result[0] = i /\ result[length result - 1] = j } in walk n s p (length p - 1) in ()
  (* s is exactly what can be reached from the nodes of m by empty moves *)
  predicate is_closure (n : nfa) (m s : fset int) = forall x. smem x s <-> exists i. smem i m /\ ereach n i x
'''

PRE2 = r'''
  predicate bnd (x : cclass) (b : int) = exists k. 0 <= k < length x.cclass__m_ranges /\ (x.cclass__m_ranges[k].range__m_start = b \/ x.cclass__m_ranges[k].range__m_end = b)
  (* ---- departure sets *)
  predicate dmem (d : deptset) (c : int) (s : fset int) = exists k. 0 <= k < length d.deptset__base /\ cin (d.deptset__base)[k].t20 c /\ (d.deptset__base)[k].t21 = s
  predicate dsw (d : deptset) = forall k. 0 <= k < length d.deptset__base -> cwf (d.deptset__base)[k].t20 /\ not (cempty (d.deptset__base)[k].t20)
  predicate ddist (d : deptset) = forall k l. 0 <= k < l < length d.deptset__base -> (d.deptset__base)[k].t21 <> (d.deptset__base)[l].t21
  let lemma dmem_upd (d : deptset) (k : int) (v : tup2 cclass (fset int)) : unit
    requires { 0 <= k < length d.deptset__base } requires { v.t21 = (d.deptset__base)[k].t21 } requires { forall c. cin (d.deptset__base)[k].t20 c -> cin v.t20 c }
    ensures { forall c s. dmem { deptset__base = set d.deptset__base k v } c s <-> dmem d c s \/ (cin v.t20 c /\ s = v.t21) }
  = let b = d.deptset__base in let u = set b k v in
    assert { u[k] = v /\ forall j. 0 <= j < length b -> j <> k -> u[j] = b[j] };
    assert { forall c s. dmem { deptset__base = u } c s -> dmem d c s \/ (cin v.t20 c /\ s = v.t21) };
    assert { forall c j. 0 <= j < length b -> cin b[j].t20 c -> cin u[j].t20 c /\ u[j].t21 = b[j].t21 };
    assert { forall c s. dmem d c s -> dmem { deptset__base = u } c s };
    assert { forall c. cin v.t20 c -> dmem { deptset__base = u } c v.t21 }
  (* between two neighbouring borders a class contains all characters or none *)
  let ghost atomic (x : cclass) (e : seq int) (m c : int) : unit
    requires { cwf x /\ incr e /\ 0 <= m < length e - 1 /\ e[m] <= c < e[m + 1] /\ cin x c } requires { forall b. bnd x b -> vmem b e }
    ensures { exists k. 0 <= k < length x.cclass__m_ranges /\ x.cclass__m_ranges[k].range__m_start <= e[m] /\ e[m + 1] <= x.cclass__m_ranges[k].range__m_end }
  = let k = any int ensures { 0 <= result < length x.cclass__m_ranges /\ rin x.cclass__m_ranges[result] c } in
    let r = pure { x.cclass__m_ranges[k] } in
    assert { bnd x r.range__m_start /\ bnd x r.range__m_end };
    let p = any int ensures { 0 <= result < length e /\ e[result] = r.range__m_start } in
    let q = any int ensures { 0 <= result < length e /\ e[result] = r.range__m_end } in
    assert { p <= m }; assert { e[p] <= e[m] };
    assert { q >= m + 1 }; assert { e[q] >= e[m + 1] }
  predicate inrun (x : cclass) (r : range) = exists k. 0 <= k < length x.cclass__m_ranges /\ x.cclass__m_ranges[k].range__m_start <= r.range__m_start /\ r.range__m_end <= x.cclass__m_ranges[k].range__m_end
  predicate brd (tr : trs) (e : seq int) = forall k b. 0 <= k < length tr -> bnd tr[k].ntrans__m_label b -> vmem b e
  let ghost locate (tr : trs) (e : seq int) : unit
    requires { lwf tr /\ brd tr e /\ incr e }
    ensures { forall c x. tin tr c x -> length e > 0 /\ e[0] <= c < e[length e - 1] }
  = let lemma one (c x : int) : unit requires { tin tr c x } ensures { length e > 0 /\ e[0] <= c < e[length e - 1] }
    = let k = any int ensures { 0 <= result < length tr /\ tr[result].ntrans__m_dest = x /\ cin tr[result].ntrans__m_label c } in
      let l = pure { tr[k].ntrans__m_label } in
      let r = any range ensures { rin result c /\ bnd l result.range__m_start /\ bnd l result.range__m_end } in
      assert { vmem r.range__m_start e /\ vmem r.range__m_end e } in ()
  (* the states found for one piece between neighbouring borders are those every character of the piece leads to *)
  let ghost at_all (tr : trs) (e : seq int) (m : int) (s : fset int) (r : range) : unit
    requires { lwf tr /\ brd tr e /\ incr e /\ 0 <= m < length e - 1 /\ r.range__m_start = e[m] /\ r.range__m_end = e[m + 1] }
    requires { forall x. smem x s <-> exists k. 0 <= k < length tr /\ tr[k].ntrans__m_dest = x /\ inrun tr[k].ntrans__m_label r }
    ensures { forall c. rin r c -> forall x. smem x s <-> tin tr c x }
  = let lemma one (c k : int) : unit requires { rin r c /\ 0 <= k < length tr } ensures { inrun tr[k].ntrans__m_label r <-> cin tr[k].ntrans__m_label c }
    = let l = pure { tr[k].ntrans__m_label } in
      if pure { cin l c } then atomic l e m c
      else assert { forall j. 0 <= j < length l.cclass__m_ranges -> not (rin l.cclass__m_ranges[j] c) } in
    assert { forall c x. rin r c -> smem x s -> tin tr c x };
    assert { forall c x. rin r c -> tin tr c x -> smem x s }
'''

PRE3 = r'''
  (* ---- subset automaton *)
  function dst (d : dfa) : seq dstate = d.dfa__base.dabase__m_states
  function dn (d : dfa) : int = length (dst d)
  function dtr (d : dfa) (i : int) : trs = (dst d)[i].dstate__base.dbase__m_transitions
  function dlab (d : dfa) (i : int) : seq int = (dst d)[i].dstate__base.dbase__m_label.ivec__base
  function dacc (d : dfa) (i : int) : bool = (dst d)[i].dstate__m_accept
  predicate step (n : nfa) (l : seq int) (c x : int) = exists q. vmem q l /\ tin (ntr n q) c x
  predicate target (n : nfa) (l : seq int) (c : int) (t : seq int) = forall y. vmem y t <-> exists x. step n l c x /\ ereach n x y
  predicate sound (n : nfa) (d : dfa) (i : int) = forall c j. tin (dtr d i) c j -> target n (dlab d i) c (dlab d j)
  predicate full (n : nfa) (d : dfa) (i : int) = forall c x. step n (dlab d i) c x -> exists j. tin (dtr d i) c j
  predicate okst (n : nfa) (d : dfa) (i : int) =
    lwf (dtr d i) /\ proper (dtr d i) /\ udest (dtr d i) /\ dests (dtr d i) (dn d) /\ sound n d i
  predicate lclosed (n : nfa) (l : seq int) = forall x y. vmem x l -> ereach n x y -> vmem y l
  predicate labok (n : nfa) (l : seq int) = incr l /\ within l (nn n) /\ lclosed n l
  predicate labsok (n : nfa) (d : dfa) = (forall i. 0 <= i < dn d -> labok n (dlab d i)) /\ forall i j. 0 <= i < j < dn d -> dlab d i <> dlab d j
  predicate samest (a b : dfa) (i : int) = dtr a i = dtr b i /\ dlab a i = dlab b i /\ dacc a i = dacc b i
  predicate labext (a b : dfa) = dn a <= dn b /\ forall i. 0 <= i < dn a -> dlab b i = dlab a i
  predicate raw (d : dfa) (i : int) = length (dtr d i) = 0
  let ghost st_ext (n : nfa) (a b : dfa) : unit
    requires { labext a b }
    ensures { forall i. 0 <= i < dn a -> dtr b i = dtr a i -> okst n a i -> okst n b i }
    ensures { forall i. 0 <= i < dn a -> dtr b i = dtr a i -> full n a i -> full n b i }
  = let lemma one (i : int) : unit requires { 0 <= i < dn a /\ dtr b i = dtr a i /\ okst n a i } ensures { okst n b i }
    = assert { forall c j. tin (dtr a i) c j -> 0 <= j < dn a };
      assert { sound n b i } in ()
  let ghost closure_lab (n : nfa) (m s : fset int) : unit
    requires { nwf n /\ is_closure n m s /\ inn n s } ensures { labok n (set_elements s) }
  = let e = set_elements s in
    assert { forall x. vmem x e <-> smem x s };
    assert { forall k. 0 <= k < length e -> smem e[k] s };
    let lemma cl (x y : int) : unit requires { vmem x e /\ ereach n x y } ensures { vmem y e }
    = let i = any int ensures { smem result m /\ ereach n result x } in ereach_trans n i x y in ()
  let ghost states_bound (n : nfa) (d : dfa) : unit requires { labsok n d } ensures { dn d <= pow2 (nn n) }
  = distinct_bound (create (dn d) (fun i -> pure { dlab d i })) (nn n)
'''

PRE4 = r'''
  predicate psort (s t : trs) = exists p. perm_by s t p
  let ghost sort_trs (s t : trs) : unit
    requires { psort s t }
    ensures { forall c j. tin s c j -> tin t c j } ensures { forall c j. tin t c j -> tin s c j } ensures { lwf s -> lwf t } ensures { proper s -> proper t }
    ensures { udest s -> udest t } ensures { forall n. dests s n -> dests t n }
  = let p = any seq int ensures { perm_by s t result } in
    assert { forall c j. tin s c j -> tin t c j };
    assert { forall k l. 0 <= k < length t -> 0 <= l < length t -> t[k].ntrans__m_dest = t[l].ntrans__m_dest -> udest s -> p[k] = p[l] && k = l }
  (* ---- accepted words *)
  predicate nacc (n : nfa) (i : int) (w : list int) = match w with
    | Nil -> ereach n i (nn n - 1)
    | Cons c t -> exists x y. ereach n i x /\ tin (ntr n x) c y /\ nacc n y t end
  predicate daccw (d : dfa) (s : int) (w : list int) = match w with
    | Nil -> dacc d s = True
    | Cons c t -> exists j. tin (dtr d s) c j /\ daccw d j t end
  let rec ghost function sfx (s : seq int) (i : int) : list int requires { 0 <= i <= length s } variant { length s - i }
  = if i = length s then Nil else Cons s[i] (sfx s (i + 1))
  predicate start (n : nfa) (d : dfa) = dn d > 0 /\ forall y. vmem y (dlab d 0) <-> ereach n 0 y
  predicate accs (n : nfa) (d : dfa) = forall i. 0 <= i < dn d -> (dacc d i = True <-> vmem (nn n - 1) (dlab d i))
  predicate allok (n : nfa) (d : dfa) = labsok n d /\ forall i. 0 <= i < dn d -> okst n d i /\ full n d i
  let ghost nacc_pre (n : nfa) (x y : int) (w : list int) : unit
    requires { ereach n x y /\ nacc n y w } ensures { nacc n x w }
  = match w with Nil -> ereach_trans n x y (nn n - 1)
    | Cons c t -> let a = any int ensures { exists b. ereach n y result /\ tin (ntr n result) c b /\ nacc n b t } in ereach_trans n x y a end
  let ghost edge (n : nfa) (d : dfa) (s c j : int) : unit
    requires { allok n d /\ 0 <= s < dn d /\ tin (dtr d s) c j }
    ensures { 0 <= j < dn d } ensures { target n (dlab d s) c (dlab d j) } ensures { udest (dtr d s) }
  = assert { okst n d s }; assert { dests (dtr d s) (dn d) }; assert { sound n d s }
  let rec ghost equiv (n : nfa) (d : dfa) (s : int) (w : list int) : unit
    requires { nwf n /\ allok n d /\ accs n d /\ 0 <= s < dn d } variant { w }
    ensures { daccw d s w <-> exists i. vmem i (dlab d s) /\ nacc n i w }
  = let l = pure { dlab d s } in
    assert { forall x. vmem x l -> node n x };
    match w with
    | Nil -> assert { forall i. vmem i l -> nacc n i w -> vmem (nn n - 1) l };
        if pure { vmem (nn n - 1) l } then ereach_refl n (nn n - 1)
    | Cons c t ->
        if pure { daccw d s w } then begin
          let j = any int ensures { tin (dtr d s) c result /\ daccw d result t } in
          edge n d s c j; equiv n d j t;
          let i = any int ensures { vmem result (dlab d j) /\ nacc n result t } in
          let x = any int ensures { step n l c result /\ ereach n result i } in
          let q = any int ensures { vmem result l /\ tin (ntr n result) c x } in
          nacc_pre n x i t; ereach_refl n q; assert { nacc n q w }
        end;
        if pure { exists i. vmem i l /\ nacc n i w } then begin
          let i = any int ensures { vmem result l /\ nacc n result w } in
          let x = any int ensures { exists y. ereach n i result /\ tin (ntr n result) c y /\ nacc n y t } in
          let y = any int ensures { tin (ntr n x) c result /\ nacc n result t } in
          assert { vmem x l }; assert { step n l c y };
          assert { full n d s };
          let j = any int ensures { tin (dtr d s) c result } in
          edge n d s c j; assert { dests (ntr n x) (nn n) && node n y }; ereach_refl n y; assert { vmem y (dlab d j) };
          equiv n d j t; assert { daccw d j t }
        end
    end
  let ghost ereach_closed (n : nfa) (i : int) (s : fset int) : unit
    requires { nwf n /\ node n i } requires { forall x. smem x s <-> ereach n i x } ensures { eclosed n s } ensures { smem i s }
  = ereach_refl n i;
    let lemma one (x y : int) : unit requires { smem x s /\ node n x /\ tep (ntr n x) y } ensures { smem y s }
    = assert { dests (ntr n x) (nn n) && node n y }; ereach_refl n y; ereach_cons n x y y; ereach_trans n i x y in ()
  let ghost set_acc (n : nfa) (i : int) (s : fset int) (w : list int) : unit
    requires { nwf n /\ node n i /\ smem i s } requires { forall x. smem x s <-> ereach n i x }
    ensures { (exists q. smem q s /\ nacc n q w) <-> nacc n i w }
  = if pure { exists q. smem q s /\ nacc n q w } then begin
      let q = any int ensures { smem result s /\ nacc n result w } in nacc_pre n i q w end
  let ghost nrun_step (n : nfa) (s nx s2 : fset int) (c : int) (t : list int) : unit
    requires { nwf n /\ eclosed n s /\ inn n s /\ inn n nx } requires { forall j. smem j nx <-> exists x. smem x s /\ tin (ntr n x) c j }
    requires { is_closure n nx s2 }
    ensures { (exists q. smem q s2 /\ nacc n q t) <-> exists q. smem q s /\ nacc n q (Cons c t) } ensures { eclosed n s2 }
  = closed_reach n s;
    if pure { exists q. smem q s2 /\ nacc n q t } then begin
      let q = any int ensures { smem result s2 /\ nacc n result t } in
      let i = any int ensures { smem result nx /\ ereach n result q } in
      let x = any int ensures { smem result s /\ tin (ntr n result) c i } in
      nacc_pre n i q t; ereach_refl n x; assert { nacc n x (Cons c t) }
    end;
    if pure { exists q. smem q s /\ nacc n q (Cons c t) } then begin
      let q = any int ensures { smem result s /\ nacc n result (Cons c t) } in
      let x = any int ensures { exists y. ereach n q result /\ tin (ntr n result) c y /\ nacc n y t } in
      let y = any int ensures { tin (ntr n x) c result /\ nacc n result t } in
      assert { smem x s }; assert { smem y nx }; ereach_refl n y; assert { smem y s2 }
    end;
    let lemma one (x y : int) : unit requires { smem x s2 /\ node n x /\ tep (ntr n x) y } ensures { smem y s2 }
    = let i = any int ensures { smem result nx /\ ereach n result x } in
      assert { dests (ntr n x) (nn n) && node n y }; ereach_refl n y; ereach_cons n x y y; ereach_trans n i x y in ()
  predicate alldests (d : dfa) = forall i. 0 <= i < dn d -> dests (dtr d i) (dn d)
  predicate ddet (d : dfa) = forall s k l c. 0 <= s < dn d -> 0 <= k < length (dtr d s) -> 0 <= l < length (dtr d s) -> cin (dtr d s)[k].ntrans__m_label c -> cin (dtr d s)[l].ntrans__m_label c -> k = l
  let ghost det (n : nfa) (d : dfa) : unit
    requires { allok n d } ensures { ddet d }
  = let lemma one (s k l c : int) : unit
      requires { 0 <= s < dn d /\ 0 <= k < length (dtr d s) /\ 0 <= l < length (dtr d s) }
      requires { cin (dtr d s)[k].ntrans__m_label c /\ cin (dtr d s)[l].ntrans__m_label c } ensures { k = l }
    = let a = pure { (dtr d s)[k].ntrans__m_dest } in let b = pure { (dtr d s)[l].ntrans__m_dest } in
      assert { tin (dtr d s) c a /\ tin (dtr d s) c b };
      edge n d s c a; edge n d s c b; assert { labok n (dlab d a) /\ labok n (dlab d b) };
      incr_ext (pure { dlab d a }) (pure { dlab d b });
      assert { a = b } in ()
'''

PRE5 = r'''
  (* number of kept states before i *)
  let rec function cnt (m : seq bool) (i : int) : int variant { i } = if i <= 0 then 0 else cnt m (i - 1) + (if 0 <= i - 1 < length m && m[i - 1] then 1 else 0)
  let rec lemma cnt_mono (m : seq bool) (i j : int) : unit requires { 0 <= i <= j } variant { j } ensures { 0 <= cnt m i <= cnt m j }
  = if i < j then cnt_mono m i (j - 1) else if i > 0 then cnt_mono m (i - 1) (i - 1)
  let ghost cnt_lt (m : seq bool) (i : int) : unit requires { 0 <= i < length m }
    ensures { m[i] -> cnt m (i + 1) = cnt m i + 1 } ensures { not m[i] -> cnt m (i + 1) = cnt m i }
    ensures { forall j. 0 <= j < i -> m[j] -> cnt m j < cnt m i }
  = let lemma one (j : int) : unit requires { 0 <= j < i /\ m[j] } ensures { cnt m j < cnt m i } = assert { cnt m (j + 1) = cnt m j + 1 }; cnt_mono m (j + 1) i in ()
  (* the transitions among the first n whose destination is kept *)
  let rec function ftr (m : seq bool) (s : trs) (n : int) : trs variant { n }
  = if n <= 0 || n > length s then empty else
    let d = s[n - 1].ntrans__m_dest in
    if 0 <= d < length m && m[d] then snoc (ftr m s (n - 1)) s[n - 1] else ftr m s (n - 1)
  let rec ghost ftr_ok (m : seq bool) (s : trs) (n b : int) : unit
    requires { 0 <= n <= length s /\ dests s b } variant { n }
    ensures { forall k. 0 <= k < length (ftr m s n) -> 0 <= (ftr m s n)[k].ntrans__m_dest < b /\ (ftr m s n)[k].ntrans__m_dest < length m /\ m[(ftr m s n)[k].ntrans__m_dest] }
  = if n > 0 then begin ftr_ok m s (n - 1) b;
      let f = pure { ftr m s (n - 1) } in let g = pure { ftr m s n } in let d = pure { s[n - 1].ntrans__m_dest } in
      assert { 0 <= d < b };
      if 0 <= d < length m && m[d] then begin assert { g = snoc f s[n - 1] }; assert { forall k. 0 <= k < length g -> g[k] = if k < length f then f[k] else s[n - 1] } end
      else assert { g = f } end
  (* the j-th kept state *)
  let rec function ith (m : seq bool) (n j : int) : int variant { n } = if n <= 0 then 0 else if n <= length m && m[n - 1] && cnt m (n - 1) = j then n - 1 else ith m (n - 1) j
  let rec ghost cnt_onto (m : seq bool) (n : int) : unit requires { 0 <= n <= length m } variant { n }
    ensures { forall j. 0 <= j < cnt m n -> 0 <= ith m n j < n /\ m[ith m n j] /\ cnt m (ith m n j) = j } ensures { 0 <= cnt m n <= n }
  = if n > 0 then cnt_onto m (n - 1)
  let rec ghost ftr_all (m : seq bool) (s : trs) (n : int) : unit
    requires { 0 <= n <= length s } requires { forall k. 0 <= k < length s -> 0 <= s[k].ntrans__m_dest < length m /\ m[s[k].ntrans__m_dest] } variant { n }
    ensures { length (ftr m s n) = n /\ forall k. 0 <= k < n -> (ftr m s n)[k] = s[k] }
  = if n > 0 then ftr_all m s (n - 1)
  (* a mapping of states that keeps acceptance and transitions keeps the language *)
  let rec ghost gsim (a b : dfa) (g : seq int) (i : int) (w : list int) : unit
    requires { length g = dn a /\ 0 <= i < dn a }
    requires { forall i. 0 <= i < dn a -> (dacc b g[i] = True <-> dacc a i = True) }
    requires { forall i c j. 0 <= i < dn a -> tin (dtr a i) c j -> 0 <= j < dn a /\ tin (dtr b g[i]) c g[j] }
    requires { forall i c j. 0 <= i < dn a -> tin (dtr b g[i]) c j -> exists k. tin (dtr a i) c k /\ j = g[k] }
    variant { w } ensures { daccw a i w <-> daccw b g[i] w }
  = match w with Nil -> ()
    | Cons c t ->
      if pure { daccw a i w } then begin
        let j = any int ensures { tin (dtr a i) c result /\ daccw a result t } in gsim a b g j t; assert { tin (dtr b g[i]) c g[j] } end;
      if pure { daccw b g[i] w } then begin
        let j = any int ensures { tin (dtr b g[i]) c result /\ daccw b result t } in
        let k = any int ensures { tin (dtr a i) c result /\ j = g[result] } in gsim a b g k t end
    end
'''

PRE4B = r'''
  let ghost start_lab (n : nfa) (s : fset int) : unit
    requires { nwf n /\ inn n s } requires { forall x. smem x s <-> ereach n 0 x } ensures { labok n (set_elements s) } ensures { (set_elements s)[0 .. length (set_elements s)] = set_elements s }
  = let e = set_elements s in assert { e[0 .. length e] == e };
    assert { forall x. vmem x e <-> smem x s };
    assert { forall k. 0 <= k < length e -> smem e[k] s };
    let lemma cl (x y : int) : unit requires { vmem x e /\ ereach n x y } ensures { vmem y e } = ereach_trans n 0 x y in ()
  let ghost built (n : nfa) (a b : dfa) : unit
    requires { allok n a /\ start n a /\ dn b = dn a /\ forall i. 0 <= i < dn a -> dlab b i = dlab a i }
    requires { forall i. 0 <= i < dn a -> (dacc b i = True <-> vmem (nn n - 1) (dlab a i)) }
    requires { forall i. 0 <= i < dn a -> psort (dtr a i) (dtr b i) }
    ensures { allok n b } ensures { start n b } ensures { accs n b }
  = let lemma one (i : int) : unit requires { 0 <= i < dn a } ensures { okst n b i } ensures { full n b i }
    = assert { okst n a i }; assert { full n a i }; sort_trs (pure { dtr a i }) (pure { dtr b i });
      assert { dests (dtr a i) (dn a) };
      assert { forall c j. tin (dtr b i) c j -> 0 <= j < dn a };
      assert { sound n b i } in ()
  let ghost lang0 (n : nfa) (d : dfa) : unit
    requires { nwf n /\ nn n > 0 /\ allok n d /\ start n d /\ accs n d } ensures { forall w. daccw d 0 w <-> nacc n 0 w }
  = let lemma one (w : list int) : unit ensures { daccw d 0 w <-> nacc n 0 w }
    = equiv n d 0 w; ereach_refl n 0; assert { vmem 0 (dlab d 0) };
      if pure { exists i. vmem i (dlab d 0) /\ nacc n i w } then begin
        let i = any int ensures { vmem result (dlab d 0) /\ nacc n result w } in nacc_pre n 0 i w end in ()
'''

PRE6 = r'''
  (* states that accept alike and have the same moves *)
  predicate teq (a b : dstate) = a.dstate__m_accept = b.dstate__m_accept /\
    forall c j. tin a.dstate__base.dbase__m_transitions c j <-> tin b.dstate__base.dbase__m_transitions c j
  (* std::unordered_map<DFAState, int>: what is found is an entry whose key compares equal *)
  type dmap
  predicate kent (m : dmap) (k : dstate) (v : int)
  val function kmget (m : dmap) (k : dstate) : int
  val constant kmempty : dmap ensures { forall k v. not (kent result k v) }
  val kcont_mem (k : dstate) (m : dmap) : bool ensures { result -> exists x. teq k x /\ kent m x (kmget m k) }
  val kminsert (m : dmap) (k : dstate) (v : int) : dmap ensures { forall x u. kent result x u -> kent m x u \/ (x = k /\ u = v) }
  let ghost min_lang (a r b : dfa) (rm : seq int) (mk : seq bool) (rr : seq int) : unit
    requires { dn a > 0 /\ alldests a /\ ddet a /\ dn r = dn a /\ length rm = dn a /\ length mk = dn a /\ length rr = dn a }
    requires { forall i. 0 <= i < dn a -> rr[i] = if rm[i] >= 0 then rm[i] else i }
    requires { forall i. 0 <= i < dn a -> rm[i] >= 0 -> rm[i] < i /\ teq (dst a)[i] (dst a)[rm[i]] }
    requires { forall i. 0 <= i < dn a -> 0 <= rr[i] < dn a /\ mk[rr[i]] }
    requires { forall i. 0 <= i < dn a -> length (dtr r i) = length (dtr a i) /\ dacc r i = dacc a i }
    requires { forall i k. 0 <= i < dn a -> 0 <= k < length (dtr a i) -> (dtr r i)[k].ntrans__m_label = (dtr a i)[k].ntrans__m_label /\ (dtr r i)[k].ntrans__m_dest = rr[(dtr a i)[k].ntrans__m_dest] }
    requires { forall i. 0 <= i < dn a -> mk[i] -> 0 <= cnt mk i < dn b }
    requires { forall i. 0 <= i < dn a -> mk[i] -> dacc b (cnt mk i) = dacc a i /\ length (dtr b (cnt mk i)) = length (dtr a i) }
    requires { forall i k. 0 <= i < dn a -> mk[i] -> 0 <= k < length (dtr a i) -> (dtr b (cnt mk i))[k].ntrans__m_label = (dtr r i)[k].ntrans__m_label /\ (dtr b (cnt mk i))[k].ntrans__m_dest = cnt mk (dtr r i)[k].ntrans__m_dest }
    requires { forall j. 0 <= j < dn b -> let i = ith mk (dn a) j in 0 <= i < dn a /\ mk[i] /\ cnt mk i = j }
    ensures { forall w. daccw b 0 w <-> daccw a 0 w } ensures { dn b > 0 } ensures { alldests b } ensures { ddet b }
  = let g = create (dn a) (fun i -> pure { cnt mk rr[i] }) in
    assert { forall i. 0 <= i < dn a -> (dacc b g[i] = True <-> dacc a i = True) };
    assert { forall i c j. 0 <= i < dn a -> (tin (dtr a i) c j <-> tin (dtr a rr[i]) c j) };
    let lemma fwd (i c j : int) : unit requires { 0 <= i < dn a /\ tin (dtr a i) c j } ensures { 0 <= j < dn a } ensures { tin (dtr b g[i]) c g[j] }
    = assert { dests (dtr a i) (dn a) }; let k = any int ensures { 0 <= result < length (dtr a rr[i]) /\ (dtr a rr[i])[result].ntrans__m_dest = j /\ cin (dtr a rr[i])[result].ntrans__m_label c } in
      let t = pure { (dtr b g[i])[k] } in assert { t.ntrans__m_dest = g[j] /\ cin t.ntrans__m_label c } in
    let lemma bwd (i c j : int) : unit requires { 0 <= i < dn a /\ tin (dtr b g[i]) c j } ensures { exists k. tin (dtr a i) c k /\ j = g[k] }
    = let k = any int ensures { 0 <= result < length (dtr b g[i]) /\ (dtr b g[i])[result].ntrans__m_dest = j /\ cin (dtr b g[i])[result].ntrans__m_label c } in
      let t = pure { (dtr a rr[i])[k] } in assert { dests (dtr a rr[i]) (dn a) }; let e = pure { t.ntrans__m_dest } in assert { tin (dtr a rr[i]) c e }; assert { tin (dtr a i) c e }; assert { j = g[e] } in
    let lemma lang (w : list int) : unit ensures { daccw b 0 w <-> daccw a 0 w } = assert { rr[0] = 0 /\ g[0] = 0 }; gsim a b g 0 w in
    let lemma dd (j : int) : unit requires { 0 <= j < dn b } ensures { dests (dtr b j) (dn b) }
      ensures { forall k l c. 0 <= k < length (dtr b j) -> 0 <= l < length (dtr b j) -> cin (dtr b j)[k].ntrans__m_label c -> cin (dtr b j)[l].ntrans__m_label c -> k = l }
    = let i = ith mk (dn a) j in assert { 0 <= i < dn a /\ mk[i] /\ cnt mk i = j };
      assert { dests (dtr a i) (dn a) };
      assert { forall k. 0 <= k < length (dtr a i) -> (dtr b j)[k].ntrans__m_label = (dtr a i)[k].ntrans__m_label /\ (dtr b j)[k].ntrans__m_dest = cnt mk rr[(dtr a i)[k].ntrans__m_dest] } in
    assert { mk[rr[0]] }
'''

CCF = ('cc_is_epsilon', 'cc_includes_ch', 'cc_includes_r', 'cc_or_r', 'cc_or')

def functions(T, charT=None):
    cf = charclass.functions(T)
    F = {}
    for k in CCF:
        d = cf[k]
        F[k] = dict(key=d['key'], requires=d.get('requires', []), ensures=d['ensures'], trusted=True)
    NS = 'NFABaseState<%s,int>' % T
    DB = 'NFABaseState<%s,IndexVector>' % T
    def addt(f):
        t, o = '(!this).%s__m_transitions' % f, '(old !this).%s__m_transitions' % f
        return dict(requires=['lwf %s' % t, 'cwf cc'],
            ensures=['adds exactly the edges of the class:: forall c j. tin {t} c j <-> tin {o} c j \\/ (j = dest /\\ cin cc c)'.format(t=t, o=o),
                     'adds an empty move exactly for the empty class:: forall j. tep {t} j <-> tep {o} j \\/ (j = dest /\\ cempty cc)'.format(t=t, o=o),
                     'lwf %s' % t, 'forall n. dests {o} n -> 0 <= dest < n -> dests {t} n'.format(t=t, o=o),
                     'one transition per destination:: udest {o} -> proper {o} -> not (cempty cc) -> udest {t}'.format(t=t, o=o),
                     'proper {o} -> not (cempty cc) -> proper {t}'.format(t=t, o=o),
                     '(!this).%s__m_label = (old !this).%s__m_label' % (f, f)],
            ghost={'entry': 'let ghost t0 = %s in' % t, 'end0': '()'},
            loops=[dict(inv=['!this = (old !this)', 'forall k. 0 <= k < @ix -> t0[k].ntrans__m_dest = dest -> cempty t0[k].ntrans__m_label'])])
    F['ns_add'] = dict(addt('nstate'), key='%s::add_transition(const CharClass<%s> &,int,bool)' % (NS, T))
    F['db_add'] = dict(addt('dbase'), key='%s::add_transition(const CharClass<%s> &,int,bool)' % (DB, T))
    F['cc_borders'] = dict(key='CharClass<%s>::collect_borders()' % T,
        ensures=['borders are exactly the ends of the runs:: forall b. vmem b result.ivec__base <-> bnd this b'],
        loops=[dict(inv=['forall b. vmem b (!ret).ivec__base <-> exists k. 0 <= k < @ix /\\ (this.cclass__m_ranges[k].range__m_start = b \\/ this.cclass__m_ranges[k].range__m_end = b)'])])
    F['ns_eps'] = dict(key='%s::epsilon_transitions(bool &)' % NS, requires=['lwf this.nstate__m_transitions'],
        ensures=['exactly the empty moves:: forall j. vmem j result.ivec__base <-> tep this.nstate__m_transitions j'],
        loops=[dict(inv=['forall j. vmem j (!ret).ivec__base <-> exists k. 0 <= k < @ix /\\ (this.nstate__m_transitions)[k].ntrans__m_dest = j /\\ cempty (this.nstate__m_transitions)[k].ntrans__m_label'])])
    # ---- empty-move closures
    cl, oc = '!closure', '(old !closure)'
    F['ecs'] = dict(key='NFA<%s>::epsilon_closure_sub(std::set<int> &,int)' % T, rec=True, variant=['nn this - length (set_elements !closure)'],
        requires=['nwf this', 'node this index', 'inn this !closure'],
        ensures=['smem index !closure', 'subset %s !closure' % oc, 'inn this !closure',
                 'only reachable states are added:: forall x. smem x !closure -> smem x %s \\/ ereach this index x' % oc,
                 'the empty moves of added states are followed:: forall x y. smem x !closure -> not (smem x %s) -> tep (ntr this x) y -> smem y !closure' % oc,
                 'length (set_elements %s) <= length (set_elements !closure)' % oc,
                 'everything reachable is collected:: eclosed this %s -> forall x. ereach this index x -> smem x !closure' % oc],
        ghost={'entry': 'let ghost c0 = !closure in set_bounded !closure (nn this); if pure { eclosed this c0 } then closed_reach this c0;', 'after0': 'if pure { eclosed this c0 } then closed_reach this !closure;',
               'before0': 'ereach_refl this index; assert { forall k. 0 <= k < length (!et).ivec__base -> vmem ((!et).ivec__base)[k] (!et).ivec__base };',
               'begin0': 'assert { tep (ntr this index) (!et).ivec__base[!ix_dest] }; let ghost c1 = !closure in', 'end0': 'let ghost lemma re (x : int) : unit requires { ereach this (!et).ivec__base[!ix_dest - 1] x } ensures { ereach this index x } = ereach_cons this index (!et).ivec__base[!ix_dest - 1] x in ();'},
        loops=[dict(inv=['subset c0 !closure', 'smem index !closure', 'not (smem index c0)', 'inn this !closure', 'length (set_elements c0) < length (set_elements !closure)',
                 'forall x. smem x !closure -> smem x c0 \\/ ereach this index x',
                 'forall x y. smem x !closure -> not (smem x c0) -> x <> index -> tep (ntr this x) y -> smem y !closure',
                 'forall k. 0 <= k < @ix -> smem ((!et).ivec__base)[k] !closure'])])
    F['ec1'] = dict(key='NFA<%s>::epsilon_closure(int,bool &)' % T, requires=['nwf this', 'node this index'],
        ensures=['exactly the states reachable by empty moves:: forall x. smem x result <-> ereach this index x', 'inn this result'],
        ghost={'entry': 'ereach_refl this index;'})
    F['ec2'] = dict(key='NFA<%s>::epsilon_closure(const std::set<int> &,bool &)' % T, requires=['nwf this', 'inn this indices'],
        ensures=['exactly the states reachable by empty moves:: is_closure this indices result', 'inn this result'],
        loops=[dict(inv=['inn this !ret', 'eclosed this !ret', 'forall k. 0 <= k < @ix -> smem (set_elements indices)[k] !ret',
                         r'forall x. smem x !ret -> exists i. smem i indices /\ ereach this i x'])],
        ghost={'begin0': 'assert { smem (set_elements indices)[@ix] indices }; ereach_refl this (set_elements indices)[@ix];', 'after0': 'closed_reach this !ret;'})
    # ---- departure sets
    DS = 'NFADepartureSet<%s>' % T
    D, O = '!this', '(old !this)'
    F['ds_add'] = dict(key='%s::add(const Range<%s> &,const NFAClosure &)' % (DS, T), requires=['dsw !this', 'ddist !this', 'rok r'],
        ensures=[r'adds the range with its target states and nothing else:: forall c s. dmem !this c s <-> dmem (old !this) c s \/ (rin r c /\ s = closure)', 'forall c s. dmem (old !this) c s -> dmem !this c s', 'forall c. rin r c -> dmem !this c closure', 'dsw !this', 'one entry per set of target states:: ddist !this'],
        ghost={'entry': 'assert { rin r r.range__m_start }; let ghost d0 = !this in', 'begin0': '''let ghost kk = @ix in let ghost p0 = (d0.deptset__base)[kk].t21 in
    assert { length (set_elements closure) = length (set_elements p0) -> (forall k. 0 <= k < length (set_elements closure) -> (set_elements closure)[k] = (set_elements p0)[k]) -> set_elements closure == set_elements p0 && closure = p0 };
    let ghost lemma u (v : tup2 cclass (fset int)) : unit requires { v.t21 = (d0.deptset__base)[kk].t21 }
    requires { forall c. cin v.t20 c <-> cin (d0.deptset__base)[kk].t20 c \\/ rin r c }
    ensures { forall c s. dmem { deptset__base = set d0.deptset__base kk v } c s <-> dmem d0 c s \\/ (cin v.t20 c /\\ s = v.t21) }
    ensures { forall c s. dmem { deptset__base = set d0.deptset__base kk v } c s <-> dmem d0 c s \\/ (rin r c /\\ s = v.t21) }
    = dmem_upd d0 kk v; assert { forall c. cin (d0.deptset__base)[kk].t20 c -> dmem d0 c v.t21 } in'''},
        loops=[dict(inv=['!this = (old !this)', 'forall k. 0 <= k < @ix -> ((!this).deptset__base)[k].t21 <> closure'])])
    F['df_add'] = dict(key='NFADepartureSetFactory<%s>::add(const NFATransition<%s> &)' % (T, T), requires=['cwf tr.ntrans__m_label', 'lwf (!this).deptfac__m_transitions'],
        ensures=[r'collects exactly the non-empty moves:: forall c j. tin (!this).deptfac__m_transitions c j <-> tin (old !this).deptfac__m_transitions c j \/ (cin tr.ntrans__m_label c /\ j = tr.ntrans__m_dest)',
                 'lwf (!this).deptfac__m_transitions'])
    F['df_build'] = dict(key='NFADepartureSetFactory<%s>::build_departure_set' % T, requires=['lwf (!this).deptfac__m_transitions'],
        ensures=['the target states are exactly those the character leads to:: forall c s. dmem result c s -> forall x. smem x s <-> tin (!this).deptfac__m_transitions c x',
                 'no character is lost:: forall c x. tin (!this).deptfac__m_transitions c x -> exists s. dmem result c s',
                 'dsw result', 'ddist result', '!this = (old !this)'],
        ghost={'entry': 'let ghost tr0 = (!this).deptfac__m_transitions in'},
        loops=[dict(inv=['forall b. smem b !borders -> 0 <= b <= maxc', 'forall k b. 0 <= k < @ix -> bnd (tr0[k].ntrans__m_label) b -> smem b !borders', '!this = (old !this)']),
               dict(inv=['!this = (old !this)', '0 <= !i <= length e', 'set_elements !borders = e', '!i = length e -> length e = 0', 'dsw !deptset', 'ddist !deptset',
                         'forall c s. dmem !deptset c s -> forall x. smem x s <-> tin tr0 c x',
                         'forall c x. tin tr0 c x -> !i < length e -> c < e[!i] -> exists s. dmem !deptset c s'], var=['length e - !i']),
               dict(inv=['!this = (old !this)', 'forall x. smem x !closure <-> exists k. 0 <= k < @ix /\\ tr0[k].ntrans__m_dest = x /\\ inrun tr0[k].ntrans__m_label !atomic_range'])])
    F['df_build']['ghost'].update({'before1': 'let ghost e = set_elements !borders in assert { forall b. smem b !borders <-> vmem b e }; assert { brd tr0 e }; locate tr0 e;',
        'begin1': 'assert { forall k. 0 <= k < length e -> smem e[k] !borders && 0 <= e[k] <= maxc }; assert { !i < length e - 1 -> e[!i] < e[!i + 1] };',
        'after2': '''at_all tr0 e (!i - 1) !closure !atomic_range;
   assert { forall c x. tin tr0 c x -> e[!i - 1] <= c < e[!i] -> rin !atomic_range c && smem x !closure };
   assert { forall c x. tin tr0 c x -> c < e[!i - 1] -> exists s. dmem !deptset c s };
   assert { forall x. smem x !closure -> length (set_elements !closure) > 0 };'''})
    # ---- subset construction
    DF = 'DFA<%s>' % T
    F['add_state'] = dict(key='%s::add_state(const std::set<int> &,bool)' % DF,
        requires=['forall i j. 0 <= i < j < dn !this -> dlab !this i <> dlab !this j'],
        ensures=['0 <= result < dn !this', 'the state found is the one with this label:: dlab !this result = set_elements label_',
                 'dn (old !this) <= dn !this <= dn (old !this) + 1', 'forall i. 0 <= i < dn (old !this) -> (dtr !this i = dtr (old !this) i /\\ dlab !this i = dlab (old !this) i /\\ dacc !this i = dacc (old !this) i)',
                 'dn !this > dn (old !this) -> result = dn (old !this) /\\ length (dtr !this result) = 0 /\\ not (dacc !this result)',
                 'no two states have the same label:: forall i j. 0 <= i < j < dn !this -> dlab !this i <> dlab !this j'],
        ghost={'begin0': 'assert { length (set_elements label_) = length (dlab !this !i) -> (forall k. 0 <= k < length (set_elements label_) -> (set_elements label_)[k] = (dlab !this !i)[k]) -> set_elements label_ == dlab !this !i };',
               'entry': 'assert { (set_elements label_)[0 .. length (set_elements label_)] == set_elements label_ };'},
        loops=[dict(inv=['!this = (old !this)', 'forall k. 0 <= k < !i -> dlab !this k <> set_elements label_', '0 <= !i <= dn !this'], var=['dn !this - !i'])])
    others = 'forall i. 0 <= i < dn d0 -> i <> index -> (dtr !this i = dtr d0 i /\\ dlab !this i = dlab d0 i /\\ dacc !this i = dacc d0 i)'
    F['fork'] = dict(key='%s::fork_states(int,const NFA<%s> &)' % (DF, T), rec=True, variant=['pow2 (nn nfa) - dn !this'],
        requires=['nwf nfa', '0 <= index < dn !this', 'labsok nfa !this', 'okst nfa !this index'],
        ensures=['dn (old !this) <= dn !this', 'labsok nfa !this', 'other states are left alone:: forall i. 0 <= i < dn (old !this) -> i <> index -> (dtr !this i = dtr (old !this) i /\\ dlab !this i = dlab (old !this) i /\\ dacc !this i = dacc (old !this) i)',
                 'dlab !this index = dlab (old !this) index', 'dacc !this index = dacc (old !this) index',
                 'every transition leads to the state for its character:: okst nfa !this index',
                 'no possible continuation is missing:: full nfa !this index',
                 'every new state is completed:: forall i. dn (old !this) <= i < dn !this -> okst nfa !this i /\\ full nfa !this i /\\ not (dacc !this i)'],
        ghost={'entry': '''let ghost d0 = !this in let ghost l0 = dlab !this index in assert { labok nfa l0 };
               assert { forall k. 0 <= k < length l0 -> vmem l0[k] l0 && node nfa l0[k] }; states_bound nfa !this;''',
               'before2': '''let ghost ft = (!ds_factory).deptfac__m_transitions in assert { forall c x. tin ft c x <-> step nfa l0 c x };
               let ghost ds = (!deptset).deptset__base in
               let ghost lemma tg (c : int) (s : fset int) (k : int) : unit requires { 0 <= k < length ds /\\ cin ds[k].t20 c /\\ is_closure nfa ds[k].t21 s } ensures { target nfa l0 c (set_elements s) }
               = assert { dmem !deptset c ds[k].t21 }; assert { forall x. smem x ds[k].t21 <-> step nfa l0 c x }; assert { forall y. vmem y (set_elements s) <-> smem y s } in
               let ghost lemma nodes (k : int) : unit requires { 0 <= k < length ds } ensures { inn nfa ds[k].t21 }
               = let c = any int ensures { cin ds[k].t20 result } in assert { dmem !deptset c ds[k].t21 }; assert { forall x. smem x ds[k].t21 -> tin ft c x } in''',
               'before3': 'assert { full nfa !this index }; let ghost dn0 = dn d0 in',
               'begin2': 'let ghost d2 = !this in nodes !ix_item; let ghost kk = !ix_item in',
               'last2': r'''let ghost e = pure { set_elements !ec } in closure_lab nfa ds[kk].t21 !ec; let ghost nj = !new_index in
                  assert { labok nfa e }; assert { forall c. cin ds[kk].t20 c -> target nfa l0 c e };
                  assert { dlab !this nj = e }; assert { dlab !this index = l0 };
                  assert { dn d2 <= dn !this <= dn d2 + 1 }; assert { nj < dn !this };
                  assert { forall i. 0 <= i < dn d2 -> dlab !this i = dlab d2 i /\ dacc !this i = dacc d2 i };
                  assert { forall i. 0 <= i < dn d2 -> i <> index -> (dtr !this i = dtr d2 i /\ dlab !this i = dlab d2 i /\ dacc !this i = dacc d2 i) };
                  assert { dn !this > dn d2 -> nj = dn d2 /\ length (dtr !this nj) = 0 /\ not (dacc !this nj) };
                  assert { labsok nfa !this };
                  assert { forall c j. tin (dtr !this index) c j <-> tin (dtr d2 index) c j \/ (j = nj /\ cin ds[kk].t20 c) };
                  assert { forall c j. tin (dtr d2 index) c j -> tin (dtr !this index) c j };
                  assert { forall c. cin ds[kk].t20 c -> tin (dtr !this index) c nj };
                  assert { forall c j. tin (dtr d2 index) c j -> 0 <= j < dn d2 };
                  assert { labext d2 !this };
                  assert { sound nfa !this index }''',
               'begin3': 'states_bound nfa !this; let ghost d3 = !this in let ghost ii = !i in',
               'end3': '''assert { (dtr !this index = dtr d3 index /\\ dlab !this index = dlab d3 index /\\ dacc !this index = dacc d3 index) };
                  assert { forall j. 0 <= j < dn d3 -> j <> ii -> (dtr !this j = dtr d3 j /\\ dlab !this j = dlab d3 j /\\ dacc !this j = dacc d3 j) };
                  assert { labext d3 !this };
                  st_ext nfa d3 !this'''},
        loops=[dict(inv=['!this = d0', 'lwf (!ds_factory).deptfac__m_transitions', 'forall c j. tin (!ds_factory).deptfac__m_transitions c j <-> exists k. 0 <= k < @ix /\\ tin (ntr nfa l0[k]) c j']),
               dict(inv=['!this = d0', 'lwf (!ds_factory).deptfac__m_transitions', 'forall c j. tin (!ds_factory).deptfac__m_transitions c j <-> (exists k. 0 <= k < !ix_i /\\ tin (ntr nfa l0[k]) c j) \\/ exists m. 0 <= m < @ix /\\ (ntr nfa !i)[m].ntrans__m_dest = j /\\ cin (ntr nfa !i)[m].ntrans__m_label c']),
               dict(inv=['dn d0 <= dn !this', 'labsok nfa !this', others, 'dlab !this index = l0', 'dacc !this index = dacc d0 index', 'okst nfa !this index',
                         'forall i. dn d0 <= i < dn !this -> length (dtr !this i) = 0 /\\ not (dacc !this i)',
                         'forall m c. 0 <= m < @ix -> cin ds[m].t20 c -> exists j. tin (dtr !this index) c j']),
               dict(inv=['!initial_index <= !i <= dn !this', 'labsok nfa !this', others, 'dlab !this index = l0', 'dacc !this index = dacc d0 index', 'okst nfa !this index', 'full nfa !this index',
                         'forall j. dn d0 <= j < !i -> full nfa !this j', 'forall j. dn d0 <= j < dn !this -> okst nfa !this j /\\ not (dacc !this j)'], var=['pow2 (nn nfa) - !i'])])
    els = '(set_elements !states)'
    F['nfa_run'] = dict(key='NFA<%s>::run' % T, requires=['nwf this', 'node this index', '0 <= input_pos <= length seq'],
        ensures=['accepts exactly the words of the automaton:: result <-> nacc this index (sfx seq input_pos)'],
        ghost={'before0': 'ereach_closed this index !states; set_acc this index !states (sfx seq !input_pos); ', 'begin0': 'let ghost s0 = !states in let ghost c0 = seq[!input_pos] in let ghost w1 = sfx seq (!input_pos + 1) in assert { sfx seq !input_pos = Cons c0 w1 };',
               'before1': 'assert { forall k. 0 <= k < length (set_elements s0) -> smem (set_elements s0)[k] s0 && node this (set_elements s0)[k] };',
               'last0': 'assert { forall j. smem j !next <-> exists x. smem x s0 /\\ tin (ntr this x) c0 j }; nrun_step this s0 !next !states c0 w1;',
               'after0': 'let ghost fin = nn this - 1 in assert { sfx seq !input_pos = Nil }; if pure { smem fin !states } then ereach_refl this fin; closed_reach this !states'},
        loops=[dict(inv=['input_pos_0 <= !input_pos <= length seq', 'inn this !states', 'eclosed this !states', '(exists q. smem q !states /\\ nacc this q (sfx seq !input_pos)) <-> nacc this index (sfx seq input_pos_0)'], var=['length seq - !input_pos']),
               dict(inv=['inn this !next', '!states = s0', 'forall j. smem j !next <-> exists k. 0 <= k < @ix /\\ tin (ntr this (set_elements s0)[k]) c0 j']),
               dict(inv=['inn this !next', '!states = s0', 'forall j. smem j !next <-> (exists k. 0 <= k < !ix_state /\\ tin (ntr this (set_elements s0)[k]) c0 j) \\/ exists m. 0 <= m < @ix /\\ (ntr this !state)[m].ntrans__m_dest = j /\\ cin (ntr this !state)[m].ntrans__m_label c0'])])
    F['dfa_run'] = dict(key='DFA<%s>::run' % T, rec=True, variant=['length seq - input_pos'],
        requires=['ddet this', 'forall i. 0 <= i < dn this -> dests (dtr this i) (dn this)', '0 <= index < dn this', '0 <= input_pos <= length seq'],
        ensures=['accepts exactly the words of the automaton:: result <-> daccw this index (sfx seq input_pos)'],
        ghost={'before0': 'assert { sfx seq input_pos = Cons seq[input_pos] (sfx seq (input_pos + 1)) };',
               'begin0': 'assert { forall j. cin (dtr this index)[@ix].ntrans__m_label seq[input_pos] -> tin (dtr this index) seq[input_pos] j -> j = (dtr this index)[@ix].ntrans__m_dest };'},
        loops=[dict(inv=['forall k. 0 <= k < @ix -> not (cin (dtr this index)[k].ntrans__m_label seq[input_pos])'])])
    dtrs = '(!this).dfa__base.dabase__m_states'
    shape = 'forall i. 0 <= i < dn d0 -> dlab !this i = dlab d0 i /\\ dacc !this i = dacc d0 i /\\ length (dtr !this i) = length (dtr d0 i)'
    F['redirect'] = dict(key='DFA<%s>::redirect_transitions' % T,
        ensures=['dn !this = dn (old !this)', 'forall i. 0 <= i < dn (old !this) -> dlab !this i = dlab (old !this) i /\\ dacc !this i = dacc (old !this) i /\\ length (dtr !this i) = length (dtr (old !this) i)',
                 'forall i k. 0 <= i < dn (old !this) -> 0 <= k < length (dtr (old !this) i) -> (dtr !this i)[k].ntrans__m_label = (dtr (old !this) i)[k].ntrans__m_label',
                 'exactly the transitions to the dropped state are redirected:: forall i k. 0 <= i < dn (old !this) -> 0 <= k < length (dtr (old !this) i) -> (dtr !this i)[k].ntrans__m_dest = if (dtr (old !this) i)[k].ntrans__m_dest = from then to_ else (dtr (old !this) i)[k].ntrans__m_dest'],
        ghost={'entry': 'let ghost d0 = !this in', 'before1': 'let ghost i0 = !ix_s in'},
        loops=[dict(inv=['dn !this = dn d0', shape, 'forall i k. 0 <= i < dn d0 -> 0 <= k < length (dtr d0 i) -> (dtr !this i)[k].ntrans__m_label = (dtr d0 i)[k].ntrans__m_label',
                         'forall i k. 0 <= i < dn d0 -> 0 <= k < length (dtr d0 i) -> (dtr !this i)[k].ntrans__m_dest = if i < @ix && (dtr d0 i)[k].ntrans__m_dest = from then to_ else (dtr d0 i)[k].ntrans__m_dest']),
               dict(inv=['dn !this = dn d0', shape, 'forall i k. 0 <= i < dn d0 -> 0 <= k < length (dtr d0 i) -> (dtr !this i)[k].ntrans__m_label = (dtr d0 i)[k].ntrans__m_label',
                         'forall i k. 0 <= i < dn d0 -> 0 <= k < length (dtr d0 i) -> (dtr !this i)[k].ntrans__m_dest = if (i < i0 || i = i0 && k < @ix) && (dtr d0 i)[k].ntrans__m_dest = from then to_ else (dtr d0 i)[k].ntrans__m_dest'])])
    nt = lambda j: '(!nodes)[%s].dstate__base.dbase__m_transitions' % j
    nl = lambda j: '(!nodes)[%s].dstate__base.dbase__m_label.ivec__base' % j
    nodeinv = ['!this = d0', '0 <= !src_index <= dn d0', 'length !index_map = dn d0', '!dest_index = cnt mask !src_index', 'length !nodes = !dest_index',
               'forall i. 0 <= i < !src_index -> mask[i] -> (!index_map)[i] = cnt mask i',
               'forall i. 0 <= i < !src_index -> mask[i] -> 0 <= cnt mask i < length !nodes',
               'forall i. 0 <= i < !src_index -> mask[i] -> %s = ftr mask (dtr d0 i) (length (dtr d0 i))' % nt('cnt mask i'),
               'forall i. 0 <= i < !src_index -> mask[i] -> (!nodes)[cnt mask i].dstate__m_accept = dacc d0 i /\\ %s = dlab d0 i' % nl('cnt mask i')]
    ren = ['length !nodes = length n1', 'forall j. 0 <= j < length n1 -> length %s = length (n1[j].dstate__base.dbase__m_transitions)' % nt('j'),
           'forall j. 0 <= j < length n1 -> (!nodes)[j].dstate__m_accept = n1[j].dstate__m_accept /\\ %s = n1[j].dstate__base.dbase__m_label.ivec__base' % nl('j'),
           'forall j k. 0 <= j < length n1 -> 0 <= k < length (n1[j].dstate__base.dbase__m_transitions) -> %s[k].ntrans__m_label = n1[j].dstate__base.dbase__m_transitions[k].ntrans__m_label' % nt('j')]
    rend = lambda c: 'forall j k. 0 <= j < length n1 -> 0 <= k < length (n1[j].dstate__base.dbase__m_transitions) -> %s[k].ntrans__m_dest = if %s then im[n1[j].dstate__base.dbase__m_transitions[k].ntrans__m_dest] else n1[j].dstate__base.dbase__m_transitions[k].ntrans__m_dest' % (nt('j'), c)
    F['filter'] = dict(key='DFA<%s>::filter_nodes' % T, requires=['length mask = dn !this', 'forall i. 0 <= i < dn !this -> dests (dtr !this i) (dn !this)'],
        ensures=['dn !this = cnt mask (dn (old !this))',
                 'forall i. 0 <= i < dn (old !this) -> mask[i] -> 0 <= cnt mask i < dn !this',
                 'kept states keep what they are:: forall i. 0 <= i < dn (old !this) -> mask[i] -> dacc !this (cnt mask i) = dacc (old !this) i /\\ dlab !this (cnt mask i) = dlab (old !this) i',
                 'forall i. 0 <= i < dn (old !this) -> mask[i] -> length (dtr !this (cnt mask i)) = length (ftr mask (dtr (old !this) i) (length (dtr (old !this) i)))',
                 'transitions to kept states are kept with their label:: forall i k. 0 <= i < dn (old !this) -> mask[i] -> 0 <= k < length (dtr !this (cnt mask i)) -> (dtr !this (cnt mask i))[k].ntrans__m_label = (ftr mask (dtr (old !this) i) (length (dtr (old !this) i)))[k].ntrans__m_label',
                 'and lead to the renumbered state:: forall i k. 0 <= i < dn (old !this) -> mask[i] -> 0 <= k < length (dtr !this (cnt mask i)) -> (dtr !this (cnt mask i))[k].ntrans__m_dest = cnt mask (ftr mask (dtr (old !this) i) (length (dtr (old !this) i)))[k].ntrans__m_dest',
                 'no other states appear:: forall j. 0 <= j < dn !this -> let i = ith mask (dn (old !this)) j in 0 <= i < dn (old !this) /\\ mask[i] /\\ cnt mask i = j'],
        ghost={'entry': 'let ghost d0 = !this in cnt_onto mask (dn d0);', 'begin0': 'cnt_lt mask !src_index; let ghost s0 = !src_index in let ghost n0 = !nodes in',
               'end0': 'assert { not mask[s0] -> !nodes = n0 }; assert { mask[s0] -> forall j. 0 <= j < length n0 -> (!nodes)[j] = n0[j] }; assert { mask[s0] -> cnt mask s0 = length n0 /\\ %s = ftr mask (dtr d0 s0) (length (dtr d0 s0)) }' % nt('cnt mask s0'),
               'before2': '''cnt_onto mask (dn d0); let ghost n1 = !nodes in let ghost im = !index_map in
                  let ghost lemma dok (j k : int) : unit requires { 0 <= j < length n1 /\\ 0 <= k < length (n1[j].dstate__base.dbase__m_transitions) }
                    ensures { 0 <= n1[j].dstate__base.dbase__m_transitions[k].ntrans__m_dest < dn d0 /\\ mask[n1[j].dstate__base.dbase__m_transitions[k].ntrans__m_dest] }
                  = let i = ith mask (dn d0) j in assert { 0 <= i < dn d0 /\\ mask[i] /\\ cnt mask i = j };
                    ftr_ok mask (dtr d0 i) (length (dtr d0 i)) (dn d0) in''',
               'before3': 'let ghost j0 = !ix_n in'},
        loops=[dict(inv=nodeinv, var=['dn d0 - !src_index']), dict(inv=['!this = d0', '!filtered = ftr mask (dtr d0 !src_index) @ix']),
               dict(inv=ren + [rend('j < @ix'), '!index_map = im', '!this = d0']),
               dict(inv=ren + [rend('(j < j0 || j = j0 && k < @ix)'), '!index_map = im', '!this = d0'])])
    # ---- merging states that behave the same
    CC = 'CharClass<%s>' % T
    F['iv_inc'] = dict(key='IndexVector::includes(int)', ensures=['result <-> vmem i this.ivec__base'])
    F['cc_eq'] = dict(key='%s::operator==(const %s &)' % (CC, CC), ensures=['result -> forall c. cin this c <-> cin cc c'])
    F['tr_eq'] = dict(key='NFATransition<%s>::operator==(const NFATransition<%s> &)' % (T, T),
        ensures=[r'result -> this.ntrans__m_dest = t.ntrans__m_dest /\ forall c. cin this.ntrans__m_label c <-> cin t.ntrans__m_label c'])
    F['db_eq'] = dict(key='%s::operator==(const %s &)' % (DB, DB),
        ensures=['states compared equal have the same moves:: result -> forall c j. tin this.dbase__m_transitions c j <-> tin s.dbase__m_transitions c j'])
    F['st_eq'] = dict(key='DFAState<%s>::operator==(const DFAState<%s> &)' % (T, T),
        ensures=['states compared equal accept alike and have the same moves:: result -> teq this s'])
    same0 = 'forall i. 0 <= i < dn d0 -> (dtr !this i = dtr d0 i /\\ dlab !this i = dlab d0 i /\\ dacc !this i = dacc d0 i)'
    mlen = ['dn !this = dn d0', '0 <= !index <= dn d0', 'length !mask = dn d0', 'length !remap = dn d0']
    F['minimize'] = dict(key='DFA<%s>::minimize' % T,
        requires=['dn !this > 0', 'alldests !this', 'ddet !this'],
        ensures=['the minimised automaton accepts the same words:: forall w. daccw !this 0 w <-> daccw (old !this) 0 w', 'dn !this > 0', 'alldests !this', 'ddet !this',
                 'there are no more states than before:: dn !this <= dn (old !this)'],
        ghost={'entry': 'let ghost d0 = !this in let ghost gd = ref !this in', 'begin0': 'let ghost x0 = !index in let ghost rm0 = !remap in assert { teq (dst !this)[x0] (dst d0)[x0] }; assert { teq (dst d0)[x0] (dst !this)[x0] };',
               'end0': 'assert { forall i. 0 <= i < dn d0 -> i <> x0 -> (!remap)[i] = rm0[i] }; assert { (!remap)[x0] >= 0 -> (!remap)[x0] < x0 /\\ rm0[(!remap)[x0]] < 0 /\\ teq (dst d0)[x0] (dst d0)[(!remap)[x0]] }',
               'before1': 'let ghost rm = !remap in let ghost mk = !mask in let ghost rr = create (dn d0) (fun i -> pure { if rm[i] >= 0 then rm[i] else i }) in assert { forall d. 0 <= d < dn d0 -> rm[d] >= 0 -> rm[rm[d]] < 0 /\\ rm[d] < d }; assert { forall i k. 0 <= i < dn d0 -> 0 <= k < length (dtr d0 i) -> 0 <= (dtr d0 i)[k].ntrans__m_dest < dn d0 };',
               'begin1': 'let ghost d1 = !this in let ghost i1 = !index in',
               'end1': 'assert { rm[i1] < 0 -> !this = d1 }; assert { rm[i1] >= 0 -> forall i k. 0 <= i < dn d0 -> 0 <= k < length (dtr d0 i) -> (dtr !this i)[k].ntrans__m_dest = if (dtr d1 i)[k].ntrans__m_dest = i1 then rm[i1] else (dtr d1 i)[k].ntrans__m_dest };',
               'after1': '''gd := !this; let ghost d2 = !this in
                  assert { forall i. 0 <= i < dn d0 -> 0 <= rr[i] < dn d0 /\\ mk[rr[i]] /\\ rm[rr[i]] < 0 };
                  assert { forall i k. 0 <= i < dn d0 -> 0 <= k < length (dtr d0 i) -> (dtr d2 i)[k].ntrans__m_dest = rr[(dtr d0 i)[k].ntrans__m_dest] };
                  let ghost lemma kept (i : int) : unit requires { 0 <= i < dn d0 } ensures { dests (dtr d2 i) (dn d2) }
                    ensures { length (ftr mk (dtr d2 i) (length (dtr d2 i))) = length (dtr d0 i) }
                    ensures { forall k. 0 <= k < length (dtr d0 i) -> (ftr mk (dtr d2 i) (length (dtr d2 i)))[k] = (dtr d2 i)[k] }
                  = ftr_all mk (dtr d2 i) (length (dtr d2 i)) in
                  cnt_mono mk 0 (dn d2)'''},
        loops=[dict(inv=mlen + [same0, 'forall i. 0 <= i < dn d0 -> (!remap)[i] >= 0 -> (!remap)[i] < i /\\ i < !index /\\ not (!mask)[i] /\\ (!remap)[(!remap)[i]] < 0 /\\ teq (dst d0)[i] (dst d0)[(!remap)[i]]',
                                'forall i. 0 <= i < dn d0 -> (!remap)[i] < 0 -> (!mask)[i]',
                                'forall k v. kent !equiv_map k v -> 0 <= v < !index /\\ (!remap)[v] < 0 /\\ teq k (dst d0)[v]'], var=['dn d0 - !index']),
               dict(inv=mlen + ['!remap = rm', '!mask = mk', shape, 'forall i k. 0 <= i < dn d0 -> 0 <= k < length (dtr d0 i) -> (dtr !this i)[k].ntrans__m_label = (dtr d0 i)[k].ntrans__m_label',
                                'forall i k. 0 <= i < dn d0 -> 0 <= k < length (dtr d0 i) -> (dtr !this i)[k].ntrans__m_dest = let d = (dtr d0 i)[k].ntrans__m_dest in if d < !index && rm[d] >= 0 then rm[d] else d'], var=['dn d0 - !index'])])
    F['minimize']['ghost']['exit'] = '''let ghost rm = !remap in cnt_onto !mask (dn d0); min_lang d0 !gd !this rm !mask (create (dn d0) (fun i -> pure { if rm[i] >= 0 then rm[i] else i }))'''
    F['dfa_ctor'] = dict(key='DFA<%s>::DFA(const NFA<%s> &,bool)' % (T, T), requires=['nwf nfa', 'nn nfa > 0'],
        ensures=['the DFA accepts exactly the words of the NFA:: forall w. daccw result 0 w <-> nacc nfa 0 w', 'alldests result', 'at most one transition applies:: ddet result', 'dn result > 0'],
        ghost={'call:fork': 'start_lab nfa !ec0; assert { dlab !this 0 = set_elements !ec0 }; assert { okst nfa !this 0 }; assert { labsok nfa !this };',
               'before0': '''let ghost d1 = !this in assert { allok nfa d1 }; assert { start nfa d1 };''', 'begin0': 'let ghost dp = !this in',
               'end0': 'assert { forall i. 0 <= i < @ix - 1 -> dtr !this i = dtr dp i }; assert { dtr dp (@ix - 1) = dtr d1 (@ix - 1) }; assert { exists p. perm_by (dtr d1 (@ix - 1)) (dtr !this (@ix - 1)) p }; assert { psort (dtr d1 (@ix - 1)) (dtr !this (@ix - 1)) }',
               'after0': 'let ghost d2 = !this in built nfa d1 d2; lang0 nfa d2; det nfa d2; assert { alldests d2 };'},
        loops=[dict(inv=['dn !this = dn d1', 'forall i. 0 <= i < dn d1 -> dlab !this i = dlab d1 i', 'forall i. @ix <= i < dn d1 -> dtr !this i = dtr d1 i /\\ not (dacc !this i)',
                         'forall i. 0 <= i < @ix -> (dacc !this i = True <-> vmem (nn nfa - 1) (dlab d1 i))', 'forall i. 0 <= i < @ix -> psort (dtr d1 i) (dtr !this i)'])])
    return F


P05 = ('cc_eq', 'tr_eq', 'db_eq', 'st_eq', 'redirect', 'filter', 'minimize')
P04 = ('ns_add', 'db_add', 'cc_borders', 'ns_eps', 'ecs', 'ec1', 'ec2', 'ds_add', 'df_add', 'df_build', 'add_state', 'fork', 'nfa_run', 'dfa_run', 'iv_inc', 'dfa_ctor')

def spec(part='p04', T='char'):
    a = charclass.spec(T)
    F = functions(T)
    if part == 'p05': F = {k: v for k, v in F.items() if k in P05 or k in CCF}
    elif part == 'p04':
        m = {k: F['minimize'][k] for k in ('key', 'requires', 'ensures')}
        F = {k: (dict(m, trusted=True) if k == 'minimize' else v) for k, v in F.items() if k in P04 or k in CCF or k == 'minimize'}
    pre = {'p04': PRE + PRE2 + PRE3 + PRE4 + PRE4B, 'p05': PRE + PRE2 + PRE3 + PRE4 + PRE5 + PRE6, 'all': PRE + PRE2 + PRE3 + PRE4 + PRE4B + PRE5 + PRE6}[part]
    return dict(tu='''#include "DFA.hpp"
#include "CharClass.cpp"
namespace Centaurus { template class NFATransition<%(T)s>; template class NFABaseState<%(T)s, int>; template class NFABaseState<%(T)s, IndexVector>; template class NFADepartureSet<%(T)s>; template class NFADepartureSetFactory<%(T)s>; template class NFA<%(T)s>; template class DFA<%(T)s>; }
''' % dict(T=T),
        files=['CharClass.hpp', 'CharClass.cpp', 'Util.hpp', 'NFA.hpp', 'DFA.hpp'],
        typenames=dict(a['typenames'], **{'NFATransition<%s>' % T: 'ntrans', 'NFABaseState<%s,int>' % T: 'nstate', 'NFABaseState<%s,IndexVector>' % T: 'dbase', 'DFAState<%s>' % T: 'dstate',
            'NFABase<NFABaseState<%s,int>>' % T: 'nbase', 'NFABase<DFAState<%s>>' % T: 'dabase', 'NFA<%s>' % T: 'nfa', 'DFA<%s>' % T: 'dfa', 'IndexVector': 'ivec',
            'NFADepartureSet<%s>' % T: 'deptset', 'NFADepartureSetFactory<%s>' % T: 'deptfac'}),
        types=a['types'] + ['NFATransition<%s>' % T, 'NFA<%s>' % T, 'DFA<%s>' % T, 'NFADepartureSet<%s>' % T, 'NFADepartureSetFactory<%s>' % T],
        uses=['sets.Sets', 'subsets.Subsets', 'perm.Perm'], sorts={'ntrans': 'vsort'}, tyaliases={'NFAClosure': 'std::set<int>', 'DFATransition<%s>' % T: 'NFATransition<%s>' % T}, preamble=a['preamble'] + pre, containers={'(fmap dstate int)': ['dmap', 'k']}, functions=F)
