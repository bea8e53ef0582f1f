"""Contracts for the groups of simultaneous continuations and the decision automaton (src/core/CompositeATN.hpp, LookaheadDFA.hpp): P09."""
import re
import charclass, dfa, ldfa, paths

PRETYPES = r'''
  (* CATNClosure = std::set<CATNClosureElement>: one element for each path and alternative (trusted model) *)
  type cset
'''

PRE = r'''
  predicate cempty (x : cclass) = forall c. not (cin x c)
  predicate bnd (x : cclass) (b : int) = exists k. 0 <= k < length x.cclass__m_ranges /\ (x.cclass__m_ranges[k].range__m_start = b \/ x.cclass__m_ranges[k].range__m_end = b)
''' + dfa.PRE2[dfa.PRE2.index('  (* between two neighbouring borders'):dfa.PRE2.index('  predicate brd (tr : trs)')] + r'''
  let lemma vmem_snoc (s : seq int) (a b : int) : unit ensures { vmem b (snoc s a) <-> vmem b s \/ b = a }
  = assert { forall k. 0 <= k < length s -> (snoc s a)[k] = s[k] }; assert { (snoc s a)[length s] = a }
  predicate key_eq (a b : celem) = a.celem__m_path = b.celem__m_path /\ a.celem__m_color = b.celem__m_color
  val function cset_elements (s : cset) : seq celem
  axiom cset_keys : forall s i j. 0 <= i < j < length (cset_elements s) -> not (key_eq (cset_elements s)[i] (cset_elements s)[j])
  predicate cmem (x : celem) (s : cset) = exists k. 0 <= k < length (cset_elements s) /\ (cset_elements s)[k] = x
  predicate khas (x : celem) (s : cset) = exists k. 0 <= k < length (cset_elements s) /\ key_eq (cset_elements s)[k] x
  val constant cset_empty : cset
  axiom cset_empty_elements : length (cset_elements cset_empty) = 0
  val cset_size (s : cset) : int ensures { result = length (cset_elements s) }
  val ccont_mem (x : celem) (s : cset) : bool ensures { result <-> khas x s }
  val function cset_add (x : celem) (s : cset) : cset
  axiom cset_add_mem : forall x s y. cmem y (cset_add x s) <-> cmem y s \/ (y = x /\ not (khas x s))
  val cset_erase_at (i : int) (s : cset) : cset
    requires { [@expl:position erased] 0 <= i < length (cset_elements s) }
    ensures { length (cset_elements result) = length (cset_elements s) - 1 }
    ensures { forall j. 0 <= j < i -> (cset_elements result)[j] = (cset_elements s)[j] }
    ensures { forall j. i <= j < length (cset_elements result) -> (cset_elements result)[j] = (cset_elements s)[j + 1] }
  predicate beats (a b : celem) = better a.celem__m_priority b.celem__m_priority
  predicate unbeaten (s : cset) = forall a b. cmem a s -> cmem b s -> not (beats a b)
  (* all elements speak for alternative k, or for none in particular *)
  predicate onecol (s : cset) (k : int) = (exists x. cmem x s /\ x.celem__m_color = k) /\ forall x. cmem x s -> x.celem__m_color = k \/ x.celem__m_color = 0
  (* ---- departures *)
  type deps = seq cdep
  function delem (d : cdep) : celem = { celem__m_path = d.cdep__m_path; celem__m_color = d.cdep__m_color; celem__m_priority = d.cdep__m_priority }
  predicate dlwf (tr : deps) = forall k. 0 <= k < length tr -> cwf tr[k].cdep__m_label
  predicate inc (tr : deps) (c k : int) = 0 <= k < length tr /\ cin tr[k].cdep__m_label c
  predicate beaten_at (tr : deps) (c l : int) = exists m. inc tr c m /\ beats (delem tr[m]) (delem tr[l])
  predicate stands (tr : deps) (c : int) (g : cset) (k l : int) = inc tr c l /\ key_eq (delem tr[l]) (delem tr[k]) /\ (cmem (delem tr[l]) g \/ beaten_at tr c l)
  predicate gex (tr : deps) (c : int) (g : cset) = forall x. cmem x g -> exists k. inc tr c k /\ delem tr[k] = x
  predicate gcov (tr : deps) (c : int) (g : cset) = forall k. inc tr c k -> exists l. stands tr c g k l
  (* the continuations that remain after reading c *)
  predicate group (tr : deps) (c : int) (g : cset) =
    gex tr c g /\ unbeaten g /\ gcov tr c g
  (* the property at the step where an alternative is picked *)
  predicate loses (tr : deps) (c k m : int) = exists l. inc tr c l /\ key_eq (delem tr[l]) (delem tr[m]) /\ beaten_at tr c l
  let lemma decided (tr : deps) (c : int) (g : cset) (k : int) : unit
    requires { group tr c g /\ onecol g k }
    ensures { [@expl:every other alternative cannot continue on the character or is ranked lower] forall m. inc tr c m -> tr[m].cdep__m_color <> k -> tr[m].cdep__m_color <> 0 -> loses tr c k m }
    ensures { [@expl:the alternative picked can continue] exists m. inc tr c m /\ tr[m].cdep__m_color = k }
  = let lemma one (m : int) : unit requires { inc tr c m /\ tr[m].cdep__m_color <> k /\ tr[m].cdep__m_color <> 0 } ensures { loses tr c k m }
    = let l = any int ensures { stands tr c g m result } in assert { not (cmem (delem tr[l]) g) }; assert { beaten_at tr c l } in
    let x = any celem ensures { cmem result g /\ result.celem__m_color = k } in
    assert { exists m. inc tr c m /\ delem tr[m] = x }
  let lemma single (tr : deps) (c : int) (g : cset) (k : int) : unit
    requires { group tr c g /\ exists x. cmem x g }
    requires { forall m. inc tr c m -> tr[m].cdep__m_color = k }
    ensures { [@expl:when one alternative remains possible the group is of that alternative] onecol g k }
  = let lemma one (x : celem) : unit requires { cmem x g } ensures { x.celem__m_color = k }
    = let m = any int ensures { inc tr c result /\ delem tr[result] = x } in () in ()
  predicate dmem (d : deptset) (c : int) (s : cset) = exists k. 0 <= k < length d.deptset__base /\ cin (d.deptset__base)[k].t20 c /\ (d.deptset__base)[k].t21 = s
  predicate dsw (d : deptset) = forall k. 0 <= k < length d.deptset__base -> cwf (d.deptset__base)[k].t20 /\ not (cempty (d.deptset__base)[k].t20)
  predicate ddis (d : deptset) = forall k l c. 0 <= k < length d.deptset__base -> 0 <= l < length d.deptset__base -> cin (d.deptset__base)[k].t20 c -> cin (d.deptset__base)[l].t20 c -> k = l
  predicate brd (tr : deps) (e : seq int) = forall k b. 0 <= k < length tr -> bnd tr[k].cdep__m_label b -> vmem b e
  let ghost locate (tr : deps) (e : seq int) : unit
    requires { dlwf tr /\ brd tr e /\ incr e }
    ensures { forall c k. inc tr c k -> length e > 0 /\ e[0] <= c < e[length e - 1] }
  = let lemma one (c k : int) : unit requires { inc tr c k } ensures { length e > 0 /\ e[0] <= c < e[length e - 1] }
    = let l = pure { tr[k].cdep__m_label } in
      let r = any range ensures { rin result c /\ bnd l result.range__m_start /\ bnd l result.range__m_end } in
      assert { vmem r.range__m_start e /\ vmem r.range__m_end e } in ()
  let ghost at_all (tr : deps) (e : seq int) (m : int) (r : range) : unit
    requires { dlwf tr /\ brd tr e /\ incr e /\ 0 <= m < length e - 1 /\ r.range__m_start = e[m] /\ r.range__m_end = e[m + 1] }
    ensures { forall c k. rin r c -> 0 <= k < length tr -> (inrun tr[k].cdep__m_label r <-> inc tr c k) }
  = let lemma one (c k : int) : unit requires { rin r c /\ 0 <= k < length tr } ensures { inrun tr[k].cdep__m_label r <-> inc tr c k }
    = let l = pure { tr[k].cdep__m_label } in
      if pure { cin l c } then atomic l e m c
      else assert { forall j. 0 <= j < length l.cclass__m_ranges -> not (rin l.cclass__m_ranges[j] c) } in ()
  (* the same while the departures are gone through, with the piece r of the alphabet in place of a character *)
  predicate pinc (tr : deps) (r : range) (n k : int) = 0 <= k < n /\ inrun tr[k].cdep__m_label r
  predicate pbeaten (tr : deps) (r : range) (n l : int) = exists m. pinc tr r n m /\ beats (delem tr[m]) (delem tr[l])
  predicate pstands (tr : deps) (r : range) (n : int) (g : cset) (k l : int) = pinc tr r n l /\ key_eq (delem tr[l]) (delem tr[k]) /\ (cmem (delem tr[l]) g \/ pbeaten tr r n l)
  predicate pex (tr : deps) (r : range) (n : int) (g : cset) = forall x. cmem x g -> exists k. pinc tr r n k /\ delem tr[k] = x
  predicate pcov (tr : deps) (r : range) (n : int) (g : cset) = forall k. pinc tr r n k -> exists l. pstands tr r n g k l
  predicate pgroup (tr : deps) (r : range) (n : int) (g : cset) =
    pex tr r n g /\ unbeaten g /\ pcov tr r n g /\
    (length (cset_elements g) = 0 -> forall k. not (pinc tr r n k))
  predicate added (s t : cset) (x : celem) =
    if (exists e. cmem e s /\ beats e x) then t = s
    else (forall y. cmem y t <-> (cmem y s /\ not (beats x y)) \/ (y = x /\ forall z. cmem z s -> not (beats x z) -> not (key_eq z x)))
  let ghost pstep_in (tr : deps) (r : range) (n : int) (s t : cset) : unit
    requires { 0 <= n < length tr /\ pgroup tr r n s /\ inrun tr[n].cdep__m_label r /\ added s t (delem tr[n]) }
    ensures { pgroup tr r (n + 1) t }
  = let x = pure { delem tr[n] } in
    assert { pinc tr r (n + 1) n };
    assert { forall k. pinc tr r n k -> pinc tr r (n + 1) k };
    let lemma exact (y : celem) : unit requires { cmem y t } ensures { exists k. pinc tr r (n + 1) k /\ delem tr[k] = y }
    = if pure { y = x } then () else assert { cmem y s } in
    let lemma keep (y : celem) : unit requires { cmem y s } ensures { cmem y t \/ beats x y } = () in
    assert { [@expl:no continuation of the group outranks another] unbeaten t by not (beats x x) };
    let lemma prior (k : int) : unit requires { pinc tr r n k } ensures { exists l. pstands tr r (n + 1) t k l }
    = let l = any int ensures { pstands tr r n s k result } in
      assert { cmem (delem tr[l]) s -> cmem (delem tr[l]) t \/ pbeaten tr r (n + 1) l };
      assert { pbeaten tr r n l -> pbeaten tr r (n + 1) l };
      assert { pstands tr r (n + 1) t k l } in
    let lemma fresh (k : int) : unit requires { k = n } ensures { exists l. pstands tr r (n + 1) t k l }
    = if pure { exists e. cmem e s /\ beats e x } then begin
        let e = any celem ensures { cmem result s /\ beats result x } in
        let m = any int ensures { pinc tr r n result /\ delem tr[result] = e } in
        assert { pbeaten tr r (n + 1) n by pinc tr r (n + 1) m }; assert { pstands tr r (n + 1) t k n } end
      else if pure { cmem x t } then assert { pstands tr r (n + 1) t k n }
      else begin
        let z = any celem ensures { cmem result s /\ not (beats x result) /\ key_eq result x } in
        let m = any int ensures { pinc tr r n result /\ delem tr[result] = z } in
        assert { cmem z t }; assert { pstands tr r (n + 1) t k m } end in
    let lemma full (z : unit) : unit ensures { length (cset_elements t) > 0 }
    = if pure { exists e. cmem e s /\ beats e x } then assert { exists e. cmem e t }
      else if pure { cmem x t } then () else begin
        let z = any celem ensures { cmem result s /\ not (beats x result) /\ key_eq result x } in assert { cmem z t } end in
    full (); assert { pex tr r (n + 1) t };
    assert { forall k. pinc tr r (n + 1) k -> pinc tr r n k \/ k = n };
    assert { pcov tr r (n + 1) t }
  let ghost pstep_out (tr : deps) (r : range) (n : int) (s : cset) : unit
    requires { 0 <= n < length tr /\ pgroup tr r n s /\ not (inrun tr[n].cdep__m_label r) }
    ensures { pgroup tr r (n + 1) s }
  = assert { forall k. pinc tr r n k <-> pinc tr r (n + 1) k };
    assert { forall l. pbeaten tr r n l -> pbeaten tr r (n + 1) l };
    assert { forall k l. pstands tr r n s k l -> pstands tr r (n + 1) s k l };
    assert { pex tr r (n + 1) s };
    let lemma cov (k : int) : unit requires { pinc tr r (n + 1) k } ensures { exists l. pstands tr r (n + 1) s k l }
    = assert { pinc tr r n k }; let l = any int ensures { pstands tr r n s k result } in assert { pstands tr r (n + 1) s k l } in
    assert { pcov tr r (n + 1) s }
  let ghost pdone (tr : deps) (r : range) (g : cset) (e : seq int) (m : int) : unit
    requires { dlwf tr /\ brd tr e /\ incr e /\ 0 <= m < length e - 1 /\ r.range__m_start = e[m] /\ r.range__m_end = e[m + 1] }
    requires { pgroup tr r (length tr) g }
    ensures { forall c. rin r c -> group tr c g }
    ensures { length (cset_elements g) = 0 -> forall c k. rin r c -> not (inc tr c k) }
  = at_all tr e m r;
    let lemma one (c : int) : unit requires { rin r c } ensures { group tr c g }
    = assert { forall k. pinc tr r (length tr) k <-> inc tr c k };
      assert { forall l. pbeaten tr r (length tr) l -> beaten_at tr c l };
      assert { forall k l. pstands tr r (length tr) g k l -> stands tr c g k l };
      assert { gex tr c g };
      let lemma cov (k : int) : unit requires { inc tr c k } ensures { exists l. stands tr c g k l }
      = assert { pinc tr r (length tr) k }; let l = any int ensures { pstands tr r (length tr) g k result } in assert { stands tr c g k l } in
      assert { gcov tr c g } in
    assert { length (cset_elements g) = 0 -> forall c k. rin r c -> inc tr c k -> pinc tr r (length tr) k }
'''

PRE_N = r"""
  (* ---- networks: std::unordered_map<Identifier, CATNMachine> (trusted model) *)
  predicate ghas (m : netmap) (k : identifier)
  function gval (m : netmap) (k : identifier) : cmach
  val gmget (m : netmap) (k : identifier) : cmach requires { [@expl:the rule is present] ghas m k } ensures { result = gval m k }
  val gmap_elements (m : netmap) : seq (tup2 identifier cmach)
    ensures { forall k. 0 <= k < length result -> ghas m result[k].t20 /\ result[k].t21 = gval m result[k].t20 }
    ensures { forall x. ghas m x -> exists k. 0 <= k < length result /\ result[k].t20 = x }
  function nods (a : catn) (r : identifier) : seq cnode = (gval a.catn__m_dict r).cmach__m_nodes
  predicate site (a : catn) (r : identifier) (i : int) = ghas a.catn__m_dict r /\ 0 <= i < length (nods a r)
  function leaf (p : atnpath) : step = (steps p)[length (steps p) - 1]
  function nod (a : catn) (p : atnpath) : cnode = (nods a (leaf p).t20)[(leaf p).t21]
  function ntr (n : cnode) : seq ntrans = n.cnode__m_transitions
  function sub (n : cnode) : identifier = n.cnode__m_submachine
  predicate terminal (n : cnode) = length (sub n).identifier__m_id = 0
  predicate node_ok (a : catn) (r : identifier) (n : cnode) =
    (forall k. 0 <= k < length (ntr n) -> 0 <= (ntr n)[k].ntrans__m_dest < length (nods a r) /\ cwf (ntr n)[k].ntrans__m_label) /\
    (not (terminal n) -> site a (sub n) 0)
  predicate netok (a : catn) = forall r i. site a r i -> node_ok a r (nods a r)[i]
  predicate step_ok (a : catn) (s : step) = site a s.t20 s.t21
  predicate okpath (a : catn) (p : atnpath) = length (steps p) > 0 /\ forall k. 0 <= k < length (steps p) -> step_ok a (steps p)[k]
  function up (p : atnpath) : atnpath = { atnpath__base = (steps p)[0 .. length (steps p) - 1] }
  function reidx (p : atnpath) (i : int) : atnpath = { atnpath__base = set (steps p) (length (steps p) - 1) { (leaf p) with t21 = i } }
  function down (p : atnpath) (r : identifier) (i : int) : atnpath = { atnpath__base = snoc (steps p) { t20 = r; t21 = i } }
  function at_site (r : identifier) (i : int) : atnpath = { atnpath__base = snoc empty { t20 = r; t21 = i } }
  let lemma push_pop (p : atnpath) (r : identifier) (i : int) : unit ensures { up (down p r i) = p } = assert { steps (up (down p r i)) == steps p }
  predicate last (a : catn) (p : atnpath) = length (ntr (nod a p)) = 0
  let lemma ok_up (a : catn) (p : atnpath) : unit requires { okpath a p /\ length (steps p) > 1 } ensures { okpath a (up p) } = ()
  let lemma ok_reidx (a : catn) (p : atnpath) (k : int) : unit
    requires { netok a /\ okpath a p /\ 0 <= k < length (ntr (nod a p)) } ensures { okpath a (reidx p (ntr (nod a p))[k].ntrans__m_dest) }
  = assert { step_ok a (leaf p) }; assert { node_ok a (leaf p).t20 (nod a p) };
    let d = pure { (ntr (nod a p))[k].ntrans__m_dest } in assert { site a (leaf p).t20 d };
    let q = pure { reidx p d } in
    assert { steps q == set (steps p) (length (steps p) - 1) { (leaf p) with t21 = d } };
    assert { length (steps q) = length (steps p) };
    let lemma each (j : int) : unit requires { 0 <= j < length (steps q) } ensures { step_ok a (steps q)[j] }
    = if j < pure { length (steps p) } - 1 then begin assert { (steps q)[j] = (steps p)[j] }; assert { step_ok a (steps p)[j] } end
      else assert { (steps q)[j] = { (leaf p) with t21 = d } } in ()
  let lemma ok_down (a : catn) (p : atnpath) (r : identifier) (i : int) : unit requires { okpath a p /\ site a r i } ensures { okpath a (down p r i) }
  = let q = pure { down p r i } in let st = pure { { t20 = r; t21 = i } } in
    assert { steps q = snoc (steps p) st }; assert { length (steps q) = length (steps p) + 1 };
    let lemma each (j : int) : unit requires { 0 <= j < length (steps q) } ensures { step_ok a (steps q)[j] }
    = if j < pure { length (steps p) } then begin assert { (steps q)[j] = (steps p)[j] }; assert { step_ok a (steps p)[j] } end
      else assert { (steps q)[j] = st } in ()
  let lemma ok_single (a : catn) (r : identifier) (i : int) : unit requires { site a r i } ensures { okpath a (at_site r i) } = ()
  predicate usedat (a : catn) (id r : identifier) (i : int) = site a r i /\ sub (nods a r)[i] = id
  (* a machine is left at its last node: the text continues behind the use of the machine, or behind any use of the outermost one *)
  inductive behind (a : catn) (p q : atnpath) =
    | Behind_up : forall a p. last a p -> length (steps p) > 1 -> behind a p (up p)
    | Behind_out : forall a p r i. last a p -> length (steps p) = 1 -> usedat a (leaf p).t20 r i -> behind a p (at_site r i)
  (* q is where reading a character of class l leads from p *)
  inductive readsto (a : catn) (p : atnpath) (l : cclass) (q : atnpath) =
    | Reads_here : forall a p k. 0 <= k < length (ntr (nod a p)) -> not (cempty (ntr (nod a p))[k].ntrans__m_label) ->
        readsto a p (ntr (nod a p))[k].ntrans__m_label (reidx p (ntr (nod a p))[k].ntrans__m_dest)
    | Reads_behind : forall a p m l q. behind a p m -> readsto a m l q -> readsto a p l q
  predicate wreads (a : catn) (id : identifier) (l : cclass) (q : atnpath) = exists r i. usedat a id r i /\ readsto a (at_site r i) l q
  let lemma reads_up (a : catn) (p : atnpath) (l : cclass) (q : atnpath) : unit
    requires { last a p /\ length (steps p) > 1 } ensures { readsto a p l q <-> readsto a (up p) l q } = ()
  let lemma reads_out (a : catn) (p : atnpath) (l : cclass) (q : atnpath) : unit
    requires { last a p /\ length (steps p) = 1 } ensures { readsto a p l q <-> wreads a (leaf p).t20 l q }
  = (if pure { readsto a p l q } then begin
      let m = any atnpath ensures { behind a p result /\ readsto a result l q } in
      let s = any step ensures { usedat a (leaf p).t20 result.t20 result.t21 /\ m = at_site result.t20 result.t21 } in
      assert { wreads a (leaf p).t20 l q } end);
    (if pure { wreads a (leaf p).t20 l q } then begin
      let s = any step ensures { usedat a (leaf p).t20 result.t20 result.t21 /\ readsto a (at_site result.t20 result.t21) l q } in
      assert { behind a p (at_site s.t20 s.t21) } end)
  let lemma reads_here (a : catn) (p : atnpath) (l : cclass) (q : atnpath) : unit
    requires { not (last a p) }
    ensures { readsto a p l q <-> exists k. 0 <= k < length (ntr (nod a p)) /\ not (cempty (ntr (nod a p))[k].ntrans__m_label) /\ l = (ntr (nod a p))[k].ntrans__m_label /\ q = reidx p (ntr (nod a p))[k].ntrans__m_dest } = ()
  predicate okset (a : catn) (s : cset) = forall x. cmem x s -> okpath a x.celem__m_path
  (* x continues s by reading c *)
  predicate conts (a : catn) (s : cset) (c : int) (x : celem) = exists e l. cmem e s /\ readsto a e.celem__m_path l x.celem__m_path /\ cin l c /\ x.celem__m_color = e.celem__m_color /\ x.celem__m_priority = e.celem__m_priority
  predicate outranked (a : catn) (s : cset) (c : int) (x : celem) = exists z. conts a s c z /\ beats z x
  predicate kept (a : catn) (s : cset) (c : int) (g : cset) (x y : celem) = key_eq y x /\ conts a s c y /\ (cmem y g \/ outranked a s c y)
  predicate cex (a : catn) (s : cset) (c : int) (g : cset) = forall x. cmem x g -> conts a s c x
  predicate ccov (a : catn) (s : cset) (c : int) (g : cset) = forall x. conts a s c x -> exists y. kept a s c g x y
  predicate cgroup (a : catn) (s : cset) (c : int) (g : cset) = cex a s c g /\ unbeaten g /\ ccov a s c g
  (* the departures collected from the elements of s *)
  predicate dep_of (a : catn) (e : celem) (d : cdep) = readsto a e.celem__m_path d.cdep__m_label d.cdep__m_path /\ d.cdep__m_color = e.celem__m_color /\ d.cdep__m_priority = e.celem__m_priority
  predicate dsound (a : catn) (s : cset) (t : deps) = forall k. 0 <= k < length t -> exists e. cmem e s /\ dep_of a e t[k]
  predicate dhas (t : deps) (n : int) (l : cclass) (q : atnpath) (col : int) (pr : pchain) = exists k. n <= k < length t /\ t[k] = { cdep__m_label = l; cdep__m_path = q; cdep__m_color = col; cdep__m_priority = pr }
  predicate dfull (a : catn) (e : celem) (t : deps) (n : int) = forall l q. readsto a e.celem__m_path l q -> dhas t n l q e.celem__m_color e.celem__m_priority
  predicate dcomplete (a : catn) (s : cset) (t : deps) = forall e. cmem e s -> dfull a e t 0
  let ghost inc_conts (a : catn) (s : cset) (t : deps) (c : int) : unit
    requires { dsound a s t /\ dcomplete a s t }
    ensures { forall k. inc t c k -> conts a s c (delem t[k]) } ensures { forall x. conts a s c x -> exists k. inc t c k /\ delem t[k] = x }
  = let lemma one (x : celem) : unit requires { conts a s c x } ensures { exists k. inc t c k /\ delem t[k] = x }
    = let e = any celem ensures { exists l. cmem result s /\ readsto a result.celem__m_path l x.celem__m_path /\ cin l c /\ x.celem__m_color = result.celem__m_color /\ x.celem__m_priority = result.celem__m_priority } in
      let l = any cclass ensures { readsto a e.celem__m_path result x.celem__m_path /\ cin result c } in
      assert { dfull a e t 0 }; assert { dhas t 0 l x.celem__m_path e.celem__m_color e.celem__m_priority } in
    let lemma two (k : int) : unit requires { inc t c k } ensures { conts a s c (delem t[k]) }
    = let e = any celem ensures { cmem result s /\ dep_of a result t[k] } in () in ()
  let ghost to_group (a : catn) (s : cset) (t : deps) (c : int) (g : cset) : unit
    requires { dsound a s t /\ dcomplete a s t /\ group t c g } ensures { cgroup a s c g }
  = inc_conts a s t c;
    assert { cex a s c g };
    let lemma cov (x : celem) : unit requires { conts a s c x } ensures { exists y. kept a s c g x y }
    = let k = any int ensures { inc t c result /\ delem t[result] = x } in
      let l = any int ensures { stands t c g k result } in
      (if pure { beaten_at t c l } then begin
        let m = any int ensures { inc t c result /\ beats (delem t[result]) (delem t[l]) } in
        assert { conts a s c (delem t[m]) }; assert { outranked a s c (delem t[l]) } end);
      assert { kept a s c g x (delem t[l]) } in
    assert { ccov a s c g }
  (* ---- continuations that need no character *)
  (* a use of a machine is entered at its first node, until a terminal is met *)
  inductive enter (a : catn) (p q : atnpath) =
    | Enter_here : forall a p. terminal (nod a p) -> enter a p p
    | Enter_down : forall a p q. not (terminal (nod a p)) -> enter a (down p (sub (nod a p)) 0) q -> enter a p q
  predicate epsof (a : catn) (p : atnpath) (k : int) = 0 <= k < length (ntr (nod a p)) /\ cempty (ntr (nod a p))[k].ntrans__m_label
  function epsto (a : catn) (p : atnpath) (k : int) : atnpath = reidx p (ntr (nod a p))[k].ntrans__m_dest
  function epsrank (a : catn) (p : atnpath) (k : int) (r : pchain) : pchain =
    { pchain__base = snoc r.pchain__base { pelem__m_id = (leaf p).t20; pelem__m_index = (leaf p).t21; pelem__m_priority = (ntr (nod a p))[k].ntrans__m_tag } }
  inductive moves (a : catn) (p : atnpath) (r : pchain) (q : atnpath) (r2 : pchain) =
    | Moves_here : forall a p r q k. epsof a p k -> enter a (epsto a p k) q -> moves a p r q (epsrank a p k r)
    | Moves_behind : forall a p m r q r2. behind a p m -> moves a m r q r2 -> moves a p r q r2
  predicate wmoves (a : catn) (id : identifier) (r : pchain) (q : atnpath) (r2 : pchain) = exists u i. usedat a id u i /\ moves a (at_site u i) r q r2
  inductive follows (a : catn) (p : atnpath) (r : pchain) (q : atnpath) (r2 : pchain) =
    | Follows_one : forall a p r q r2. moves a p r q r2 -> follows a p r q r2
    | Follows_more : forall a p r m rm q r2. moves a p r m rm -> follows a m rm q r2 -> follows a p r q r2
  predicate wfollows (a : catn) (id : identifier) (r : pchain) (q : atnpath) (r2 : pchain) = exists u i. usedat a id u i /\ follows a (at_site u i) r q r2
  function el (q : atnpath) (col : int) (r : pchain) : celem = { celem__m_path = q; celem__m_color = col; celem__m_priority = r }
  predicate grew (s t : cset) = forall x. cmem x s -> cmem x t
  (* everything that follows from the place p is there (in some rank) *)
  predicate mdone (a : catn) (p : atnpath) (col : int) (t : cset) = forall r q r2. moves a p r q r2 -> khas (el q col r2) t
  predicate idone (a : catn) (p : atnpath) (col : int) (t : cset) = forall q r. enter a p q -> khas (el q col r) t
  predicate wdone (a : catn) (id : identifier) (col : int) (t : cset) = forall u i. usedat a id u i -> mdone a (at_site u i) col t
  predicate newdone (a : catn) (s t : cset) = forall x. cmem x t -> not (cmem x s) -> mdone a x.celem__m_path x.celem__m_color t
  predicate eachnew (a : catn) (s t : cset) (col : int) = forall x. cmem x t -> not (cmem x s) -> x.celem__m_color = col
  predicate newfrom (a : catn) (s t : cset) (p : atnpath) (r : pchain) = forall x. cmem x t -> not (cmem x s) -> follows a p r x.celem__m_path x.celem__m_priority
  predicate ifollows (a : catn) (p : atnpath) (r : pchain) (q : atnpath) (r2 : pchain) = exists m. enter a p m /\ ((q = m /\ r2 = r) \/ follows a m r q r2)
  predicate newin (a : catn) (s t : cset) (p : atnpath) (r : pchain) = forall x. cmem x t -> not (cmem x s) -> ifollows a p r x.celem__m_path x.celem__m_priority
  predicate wnew (a : catn) (s t : cset) (id : identifier) (r : pchain) = forall x. cmem x t -> not (cmem x s) -> wfollows a id r x.celem__m_path x.celem__m_priority
  let lemma grew_khas (s t : cset) (x : celem) : unit requires { grew s t /\ khas x s } ensures { khas x t }
  = let y = any celem ensures { cmem result s /\ key_eq result x } in assert { cmem y t }
  let lemma mdone_grew (a : catn) (s t : cset) (p : atnpath) (col : int) : unit requires { grew s t /\ mdone a p col s } ensures { mdone a p col t } = ()
  let lemma idone_grew (a : catn) (s t : cset) (p : atnpath) (col : int) : unit requires { grew s t /\ idone a p col s } ensures { idone a p col t } = ()
  let ghost newdone_grew (a : catn) (s t u : cset) : unit requires { grew s t /\ grew t u /\ newdone a s t /\ newdone a t u } ensures { newdone a s u }
  = let lemma one (x : celem) : unit requires { cmem x u /\ not (cmem x s) } ensures { mdone a x.celem__m_path x.celem__m_color u }
    = if pure { cmem x t } then mdone_grew a t u (pure { x.celem__m_path }) (pure { x.celem__m_color }) in ()
  let lemma moves_up (a : catn) (p : atnpath) (r : pchain) (q : atnpath) (r2 : pchain) : unit
    requires { last a p /\ length (steps p) > 1 } ensures { moves a p r q r2 <-> moves a (up p) r q r2 } = ()
  let lemma moves_out (a : catn) (p : atnpath) (r : pchain) (q : atnpath) (r2 : pchain) : unit
    requires { last a p /\ length (steps p) = 1 } ensures { moves a p r q r2 <-> wmoves a (leaf p).t20 r q r2 }
  = (if pure { moves a p r q r2 } then begin
      let m = any atnpath ensures { behind a p result /\ moves a result r q r2 } in
      let s = any step ensures { usedat a (leaf p).t20 result.t20 result.t21 /\ m = at_site result.t20 result.t21 } in
      assert { wmoves a (leaf p).t20 r q r2 } end);
    (if pure { wmoves a (leaf p).t20 r q r2 } then begin
      let s = any step ensures { usedat a (leaf p).t20 result.t20 result.t21 /\ moves a (at_site result.t20 result.t21) r q r2 } in
      assert { behind a p (at_site s.t20 s.t21) } end)
  predicate heremoves (a : catn) (p : atnpath) (r : pchain) (q : atnpath) (r2 : pchain) (k : int) = epsof a p k /\ enter a (epsto a p k) q /\ r2 = epsrank a p k r
  let lemma moves_here (a : catn) (p : atnpath) (r : pchain) (q : atnpath) (r2 : pchain) : unit
    requires { not (last a p) } ensures { moves a p r q r2 <-> exists k. heremoves a p r q r2 k }
  = (if pure { moves a p r q r2 } then begin
      assert { forall m. not (behind a p m) };
      let k = any int ensures { epsof a p result /\ enter a (epsto a p result) q /\ r2 = epsrank a p result r } in assert { heremoves a p r q r2 k } end);
    (if pure { exists k. heremoves a p r q r2 k } then begin
      let k = any int ensures { heremoves a p r q r2 result } in assert { moves a p r q (epsrank a p k r) } end)
  let ghost follows_up (a : catn) (p : atnpath) (r : pchain) (q : atnpath) (r2 : pchain) : unit
    requires { last a p /\ length (steps p) > 1 /\ follows a (up p) r q r2 } ensures { follows a p r q r2 } = assert { forall m rm. moves a (up p) r m rm -> moves a p r m rm }
  let ghost follows_out (a : catn) (p : atnpath) (r : pchain) (q : atnpath) (r2 : pchain) : unit
    requires { last a p /\ length (steps p) = 1 /\ wfollows a (leaf p).t20 r q r2 } ensures { follows a p r q r2 }
  = let s = any step ensures { usedat a (leaf p).t20 result.t20 result.t21 /\ follows a (at_site result.t20 result.t21) r q r2 } in
    assert { behind a p (at_site s.t20 s.t21) }; assert { forall m rm. moves a (at_site s.t20 s.t21) r m rm -> moves a p r m rm }
  let ghost follows_here (a : catn) (p : atnpath) (r : pchain) (k : int) (q : atnpath) (r2 : pchain) : unit
    requires { epsof a p k /\ ifollows a (epsto a p k) (epsrank a p k r) q r2 } ensures { follows a p r q r2 }
  = let m = any atnpath ensures { enter a (epsto a p k) result /\ ((q = result /\ r2 = epsrank a p k r) \/ follows a result (epsrank a p k r) q r2) } in
    assert { moves a p r m (epsrank a p k r) }
  let lemma enter_fn (a : catn) (p : atnpath) (q : atnpath) : unit ensures { terminal (nod a p) -> (enter a p q <-> q = p) } ensures { not (terminal (nod a p)) -> (enter a p q <-> enter a (down p (sub (nod a p)) 0) q) } = ()
  let ghost idone_term (a : catn) (p : atnpath) (col : int) (r : pchain) (t : cset) : unit
    requires { terminal (nod a p) /\ khas (el p col r) t } ensures { idone a p col t }
  = let lemma one (q : atnpath) (r2 : pchain) : unit requires { enter a p q } ensures { khas (el q col r2) t }
    = enter_fn a p q; let y = any celem ensures { cmem result t /\ key_eq result (el p col r) } in assert { key_eq y (el q col r2) } in ()
  let ghost idone_down (a : catn) (p : atnpath) (col : int) (t : cset) : unit
    requires { not (terminal (nod a p)) /\ idone a (down p (sub (nod a p)) 0) col t } ensures { idone a p col t }
  = let lemma one (q : atnpath) (r2 : pchain) : unit requires { enter a p q } ensures { khas (el q col r2) t } = enter_fn a p q in ()
  let ghost newin_term (a : catn) (s u t : cset) (p : atnpath) (col : int) (r : pchain) : unit
    requires { terminal (nod a p) /\ (forall y. cmem y u -> cmem y s \/ y = el p col r) /\ newfrom a u t p r } ensures { newin a s t p r }
  = let lemma one (x : celem) : unit requires { cmem x t /\ not (cmem x s) } ensures { ifollows a p r x.celem__m_path x.celem__m_priority }
    = enter_fn a p p; if pure { cmem x u } then assert { x = el p col r } else assert { follows a p r x.celem__m_path x.celem__m_priority } in ()
  let ghost newin_down (a : catn) (s t : cset) (p : atnpath) (r : pchain) : unit
    requires { not (terminal (nod a p)) /\ newin a s t (down p (sub (nod a p)) 0) r } ensures { newin a s t p r }
  = let lemma one (x : celem) : unit requires { cmem x t /\ not (cmem x s) } ensures { ifollows a p r x.celem__m_path x.celem__m_priority }
    = let m = any atnpath ensures { enter a (down p (sub (nod a p)) 0) result /\ ((x.celem__m_path = result /\ x.celem__m_priority = r) \/ follows a result r x.celem__m_path x.celem__m_priority) } in
      enter_fn a p m in ()
  predicate sameset (s t : cset) = forall x. cmem x t <-> cmem x s
  (* one terminal, or the machine used: what was done for it *)
  let ghost found (a : catn) (s t : cset) (p : atnpath) (col : int) (r : pchain) : unit
    requires { if terminal (nod a p) then (sameset s t /\ khas (el p col r) s) \/ (not (khas (el p col r) s) /\ grew (cset_add (el p col r) s) t /\ newfrom a (cset_add (el p col r) s) t p r)
               else idone a (down p (sub (nod a p)) 0) col t /\ newin a s t (down p (sub (nod a p)) 0) r }
    ensures { idone a p col t } ensures { newin a s t p r }
  = if pure { terminal (nod a p) } then begin
      let e = pure { el p col r } in assert { key_eq e e };
      (if pure { khas e s } then begin
        let y = any celem ensures { cmem result s /\ key_eq result e } in assert { cmem y t } end
      else begin assert { cmem e (cset_add e s) }; assert { cmem e t } end);
      assert { khas (el p col r) t };
      idone_term a p col r t;
      if pure { not (khas (el p col r) s) } then newin_term a s (pure { cset_add (el p col r) s }) t p col r end
    else begin idone_down a p col t; newin_down a s t p r end
  predicate here_done (a : catn) (p : atnpath) (col : int) (t : cset) = forall k. epsof a p k -> idone a (epsto a p k) col t
  let ghost show_done (a : catn) (s t : cset) (p : atnpath) (col : int) (r : pchain) : unit
    requires { if last a p then (if length (steps p) > 1 then mdone a (up p) col t /\ newfrom a s t (up p) r else length (steps p) = 1 /\ wdone a (leaf p).t20 col t /\ wnew a s t (leaf p).t20 r) else here_done a p col t /\ newfrom a s t p r }
    ensures { mdone a p col t } ensures { newfrom a s t p r }
  = let lemma one (r0 : pchain) (q : atnpath) (r2 : pchain) : unit requires { moves a p r0 q r2 } ensures { khas (el q col r2) t }
    = if pure { last a p } then begin
        if pure { length (steps p) > 1 } then moves_up a p r0 q r2
        else begin moves_out a p r0 q r2;
          let s = any step ensures { usedat a (leaf p).t20 result.t20 result.t21 /\ moves a (at_site result.t20 result.t21) r0 q r2 } in
          assert { mdone a (at_site s.t20 s.t21) col t } end end
      else begin moves_here a p r0 q r2;
        let k = any int ensures { heremoves a p r0 q r2 result } in assert { idone a (epsto a p k) col t } end in
    let lemma two (x : celem) : unit requires { cmem x t /\ not (cmem x s) } ensures { follows a p r x.celem__m_path x.celem__m_priority }
    = if pure { last a p } then begin
        if pure { length (steps p) > 1 } then follows_up a p r (pure { x.celem__m_path }) (pure { x.celem__m_priority })
        else follows_out a p r (pure { x.celem__m_path }) (pure { x.celem__m_priority }) end in ()
  (* all places reached from the elements of s without reading, each with its alternative *)
  predicate seeded (a : catn) (s t : cset) = forall e. cmem e s -> idone a e.celem__m_path e.celem__m_color t
  predicate closed (a : catn) (t : cset) = forall x. cmem x t -> mdone a x.celem__m_path x.celem__m_color t
  predicate grounds (a : catn) (e x : celem) = ifollows a e.celem__m_path e.celem__m_priority x.celem__m_path x.celem__m_priority /\ x.celem__m_color = e.celem__m_color
  predicate fsrc (a : catn) (els : seq celem) (n : int) (x : celem) = exists m. 0 <= m < n /\ grounds a els[m] x
  predicate ground (a : catn) (s : cset) (x : celem) = exists e. cmem e s /\ grounds a e x
  predicate grounded (a : catn) (s t : cset) = forall x. cmem x t -> ground a s x
  predicate closure_of (a : catn) (s t : cset) = okset a t /\ seeded a s t /\ closed a t /\ grounded a s t
  (* at a decision: the alternatives begin with the transitions that leave the source node *)
  function nx (a : catn) (p : atnpath) : int = (nod a p).cnode__m_exit
  function rseed (a : catn) (p : atnpath) (i : int) : celem =
    { celem__m_path = epsto a p i; celem__m_color = i - nx a p + 1; celem__m_priority = { pchain__base = snoc empty { pelem__m_id = (leaf p).t20; pelem__m_index = (leaf p).t21; pelem__m_priority = (ntr (nod a p))[i].ntrans__m_tag } } }
  predicate rsrc (a : catn) (p : atnpath) (n : int) (x : celem) = exists i. nx a p <= i < n /\ grounds a (rseed a p i) x
  predicate decision (a : catn) (p : atnpath) = okpath a p /\ 0 <= nx a p <= length (ntr (nod a p)) /\ forall k. nx a p <= k < length (ntr (nod a p)) -> cempty (ntr (nod a p))[k].ntrans__m_label
  predicate root_of (a : catn) (p : atnpath) (t : cset) = okset a t /\ closed a t /\
    (forall i. nx a p <= i < length (ntr (nod a p)) -> idone a (epsto a p i) (i - nx a p + 1) t) /\ forall x. cmem x t -> rsrc a p (length (ntr (nod a p))) x
  (* the groups found are those of the continuations *)
  predicate ngok (a : catn) (s : cset) (d : deptset) =
    ddis d /\ dsw d /\ (forall c g. dmem d c g -> cgroup a s c g /\ okset a g) /\ forall c x. conts a s c x -> exists g. dmem d c g
  predicate okdeps (a : catn) (t : deps) = forall k. 0 <= k < length t -> okpath a t[k].cdep__m_path
  let ghost ok_group (a : catn) (t : deps) (c : int) (g : cset) : unit requires { okdeps a t /\ group t c g } ensures { okset a g }
  = let lemma one (x : celem) : unit requires { cmem x g } ensures { okpath a x.celem__m_path }
    = let k = any int ensures { inc t c result /\ delem t[result] = x } in () in ()
  let ghost inc_conts_all (a : catn) (s : cset) (t : deps) : unit
    requires { dsound a s t /\ dcomplete a s t } ensures { forall c x. conts a s c x -> exists k. inc t c k /\ delem t[k] = x }
  = let lemma one (c : int) (x : celem) : unit requires { conts a s c x } ensures { exists k. inc t c k /\ delem t[k] = x } = inc_conts a s t c in ()
  predicate pre_of (s t : deps) = length s <= length t /\ forall k. 0 <= k < length s -> t[k] = s[k]
  (* the departures from position n on are those of the place p, with this alternative and these choices *)
  predicate dfrom (a : catn) (t : deps) (n : int) (p : atnpath) (col : int) (pr : pchain) =
    forall k. n <= k < length t -> readsto a p t[k].cdep__m_label t[k].cdep__m_path /\ t[k].cdep__m_color = col /\ t[k].cdep__m_priority = pr
  predicate dall (a : catn) (t : deps) (n : int) (p : atnpath) (col : int) (pr : pchain) = forall l q. readsto a p l q -> dhas t n l q col pr
  predicate wfrom (a : catn) (t : deps) (n : int) (id : identifier) (col : int) (pr : pchain) =
    forall k. n <= k < length t -> wreads a id t[k].cdep__m_label t[k].cdep__m_path /\ t[k].cdep__m_color = col /\ t[k].cdep__m_priority = pr
  (* reading from p is done here, behind the use of this machine, or behind any use of the outermost machine *)
  predicate here_all (a : catn) (t : deps) (n : int) (p : atnpath) (col : int) (pr : pchain) =
    forall k. 0 <= k < length (ntr (nod a p)) -> not (cempty (ntr (nod a p))[k].ntrans__m_label) -> dhas t n (ntr (nod a p))[k].ntrans__m_label (reidx p (ntr (nod a p))[k].ntrans__m_dest) col pr
  predicate out_all (a : catn) (t : deps) (n : int) (id : identifier) (col : int) (pr : pchain) = forall r i. usedat a id r i -> dall a t n (at_site r i) col pr
  let ghost show_all (a : catn) (t : deps) (n : int) (p : atnpath) (col : int) (pr : pchain) : unit
    requires { if last a p then (if length (steps p) > 1 then dall a t n (up p) col pr else length (steps p) = 1 /\ out_all a t n (leaf p).t20 col pr) else here_all a t n p col pr }
    ensures { dall a t n p col pr }
  = let lemma one (l : cclass) (q : atnpath) : unit requires { readsto a p l q } ensures { dhas t n l q col pr }
    = if pure { last a p } then begin
        if pure { length (steps p) > 1 } then begin reads_up a p l q; assert { readsto a (up p) l q } end
        else begin reads_out a p l q;
          let s = any step ensures { usedat a (leaf p).t20 result.t20 result.t21 /\ readsto a (at_site result.t20 result.t21) l q } in
          assert { dall a t n (at_site s.t20 s.t21) col pr } end end
      else begin reads_here a p l q;
        let k = any int ensures { 0 <= result < length (ntr (nod a p)) /\ not (cempty (ntr (nod a p))[result].ntrans__m_label) /\ l = (ntr (nod a p))[result].ntrans__m_label /\ q = reidx p (ntr (nod a p))[result].ntrans__m_dest } in () end in ()
  predicate dsrc (a : catn) (els : seq celem) (n : int) (d : cdep) = exists m. 0 <= m < n /\ dep_of a els[m] d
  predicate dsound_to (a : catn) (els : seq celem) (n : int) (t : deps) = forall k. 0 <= k < length t -> dsrc a els n t[k]
  let ghost dall_ext (a : catn) (s t : deps) (n m : int) (p : atnpath) (col : int) (pr : pchain) : unit
    requires { pre_of s t /\ 0 <= m <= n /\ dall a s n p col pr } ensures { dall a t m p col pr }
  = let lemma one (l : cclass) (q : atnpath) : unit requires { readsto a p l q } ensures { dhas t m l q col pr }
    = let k = any int ensures { n <= result < length s /\ s[result] = { cdep__m_label = l; cdep__m_path = q; cdep__m_color = col; cdep__m_priority = pr } } in assert { t[k] = s[k] } in ()
"""
PRE_D = r"""
  use list.List
""" + ldfa.PRE[ldfa.PRE.index('  type trs'):] + r"""
  predicate lwf (s : trs) = forall k. 0 <= k < length s -> cwf s[k].ntrans__m_label
  predicate udest (s : trs) = forall k l. 0 <= k < length s -> 0 <= l < length s -> s[k].ntrans__m_dest = s[l].ntrans__m_dest -> k = l
  predicate proper (s : trs) = forall k. 0 <= k < length s -> not (cempty s[k].ntrans__m_label)
  let lemma tin_snoc (s : trs) (t : ntrans) : unit
    ensures { forall c j. tin (snoc s t) c j <-> tin s c j \/ (j = t.ntrans__m_dest /\ cin t.ntrans__m_label c) }
    ensures { forall n. dests s n -> t.ntrans__m_dest < n -> dests (snoc s t) n }
    ensures { lwf s -> cwf t.ntrans__m_label -> lwf (snoc s t) }
  = let u = snoc s t in
    assert { forall k. 0 <= k < length s -> u[k] = s[k] }; assert { u[length s] = t }
  predicate grown (s t : trs) (x : cclass) (j : int) = forall c l. tin t c l <-> tin s c l \/ (l = j /\ cin x c)
  predicate psort (s t : trs) = exists p. perm_by s t p
  let ghost sort_trs (s t : trs) : unit
    requires { psort s t }
    ensures { forall c j. tin s c j -> tin t c j } ensures { forall c j. tin t c j -> tin s c j }
    ensures { udest s -> udest t } ensures { forall n. dests s n -> dests t n } ensures { lwf s -> lwf t } ensures { proper s -> proper t }
  = let p = any seq int ensures { perm_by s t result } in
    assert { perm_idx p (length s) }; assert { forall k. 0 <= k < length s -> exists i. 0 <= i < length s /\ p[i] = k };
    let lemma one (c j : int) : unit requires { tin s c j } ensures { tin t c j }
    = let k = any int ensures { 0 <= result < length s /\ s[result].ntrans__m_dest = j /\ cin s[result].ntrans__m_label c } in
      let i = any int ensures { 0 <= result < length p /\ p[result] = k } in assert { t[i] = s[k] } in
    assert { forall k l. 0 <= k < length t -> 0 <= l < length t -> t[k].ntrans__m_dest = t[l].ntrans__m_dest -> udest s -> p[k] = p[l] && k = l }
  (* ---- what following the networks computes: functions of the networks and the closure *)
  function dset (a : catn) (s : cset) : deptset
  function ecl (a : catn) (s : cset) : cset
  function rcl (a : catn) (p : atnpath) : cset
  function items (a : catn) (s : cset) : seq (tup2 cclass cset) = (dset a s).deptset__base
  function lab (d : dfa) (i : int) : cset = (dst d)[i].dstate__base.dbase__m_label
  predicate same_keys (s t : cset) = length (cset_elements s) = length (cset_elements t) /\ forall k. 0 <= k < length (cset_elements s) -> key_eq (cset_elements s)[k] (cset_elements t)[k]
  val cset_eq (s t : cset) : bool ensures { result <-> same_keys s t }
  predicate nocol (g : cset) = forall k. k > 0 -> not (onecol g k)
  (* where the group g leads: to its alternative when there is one only, else to the first state for what follows *)
  predicate choice (d : dfa) (a : catn) (g : cset) (j : int) =
    if j < 0 then onecol g (0 - j) else nocol g /\ closure_of a g (ecl a g) /\ j < dn d /\ same_keys (lab d j) (ecl a g) /\ forall m. 0 <= m < j -> not (same_keys (lab d m) (ecl a g))
  let lemma onecol_fn (g : cset) (k l : int) : unit requires { onecol g k /\ onecol g l /\ k > 0 /\ l > 0 } ensures { k = l } = ()
  let lemma choice_fn (d : dfa) (a : catn) (g : cset) (j l : int) : unit requires { choice d a g j /\ choice d a g l } ensures { j = l }
  = if j < 0 then onecol_fn g (0 - j) (0 - j)
  predicate leads (d : dfa) (a : catn) (s : cset) (c j : int) = exists k. 0 <= k < length (items a s) /\ cin (items a s)[k].t20 c /\ choice d a (items a s)[k].t21 j
  predicate snd (d : dfa) (a : catn) (i : int) = forall c j. tin (dtr d i) c j -> leads d a (lab d i) c j
  predicate ful (d : dfa) (a : catn) (i : int) = forall k c. 0 <= k < length (items a (lab d i)) -> cin (items a (lab d i))[k].t20 c -> exists j. tin (dtr d i) c j
  predicate gok (a : catn) (s : cset) = ngok a s (dset a s)
  predicate okst (d : dfa) (a : catn) (i : int) =
    snd d a i /\ lwf (dtr d i) /\ proper (dtr d i) /\ udest (dtr d i) /\ dests (dtr d i) (dn d) /\ okset a (lab d i) /\ closed a (lab d i) /\ (length (dtr d i) > 0 -> gok a (lab d i))
  predicate fin (d : dfa) (a : catn) (i : int) = okst d a i /\ ful d a i /\ gok a (lab d i)
  predicate allok (d : dfa) (a : catn) = forall i. 0 <= i < dn d -> okst d a i
  predicate ext (d e : dfa) = dn d <= dn e /\ forall i. 0 <= i < dn d -> lab e i = lab d i
  let lemma choice_ext (d e : dfa) (a : catn) (g : cset) (j : int) : unit requires { ext d e /\ choice d a g j } ensures { choice e a g j } = ()
  let ghost ok_ext (d e : dfa) (a : catn) (i : int) : unit
    requires { ext d e /\ 0 <= i < dn d /\ dtr e i = dtr d i } ensures { okst d a i -> okst e a i } ensures { fin d a i -> fin e a i }
  = let lemma one (c j : int) : unit requires { okst d a i /\ tin (dtr e i) c j } ensures { leads e a (lab e i) c j }
    = let k = any int ensures { 0 <= result < length (items a (lab d i)) /\ cin (items a (lab d i))[result].t20 c /\ choice d a (items a (lab d i))[result].t21 j } in
      choice_ext d e a (pure { (items a (lab d i))[k].t21 }) j in
    assert { okst d a i -> snd e a i };
    assert { dests (dtr d i) (dn d) -> dests (dtr e i) (dn e) }
  let ghost fresh_ok (d : dfa) (a : catn) (i : int) : unit requires { 0 <= i < dn d /\ length (dtr d i) = 0 /\ okset a (lab d i) /\ closed a (lab d i) } ensures { okst d a i } = ()
  let ghost leads_fn (d : dfa) (a : catn) (s : cset) (c j l : int) : unit
    requires { gok a s /\ leads d a s c j /\ leads d a s c l } ensures { j = l }
  = let k = any int ensures { 0 <= result < length (items a s) /\ cin (items a s)[result].t20 c /\ choice d a (items a s)[result].t21 j } in
    let m = any int ensures { 0 <= result < length (items a s) /\ cin (items a s)[result].t20 c /\ choice d a (items a s)[result].t21 l } in
    assert { k = m }; choice_fn d a (pure { (items a s)[k].t21 }) j l
  let ghost det (d : dfa) (a : catn) : unit
    requires { allok d a } ensures { ddet d } ensures { alldests d }
  = let lemma one (s k l c : int) : unit
      requires { 0 <= s < dn d /\ 0 <= k < length (dtr d s) /\ 0 <= l < length (dtr d s) }
      requires { cin (dtr d s)[k].ntrans__m_label c /\ cin (dtr d s)[l].ntrans__m_label c } ensures { k = l }
    = let p = pure { (dtr d s)[k].ntrans__m_dest } in let q = pure { (dtr d s)[l].ntrans__m_dest } in
      assert { okst d a s }; assert { tin (dtr d s) c p /\ tin (dtr d s) c q };
      leads_fn d a (pure { lab d s }) c p q in
    let lemma two (i : int) : unit requires { 0 <= i < dn d } ensures { dests (dtr d i) (dn d) } = assert { okst d a i } in ()
  (* ---- words.  At each character, from the places s reached so far:
     lower: the continuation at q of alternative m is outranked by another continuation *)
  predicate lower (a : catn) (s : cset) (c : int) (q : atnpath) (m : int) = exists y. y.celem__m_path = q /\ y.celem__m_color = m /\ conts a s c y /\ outranked a s c y
  predicate reads1 (a : catn) (s : cset) (c : int) (e : celem) (q : atnpath) = exists l. cmem e s /\ readsto a e.celem__m_path l q /\ cin l c
  (* every alternative but k cannot continue or is outranked, and k can continue *)
  predicate excluded (a : catn) (s : cset) (c k : int) = forall e q. reads1 a s c e q -> e.celem__m_color <> k -> e.celem__m_color <> 0 -> lower a s c q e.celem__m_color
  predicate continues (a : catn) (s : cset) (c k : int) = exists e q. reads1 a s c e q /\ e.celem__m_color = k
  (* no continuation is forgotten on the way to x unless it is outranked, and none is invented *)
  predicate carried (a : catn) (s : cset) (c : int) (x : cset) = forall e q. reads1 a s c e q -> lower a s c q e.celem__m_color \/ idone a q e.celem__m_color x
  predicate comes (a : catn) (q p : atnpath) = exists r r2. ifollows a q r p r2
  predicate stems1 (a : catn) (s : cset) (c : int) (z : celem) = exists e q. reads1 a s c e q /\ e.celem__m_color = z.celem__m_color /\ comes a q z.celem__m_path
  predicate stems (a : catn) (s : cset) (c : int) (x : cset) = forall z. cmem z x -> stems1 a s c z
  let ghost excl (a : catn) (s : cset) (c : int) (g : cset) (k : int) : unit
    requires { cgroup a s c g /\ onecol g k } ensures { excluded a s c k } ensures { continues a s c k }
  = let lemma one (e : celem) (q : atnpath) : unit
      requires { reads1 a s c e q /\ e.celem__m_color <> k /\ e.celem__m_color <> 0 } ensures { lower a s c q e.celem__m_color }
    = let x = pure { el q e.celem__m_color e.celem__m_priority } in assert { conts a s c x };
      let y = any celem ensures { kept a s c g x result } in assert { not (cmem y g) }; assert { outranked a s c y } in
    let x = any celem ensures { cmem result g /\ result.celem__m_color = k } in
    assert { conts a s c x };
    let e = any celem ensures { reads1 a s c result x.celem__m_path /\ result.celem__m_color = k } in ()
  let lemma same_has (s t : cset) (z : celem) : unit requires { same_keys s t /\ khas z t } ensures { khas z s }
  = let k = any int ensures { 0 <= result < length (cset_elements t) /\ key_eq (cset_elements t)[result] z } in assert { key_eq (cset_elements s)[k] z }; assert { cmem (cset_elements s)[k] s }
  let lemma same_has2 (s t : cset) (z : celem) : unit requires { same_keys s t /\ cmem z s } ensures { exists y. cmem y t /\ key_eq y z }
  = let k = any int ensures { 0 <= result < length (cset_elements s) /\ (cset_elements s)[result] = z } in assert { cmem (cset_elements t)[k] t }
  let ghost carr (a : catn) (s : cset) (c : int) (g x : cset) : unit
    requires { cgroup a s c g /\ closure_of a g (ecl a g) /\ same_keys x (ecl a g) } ensures { carried a s c x } ensures { stems a s c x }
  = let lemma one (e : celem) (q : atnpath) : unit
      requires { reads1 a s c e q /\ not (lower a s c q e.celem__m_color) } ensures { idone a q e.celem__m_color x }
    = let z = pure { el q e.celem__m_color e.celem__m_priority } in assert { conts a s c z };
      let y = any celem ensures { kept a s c g z result } in assert { cmem y g }; assert { idone a q e.celem__m_color (ecl a g) } in
    let lemma two (z : celem) : unit requires { cmem z x } ensures { stems1 a s c z }
    = let y = any celem ensures { cmem result (ecl a g) /\ key_eq result z } in
      let h = any celem ensures { cmem result g /\ grounds a result y } in
      assert { conts a s c h };
      let e = any celem ensures { reads1 a s c result h.celem__m_path /\ result.celem__m_color = h.celem__m_color } in
      assert { comes a h.celem__m_path z.celem__m_path } in ()
  (* may: following all alternatives at once through w comes to a character at which all but k are excluded; must: it does so whatever ranks are kept *)
  predicate may (a : catn) (s : cset) (w : list int) (k : int) = match w with
    | Nil -> false
    | Cons c t -> (k > 0 /\ excluded a s c k /\ continues a s c k) \/ (exists x. closed a x /\ carried a s c x /\ stems a s c x /\ may a x t k) end
  predicate must (a : catn) (s : cset) (w : list int) (k : int) = match w with
    | Nil -> false
    | Cons c t -> exists g. dmem (dset a s) c g /\ ((k > 0 /\ onecol g k) \/ (nocol g /\ forall x. same_keys x (ecl a g) -> must a x t k)) end
  predicate allfin (d : dfa) (a : catn) = forall i. 0 <= i < dn d -> fin d a i
  let rec ghost picks_may (d : dfa) (a : catn) (i : int) (w : list int) (k : int) : unit
    requires { allfin d a /\ 0 <= i < dn d /\ pick d i w k } variant { w } ensures { may a (lab d i) w k }
  = match w with Nil -> ()
    | Cons c t ->
      let j = any int ensures { tin (dtr d i) c result /\ ((result < 0 /\ k = 0 - result) \/ (result >= 0 /\ pick d result t k)) } in
      assert { fin d a i }; assert { leads d a (lab d i) c j };
      let m = any int ensures { 0 <= result < length (items a (lab d i)) /\ cin (items a (lab d i))[result].t20 c /\ choice d a (items a (lab d i))[result].t21 j } in
      let g = pure { (items a (lab d i))[m].t21 } in
      assert { dmem (dset a (lab d i)) c g }; assert { cgroup a (lab d i) c g };
      if j >= 0 then begin picks_may d a j t k; carr a (pure { lab d i }) c g (pure { lab d j }); assert { fin d a j } end
      else excl a (pure { lab d i }) c g k
    end
  let rec ghost must_picks (d : dfa) (a : catn) (i : int) (w : list int) (k : int) : unit
    requires { allfin d a /\ 0 <= i < dn d /\ must a (lab d i) w k } variant { w } ensures { pick d i w k }
  = match w with Nil -> ()
    | Cons c t ->
      assert { fin d a i };
      let g = any cset ensures { dmem (dset a (lab d i)) c result /\ ((k > 0 /\ onecol result k) \/ (nocol result /\ forall x. same_keys x (ecl a result) -> must a x t k)) } in
      let m = any int ensures { 0 <= result < length (items a (lab d i)) /\ cin (items a (lab d i))[result].t20 c /\ (items a (lab d i))[result].t21 = g } in
      let j = any int ensures { tin (dtr d i) c result } in
      assert { leads d a (lab d i) c j };
      let q = any int ensures { 0 <= result < length (items a (lab d i)) /\ cin (items a (lab d i))[result].t20 c /\ choice d a (items a (lab d i))[result].t21 j } in
      assert { q = m };
      if j >= 0 then begin assert { not (k > 0 /\ onecol g k) }; must_picks d a j t k end
      else if pure { onecol g k /\ k > 0 } then onecol_fn g k (0 - j)
    end
  let ghost sorted_ok (d e : dfa) (a : catn) : unit
    requires { allfin d a /\ dn e = dn d } requires { forall i. 0 <= i < dn d -> lab e i = lab d i } requires { forall i. 0 <= i < dn d -> psort (dtr d i) (dtr e i) }
    ensures { allfin e a } ensures { allok e a }
  = let lemma one (i : int) : unit requires { 0 <= i < dn d } ensures { fin e a i }
    = assert { fin d a i }; sort_trs (pure { dtr d i }) (pure { dtr e i });
      let lemma sn (c j : int) : unit requires { tin (dtr e i) c j } ensures { leads e a (lab e i) c j }
      = assert { leads d a (lab d i) c j };
        let k = any int ensures { 0 <= result < length (items a (lab d i)) /\ cin (items a (lab d i))[result].t20 c /\ choice d a (items a (lab d i))[result].t21 j } in
        choice_ext d e a (pure { (items a (lab d i))[k].t21 }) j in
      assert { lwf (dtr e i) }; assert { proper (dtr e i) };
      assert { ful e a i } in ()
  let ghost words (d : dfa) (a : catn) (o : atnpath) : unit
    requires { allfin d a /\ dn d > 0 /\ lab d 0 = rcl a o }
    ensures { forall w k. pick d 0 w k -> may a (rcl a o) w k } ensures { forall w k. must a (rcl a o) w k -> pick d 0 w k }
  = let lemma one (w : list int) (k : int) : unit ensures { pick d 0 w k -> may a (rcl a o) w k } ensures { must a (rcl a o) w k -> pick d 0 w k }
    = (if pure { pick d 0 w k } then picks_may d a 0 w k); if pure { must a (rcl a o) w k } then must_picks d a 0 w k in ()
""".replace('\\\\', '\\')

CCF = ('cc_is_epsilon', 'cc_includes_ch', 'cc_includes_r')
PATHS = ('id_eq', 'pe_lt', 'pe_gt', 'pc_compare', 'pc_sup', 'pc_inf', 'path_compare')

def functions(T):
    cf = charclass.functions(T); d = dfa.functions(T); pf = paths.functions()
    F = {}
    for k in CCF: F[k] = dict(key=cf[k]['key'], requires=cf[k].get('requires', []), ensures=cf[k]['ensures'], trusted=True)
    for k in PATHS: F[k] = dict(pf[k])
    for k in PATHS[:1] + PATHS[-1:]: F[k] = dict(key=pf[k]['key'], requires=pf[k].get('requires', []), ensures=pf[k]['ensures'], trusted=True, **{x: pf[k][x] for x in ('logic', 'is_pure') if x in pf[k]})
    F['cc_borders'] = dict(d['cc_borders'], ghost={'begin0': 'let ghost r0 = pure { (!ret).ivec__base } in let ghost rr = pure { this.cclass__m_ranges[@ix] } in',
        'end0': 'assert { (!ret).ivec__base = snoc (snoc r0 rr.range__m_start) rr.range__m_end }; assert { forall b. vmem b (!ret).ivec__base <-> vmem b r0 \\/ b = rr.range__m_start \\/ b = rr.range__m_end }'})
    DF = 'CATNDepartureSetFactory<%s>' % T
    F['dep_add'] = dict(key=DF + '::add', requires=['cwf cc', 'dlwf (!this).deptfac__m_departures'],
        ensures=['collects the departure:: (!this).deptfac__m_departures = snoc (old !this).deptfac__m_departures { cdep__m_label = cc; cdep__m_path = path; cdep__m_color = color; cdep__m_priority = priority }', 'dlwf (!this).deptfac__m_departures'])
    E0 = '(cset_elements c0)'; E = '(cset_elements !closure)'
    pos = '(@ix + length %s - length %s)' % (E0, E)
    F['closure_add'] = dict(key=DF + '::closure_add', ensures=['a continuation outranked by one of the group stays out, and otherwise it expels those it outranks and joins:: added (old !closure) !closure (delem departure)'],
        ghost={'entry': 'let ghost c0 = !closure in let ghost x = pure { delem departure } in'},
        loops=[dict(inv=['!closure = c0', '0 <= !i <= length %s' % E0, 'forall k. 0 <= k < !i -> not (beats %s[k] x)' % E0], var=['length %s - !i' % E0]),
               dict(inv=['0 <= !i <= length %s' % E, 'length %s <= length %s' % (E, E0),
                         'forall e. cmem e c0 -> not (beats e x)',
                         'forall j. !i <= j < length {E} -> {E}[j] = {E0}[j + length {E0} - length {E}]'.format(E=E, E0=E0),
                         'forall j. 0 <= j < !i -> cmem {E}[j] c0 /\\ not (beats x {E}[j])'.format(E=E),
                         'forall j. 0 <= j < !i + length {E0} - length {E} -> not (beats x {E0}[j]) -> exists k. 0 <= k < !i /\\ {E}[k] = {E0}[j]'.format(E=E, E0=E0)], var=['length %s - !i' % E])])
    F['closure_add']['ghost']['before1'] = 'assert { forall k. 0 <= k < length %s -> not (beats %s[k] x) };' % (E0, E0)
    F['closure_add']['ghost']['after1'] = 'assert { forall y. cmem y !closure <-> cmem y c0 /\\ not (beats x y) }'
    F['build'] = dict(key=DF + '::build_departure_set', requires=['dlwf (!this).deptfac__m_departures'],
        ensures=['a group holds what remains possible after the character and is not outranked:: forall c g. dmem result c g -> group (!this).deptfac__m_departures c g',
                 'no continuation is lost:: forall c k. inc (!this).deptfac__m_departures c k -> exists g. dmem result c g',
                 'dsw result', 'a character is in one group only:: ddis result', '!this = (old !this)'],
        ghost={'entry': 'let ghost tr0 = (!this).deptfac__m_departures in let ghost gcl = ref cset_empty in let ghost gr = ref { range__m_start = 0; range__m_end = 0 } in',
          'before1': 'let ghost e = set_elements !borders in assert { forall b. smem b !borders <-> vmem b e }; assert { brd tr0 e }; locate tr0 e;',
          'begin0': 'let ghost b0 = !borders in let ghost lb = pure { tr0[@ix].cdep__m_label } in',
          'end0': 'assert { forall l : seq int. l[0 .. length l] == l }; assert { forall b. smem b !borders <-> smem b b0 \\/ bnd lb b }; assert { forall b. bnd lb b -> 0 <= b <= maxc };',
          'begin1': 'let ghost d1 = !deptset in assert { forall k. 0 <= k < length e -> smem e[k] !borders && 0 <= e[k] <= maxc }; assert { !i < length e - 1 -> e[!i] < e[!i + 1] };',
          'begin2': 'let ghost cc0 = !closure in let ghost kk = @ix in',
          'end2': 'if pure { inrun tr0[kk].cdep__m_label !atomic_range } then pstep_in tr0 !atomic_range kk cc0 !closure else pstep_out tr0 !atomic_range kk cc0;',
          'after2': '''pdone tr0 !atomic_range !closure e (!i - 1);
   assert { forall c k. inc tr0 c k -> e[!i - 1] <= c < e[!i] -> rin !atomic_range c }; gcl := !closure; gr := !atomic_range''',
          'end1': '''assert { forall c g. dmem d1 c g -> dmem !deptset c g };
   assert { length (cset_elements !gcl) > 0 -> let b = (!deptset).deptset__base in let l = length b - 1 in length b > 0 /\\ b[l].t21 = !gcl /\\ b[l].t20.cclass__m_ranges[0] = !gr };
   assert { length (cset_elements !gcl) > 0 -> let b = (!deptset).deptset__base in let l = length b - 1 in forall c. rin !gr c -> cin b[l].t20 c };
   assert { forall c. rin !gr c -> length (cset_elements !gcl) > 0 -> dmem !deptset c !gcl };
   assert { forall c k. inc tr0 c k -> c < e[!i - 1] -> exists g. dmem !deptset c g }''',
          },
        loops=[dict(inv=['forall b. smem b !borders -> 0 <= b <= maxc', 'forall k b. 0 <= k < @ix -> bnd (tr0[k].cdep__m_label) b -> smem b !borders', '!this = (old !this)']),
               dict(inv=['!this = (old !this)', '0 <= !i <= length e', 'set_elements !borders = e', '!i = length e -> length e = 0', 'dsw !deptset', 'ddis !deptset',
                         'forall k c. 0 <= k < length (!deptset).deptset__base -> cin ((!deptset).deptset__base)[k].t20 c -> length e > 0 /\\ c < e[!i]',
                         'forall c g. dmem !deptset c g -> group tr0 c g',
                         'forall c k. inc tr0 c k -> !i < length e -> c < e[!i] -> exists g. dmem !deptset c g'], var=['length e - !i']),
               dict(inv=['!this = (old !this)', 'pgroup tr0 !atomic_range @ix !closure'])])
    C = '(cset_elements closure)'
    F['color'] = dict(key='LookaheadDFA<%s>::get_closure_color' % T,
        ensures=['the alternative returned is the only one left:: result > 0 -> onecol closure result', 'when only one is left it is returned:: result <= 0 -> forall k. k > 0 -> not (onecol closure k)'],
        ghost={'begin0': 'assert { cmem %s[@ix] closure };' % C},
        loops=[dict(inv=['!color = 0 -> forall k. 0 <= k < @ix -> {C}[k].celem__m_color = 0'.format(C=C),
                         '!color <> 0 -> (exists k. 0 <= k < @ix /\\ {C}[k].celem__m_color = !color) /\\ forall k. 0 <= k < @ix -> {C}[k].celem__m_color = !color \\/ {C}[k].celem__m_color = 0'.format(C=C)])])
    return F

def functions_n(T):
    F = functions(T); pf = paths.functions()
    G = {}
    def tr(d): return dict(key=d['key'], requires=d.get('requires', []), ensures=d['ensures'], trusted=True, **{x: d[x] for x in ('logic', 'is_pure') if x in d})
    for k in CCF: G[k] = F[k]
    for k in ('id_eq', 'path_push', 'path_pop', 'path_add', 'path_parent', 'path_reindex', 'path_leaf_index', 'path_leaf_id', 'path_depth', 'path_count'): G[k] = tr(pf[k])
    for k, e in (('path_reindex', 'result = reidx this index'), ('path_parent', 'result = up this'), ('path_add', 'result = down this id index'), ('path_push', '!this = down (old !this) id index'), ('path_pop', '!this = up (old !this)')):
        G[k] = dict(key=pf[k]['key'], requires=pf[k].get('requires', []), ensures=[e])
    G['pc_add'] = dict(key=pf['pc_add']['key'], ensures=['result = { pchain__base = snoc this.pchain__base { pelem__m_id = id; pelem__m_index = index; pelem__m_priority = pr } }'])
    for k in ('dep_add', 'build'): G[k] = tr(F[k])
    C = 'CompositeATN<%s>::' % T
    X, O = '(!deptset_factory).deptfac__m_departures', '(old !deptset_factory).deptfac__m_departures'
    base = ['pre_of %s %s' % (O, X), 'dlwf %s' % X, 'okdeps this %s' % O + ' -> okdeps this %s' % X, '!stack = (old !stack)']
    G['wild'] = dict(key=C + 'build_wildcard_departure_set', rec=True, diverges=True, raises=['CppThrow -> true'],
        requires=['netok this', 'dlwf %s' % X],
        ensures=base + ['only what can be read behind a use of the machine:: wfrom this %s (length %s) id color priority' % (X, O),
                        'behind every use of the machine:: forall r i. usedat this id r i -> dall this %s (length %s) (at_site r i) color priority' % (X, O)],
        ghost={'entry': 'let ghost t0 = pure { %s } in let ghost n0 = length t0 in let ghost s0 = !stack in ' % X,
               'begin0': 'let ghost gp = pure { @els[@ix] } in let ghost kk = @ix in let ghost els0 = pure { @els } in',
               'end0': 'assert { forall i. usedat this id els0[kk].t20 i -> dall this %s n0 (at_site els0[kk].t20 i) color priority }' % X,
               'begin1': 'let ghost t1 = pure { %s } in let ghost i1 = !i in' % X,
               'end1': '''assert { pre_of t1 %(X)s };
                  let ghost lemma keep (r : identifier) (j : int) : unit requires { dall this t1 n0 (at_site r j) color priority } ensures { dall this %(X)s n0 (at_site r j) color priority }
                  = dall_ext this t1 (pure { %(X)s }) n0 n0 (pure { at_site r j }) color priority in
                  assert { sub (nods this gp.t20)[i1] = id -> dall this %(X)s (length t1) (at_site gp.t20 i1) color priority };
                  (if pure { sub (nods this gp.t20)[i1] = id } then begin assert { usedat this id gp.t20 i1 }; dall_ext this (pure { %(X)s }) (pure { %(X)s }) (length t1) n0 (pure { at_site gp.t20 i1 }) color priority end);
                  assert { usedat this id gp.t20 i1 -> dall this %(X)s n0 (at_site gp.t20 i1) color priority };
                  assert { forall i2. 0 <= i2 < i1 -> usedat this id gp.t20 i2 -> dall this t1 n0 (at_site gp.t20 i2) color priority };
                  assert { forall i2. 0 <= i2 < i1 + 1 -> usedat this id gp.t20 i2 -> dall this %(X)s n0 (at_site gp.t20 i2) color priority };
                  let ghost lemma wf (k : int) : unit requires { n0 <= k < length %(X)s } ensures { wreads this id %(X)s[k].cdep__m_label %(X)s[k].cdep__m_path /\\ %(X)s[k].cdep__m_color = color /\\ %(X)s[k].cdep__m_priority = priority }
                  = if k < pure { length t1 } then assert { %(X)s[k] = t1[k] } else begin assert { usedat this id gp.t20 i1 }; assert { readsto this (at_site gp.t20 i1) %(X)s[k].cdep__m_label %(X)s[k].cdep__m_path } end in
                  assert { forall m i. 0 <= m < kk -> usedat this id els0[m].t20 i -> dall this %(X)s n0 (at_site els0[m].t20 i) color priority }''' % dict(X=X)},
        loops=[dict(inv=['pre_of t0 %s' % X, 'dlwf %s' % X, 'okdeps this t0 -> okdeps this %s' % X, '!stack = s0', 'wfrom this %s n0 id color priority' % X,
                         'forall m i. 0 <= m < @ix -> usedat this id @els[m].t20 i -> dall this %s n0 (at_site @els[m].t20 i) color priority' % X]),
               dict(inv=['pre_of t0 %s' % X, 'dlwf %s' % X, 'okdeps this t0 -> okdeps this %s' % X, '!stack = s0', 'wfrom this %s n0 id color priority' % X, '0 <= !i <= length (nods this gp.t20)',
                         'forall i2. 0 <= i2 < !i -> usedat this id gp.t20 i2 -> dall this %s n0 (at_site gp.t20 i2) color priority' % X,
                         'forall m i. 0 <= m < kk -> usedat this id els0[m].t20 i -> dall this %s n0 (at_site els0[m].t20 i) color priority' % X], var=['length (nods this gp.t20) - !i'])])
    G['deps_r'] = dict(key=C + 'build_departure_set_r', mutual=True, diverges=True, raises=['CppThrow -> true'],
        requires=['netok this', 'okpath this path', 'dlwf %s' % X],
        ensures=base + ['only what can be read from here:: dfrom this %s (length %s) path color priority' % (X, O), 'all that can be read from here:: dall this %s (length %s) path color priority' % (X, O)],
        loops=[dict(inv=['pre_of t0 %s' % X, 'dlwf %s' % X, 'okdeps this t0 -> okdeps this %s' % X, '!stack = (old !stack)'])])
    G['deps_r']['loops'][0]['inv'] = G['deps_r']['loops'][0]['inv'][:3] + ['!stack = s0', 'dfrom this %s n0 path color priority' % X,
        'forall k. 0 <= k < @ix -> not (cempty (ntr (nod this path))[k].ntrans__m_label) -> dhas %s n0 (ntr (nod this path))[k].ntrans__m_label (reidx path (ntr (nod this path))[k].ntrans__m_dest) color priority' % X]
    G['deps_r']['ghost'] = {'entry': 'let ghost t0 = pure { %s } in let ghost n0 = length t0 in let ghost s0 = !stack in assert { step_ok this (leaf path) }; assert { node_ok this (leaf path).t20 (nod this path) };' % X,
        'begin0': 'let ghost t1 = pure { %s } in let ghost kk = @ix in' % X,
        'exit': 'show_all this (pure { %s }) n0 path color priority' % X,
        'end0': '''assert { pre_of t1 %(X)s };
          let ghost lemma keep (l : cclass) (q : atnpath) : unit requires { dhas t1 n0 l q color priority } ensures { dhas %(X)s n0 l q color priority }
          = let k = any int ensures { n0 <= result < length t1 /\\ t1[result] = { cdep__m_label = l; cdep__m_path = q; cdep__m_color = color; cdep__m_priority = priority } } in assert { %(X)s[k] = t1[k] } in
          assert { not (cempty (ntr (nod this path))[kk].ntrans__m_label) -> length %(X)s = length t1 + 1 /\\ %(X)s[length t1] = { cdep__m_label = (ntr (nod this path))[kk].ntrans__m_label; cdep__m_path = reidx path (ntr (nod this path))[kk].ntrans__m_dest; cdep__m_color = color; cdep__m_priority = priority } }''' % dict(X=X)}
    K, KO = '!closure', '(old !closure)'
    cbase = ['grew %s %s' % (KO, K), 'okset this %s -> okset this %s' % (KO, K), 'every new continuation is followed on:: newdone this %s %s' % (KO, K), 'eachnew this %s %s color' % (KO, K), '!stack = (old !stack)']
    inv = ['grew k0 !closure', 'okset this k0 -> okset this !closure', 'newdone this k0 !closure', 'eachnew this k0 !closure color', '!stack = s0']
    step = '''assert { grew k1 !closure }; newdone_grew this k0 k1 !closure; '''
    G['clos_w'] = dict(key=C + 'build_wildcard_closure', rec=True, diverges=True, raises=['CppThrow -> true'], requires=['netok this'],
        ensures=cbase + ['only what follows a use of the machine:: wnew this %s %s id priority' % (KO, K), 'every use of the machine is followed:: wdone this id color %s' % K],
        ghost={'entry': 'let ghost k0 = !closure in let ghost s0 = !stack in ', 'begin0': 'let ghost gp = pure { @els[@ix] } in let ghost kk = @ix in let ghost els0 = pure { @els } in',
               'begin1': 'let ghost k1 = !closure in let ghost i1 = !i in',
               'end1': step + '''assert { forall u j. mdone this (at_site u j) color k1 -> mdone this (at_site u j) color !closure };
                 assert { usedat this id gp.t20 i1 -> mdone this (at_site gp.t20 i1) color !closure };
                 let ghost lemma wn (x : celem) : unit requires { cmem x !closure /\\ not (cmem x k0) } ensures { wfollows this id priority x.celem__m_path x.celem__m_priority }
                 = if pure { cmem x k1 } then () else begin assert { usedat this id gp.t20 i1 }; assert { follows this (at_site gp.t20 i1) priority x.celem__m_path x.celem__m_priority } end in ()'''},
        loops=[dict(inv=inv + ['wnew this k0 !closure id priority', 'forall m i. 0 <= m < @ix -> usedat this id @els[m].t20 i -> mdone this (at_site @els[m].t20 i) color !closure']),
               dict(inv=inv + ['wnew this k0 !closure id priority', '0 <= !i <= length (nods this gp.t20)', 'forall i2. 0 <= i2 < !i -> usedat this id gp.t20 i2 -> mdone this (at_site gp.t20 i2) color !closure',
                    'forall m i. 0 <= m < kk -> usedat this id els0[m].t20 i -> mdone this (at_site els0[m].t20 i) color !closure'], var=['length (nods this gp.t20) - !i'])])
    G['clos_x'] = dict(key=C + 'build_closure_exclusive', mutual=True, diverges=True, raises=['CppThrow -> true'], requires=['netok this', 'okpath this path'],
        ensures=cbase + ['only what follows from here:: newfrom this %s %s path priority' % (KO, K), 'all that follows from here:: mdone this path color %s' % K],
        ghost={'entry': 'let ghost k0 = !closure in let ghost s0 = !stack in assert { step_ok this (leaf path) }; assert { node_ok this (leaf path).t20 (nod this path) };',
               'begin0': 'let ghost k1 = !closure in let ghost kk = @ix in',
               'end0': step + '''let ghost lemma keep (k : int) : unit requires { epsof this path k /\\ k < kk } ensures { idone this (epsto this path k) color !closure } = idone_grew this k1 !closure (pure { epsto this path k }) color in
                 (if pure { epsof this path kk } then begin assert { terminal (nod this (epsto this path kk)) -> khas (el (epsto this path kk) color (epsrank this path kk priority)) k1 -> sameset k1 !closure }; assert { terminal (nod this (epsto this path kk)) -> not (khas (el (epsto this path kk) color (epsrank this path kk priority)) k1) -> grew (cset_add (el (epsto this path kk) color (epsrank this path kk priority)) k1) !closure }; assert { terminal (nod this (epsto this path kk)) -> not (khas (el (epsto this path kk) color (epsrank this path kk priority)) k1) -> newfrom this (cset_add (el (epsto this path kk) color (epsrank this path kk priority)) k1) !closure (epsto this path kk) (epsrank this path kk priority) }; assert { not (terminal (nod this (epsto this path kk))) -> idone this (down (epsto this path kk) (sub (nod this (epsto this path kk))) 0) color !closure }; assert { not (terminal (nod this (epsto this path kk))) -> newin this k1 !closure (down (epsto this path kk) (sub (nod this (epsto this path kk))) 0) (epsrank this path kk priority) }; found this (pure { k1 }) (pure { !closure }) (pure { epsto this path kk }) color (pure { epsrank this path kk priority }) end);
                 assert { epsof this path kk -> idone this (epsto this path kk) color !closure };
                 let ghost lemma nf (x : celem) : unit requires { cmem x !closure /\\ not (cmem x k0) } ensures { follows this path priority x.celem__m_path x.celem__m_priority }
                 = if pure { cmem x k1 } then () else begin assert { epsof this path kk }; assert { ifollows this (epsto this path kk) (epsrank this path kk priority) x.celem__m_path x.celem__m_priority };
                     follows_here this path priority kk (pure { x.celem__m_path }) (pure { x.celem__m_priority }) end in ()''',
               'call:path_reindex': 'let ghost dp = pure { epsto this path kk } in assert { epsof this path kk }; ok_reidx this path kk; assert { step_ok this (leaf dp) }; assert { node_ok this (leaf dp).t20 (nod this dp) }; (if pure { not (terminal (nod this dp)) } then ok_down this dp (pure { sub (nod this dp) }) 0);',
               'exit': 'show_done this (pure { k0 }) (pure { !closure }) path color priority'},
        loops=[dict(inv=inv + ['newfrom this k0 !closure path priority', 'forall k. 0 <= k < @ix -> epsof this path k -> idone this (epsto this path k) color !closure'])])
    G['clos_i'] = dict(key=C + 'build_closure_inclusive', mutual=True, diverges=True, raises=['CppThrow -> true'], requires=['netok this', 'okpath this path'],
        ensures=cbase + ['only what is found inside:: newin this %s %s path priority' % (KO, K), 'all that is found inside:: idone this path color %s' % K],
        ghost={'entry': 'let ghost k0 = !closure in let ghost s0 = !stack in assert { step_ok this (leaf path) }; assert { node_ok this (leaf path).t20 (nod this path) }; (if pure { not (terminal (nod this path)) } then ok_down this path (pure { sub (nod this path) }) 0);',
               'exit': 'assert { terminal (nod this path) -> khas (el path color priority) k0 -> sameset k0 !closure }; assert { terminal (nod this path) -> not (khas (el path color priority) k0) -> grew (cset_add (el path color priority) k0) !closure }; assert { terminal (nod this path) -> not (khas (el path color priority) k0) -> newfrom this (cset_add (el path color priority) k0) !closure path priority }; assert { not (terminal (nod this path)) -> idone this (down path (sub (nod this path)) 0) color !closure }; assert { not (terminal (nod this path)) -> newin this k0 !closure (down path (sub (nod this path)) 0) priority }; found this (pure { k0 }) (pure { !closure }) path color priority'})
    G['c_clos'] = dict(key=C + 'build_closure(const CATNClosure &)', diverges=True, raises=['CppThrow -> true'], requires=['netok this', 'okset this closure'],
        ensures=['everything reached without reading is there and nothing else:: closure_of this closure result'],
        ghost={'entry': 'let ghost els = pure { cset_elements closure } in',
          'begin0': 'let ghost k1 = !ret in let ghost e = pure { els[@ix] } in let ghost kk = @ix in assert { cmem e closure };',
          'end0': '''assert { grew k1 !ret };
            let ghost lemma cl (x : celem) : unit requires { cmem x !ret } ensures { mdone this x.celem__m_path x.celem__m_color !ret }
            = if pure { cmem x k1 } then mdone_grew this k1 !ret (pure { x.celem__m_path }) (pure { x.celem__m_color }) in
            let ghost lemma sd (m : int) : unit requires { 0 <= m < kk + 1 } ensures { idone this els[m].celem__m_path els[m].celem__m_color !ret }
            = if m < kk then idone_grew this k1 !ret (pure { els[m].celem__m_path }) (pure { els[m].celem__m_color }) in
            let ghost lemma gd (x : celem) : unit requires { cmem x !ret } ensures { fsrc this els (kk + 1) x }
            = if pure { cmem x k1 } then assert { fsrc this els kk x } else assert { grounds this els[kk] x } in ()''',
          'exit': '''let ghost lemma se (x : celem) : unit requires { cmem x closure } ensures { idone this x.celem__m_path x.celem__m_color !ret }
            = let m = any int ensures { 0 <= result < length els /\\ els[result] = x } in () in
            let ghost lemma gr (x : celem) : unit requires { cmem x !ret } ensures { ground this closure x }
            = assert { fsrc this els (length els) x }; let m = any int ensures { 0 <= result < length els /\\ grounds this els[result] x } in assert { cmem els[m] closure } in ()'''},
        loops=[dict(inv=['okset this !ret', 'closed this !ret', 'forall m. 0 <= m < @ix -> idone this els[m].celem__m_path els[m].celem__m_color !ret', 'forall x. cmem x !ret -> fsrc this els @ix x'])])
    G['c_root'] = dict(key=C + 'build_root_closure', diverges=True, raises=['CppThrow -> true'], requires=['netok this', 'decision this path'],
        ensures=['each alternative is followed from its beginning:: root_of this path result'],
        ghost={'entry': 'assert { step_ok this (leaf path) }; assert { node_ok this (leaf path).t20 (nod this path) };',
          'begin0': 'let ghost k1 = !closure in let ghost kk = !i in ok_reidx this path kk;',
          'end0': '''assert { grew k1 !closure };
            let ghost lemma cl (x : celem) : unit requires { cmem x !closure } ensures { mdone this x.celem__m_path x.celem__m_color !closure }
            = if pure { cmem x k1 } then mdone_grew this k1 !closure (pure { x.celem__m_path }) (pure { x.celem__m_color }) in
            let ghost lemma sd (m : int) : unit requires { nx this path <= m < kk + 1 } ensures { idone this (epsto this path m) (m - nx this path + 1) !closure }
            = if m < kk then idone_grew this k1 !closure (pure { epsto this path m }) (pure { m - nx this path + 1 }) in
            let ghost lemma gd (x : celem) : unit requires { cmem x !closure } ensures { rsrc this path (kk + 1) x }
            = if pure { cmem x k1 } then assert { rsrc this path kk x } else assert { grounds this (rseed this path kk) x } in ()'''},
        loops=[dict(inv=['nx this path <= !i <= length (ntr (nod this path))', 'okset this !closure', 'closed this !closure', 'forall m. nx this path <= m < !i -> idone this (epsto this path m) (m - nx this path + 1) !closure', 'forall x. cmem x !closure -> rsrc this path !i x'],
                    var=['length (ntr (nod this path)) - !i'])])
    Y = '(!deptset_factory).deptfac__m_departures'
    G['c_deps'] = dict(key=C + 'build_departure_set', diverges=True, raises=['CppThrow -> true'],
        requires=['netok this', 'okset this closure'], ensures=['the groups are those of what can be read from the closure:: ngok this closure result', 'dsw result'],
        ghost={'entry': 'let ghost els = pure { cset_elements closure } in',
          'begin0': 'let ghost t1 = pure { %s } in let ghost e = pure { els[@ix] } in let ghost kk = @ix in assert { cmem e closure };' % Y,
          'end0': '''assert { pre_of t1 %(Y)s };
            let ghost lemma sn (k : int) : unit requires { 0 <= k < length %(Y)s } ensures { dsrc this els (kk + 1) %(Y)s[k] }
            = if k < pure { length t1 } then begin assert { %(Y)s[k] = t1[k] }; assert { dsrc this els kk t1[k] } end else assert { dep_of this els[kk] %(Y)s[k] } in
            let ghost lemma fl (m : int) : unit requires { 0 <= m < kk + 1 } ensures { dfull this els[m] %(Y)s 0 }
            = let x = pure { els[m] } in
              if m < kk then begin assert { dfull this x t1 0 }; dall_ext this t1 (pure { %(Y)s }) 0 0 (pure { x.celem__m_path }) (pure { x.celem__m_color }) (pure { x.celem__m_priority }) end
              else dall_ext this (pure { %(Y)s }) (pure { %(Y)s }) (length t1) 0 (pure { x.celem__m_path }) (pure { x.celem__m_color }) (pure { x.celem__m_priority }) in ()''' % dict(Y=Y),
          'call:build': '''let ghost t = pure { %(Y)s } in assert { dsound_to this els (length els) t };
            let ghost lemma dso (k : int) : unit requires { 0 <= k < length t } ensures { exists e. cmem e closure /\\ dep_of this e t[k] }
            = assert { dsrc this els (length els) t[k] }; let m = any int ensures { 0 <= result < length els /\\ dep_of this els[result] t[k] } in assert { cmem els[m] closure } in
            assert { dsound this closure t };
            let ghost lemma ca (x : celem) : unit requires { cmem x closure } ensures { dfull this x t 0 }
            = let m = any int ensures { 0 <= result < length els /\\ els[result] = x } in () in
            assert { dcomplete this closure t };
            inc_conts_all this closure t;
            let ghost lemma gr (c : int) (g : cset) : unit requires { group t c g } ensures { cgroup this closure c g } = to_group this closure t c g in
            let ghost lemma og (c : int) (g : cset) : unit requires { group t c g } ensures { okset this g } = ok_group this t c g in''' % dict(Y=Y)},
        loops=[dict(inv=['dlwf %s' % Y, 'okdeps this %s' % Y, 'dsound_to this els @ix %s' % Y, 'forall m. 0 <= m < @ix -> dfull this els[m] %s 0' % Y])])
    return G

LDF = 'LookaheadDFA<%s>'
def functions_d(T):
    N = functions_n(T); F = functions(T); d = dfa.functions(T)
    G = {'color': dict(key=F['color']['key'], ensures=F['color']['ensures'], trusted=True)}
    for k in CCF: G[k] = F[k]
    cf = charclass.functions(T)
    for k in ('cc_or',): G[k] = dict(key=cf[k]['key'], requires=cf[k].get('requires', []), ensures=cf[k]['ensures'], trusted=True)
    db = dict(d['db_add'], key=ldfa.base(T) + '::add_transition(const CharClass<%s> &,int,bool)' % T)
    db['ensures'] = [e.replace('0 <= dest < n', 'dest < n') for e in db['ensures'] if 'tep ' not in e]
    db['ensures'].insert(0, 'adds exactly the characters of the class:: grown (old !this).dbase__m_transitions (!this).dbase__m_transitions cc dest')
    G['db_add'] = db
    C = 'CompositeATN<%s>::' % T
    G['c_deps'] = dict(key=C + 'build_departure_set', trusted=True, raises=['CppThrow -> true'], requires=N['c_deps']['requires'], ensures=['result = dset this closure'] + N['c_deps']['ensures'])
    G['c_clos'] = dict(key=C + 'build_closure(const CATNClosure &)', trusted=True, raises=['CppThrow -> true'], requires=N['c_clos']['requires'], ensures=['result = ecl this closure'] + N['c_clos']['ensures'])
    G['c_root'] = dict(key=C + 'build_root_closure', trusted=True, raises=['CppThrow -> true'], requires=N['c_root']['requires'], ensures=['result = rcl this path'] + N['c_root']['ensures'])
    G['minimize'] = dict({k: v for k, v in ldfa.functions(T)['minimize'].items() if k in ('key', 'requires', 'ensures')}, trusted=True)
    O = '(old !this)'
    G['add_state'] = dict(key=LDF % T + '::add_state',
        ensures=['the state found is the first with these continuations:: 0 <= result < dn !this /\\ same_keys (lab !this result) label_ /\\ forall m. 0 <= m < result -> not (same_keys (lab !this m) label_)',
                 'ext {o} !this /\\ dn !this <= dn {o} + 1 /\\ forall i. 0 <= i < dn {o} -> dtr !this i = dtr {o} i'.format(o=O),
                 'forall i. dn {o} <= i < dn !this -> length (dtr !this i) = 0 /\\ lab !this i = label_'.format(o=O)],
        loops=[dict(inv=['!this = (old !this)', '0 <= !i <= dn !this', 'forall m. 0 <= m < !i -> not (same_keys (lab !this m) label_)'], var=['dn !this - !i'])])
    others = 'forall i. 0 <= i < dn d0 -> i <> index -> dtr !this i = dtr d0 i'
    G['fork'] = dict(key=LDF % T + '::fork_closures', rec=True, diverges=True, raises=['CppThrow -> true'],
        requires=['netok catn', '0 <= index < dn !this', 'allok !this catn'],
        ensures=['ext (old !this) !this', 'every transition is for what remains possible after its character:: allok !this catn', 'no continuation is missing:: fin !this catn index',
                 'every new state is completed:: forall i. dn (old !this) <= i < dn !this -> fin !this catn i',
                 'other states are left alone:: forall i. 0 <= i < dn (old !this) -> i <> index -> dtr !this i = dtr (old !this) i'],
        ghost={'entry': 'let ghost d0 = !this in let ghost l0 = pure { lab d0 index } in assert { okst d0 catn index };',
               'before0': 'let ghost its = pure { (!deptset).deptset__base } in assert { its = items catn l0 };',
               'begin0': 'let ghost d2 = !this in let ghost kk = @ix in let ghost g = pure { its[kk].t21 } in assert { okst d2 catn index }; assert { not (cempty its[kk].t20) }; let ghost c1 = any int ensures { cin its[kk].t20 result } in assert { dmem (dset catn l0) c1 g }; assert { okset catn g };',
               'end0': '''assert { ext d2 !this };
                 let ghost j = any int ensures { grown (dtr d2 index) (dtr !this index) its[kk].t20 result /\\ choice !this catn g result } in
                 let ghost lemma sn (c l : int) : unit requires { tin (dtr !this index) c l } ensures { leads !this catn l0 c l }
                 = if l = j && pure { cin its[kk].t20 c } then () else begin
                     assert { leads d2 catn l0 c l };
                     let k = any int ensures { 0 <= result < length its /\\ cin its[result].t20 c /\\ choice d2 catn its[result].t21 l } in choice_ext d2 !this catn (pure { its[k].t21 }) l end in
                 assert { forall c l. tin (dtr d2 index) c l -> tin (dtr !this index) c l }; assert { forall c. cin its[kk].t20 c -> tin (dtr !this index) c j };
                 assert { forall m c. 0 <= m < kk -> cin its[m].t20 c -> exists l. tin (dtr !this index) c l };
                 assert { snd !this catn index };
                 assert { okst !this catn index };
                 let ghost lemma ot (i : int) : unit requires { 0 <= i < dn !this /\\ i <> index } ensures { okst !this catn i }
                 = if i < dn d2 then ok_ext d2 !this catn i else begin assert { i = dn d2 }; assert { okset catn (lab !this i) /\\ closed catn (lab !this i) }; fresh_ok !this catn i end in
                 assert { allok !this catn }''',
               'before1': 'let ghost d1 = !this in assert { fin d1 catn index };',
               'begin1': 'let ghost d3 = !this in let ghost ii = !i in',
               'end1': '''assert { ext d3 !this };
                 let ghost lemma dn1 (j : int) : unit requires { dn d0 <= j < ii } ensures { fin !this catn j } = ok_ext d3 !this catn j in
                 assert { dtr !this index = dtr d3 index }''',
               'after1': 'ok_ext d1 !this catn index'},
        loops=[dict(inv=['ext d0 !this', 'allok !this catn', others, 'forall i. dn d0 <= i < dn !this -> length (dtr !this i) = 0',
                         'forall m c. 0 <= m < @ix -> cin its[m].t20 c -> exists j. tin (dtr !this index) c j']),
               dict(inv=['ext d1 !this', 'allok !this catn', others, 'dtr !this index = dtr d1 index', 'dn d0 <= !i <= dn !this', 'forall j. dn d0 <= j < !i -> fin !this catn j'])])
    G['ctor'] = dict(key=LDF % T + '::LookaheadDFA(const CompositeATN<%s> &,const ATNPath &,bool)' % T, diverges=True, raises=['CppThrow -> true'], requires=['netok catn', 'decision catn origin'],
        ensures=['an alternative is picked only when no other can match:: forall w k. pick result 0 w k -> may catn (rcl catn origin) w k',
                 'the only alternative that remains is picked:: forall w k. must catn (rcl catn origin) w k -> pick result 0 w k',
                 'alldests result', 'at most one transition applies:: ddet result', 'dn result > 0'],
        ghost={'call:fork': 'fresh_ok !this catn 0; assert { allok !this catn }; let ghost dl = !this in',
               'before0': 'let ghost d1 = !this in assert { allfin d1 catn };', 'begin0': 'let ghost dp = !this in',
               'end0': 'assert { forall i. 0 <= i < @ix - 1 -> dtr !this i = dtr dp i }; assert { dtr dp (@ix - 1) = dtr d1 (@ix - 1) }; assert { exists p. perm_by (dtr d1 (@ix - 1)) (dtr !this (@ix - 1)) p }; assert { psort (dtr d1 (@ix - 1)) (dtr !this (@ix - 1)) }',
               'after0': 'let ghost d2 = !this in sorted_ok d1 d2 catn; det d2 catn; words d2 catn origin;'},
        loops=[dict(inv=['dn !this = dn d1', 'forall i. 0 <= i < dn d1 -> lab !this i = lab d1 i', 'forall i. @ix <= i < dn d1 -> dtr !this i = dtr d1 i', 'forall i. 0 <= i < @ix -> psort (dtr d1 i) (dtr !this i)'])])
    return G

def preds(t):
    """the definitions of a preamble without its lemmas and ghost procedures (proved in the unit that uses them)"""
    items = re.split(r'\n(?=  (?:predicate|function|inductive|type|val|axiom|constant|let|use|\(\*))', t)
    return '\n'.join(x for x in items if not x.startswith('  let '))

def spec(part='groups', T='char'):
    a = charclass.spec(T); p = paths.spec()
    LB = ldfa.base(T)
    D = part in ('decide', 'follow')
    tn = dict(a['typenames'], **dict(p['typenames'], **{'NFATransition<%s>' % T: 'ntrans', 'CATNDeparture<%s>' % T: 'cdep', 'CATNDepartureSetFactory<%s>' % T: 'deptfac', 'CATNDepartureSet<%s>' % T: 'deptset', 'IndexVector': 'ivec'}))
    if D: tn.update({LB: 'dbase', 'LDFAState<%s>' % T: 'dstate', 'NFABase<LDFAState<%s>>' % T: 'dabase', 'LookaheadDFA<%s>' % T: 'dfa', 'CompositeATN<%s>' % T: 'catn', 'CATNMachine<%s>' % T: 'cmach', 'CATNNode<%s>' % T: 'cnode'})
    return dict(tu='''#include "LookaheadDFA.hpp"
#include "CharClass.cpp"
#include "CompositeATN.cpp"
namespace Centaurus { template class CATNDeparture<%(T)s>; template class CATNDepartureSetFactory<%(T)s>; template class LookaheadDFA<%(T)s>; }
''' % dict(T=T),
        files=['CharClass.hpp', 'CharClass.cpp', 'Util.hpp', 'Identifier.hpp', 'NFA.hpp', 'LookaheadDFA.hpp', 'CompositeATN.hpp', 'CompositeATN.cpp'],
        typenames=tn,
        tyaliases={'ATNStateStack': 'ATNPath', 'LDFATransition<%s>' % T: 'NFATransition<%s>' % T, 'CATNTransition<%s>' % T: 'NFATransition<%s>' % T, 'CATNClosure': 'std::set<CATNClosureElement>'},
        pretypes=PRETYPES + ('  type netmap\n' if D else ''), uses=['sets.Sets'] + (['perm.Perm'] if D else []), sorts={'ntrans': 'vsort'},
        types=a['types'] + p['types'] + ['IndexVector', 'CATNDeparture<%s>' % T, 'CATNDepartureSetFactory<%s>' % T, 'CATNDepartureSet<%s>' % T] + (['CompositeATN<%s>' % T, 'NFATransition<%s>' % T, 'LookaheadDFA<%s>' % T] if D else []),
        preamble=a['preamble'] + p['preamble'] + (PRE if part == 'groups' else preds(PRE)) + ({'follow': PRE_N, 'decide': preds(PRE_N)}.get(part, '')) + (PRE_D if part == 'decide' else ''), hooks=p.get('hooks', {}), containers=dict({'(fset celem)': ['cset', 'c']}, **({'(fmap identifier cmach)': ['netmap', 'g']} if D else {})), functions={'groups': functions, 'decide': functions_d, 'follow': functions_n}[part](T))
