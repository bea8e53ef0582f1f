"""Contracts for building an automaton from a regular pattern (src/core/NFA.hpp): P03."""
import re
import charclass, stream, ccparse, dfa

LANG = r'''
  use list.Append
  (* ---- what a pattern describes *)
  type re = REps | RCls cclass | RCat re re | RAlt re re | RPlus re | RStar re | ROpt re
  type words = list (list int)
  predicate wcat (l m : list int -> bool) (w : list int) = exists u v. w = u ++ v /\ l u /\ m v
  predicate wall (l : list int -> bool) (ws : words) = match ws with Nil -> true | Cons u t -> l u /\ wall l t end
  function flat (ws : words) : list int = match ws with Nil -> Nil | Cons u t -> u ++ flat t end
  predicate wrep (l : list int -> bool) (w : list int) = exists ws. flat ws = w /\ wall l ws
  predicate wcls (x : cclass) (w : list int) = if cempty x then w = Nil else exists c. w = Cons c Nil /\ cin x c
  function lang (r : re) : list int -> bool = match r with
    | REps -> fun w -> w = Nil
    | RCls x -> fun w -> wcls x w
    | RCat a b -> fun w -> wcat (lang a) (lang b) w
    | RAlt a b -> fun w -> lang a w \/ lang b w
    | RPlus a -> fun w -> wcat (lang a) (wrep (lang a)) w
    | RStar a -> fun w -> wrep (lang a) w
    | ROpt a -> fun w -> w = Nil \/ lang a w end
  (* ---- how a pattern is written: t is the text, [i, j) the part, r what it describes *)
  predicate escs (c : int) = c = 91 \/ c = 93 \/ c = 43 \/ c = 42 \/ c = 123 \/ c = 125 \/ c = 63 \/ c = 92 \/ c = 124 \/ c = 40 \/ c = 41 \/ c = 46
  predicate stop (c : int) = c = 41 \/ c = 47 \/ c = 0
  predicate one (x : cclass) (c : int) = forall d. cin x d <-> d = c
  predicate written_class (t : seq int) (i j : int) (x : cclass) =
    exists e l. items t (first t i) e l /\ char1 t e = 93 /\ j = next1 t e /\ forall c. cin x c <-> meaning t i l c
  predicate anychar (x : cclass) = forall c. cin x c <-> 0 <= c < maxc
  (* the end of a repetition mark at k and its variant mark *)
  function star_end (t : seq int) (k : int) : int = let d = chat t k in if d = 43 \/ d = 63 \/ d = 42 then next1 t k else k
  function opt_end (t : seq int) (k : int) : int = let d = chat t k in if d = 63 \/ d = 42 then next1 t k else k
  inductive suffix (t : seq int) (k j : int) (a r : re) =
    | suf_none : forall t k a. chat t k <> 43 -> chat t k <> 42 -> chat t k <> 63 -> suffix t k k a a
    | suf_plus : forall t k a. chat t k = 43 -> suffix t k (star_end t (next1 t k)) a (RPlus a)
    | suf_star : forall t k a. chat t k = 42 -> suffix t k (star_end t (next1 t k)) a (RStar a)
    | suf_opt : forall t k a. chat t k = 63 -> suffix t k (opt_end t (next1 t k)) a (ROpt a)
  inductive atom (t : seq int) (i j : int) (r : re) =
    | atom_esc : forall t i x. char1 t i = 92 -> escs (char1 t (next1 t i)) -> one x (char1 t (next1 t i)) -> atom t i (next1 t (next1 t i)) (RCls x)
    | atom_cls : forall t i j x. char1 t i = 91 -> written_class t (next1 t i) j x -> atom t i j (RCls x)
    | atom_dot : forall t i x. char1 t i = 46 -> anychar x -> atom t i (next1 t i) (RCls x)
    | atom_grp : forall t i j r. char1 t i = 40 -> whole t (next1 t i) j r -> atom t i j r
    | atom_chr : forall t i x. char1 t i <> 92 -> char1 t i <> 91 -> char1 t i <> 46 -> char1 t i <> 40 -> one x (char1 t i) -> atom t i (next1 t i) (RCls x)
  with unt (t : seq int) (i j : int) (r : re) =
    | unt_i : forall t i k j a r. atom t i k a -> suffix t k j a r -> unt t i j r
  with alts (t : seq int) (i j : int) (r : re) =
    | alts_one : forall t i j r. unt t i j r -> alts t i j r
    | alts_bar : forall t i k j a b. alts t i k a -> chat t k = 124 -> unt t (next1 t k) j b -> alts t i j (RAlt a b)
  with pat (t : seq int) (i j : int) (r : re) =
    | pat_none : forall t i. pat t i i REps
    | pat_more : forall t i k j a b. pat t i k a -> not (stop (char1 t k)) -> alts t k j b -> chat t j <> 124 -> pat t i j (RCat a b)
  with whole (t : seq int) (i j : int) (r : re) =
    | whole_i : forall t i k r. pat t i k r -> stop (char1 t k) -> whole t i (next1 t k) r
  predicate badre (t : seq int) (b : int) =
    (char1 t b = 92 /\ not (escs (char1 t (next1 t b)))) \/ (char1 t b = 91 /\ refused t (first t (next1 t b)))
  predicate refused_re (t : seq int) (i : int) = exists b. i <= b /\ badre t b
'''

RUN = r'''
  (* ---- runs of an automaton: E x is an empty move to x, C c x reads c *)
  type stp = E int | C int int
  type rn = list stp
  predicate run (n : nfa) (i : int) (r : rn) (j : int) = match r with
    | Nil -> i = j
    | Cons (E x) t -> tep (ntr n i) x /\ run n x t j
    | Cons (C c x) t -> tin (ntr n i) c x /\ run n x t j end
  function word (r : rn) : list int = match r with Nil -> Nil | Cons (E _) t -> word t | Cons (C c _) t -> Cons c (word t) end
  predicate acc (n : nfa) (w : list int) = exists r. run n 0 r (nn n - 1) /\ word r = w
  predicate from1 (n : nfa) (w : list int) = exists r. run n 1 r (nn n - 1) /\ word r = w
  predicate noin (n : nfa) (x : int) = forall i. 0 <= i < nn n -> not (tep (ntr n i) x) /\ forall c. not (tin (ntr n i) c x)
  (* state 0 only leads to state 1, by an empty move *)
  predicate head (n : nfa) = nn n >= 2 /\ noin n 0 /\ (forall x. tep (ntr n 0) x <-> x = 1) /\ forall c x. not (tin (ntr n 0) c x)
  predicate start0 (n : nfa) = nn n >= 2 /\ noin n 0 /\ tep (ntr n 0) 1
  predicate noback (n : nfa) = forall i. 1 <= i < nn n -> not (tep (ntr n i) 1) /\ forall c. not (tin (ntr n i) c 1)
  predicate tail (n : nfa) = (forall x. not (tep (ntr n (nn n - 1)) x)) /\ forall c x. not (tin (ntr n (nn n - 1)) c x)
  predicate sameedges (s t : trs) = (forall x. tep t x <-> tep s x) /\ forall c x. tin t c x <-> tin s c x
  let rec ghost run_app (n : nfa) (i : int) (r : rn) (k : int) (s : rn) (j : int) : unit
    requires { run n i r k /\ run n k s j } variant { r } ensures { run n i (r ++ s) j } ensures { word (r ++ s) = word r ++ word s }
  = match r with Nil -> () | Cons (E x) t -> run_app n x t k s j | Cons (C _ x) t -> run_app n x t k s j end
  let rec ghost run_in (n : nfa) (i : int) (r : rn) (j : int) : unit
    requires { nwf n /\ node n i /\ run n i r j } variant { r } ensures { node n j }
  = match r with Nil -> () | Cons (E x) t -> assert { dests (ntr n i) (nn n) }; run_in n x t j | Cons (C _ x) t -> assert { dests (ntr n i) (nn n) }; run_in n x t j end
  (* ---- concatenation: the last state of a takes over the moves of the first state of b *)
  predicate is_cat (a b c : nfa) =
    let d = nn a - 1 in
    nn c = nn a + nn b - 1 /\ nwf c /\
    (forall i. 0 <= i < d -> sameedges (ntr a i) (ntr c i)) /\
    (forall x. tep (ntr c d) x <-> tep (ntr a d) x \/ tep (ntr b 0) (x - d)) /\
    (forall e x. tin (ntr c d) e x <-> tin (ntr a d) e x \/ tin (ntr b 0) e (x - d)) /\
    (forall i x. d < i < d + nn b -> (tep (ntr c i) x <-> tep (ntr b (i - d)) (x - d))) /\
    (forall i e x. d < i < d + nn b -> (tin (ntr c i) e x <-> tin (ntr b (i - d)) e (x - d)))
  let rec ghost cat_l (a b c : nfa) (i : int) (r : rn) (j : int) : unit
    requires { nwf a /\ nwf b /\ is_cat a b c /\ node a i /\ run a i r j } variant { r } ensures { run c i r j }
  = match r with Nil -> () | Cons (E x) t -> assert { dests (ntr a i) (nn a) }; cat_l a b c x t j | Cons (C _ x) t -> assert { dests (ntr a i) (nn a) }; cat_l a b c x t j end
  let rec ghost cat_r (a b c : nfa) (i : int) (r : rn) (j : int) : rn
    requires { nwf a /\ nwf b /\ is_cat a b c /\ node b i /\ run b i r j } variant { r }
    ensures { run c (i + nn a - 1) result (j + nn a - 1) } ensures { word result = word r }
  = match r with Nil -> Nil
    | Cons (E x) t -> assert { dests (ntr b i) (nn b) }; let d = pure { nn a - 1 } in assert { x + d - d = x }; assert { tep (ntr c (i + d)) (x + d) }; let s = cat_r a b c x t j in assert { run c (x + d) s (j + d) }; Cons (E (x + d)) s
    | Cons (C e x) t -> assert { dests (ntr b i) (nn b) }; let d = pure { nn a - 1 } in assert { x + d - d = x }; assert { tin (ntr c (i + d)) e (x + d) }; let s = cat_r a b c x t j in assert { run c (x + d) s (j + d) }; Cons (C e (x + d)) s end
  let rec ghost uncat_r (a b c : nfa) (i : int) (r : rn) (j : int) : rn
    requires { nwf a /\ nwf b /\ noin b 0 /\ is_cat a b c /\ 1 <= i < nn b /\ run c (i + nn a - 1) r (j + nn a - 1) } variant { r }
    ensures { run b i result j } ensures { word result = word r }
  = let d = pure { nn a - 1 } in
    match r with Nil -> Nil
    | Cons (E x) t -> assert { tep (ntr b i) (x - d) }; assert { dests (ntr b i) (nn b) }; Cons (E (x - d)) (uncat_r a b c (x - d) t j)
    | Cons (C e x) t -> assert { tin (ntr b i) e (x - d) }; assert { dests (ntr b i) (nn b) }; Cons (C e (x - d)) (uncat_r a b c (x - d) t j) end
  let rec ghost uncat (a b c : nfa) (i : int) (r : rn) : (u : rn, v : rn)
    requires { nwf a /\ nwf b /\ nn b >= 2 /\ noin b 0 /\ is_cat a b c /\ node a i /\ run c i r (nn c - 1) } variant { r }
    ensures { run a i u (nn a - 1) } ensures { run b 0 v (nn b - 1) } ensures { word r = word u ++ word v }
  = let d = pure { nn a - 1 } in
    let lastb = pure { nn b - 1 } in
    assert { dests (ntr a i) (nn a) }; assert { dests (ntr b 0) (nn b) };
    match r with Nil -> absurd
    | Cons (E x) t ->
      if pure { tep (ntr a i) x } then begin let (u, v) = uncat a b c x t in (Cons (E x) u, v) end
      else begin assert { i = d /\ tep (ntr b 0) (x - d) /\ 1 <= x - d }; let v = uncat_r a b c (x - d) t lastb in (Nil, Cons (E (x - d)) v) end
    | Cons (C e x) t ->
      if pure { tin (ntr a i) e x } then begin let (u, v) = uncat a b c x t in (Cons (C e x) u, v) end
      else begin assert { i = d /\ tin (ntr b 0) e (x - d) /\ 1 <= x - d }; let v = uncat_r a b c (x - d) t lastb in (Nil, Cons (C e (x - d)) v) end end
  let ghost cat_lang (a b c : nfa) : unit
    requires { nwf a /\ nwf b /\ nn b >= 2 /\ noin b 0 /\ is_cat a b c } ensures { forall w. acc c w <-> wcat (acc a) (acc b) w }
  = let lemma one_way (w : list int) : unit requires { acc c w } ensures { wcat (acc a) (acc b) w }
    = let r = any rn ensures { run c 0 result (nn c - 1) /\ word result = w } in let (u, v) = uncat a b c 0 r in
      assert { acc a (word u) }; assert { acc b (word v) } in
    let lemma other (w : list int) : unit requires { wcat (acc a) (acc b) w } ensures { acc c w }
    = let wu, wv = any (list int, list int) ensures { let (u, v) = result in w = u ++ v /\ acc a u /\ acc b v } in
      let u = any rn ensures { run a 0 result (nn a - 1) /\ word result = wu } in
      let v = any rn ensures { run b 0 result (nn b - 1) /\ word result = wv } in
      let d = pure { nn a - 1 } in
      cat_l a b c 0 u d; let v2 = cat_r a b c 0 v (pure { nn b - 1 }) in run_app c 0 u d v2 (pure { nn c - 1 }) in ()
  (* ---- alternatives *)
  predicate is_sel (a b c : nfa) =
    let d = nn a - 1 in let j = nn a + nn b - 1 in
    nn c = j + 1 /\ nwf c /\ tail c /\
    (forall x. tep (ntr c 0) x <-> tep (ntr a 0) x \/ tep (ntr b 0) (x - d) \/ x = d + 1) /\
    (forall e x. tin (ntr c 0) e x <-> tin (ntr a 0) e x \/ tin (ntr b 0) e (x - d)) /\
    (forall i x. 1 <= i <= d -> (tep (ntr c i) x <-> tep (ntr a i) x \/ (i = d /\ x = j))) /\
    (forall i e x. 1 <= i <= d -> (tin (ntr c i) e x <-> tin (ntr a i) e x)) /\
    (forall i x. d < i < d + nn b -> (tep (ntr c i) x <-> tep (ntr b (i - d)) (x - d) \/ (i = j - 1 /\ x = j))) /\
    (forall i e x. d < i < d + nn b -> (tin (ntr c i) e x <-> tin (ntr b (i - d)) e (x - d)))
  let rec ghost sel_l (a b c : nfa) (i : int) (r : rn) (j : int) : unit
    requires { nwf a /\ nwf b /\ nn a >= 2 /\ is_sel a b c /\ node a i /\ run a i r j } variant { r } ensures { run c i r j }
  = match r with Nil -> () | Cons (E x) t -> assert { dests (ntr a i) (nn a) }; sel_l a b c x t j | Cons (C _ x) t -> assert { dests (ntr a i) (nn a) }; sel_l a b c x t j end
  let rec ghost sel_r (a b c : nfa) (i : int) (r : rn) (j : int) : rn
    requires { nwf a /\ nwf b /\ noin b 0 /\ is_sel a b c /\ 1 <= i < nn b /\ run b i r j } variant { r }
    ensures { run c (i + nn a - 1) result (j + nn a - 1) } ensures { word result = word r }
  = match r with Nil -> Nil
    | Cons (E x) t -> assert { dests (ntr b i) (nn b) }; let d = pure { nn a - 1 } in assert { tep (ntr c (i + d)) (x + d) }; Cons (E (x + d)) (sel_r a b c x t j)
    | Cons (C e x) t -> assert { dests (ntr b i) (nn b) }; let d = pure { nn a - 1 } in assert { tin (ntr c (i + d)) e (x + d) }; Cons (C e (x + d)) (sel_r a b c x t j) end
  let rec ghost unsel_l (a b c : nfa) (i : int) (r : rn) : rn
    requires { nwf a /\ nwf b /\ nn a >= 2 /\ nn b >= 2 /\ noin a 0 /\ is_sel a b c /\ 1 <= i < nn a /\ run c i r (nn c - 1) } variant { r }
    ensures { run a i result (nn a - 1) } ensures { word result = word r }
  = assert { dests (ntr a i) (nn a) };
    match r with Nil -> absurd
    | Cons (E x) t -> if pure { tep (ntr a i) x } then Cons (E x) (unsel_l a b c x t) else begin assert { i = nn a - 1 /\ x = nn c - 1 }; assert { t = Nil }; Nil end
    | Cons (C e x) t -> Cons (C e x) (unsel_l a b c x t) end
  let rec ghost unsel_r (a b c : nfa) (i : int) (r : rn) : rn
    requires { nwf a /\ nwf b /\ nn a >= 2 /\ nn b >= 2 /\ noin b 0 /\ is_sel a b c /\ 1 <= i < nn b /\ run c (i + nn a - 1) r (nn c - 1) } variant { r }
    ensures { run b i result (nn b - 1) } ensures { word result = word r }
  = let d = pure { nn a - 1 } in
    assert { dests (ntr b i) (nn b) };
    match r with Nil -> absurd
    | Cons (E x) t -> if pure { tep (ntr b i) (x - d) } then Cons (E (x - d)) (unsel_r a b c (x - d) t) else begin assert { i = nn b - 1 /\ x = nn c - 1 }; assert { t = Nil }; Nil end
    | Cons (C e x) t -> Cons (C e (x - d)) (unsel_r a b c (x - d) t) end
  let ghost sel_lang (a b c : nfa) : unit
    requires { nwf a /\ nwf b /\ nn a >= 2 /\ noin a 0 /\ start0 b /\ is_sel a b c } ensures { forall w. acc c w <-> acc a w \/ acc b w }
  = let d = pure { nn a - 1 } in
    assert { dests (ntr a 0) (nn a) }; assert { dests (ntr b 0) (nn b) };
    let lemma one_way (w : list int) : unit requires { acc c w } ensures { acc a w \/ acc b w }
    = let r = any rn ensures { run c 0 result (nn c - 1) /\ word result = w } in
      match r with Nil -> absurd
      | Cons (E x) t -> if pure { tep (ntr a 0) x } then begin let u = unsel_l a b c x t in assert { run a 0 (Cons (E x) u) (nn a - 1) } end
          else begin assert { tep (ntr b 0) (x - d) }; let u = unsel_r a b c (x - d) t in assert { run b 0 (Cons (E (x - d)) u) (nn b - 1) } end
      | Cons (C e x) t -> if pure { tin (ntr a 0) e x } then begin let u = unsel_l a b c x t in assert { run a 0 (Cons (C e x) u) (nn a - 1) } end
          else begin assert { tin (ntr b 0) e (x - d) }; let u = unsel_r a b c (x - d) t in assert { run b 0 (Cons (C e (x - d)) u) (nn b - 1) } end end in
    let lemma left (w : list int) : unit requires { acc a w } ensures { acc c w }
    = let r = any rn ensures { run a 0 result (nn a - 1) /\ word result = w } in
      let j = pure { nn c - 1 } in
      sel_l a b c 0 r d; assert { tep (ntr c d) j }; assert { run c d (Cons (E j) Nil) j }; run_app c 0 r d (Cons (E j) Nil) j in
    let lemma right (w : list int) : unit requires { acc b w } ensures { acc c w }
    = let r = any rn ensures { run b 0 result (nn b - 1) /\ word result = w } in
      let j = pure { nn c - 1 } in let l = pure { nn b - 1 } in
      let s = match r with Nil -> absurd
        | Cons (E x) t -> let u = sel_r a b c x t l in assert { tep (ntr c 0) (x + d) }; Cons (E (x + d)) u
        | Cons (C e x) t -> let u = sel_r a b c x t l in assert { tin (ntr c 0) e (x + d) }; Cons (C e (x + d)) u end in
      assert { run c 0 s (l + d) /\ word s = w };
      assert { tep (ntr c (l + d)) j }; assert { run c (l + d) (Cons (E j) Nil) j }; run_app c 0 s (l + d) (Cons (E j) Nil) j in ()
  (* ---- repetition *)
  let ghost head_lang (n : nfa) : unit requires { nwf n /\ head n } ensures { forall w. acc n w <-> from1 n w }
  = let lemma one_way (w : list int) : unit requires { acc n w } ensures { from1 n w }
    = let r = any rn ensures { run n 0 result (nn n - 1) /\ word result = w } in match r with Nil -> absurd | Cons (E x) t -> assert { x = 1 /\ run n 1 t (nn n - 1) } | Cons (C _ _) _ -> absurd end in
    let lemma other (w : list int) : unit requires { from1 n w } ensures { acc n w }
    = let r = any rn ensures { run n 1 result (nn n - 1) /\ word result = w } in assert { run n 0 (Cons (E 1) r) (nn n - 1) } in ()
  predicate is_plus (n c : nfa) =
    nn c = nn n /\ nwf c /\ (forall i. 0 <= i < nn n - 1 -> sameedges (ntr n i) (ntr c i)) /\
    (forall x. tep (ntr c (nn n - 1)) x <-> tep (ntr n (nn n - 1)) x \/ x = 1) /\ (forall e x. tin (ntr c (nn n - 1)) e x <-> tin (ntr n (nn n - 1)) e x)
  let rec ghost unplus (n c : nfa) (i : int) (r : rn) : (u : rn, ghost ws : words)
    requires { nwf n /\ nn n >= 2 /\ noin n 0 /\ is_plus n c /\ 1 <= i < nn n /\ run c i r (nn n - 1) } variant { r }
    ensures { run n i u (nn n - 1) } ensures { word r = word u ++ flat ws } ensures { wall (from1 n) ws }
  = assert { dests (ntr n i) (nn n) };
    match r with Nil -> (Nil, Nil)
    | Cons (E x) t -> let (u, ws) = (if pure { tep (ntr n i) x } then unplus n c x t else unplus n c 1 t) in
      if pure { tep (ntr n i) x } then (Cons (E x) u, ws) else begin assert { i = nn n - 1 }; assert { from1 n (word u) }; (Nil, Cons (word u) ws) end
    | Cons (C e x) t -> let (u, ws) = unplus n c x t in (Cons (C e x) u, ws) end
  let rec ghost plus_l (n c : nfa) (i : int) (r : rn) (j : int) : unit
    requires { nwf n /\ is_plus n c /\ node n i /\ run n i r j } variant { r } ensures { run c i r j }
  = assert { dests (ntr n i) (nn n) }; match r with Nil -> () | Cons (E x) t -> plus_l n c x t j | Cons (C _ x) t -> plus_l n c x t j end
  let rec ghost plus_ws (n c : nfa) (ws : words) : rn
    requires { nwf n /\ nn n >= 2 /\ is_plus n c /\ wall (from1 n) ws } variant { ws } ensures { run c (nn n - 1) result (nn n - 1) /\ word result = flat ws }
  = let m = pure { nn n - 1 } in
    match ws with Nil -> Nil
    | Cons w t -> let r = any rn ensures { run n 1 result m /\ word result = w } in plus_l n c 1 r m; let s = plus_ws n c t in run_app c 1 r m s m; Cons (E 1) (r ++ s) end
  let rec ghost wall_eq (l m : list int -> bool) (ws : words) : unit
    requires { forall w. l w <-> m w } variant { ws } ensures { wall l ws <-> wall m ws }
  = match ws with Nil -> () | Cons _ t -> wall_eq l m t end
  let ghost wrep_eq (l m : list int -> bool) : unit
    requires { forall w. l w <-> m w } ensures { forall w. wrep l w <-> wrep m w }
  = let lemma a (ws : words) : unit ensures { wall l ws <-> wall m ws } = wall_eq l m ws in ()
  let ghost wcat_eq (l m l2 m2 : list int -> bool) : unit
    requires { forall w. l w <-> l2 w } requires { forall w. m w <-> m2 w } ensures { forall w. wcat l m w <-> wcat l2 m2 w }
  = ()
  let ghost plus_lang (n c : nfa) : unit
    requires { nwf n /\ head n /\ nn n >= 3 /\ is_plus n c } ensures { head c } ensures { forall w. acc c w <-> wcat (acc n) (wrep (acc n)) w }
  = let m = pure { nn n - 1 } in
    assert { head c };
    head_lang n; head_lang c; wrep_eq (from1 n) (acc n); wcat_eq (from1 n) (wrep (from1 n)) (acc n) (wrep (acc n));
    let lemma one_way (w : list int) : unit requires { from1 c w } ensures { wcat (from1 n) (wrep (from1 n)) w }
    = let r = any rn ensures { run c 1 result m /\ word result = w } in let (u, ws) = unplus n c 1 r in assert { from1 n (word u) }; assert { wrep (from1 n) (flat ws) } in
    let lemma other (w : list int) : unit requires { wcat (from1 n) (wrep (from1 n)) w } ensures { from1 c w }
    = let wu, wv = any (list int, list int) ensures { let (u, v) = result in w = u ++ v /\ from1 n u /\ wrep (from1 n) v } in
      let u = any rn ensures { run n 1 result m /\ word result = wu } in
      let ws = any words ensures { flat result = wv /\ wall (from1 n) result } in
      plus_l n c 1 u m; let s = plus_ws n c ws in run_app c 1 u m s m in ()
  (* a new last state e, reached from the old last state and from state 1; bk: also repeated from the old last state *)
  predicate is_loop (n c : nfa) (bk : bool) =
    let m = nn n - 1 in
    nn c = nn n + 1 /\ nwf c /\ tail c /\
    (forall i. 0 <= i <= m -> forall x. tep (ntr c i) x <-> tep (ntr n i) x \/ (x = m + 1 /\ (i = m \/ i = 1)) \/ (x = 1 /\ i = m /\ bk)) /\
    (forall i. 0 <= i <= m -> forall e x. tin (ntr c i) e x <-> tin (ntr n i) e x)
  predicate few (bk : bool) (ws : words) = bk \/ ws = Nil \/ exists w. ws = Cons w Nil
  let rec ghost unloop (n c : nfa) (bk : bool) (i : int) (r : rn) : (ghost u : rn, ghost ws : words)
    requires { nwf n /\ nn n >= 3 /\ noin n 0 /\ noback n /\ is_loop n c bk /\ 1 <= i < nn n /\ run c i r (nn n) } variant { r }
    ensures { i >= 2 -> run n i u (nn n - 1) /\ word r = word u ++ flat ws /\ (not bk -> ws = Nil) }
    ensures { i = 1 -> word r = flat ws /\ few bk ws } ensures { wall (from1 n) ws }
  = assert { dests (ntr n i) (nn n) }; let m = pure { nn n - 1 } in
    match r with Nil -> absurd
    | Cons (E x) t ->
      if pure { tep (ntr n i) x } then begin assert { x >= 2 }; let (u, ws) = unloop n c bk x t in
        if i = 1 then begin let u1 = Cons (E x) u in assert { run n 1 u1 m }; assert { word u1 = word u }; assert { from1 n (word u) }; (Nil, Cons (word u) ws) end else (Cons (E x) u, ws) end
      else if x = m + 1 then begin assert { t = Nil }; (Nil, Nil) end
      else begin assert { x = 1 /\ i = m /\ bk }; let (_, ws) = unloop n c bk 1 t in (Nil, ws) end
    | Cons (C e x) t -> assert { x >= 2 }; let (u, ws) = unloop n c bk x t in
        if i = 1 then begin let u1 = Cons (C e x) u in assert { run n 1 u1 m }; assert { word u1 = Cons e (word u) }; assert { from1 n (Cons e (word u)) }; (Nil, Cons (Cons e (word u)) ws) end else (Cons (C e x) u, ws) end
  let rec ghost loop_l (n c : nfa) (bk : bool) (i : int) (r : rn) (j : int) : unit
    requires { nwf n /\ is_loop n c bk /\ node n i /\ run n i r j } variant { r } ensures { run c i r j }
  = assert { dests (ntr n i) (nn n) }; match r with Nil -> () | Cons (E x) t -> loop_l n c bk x t j | Cons (C _ x) t -> loop_l n c bk x t j end
  let rec ghost loop_ws (n c : nfa) (bk : bool) (ws : words) : rn
    requires { nwf n /\ nn n >= 3 /\ is_loop n c bk /\ wall (from1 n) ws /\ few bk ws } variant { ws } ensures { run c 1 result (nn n) /\ word result = flat ws }
  = let m = pure { nn n - 1 } in
    match ws with Nil -> assert { tep (ntr c 1) (m + 1) }; Cons (E (m + 1)) Nil
    | Cons w t -> let r = any rn ensures { run n 1 result m /\ word result = w } in loop_l n c bk 1 r m;
      if bk then begin let s = loop_ws n c bk t in assert { tep (ntr c m) 1 }; assert { run c m (Cons (E 1) s) (nn n) }; run_app c 1 r m (Cons (E 1) s) (pure { nn n }); r ++ Cons (E 1) s end
      else begin assert { t = Nil }; assert { tep (ntr c m) (m + 1) }; assert { run c m (Cons (E (m + 1)) Nil) (nn n) }; run_app c 1 r m (Cons (E (m + 1)) Nil) (pure { nn n }); r ++ Cons (E (m + 1)) Nil end end
  let ghost loop_lang (n c : nfa) (bk : bool) : unit
    requires { nwf n /\ head n /\ noback n /\ nn n >= 3 /\ is_loop n c bk } ensures { head c }
    ensures { bk -> forall w. acc c w <-> wrep (acc n) w } ensures { not bk -> forall w. acc c w <-> w = Nil \/ acc n w }
  = let m = pure { nn n - 1 } in
    assert { head c };
    head_lang n; head_lang c; wrep_eq (from1 n) (acc n);
    let lemma one_way (w : list int) : unit requires { from1 c w } ensures { exists ws. few bk ws /\ flat ws = w /\ wall (from1 n) ws }
    = let r = any rn ensures { run c 1 result (m + 1) /\ word result = w } in let (_, ws) = unloop n c bk 1 r in assert { few bk ws /\ flat ws = w } in
    let lemma other (ws : words) : unit requires { few bk ws /\ wall (from1 n) ws } ensures { from1 c (flat ws) }
    = let s = loop_ws n c bk ws in assert { run c 1 s (nn c - 1) } in
    if not bk then begin
      assert { from1 c (flat Nil) };
      assert { forall w. from1 n w -> let ws = Cons w Nil in few bk ws && wall (from1 n) ws && flat ws = w && from1 c w };
      assert { forall w. from1 c w -> w = Nil \/ from1 n w } end
'''


SHAPE = r'''
  predicate fresh (n : nfa) = nwf n /\ nn n = 2 /\ head n /\ tail n
  (* one more edge, from i *)
  predicate added (a b : nfa) (i : int) (cc : cclass) (dest : int) =
    nn b = nn a /\ nwf b /\ (forall k. 0 <= k < nn a -> k <> i -> ntr b k = ntr a k) /\
    (forall x. tep (ntr b i) x <-> tep (ntr a i) x \/ (x = dest /\ cempty cc)) /\
    (forall c x. tin (ntr b i) c x <-> tin (ntr a i) c x \/ (x = dest /\ cin cc c))
  predicate noedge (s : trs) = (forall x. not (tep s x)) /\ forall c x. not (tin s c x)
  predicate grown (a b : nfa) (cc : cclass) =
    let d = nn a - 1 in
    nn b = nn a + 1 /\ nwf b /\ (forall k. 0 <= k < d -> ntr b k = ntr a k) /\ noedge (ntr b (d + 1)) /\
    (forall x. tep (ntr b d) x <-> tep (ntr a d) x \/ (x = d + 1 /\ cempty cc)) /\
    (forall c x. tin (ntr b d) c x <-> tin (ntr a d) c x \/ (x = d + 1 /\ cin cc c))
  predicate shifted (s t : trs) (n0 d : int) =
    length t = n0 + length s /\ forall k. n0 <= k < length t -> t[k].ntrans__m_dest = s[k - n0].ntrans__m_dest + d /\ t[k].ntrans__m_label = s[k - n0].ntrans__m_label
  let ghost shift_edges (o s t : trs) (d : int) : unit
    requires { shifted s t (length o) d } requires { forall k. 0 <= k < length o -> t[k] = o[k] }
    ensures { forall x. tep t x <-> tep o x \/ tep s (x - d) } ensures { forall c x. tin t c x <-> tin o c x \/ tin s c (x - d) }
    ensures { lwf o -> lwf s -> lwf t } ensures { forall n. dests o n -> dests s (n - d) -> d >= 0 -> dests t n }
  = let n0 = pure { length o } in
    assert { forall k. 0 <= k < length s -> t[k + n0].ntrans__m_dest = s[k].ntrans__m_dest + d /\ t[k + n0].ntrans__m_label = s[k].ntrans__m_label };
    assert { forall x. tep o x -> tep t x }; assert { forall x. tep s (x - d) -> tep t x };
    assert { forall c x. tin o c x -> tin t c x }; assert { forall c x. tin s c (x - d) -> tin t c x }
  let ghost fresh_lang (n : nfa) : unit requires { fresh n } ensures { forall w. acc n w <-> w = Nil }
  = assert { run n 0 (Cons (E 1) Nil) 1 }; assert { word (Cons (E 1) Nil) = Nil };
    let lemma one_way (w : list int) : unit requires { acc n w } ensures { w = Nil }
    = let r = any rn ensures { run n 0 result (nn n - 1) /\ word result = w } in
      match r with Nil -> absurd | Cons (E x) t -> assert { x = 1 }; match t with Nil -> () | Cons (E _) _ -> absurd | Cons (C _ _) _ -> absurd end | Cons (C _ _) _ -> absurd end in ()
  let ghost single_lang (n c : nfa) (cc : cclass) : unit
    requires { fresh n /\ grown n c cc } ensures { head c } ensures { noback c } ensures { forall w. acc c w <-> wcls cc w }
  = assert { forall i. 0 <= i < 2 -> dests (ntr n i) 2 };
    assert { forall x. not (tep (ntr n 1) x) }; assert { forall e x. not (tin (ntr n 1) e x) };
    assert { noedge (ntr c 2) };
    assert { forall i x. 0 <= i < 3 -> tep (ntr c i) x -> (i = 0 /\ x = 1) \/ (i = 1 /\ x = 2 /\ cempty cc) };
    assert { forall i e x. 0 <= i < 3 -> tin (ntr c i) e x -> i = 1 /\ x = 2 /\ cin cc e };
    assert { head c }; head_lang c;
    let lemma one_way (w : list int) : unit requires { from1 c w } ensures { wcls cc w }
    = let r = any rn ensures { run c 1 result (nn c - 1) /\ word result = w } in
      match r with Nil -> absurd | Cons (E x) t -> assert { x = 2 /\ cempty cc }; match t with Nil -> () | Cons (E _) _ -> absurd | Cons (C _ _) _ -> absurd end
      | Cons (C e x) t -> assert { x = 2 /\ cin cc e /\ not (cempty cc) }; match t with Nil -> () | Cons (E _) _ -> absurd | Cons (C _ _) _ -> absurd end end in
    if pure { cempty cc } then assert { run c 1 (Cons (E 2) Nil) 2 /\ word (Cons (E 2) Nil) = Nil }
    else assert { forall e. cin cc e -> run c 1 (Cons (C e 2) Nil) 2 /\ word (Cons (C e 2) Nil) = Cons e Nil }
  let ghost group_lang (a b c : nfa) : unit
    requires { fresh a /\ nwf b /\ nn b >= 2 /\ noin b 0 /\ is_cat a b c } ensures { head c } ensures { noback c } ensures { nn c >= 3 } ensures { forall w. acc c w <-> acc b w }
  = fresh_lang a; cat_lang a b c;
    assert { forall i. 0 <= i < 2 -> dests (ntr a i) 2 }; assert { forall i. 0 <= i < nn b -> dests (ntr b i) (nn b) };
    assert { noedge (ntr a 1) };
    assert { forall i x. 1 <= i < nn c -> tep (ntr c i) x -> tep (ntr b (i - 1)) (x - 1) && 0 <= x - 1 };
    assert { forall i e x. 1 <= i < nn c -> tin (ntr c i) e x -> tin (ntr b (i - 1)) e (x - 1) && 0 <= x - 1 };
    assert { forall w. wcat (acc a) (acc b) w -> acc b w }; assert { forall w. acc b w -> Nil ++ w = w && wcat (acc a) (acc b) w };
    assert { noback c }; assert { noin c 0 }
  let ghost plus_shape (n c : nfa) (cc : cclass) : unit
    requires { nwf n /\ nn n >= 3 /\ cempty cc /\ added n c (nn n - 1) cc 1 } ensures { is_plus n c } = ()
  let ghost loop_shape (n a b c : nfa) (cc : cclass) (bk : bool) : unit
    requires { nwf n /\ nn n >= 3 /\ cempty cc } requires { if bk then added n a (nn n - 1) cc 1 else a = n }
    requires { grown a b cc } requires { added b c 1 cc (nn b - 1) } ensures { is_loop n c bk }
  = let m = pure { nn n - 1 } in
    assert { noedge (ntr c (m + 1)) };
    assert { forall i x. 0 <= i <= m -> tep (ntr a i) x <-> tep (ntr n i) x \/ (x = 1 /\ i = m /\ bk) };
    assert { forall i e x. 0 <= i <= m -> tin (ntr a i) e x <-> tin (ntr n i) e x };
    assert { forall i x. 0 <= i <= m -> tep (ntr b i) x <-> tep (ntr a i) x \/ (x = m + 1 /\ i = m) };
    assert { forall i e x. 0 <= i <= m -> tin (ntr b i) e x <-> tin (ntr a i) e x };
    assert { forall i x. 0 <= i <= m -> tep (ntr c i) x <-> tep (ntr b i) x \/ (x = m + 1 /\ i = 1) };
    assert { forall i e x. 0 <= i <= m -> tin (ntr c i) e x <-> tin (ntr b i) e x }
  let ghost wcat_assoc (k l m : list int -> bool) : unit ensures { forall w. wcat (wcat k l) m w <-> wcat k (wcat l m) w }
  = let lemma a (w : list int) : unit requires { wcat (wcat k l) m w } ensures { wcat k (wcat l m) w }
    = let uv, z = any (list int, list int) ensures { let (a, b) = result in w = a ++ b /\ wcat k l a /\ m b } in
      let u, v = any (list int, list int) ensures { let (a, b) = result in uv = a ++ b /\ k a /\ l b } in
      assert { wcat l m (v ++ z) }; assert { w = u ++ (v ++ z) } in
    let lemma b (w : list int) : unit requires { wcat k (wcat l m) w } ensures { wcat (wcat k l) m w }
    = let u, vz = any (list int, list int) ensures { let (a, b) = result in w = a ++ b /\ k a /\ wcat l m b } in
      let v, z = any (list int, list int) ensures { let (a, b) = result in vz = a ++ b /\ l a /\ m b } in
      assert { wcat k l (u ++ v) }; assert { w = (u ++ v) ++ z } in ()
  (* the automaton accepts what is written from i to j *)
  predicate as_atom (t : seq int) (i j : int) (n : nfa) = exists r. atom t i j r /\ forall w. acc n w <-> lang r w
  predicate as_unt (t : seq int) (i j : int) (n : nfa) = exists r. unt t i j r /\ forall w. acc n w <-> lang r w
  predicate as_alts (t : seq int) (i j : int) (n : nfa) = exists r. alts t i j r /\ forall w. acc n w <-> lang r w
  predicate after_pat (t : seq int) (i j : int) (o n : nfa) = exists r. pat t i j r /\ forall w. acc n w <-> wcat (acc o) (lang r) w
  predicate after_whole (t : seq int) (i j : int) (o n : nfa) = exists r. whole t i j r /\ forall w. acc n w <-> wcat (acc o) (lang r) w
  predicate as_whole (t : seq int) (i j : int) (n : nfa) = exists r. whole t i j r /\ forall w. acc n w <-> lang r w
  let ghost lang_ext (k l k2 l2 : list int -> bool) : unit requires { forall w. k w <-> k2 w } requires { forall w. l w <-> l2 w }
    ensures { forall w. wcat k l w <-> wcat k2 l2 w } ensures { forall w. wrep k w <-> wrep k2 w } ensures { forall w. wcat k (wrep k) w <-> wcat k2 (wrep k2) w }
  = wrep_eq k k2; wcat_eq k l k2 l2; wcat_eq k (wrep k) k2 (wrep k2)
  let ghost lang_plus (a : re) : unit ensures { forall w. lang (RPlus a) w <-> wcat (lang a) (wrep (lang a)) w } = ()
  let ghost lang_star (a : re) : unit ensures { forall w. lang (RStar a) w <-> wrep (lang a) w } = ()
  let ghost lang_opt (a : re) : unit ensures { forall w. lang (ROpt a) w <-> w = Nil \/ lang a w } = ()
  let ghost lang_eps () : unit ensures { forall w. lang REps w <-> w = Nil } = ()
  let rec ghost app_nil (w : list int) : unit variant { w } ensures { w ++ Nil = w } = match w with Nil -> () | Cons _ t -> app_nil t end
  let ghost as_plus (t : seq int) (i k : int) (n c : nfa) : unit
    requires { as_atom t i k n /\ chat t k = 43 } requires { forall w. acc c w <-> wcat (acc n) (wrep (acc n)) w }
    ensures { as_unt t i (star_end t (next1 t k)) c }
  = let r = any re ensures { atom t i k result /\ forall w. acc n w <-> lang result w } in lang_ext (acc n) (acc n) (lang r) (lang r);
    assert { suffix t k (star_end t (next1 t k)) r (RPlus r) }; assert { unt t i (star_end t (next1 t k)) (RPlus r) }; lang_plus r; assert { forall w. acc c w <-> lang (RPlus r) w }
  let ghost as_star (t : seq int) (i k : int) (n c : nfa) : unit
    requires { as_atom t i k n /\ chat t k = 42 } requires { forall w. acc c w <-> wrep (acc n) w }
    ensures { as_unt t i (star_end t (next1 t k)) c }
  = let r = any re ensures { atom t i k result /\ forall w. acc n w <-> lang result w } in lang_ext (acc n) (acc n) (lang r) (lang r);
    assert { suffix t k (star_end t (next1 t k)) r (RStar r) }; assert { unt t i (star_end t (next1 t k)) (RStar r) }; lang_star r; assert { forall w. acc c w <-> lang (RStar r) w }
  let ghost as_opt (t : seq int) (i k : int) (n c : nfa) : unit
    requires { as_atom t i k n /\ chat t k = 63 } requires { forall w. acc c w <-> w = Nil \/ acc n w }
    ensures { as_unt t i (opt_end t (next1 t k)) c }
  = let r = any re ensures { atom t i k result /\ forall w. acc n w <-> lang result w } in
    assert { suffix t k (opt_end t (next1 t k)) r (ROpt r) }; assert { unt t i (opt_end t (next1 t k)) (ROpt r) }; lang_opt r; assert { forall w. acc c w <-> lang (ROpt r) w }
  let ghost as_none (t : seq int) (i k : int) (n : nfa) : unit
    requires { as_atom t i k n /\ chat t k <> 43 /\ chat t k <> 42 /\ chat t k <> 63 } ensures { as_unt t i k n }
  = let r = any re ensures { atom t i k result /\ forall w. acc n w <-> lang result w } in assert { suffix t k k r r }; assert { unt t i k r }
  let ghost as_bar (t : seq int) (i k j : int) (a b c : nfa) : unit
    requires { as_alts t i k a /\ chat t k = 124 /\ as_unt t (next1 t k) j b } requires { forall w. acc c w <-> acc a w \/ acc b w } ensures { as_alts t i j c }
  = let r = any re ensures { alts t i k result /\ forall w. acc a w <-> lang result w } in let s = any re ensures { unt t (next1 t k) j result /\ forall w. acc b w <-> lang result w } in
    assert { alts t i j (RAlt r s) }; assert { forall w. acc c w <-> lang (RAlt r s) w }
  let ghost as_more (t : seq int) (i k j : int) (o a b c : nfa) : unit
    requires { after_pat t i k o a /\ not (stop (char1 t k)) /\ as_alts t k j b /\ chat t j <> 124 } requires { forall w. acc c w <-> wcat (acc a) (acc b) w } ensures { after_pat t i j o c }
  = let r = any re ensures { pat t i k result /\ forall w. acc a w <-> wcat (acc o) (lang result) w } in
    let s = any re ensures { alts t k j result /\ forall w. acc b w <-> lang result w } in
    lang_ext (acc a) (acc b) (wcat (acc o) (lang r)) (lang s); wcat_assoc (acc o) (lang r) (lang s);
    lang_ext (acc o) (wcat (lang r) (lang s)) (acc o) (lang (RCat r s));
    assert { pat t i j (RCat r s) }; assert { forall w. acc c w <-> wcat (acc o) (lang (RCat r s)) w }
  let ghost as_start (t : seq int) (i : int) (o : nfa) : unit ensures { after_pat t i i o o }
  = assert { pat t i i REps }; lang_eps ();
    let lemma a (w : list int) : unit requires { acc o w } ensures { wcat (acc o) (lang REps) w } = app_nil w; assert { w = w ++ Nil /\ lang REps Nil } in
    let lemma b (w : list int) : unit requires { wcat (acc o) (lang REps) w } ensures { acc o w }
    = let u, v = any (list int, list int) ensures { let (u, v) = result in w = u ++ v /\ acc o u /\ lang REps v } in assert { v = Nil }; app_nil u in ()
  let ghost as_end (t : seq int) (i k : int) (o n : nfa) : unit
    requires { after_pat t i k o n /\ stop (char1 t k) } ensures { after_whole t i (next1 t k) o n }
  = let r = any re ensures { pat t i k result /\ forall w. acc n w <-> wcat (acc o) (lang result) w } in assert { whole t i (next1 t k) r }
  let ghost as_group (t : seq int) (i j : int) (o n : nfa) : unit
    requires { after_whole t i j o n /\ fresh o } ensures { as_whole t i j n }
  = let r = any re ensures { whole t i j result /\ forall w. acc n w <-> wcat (acc o) (lang result) w } in
    fresh_lang o;
    let lemma a (w : list int) : unit requires { lang r w } ensures { wcat (acc o) (lang r) w } = assert { w = Nil ++ w /\ acc o Nil } in
    let lemma b (w : list int) : unit requires { wcat (acc o) (lang r) w } ensures { lang r w }
    = let u, v = any (list int, list int) ensures { let (u, v) = result in w = u ++ v /\ acc o u /\ lang r v } in assert { u = Nil } in ()
  let ghost cat_shape (a b c : nfa) : unit
    requires { nwf a /\ nwf b /\ nn a >= 2 /\ nn b >= 2 /\ noin b 0 /\ is_cat a b c } ensures { head a -> head c } ensures { start0 a -> start0 c }
  = assert { forall i. 0 <= i < nn a -> dests (ntr a i) (nn a) }; assert { forall i. 0 <= i < nn b -> dests (ntr b i) (nn b) };
    if pure { noin a 0 } then assert { noin c 0 }
  let ghost sel_shape (a b c : nfa) : unit
    requires { nwf a /\ nwf b /\ start0 a /\ start0 b /\ is_sel a b c } ensures { start0 c }
  = assert { forall i. 0 <= i < nn a -> dests (ntr a i) (nn a) }; assert { forall i. 0 <= i < nn b -> dests (ntr b i) (nn b) };
    let d = pure { nn a - 1 } in
    let lemma k (i : int) : unit requires { 0 <= i < nn c } ensures { not (tep (ntr c i) 0) } ensures { forall e. not (tin (ntr c i) e 0) }
    = if i = 0 then assert { not (tep (ntr c 0) 0) /\ forall e. not (tin (ntr c 0) e 0) }
      else if i <= d then assert { not (tep (ntr c i) 0) /\ forall e. not (tin (ntr c i) e 0) }
      else if i < d + nn b then begin let i2 = i - d in let m = 0 - d in assert { dests (ntr b i2) (nn b) }; assert { not (tep (ntr b i2) m) /\ forall e. not (tin (ntr b i2) e m) }; assert { not (tep (ntr c i) 0) }; assert { forall e. not (tin (ntr c i) e 0) } end
      else assert { i = nn c - 1 } in
    assert { noin c 0 }
  (* during select: before the join state is added *)
  predicate mid (a b g : nfa) =
    let d = nn a - 1 in
    nn g = nn a + nn b - 1 /\ nwf g /\
    (forall x. tep (ntr g 0) x <-> tep (ntr a 0) x \/ tep (ntr b 0) (x - d) \/ x = d + 1) /\
    (forall e x. tin (ntr g 0) e x <-> tin (ntr a 0) e x \/ tin (ntr b 0) e (x - d)) /\
    (forall i. 1 <= i <= d -> ntr g i = ntr a i) /\
    (forall i x. d < i < d + nn b -> (tep (ntr g i) x <-> tep (ntr b (i - d)) (x - d))) /\
    (forall i e x. d < i < d + nn b -> (tin (ntr g i) e x <-> tin (ntr b (i - d)) e (x - d)))
  let ghost sel_done (a b g h c : nfa) (cc : cclass) : unit
    requires { nwf a /\ nwf b /\ nn a >= 2 /\ nn b >= 2 /\ cempty cc } requires { mid a b g } requires { grown g h cc } requires { added h c (nn a - 1) cc (nn h - 1) }
    ensures { is_sel a b c }
  = let d = pure { nn a - 1 } in let j = pure { nn a + nn b - 1 } in
    assert { nn h = j + 1 }; assert { forall e. not (cin cc e) };
    assert { noedge (ntr c j) };
    assert { forall i. 0 <= i < j - 1 -> i <> d -> ntr c i = ntr g i };
    assert { forall x. tep (ntr c d) x <-> tep (ntr h d) x \/ x = j }; assert { ntr h d = ntr g d };
    assert { forall e x. tin (ntr c d) e x <-> tin (ntr h d) e x };
    assert { ntr c (j - 1) = ntr h (j - 1) };
    assert { forall x. tep (ntr h (j - 1)) x <-> tep (ntr g (j - 1)) x \/ x = j };
    let lemma k0 (e x : int) : unit ensures { tin (ntr h (j - 1)) e x <-> tin (ntr g (j - 1)) e x } = assert { not (cin cc e) } in
    let lemma k1 (i x : int) : unit requires { 1 <= i <= d } ensures { tep (ntr c i) x <-> tep (ntr a i) x \/ (i = d /\ x = j) } ensures { forall e. tin (ntr c i) e x <-> tin (ntr a i) e x }
    = if i = d then () else assert { ntr c i = ntr g i } in
    let lemma k2 (i x : int) : unit requires { d < i < d + nn b } ensures { tep (ntr c i) x <-> tep (ntr b (i - d)) (x - d) \/ (i = j - 1 /\ x = j) } ensures { forall e. tin (ntr c i) e x <-> tin (ntr b (i - d)) e (x - d) }
    = if i = j - 1 then () else assert { ntr c i = ntr g i } in
    assert { ntr c 0 = ntr g 0 }; assert { tail c }
  predicate strict (t : seq int) = forall k. 0 <= k < length t -> 0 <= t[k] < maxc
  predicate single (t : seq int) (i k : int) (x : cclass) =
    let c = char1 t i in
    if c = 92 then escs (char1 t (next1 t i)) /\ one x (char1 t (next1 t i)) /\ k = next1 t (next1 t i)
    else if c = 91 then written_class t (next1 t i) k x
    else if c = 46 then anychar x /\ k = next1 t i
    else c <> 40 /\ one x c /\ k = next1 t i
  let ghost atom_class (t : seq int) (i k : int) (o n : nfa) : unit
    requires { fresh o } requires { exists x. grown o n x /\ single t i k x } ensures { as_atom t i k n /\ head n /\ noback n /\ nwf n /\ nn n >= 3 }
  = let x = any cclass ensures { grown o n result /\ single t i k result } in single_lang o n x;
    assert { atom t i k (RCls x) }; assert { forall w. acc n w <-> lang (RCls x) w }
  let ghost atom_group (t : seq int) (i k : int) (o n : nfa) : unit
    requires { fresh o /\ char1 t i = 40 } requires { exists b. nwf b /\ head b /\ is_cat o b n /\ as_whole t (next1 t i) k b } ensures { as_atom t i k n /\ head n /\ noback n /\ nwf n /\ nn n >= 3 }
  = let b = any nfa ensures { nwf result /\ head result /\ is_cat o result n /\ as_whole t (next1 t i) k result } in group_lang o b n;
    let r = any re ensures { whole t (next1 t i) k result /\ forall w. acc b w <-> lang result w } in assert { atom t i k r }
  let ghost as_first (t : seq int) (i k : int) (n : nfa) : unit
    requires { as_unt t i k n } ensures { as_alts t i k n }
  = let r = any re ensures { unt t i k result /\ forall w. acc n w <-> lang result w } in assert { alts t i k r }
'''

# the words of the automaton here (acc) and in the contracts of P04 (nacc) are the same
TIE = dfa.PRE4[dfa.PRE4.index('  predicate nacc '):dfa.PRE4.index('  predicate daccw ')] + dfa.PRE4[dfa.PRE4.index('  let ghost nacc_pre '):dfa.PRE4.index('  let ghost edge ')] + r'''
  let rec ghost path_run (n : nfa) (p : seq int) (k : int) : rn
    requires { epath n p /\ 0 <= k < length p } variant { length p - k } ensures { run n p[k] result p[length p - 1] } ensures { word result = Nil }
  = if k = length p - 1 then Nil else begin let r = path_run n p (k + 1) in assert { tep (ntr n p[k]) p[k + 1] }; Cons (E p[k + 1]) r end
  let ghost reach_run (n : nfa) (i j : int) : rn requires { ereach n i j } ensures { run n i result j /\ word result = Nil }
  = let p = any seq int ensures { epath n result /\ result[0] = i /\ result[length result - 1] = j } in path_run n p 0
  let rec ghost run_nacc (n : nfa) (i : int) (r : rn) : unit
    requires { nwf n /\ node n i /\ run n i r (nn n - 1) } variant { r } ensures { nacc n i (word r) }
  = assert { dests (ntr n i) (nn n) }; ereach_refl n i;
    match r with Nil -> ()
    | Cons (E x) t -> run_nacc n x t; ereach_refl n x; ereach_cons n i x x; nacc_pre n i x (word t)
    | Cons (C _ x) t -> run_nacc n x t end
  let rec ghost nacc_run (n : nfa) (i : int) (w : list int) : rn
    requires { nwf n /\ nacc n i w } variant { w } ensures { run n i result (nn n - 1) /\ word result = w }
  = match w with Nil -> reach_run n i (nn n - 1)
    | Cons c t ->
      let x, y = any (int, int) ensures { let (x, y) = result in ereach n i x /\ tin (ntr n x) c y /\ nacc n y t } in
      let a = reach_run n i x in let b = nacc_run n y t in let c2 = Cons (C c y) b in
      run_app n i a x c2 (nn n - 1); a ++ c2 end
  let ghost same_words (n : nfa) : unit requires { nwf n } ensures { forall w. acc n w <-> nacc n 0 w }
  = let lemma a (w : list int) : unit requires { acc n w } ensures { nacc n 0 w }
    = let r = any rn ensures { run n 0 result (nn n - 1) /\ word result = w } in run_nacc n 0 r in
    let lemma b (w : list int) : unit requires { nacc n 0 w } ensures { acc n w } = let r = nacc_run n 0 w in assert { run n 0 r (nn n - 1) } in ()
'''

def functions(T):
    cf, sf, cp, df = charclass.functions(T), stream.functions(), ccparse.spec(T)['functions'], dfa.functions(T)
    ST, NF, TR, CC = 'NFABaseState<%s,int>' % T, 'NFA<%s>' % T, 'NFATransition<%s>' % T, 'CharClass<%s>' % T
    F = {}
    tr = lambda d: dict(key=d['key'], requires=d.get('requires', []), ensures=d['ensures'], trusted=True, raises=d.get('raises', []), **({'is_pure': True} if d.get('is_pure') else {}))
    for k in ('cc_is_epsilon', 'cc_or', 'cc_make_star'): F[k] = tr(cf[k])
    sw = lambda d: {k: ([x.replace('swf ', 'swf_stream ') for x in v] if isinstance(v, list) else v) for k, v in d.items()}
    for k in ('stream_get', 'stream_peek', 'stream_discard'): F[k] = tr(sw(sf[k]))
    F['cc_parse'] = tr(cp['cc_parse'])
    F['ns_add'] = df['ns_add']
    o, t = '(old !this).nstate__m_transitions', '(!this).nstate__m_transitions'
    F['ns_addt'] = dict(key='%s::add_transition(const %s &)' % (ST, TR), ensures=['%s = snoc %s transition' % (t, o)])
    F['ns_offset'] = dict(key='%s::offset(int)' % ST, ensures=['every transition is moved:: shifted this.nstate__m_transitions result.nstate__m_transitions 0 value'],
        loops=[dict(inv=['length (!new_state).nstate__m_transitions = @ix', 'forall k. 0 <= k < @ix -> (!new_state).nstate__m_transitions[k].ntrans__m_dest = this.nstate__m_transitions[k].ntrans__m_dest + value /\\ (!new_state).nstate__m_transitions[k].ntrans__m_label = this.nstate__m_transitions[k].ntrans__m_label'])])
    F['ns_rebase'] = dict(key='%s::rebase_transitions' % ST, ensures=['the moves of the other state are added:: shifted src.nstate__m_transitions %s (length %s) offset_value' % (t, o), 'forall k. 0 <= k < length %s -> %s[k] = %s[k]' % (o, t, o)],
        ghost={'entry': 'let ghost o = %s in' % t},
        loops=[dict(inv=['length %s = length o + @ix' % t, 'forall k. 0 <= k < length o -> %s[k] = o[k]' % t,
                         'forall k. length o <= k < length {t} -> {t}[k].ntrans__m_dest = src.nstate__m_transitions[k - length o].ntrans__m_dest + offset_value /\\ {t}[k].ntrans__m_label = src.nstate__m_transitions[k - length o].ntrans__m_label'.format(t=t)])])
    same = 'forall k. 0 <= k < nn a0 - 1 -> ntr !this k = ntr a0 k'
    F['add_state'] = dict(key='%s::add_state' % NF, requires=['nwf !this', 'cwf cc'], ensures=['one more state behind the last one:: grown (old !this) !this cc'], ghost={'entry': 'let ghost a0 = !this in',
        'exit': 'assert { %s }; assert { forall k. 0 <= k < nn a0 - 1 -> lwf (ntr a0 k) /\\ dests (ntr a0 k) (nn a0) }; assert { length (ntr !this (nn a0)) = 0 };' % same})
    F['add_to'] = dict(key='%s::add_transition_to' % NF, requires=['nwf !this', 'cwf cc', 'node !this dest'], ensures=['one more move from the last state:: added (old !this) !this (nn !this - 1) cc dest'],
        ghost={'entry': 'let ghost a0 = !this in', 'exit': 'assert { forall k. 0 <= k < nn a0 -> lwf (ntr a0 k) /\\ dests (ntr a0 k) (nn a0) };'})
    F['add_from'] = dict(key='%s::add_transition_from' % NF, requires=['nwf !this', 'cwf cc', 'node !this src'], ensures=['one more move to the last state:: added (old !this) !this src cc (nn !this - 1)'],
        ghost={'entry': 'let ghost a0 = !this in', 'exit': 'assert { forall k. 0 <= k < nn a0 -> lwf (ntr a0 k) /\\ dests (ntr a0 k) (nn a0) };'})
    pushed = ['1 <= !i <= nn nfa', 'nn !this = nn %s + !i - 1', 'forall k. 0 <= k < nn %s -> ntr !this k = ntr %s k',
              'forall k. nn a0 <= k < nn !this -> shifted (ntr nfa (k - nn a0 + 1)) (ntr !this k) 0 (nn a0 - 1)']
    def edge(this, hi, b='nfa'):
        return ('let ghost lemma pe (k : int) : unit requires { nn a0 <= k < %s } ensures { forall x. tep (ntr T k) x <-> tep (ntr B (k - nn a0 + 1)) (x - (nn a0 - 1)) } '
          'ensures { forall c x. tin (ntr T k) c x <-> tin (ntr B (k - nn a0 + 1)) c (x - (nn a0 - 1)) } ensures { lwf (ntr T k) } ensures { dests (ntr T k) (nn a0 + nn B - 1) } '
          '= let k2 = pure { k - nn a0 + 1 } in assert { dests (ntr B k2) (nn B) }; assert { shifted (ntr B k2) (ntr T k) 0 (nn a0 - 1) }; shift_edges (empty : trs) (ntr B k2) (ntr T k) (nn a0 - 1) in ' % hi).replace('B', b).replace('T', this)
    WF0 = 'assert { forall k. 0 <= k < nn a0 -> lwf (ntr a0 k) /\\ dests (ntr a0 k) (nn a0) }; assert { forall k. 0 <= k < nn nfa -> lwf (ntr nfa k) /\\ dests (ntr nfa k) (nn nfa) };'
    F['concat'] = dict(key='%s::concat' % NF, requires=['nwf !this', 'nwf nfa'],
        ensures=['the second automaton continues at the last state:: is_cat (old !this) nfa !this',
                 'the words are concatenated:: nn nfa >= 2 -> noin nfa 0 -> forall w. acc !this w <-> wcat (acc (old !this)) (acc nfa) w'],
        ghost={'entry': 'let ghost a0 = !this in ' + WF0,
               'exit': edge('!this', 'nn !this') + 'shift_edges (ntr a0 (nn a0 - 1)) (ntr nfa 0) (ntr !this (nn a0 - 1)) (nn a0 - 1); assert { forall k. 0 <= k < nn a0 - 1 -> ntr !this k = ntr a0 k }; assert { nwf !this }; if pure { nn nfa >= 2 /\\ noin nfa 0 } then cat_lang a0 nfa !this;'},
        loops=[dict(inv=[pushed[0], pushed[1] % 'a0', pushed[2] % ('a0', 'a0'), pushed[3]], var=['nn nfa - !i'])])
    F['select'] = dict(key='%s::select' % NF, requires=['nwf !this', 'nwf nfa', 'nn !this >= 2', 'nn nfa >= 2'],
        ensures=['both automata become alternatives:: is_sel (old !this) nfa !this',
                 'either word:: noin (old !this) 0 -> start0 nfa -> forall w. acc !this w <-> acc (old !this) w \\/ acc nfa w'],
        ghost={'entry': 'let ghost a0 = !this in let ghost z0 = ref (empty : trs) in let ghost g0 = ref a0 in let ghost g1 = ref a0 in let ghost g2 = ref a0 in ' + WF0,
               'before0': 'let _ = ghost (z0 := ntr !this 0) in', 'after0': 'g0 := !this;',
               'call:add_state': 'let ghost b1 = !this in g1 := b1; assert { nn !g0 = nn a0 + nn nfa - 1 }; assert { nn b1 = nn !g0 }; assert { forall k. 1 <= k < nn b1 -> ntr b1 k = ntr !g0 k }; ' + edge('b1', 'nn b1') + ' shift_edges !z0 (ntr nfa 0) (ntr b1 0) (nn a0 - 1); assert { forall k. 1 <= k < nn a0 -> ntr b1 k = ntr a0 k }; assert { nn b1 = nn a0 + nn nfa - 1 }; assert { forall k. 0 <= k < nn b1 -> lwf (ntr b1 k) }; assert { forall k. 0 <= k < nn b1 -> dests (ntr b1 k) (nn b1) }; assert { nwf b1 }; assert { mid a0 nfa b1 };',
               'call:add_from': 'g2 := !this;',
               'exit': 'sel_done a0 nfa !g1 !g2 !this { cclass__m_ranges = empty }; if pure { noin a0 0 /\\ start0 nfa } then sel_lang a0 nfa !this;'},
        loops=[dict(inv=[pushed[0], pushed[1] % 'a0', 'forall k. 1 <= k < nn a0 -> ntr !this k = ntr a0 k', 'ntr !this 0 = !z0', pushed[3]], var=['nn nfa - !i'])])
    F['nfa_new'] = dict(key='%s::NFA()' % NF, ensures=['the automaton of the empty word:: fresh result'])
    S, C, OC, OS = '(!stream).stream__m_str', '(!stream).stream__m_cur', '(old !stream).stream__m_cur', '(old !stream).stream__m_str'
    RD = ['swf_stream !stream', 'strict %s' % S]
    AT = ['0 <= i', 'ch = char1 %s i' % S, '%s = next1 %s i' % (C, S)]
    KEEP = ['swf_stream !stream', 'same text:: %s = %s' % (S, OS), 'only moves on:: %s <= %s' % (OC, C)]
    REF = 'CppThrow -> [@expl:only patterns that are not well-formed are rejected] refused_re %s %s'
    EPS = '{ cclass__m_ranges = empty }'
    ent = 'let ghost t0 = %s in let ghost this0 = !this in ' % S
    F['pat_unit'] = dict(key='%s::parse_unit' % NF, rec=True, spthrow=True, ghost_params=['i : int'], ghost_args=['GI'], requires=['fresh !this'] + RD + AT,
        ensures=KEEP + ['the automaton of one piece of the pattern:: as_unt %s i %s !this' % (S, C), 'nwf !this', 'head !this', 'nn !this >= 3'],
        raises=[REF % (OS, 'i')], variant=['length %s - %s' % (S, C), '2'],
        ghost={'entry': ent + 'let ghost c0 = %s in ' % C + 'let ghost ga = ref !this in let ghost s1 = ref !this in let ghost s2 = ref !this in let ghost k = ref 0 in let ghost ph = ref 0 in let ghost xr = ref %s in' % EPS,
               'call:stream_peek': 'if !ph = 0 then begin ga := !this; k := %s; ph := 1; assert { c0 <= !k }; if pure { char1 t0 i = 40 } then atom_group t0 i !k this0 !this else begin assert { grown this0 !this !xr }; atom_class t0 i !k this0 !this end end;' % C,
               'call:add_state': 's1 := !this; if !ph = 0 then begin assert { char1 t0 i <> 40 }; assert { single t0 i %s @A1 }; xr := @A1 end;' % C, 'call:add_from': 's2 := !this;',
               'exit': ('assert { !k <= CUR }; let m = pure { chat t0 !k } in if m = 43 then begin plus_shape !ga !this EPS; plus_lang !ga !this; as_plus t0 i !k !ga !this end '
                        'else if m = 42 then begin loop_shape !ga !s1 !s2 !this EPS true; loop_lang !ga !this true; as_star t0 i !k !ga !this end '
                        'else if m = 63 then begin loop_shape !ga !ga !s2 !this EPS false; loop_lang !ga !this false; as_opt t0 i !k !ga !this end '
                        'else as_none t0 i !k !this;').replace('EPS', EPS).replace('CUR', C)})
    F['pat_sel'] = dict(key='%s::parse_selection' % NF, mutual=True, ghost_params=['i : int'], ghost_args=['GI'], ghost_env=dict(GI='!gi'), requires=['fresh !this'] + RD + AT,
        ensures=KEEP + ['the automaton of the alternatives:: as_alts %s i %s !this' % (S, C), 'all alternatives are taken:: chat %s %s <> 124' % (S, C), 'nwf !this', 'start0 !this'],
        raises=[REF % (OS, 'i')], variant=['length %s - %s' % (S, C), '3'],
        ghost={'entry': ent + 'let ghost gi = ref i in let ghost c0 = %s in' % C, 'call:stream_get': 'gi := %s;' % C,
               'before0': 'as_first t0 i %s !this;' % C,
               'begin0': 'let ghost k = %s in let ghost a = !this in' % C,
               'last0': 'as_bar t0 i k %s a !nfa !this; sel_shape a !nfa !this;' % C},
        loops=[dict(inv=['swf_stream !stream', '%s = t0' % S, 'c0 <= %s' % C, 'as_alts t0 i %s !this' % C, 'nwf !this', 'start0 !this'], var=['length t0 - %s' % C])])
    F['nfa_group'] = dict(key='%s::NFA(Stream &)' % NF, mutual=True, requires=RD,
        ensures=KEEP + ['the automaton of the pattern:: as_whole %s %s %s result' % (S, OC, C), 'nwf result', 'head result'],
        raises=[REF % (OS, OC)], variant=['length %s - %s' % (S, C), '1'],
        ghost={'entry': 'let ghost t0 = %s in let ghost c0 = %s in let ghost o = ref (any nfa) in' % (S, C), 'call:pat_seq': 'o := !this; assert { nn !o = 2 }; assert { nwf !o }; assert { head !o }; assert { tail !o };', 'exit': 'as_group t0 c0 %s !o !this;' % C})
    F['pat_seq'] = dict(key='%s::parse' % NF, mutual=True, ghost_env=dict(GI='!q'), requires=['nwf !this', 'head !this'] + RD,
        ensures=KEEP + ['the automaton goes on with the pattern:: after_whole %s %s %s (old !this) !this' % (S, OC, C), 'nwf !this', 'head !this'],
        raises=[REF % (OS, OC)], variant=['length %s - %s' % (S, C), '0'],
        ghost={'entry': ent + 'let ghost c0 = %s in let ghost q = ref c0 in as_start t0 c0 this0;' % C,
               'begin0': 'let ghost k = !q in let ghost a = !this in',
               'last0': 'as_more t0 c0 k %s this0 a !nfa !this; cat_shape a !nfa !this; q := %s;' % (C, C),
               'after0': 'as_end t0 c0 !q this0 !this;'},
        loops=[dict(inv=['swf_stream !stream', '%s = t0' % S, 'c0 <= !q <= %s' % C, '!ch = char1 t0 !q', '%s = next1 t0 !q' % C, 'after_pat t0 c0 !q this0 !this', 'nwf !this', 'head !this'],
                    var=['length t0 - !q'])])
    return F

def spec(T='char'):
    a, b, c = dfa.spec('p04', T), stream.spec(), ccparse.spec(T)
    CC = 'CharClass<%s>' % T
    F = functions(T)
    return dict(a, preamble=charclass.spec(T)['preamble'] + b['preamble'].replace('predicate swf (s : stream)', 'predicate swf_stream (s : stream)') + re.sub(r'\bwithin\b', 'listed', ccparse.PRE).replace('within_snoc', 'listed_snoc') + dfa.PRE + LANG + RUN + SHAPE + TIE,
        functions=F, types=a['types'] + ['Stream'], typenames=dict(a['typenames'], Stream='stream'), aliases=b['aliases'], iter_fields=b['iter_fields'],
        files=a['files'] + ['Stream.hpp'], hooks=dict(c['hooks']))
