"""Contracts for the expansion of rule networks to character networks (src/core/CompositeATN.hpp CATNNode, CATNMachine)."""
import charclass, dfa

PRE = r'''
  predicate lwf0 (s : seq ntrans) = forall k. 0 <= k < length s -> cwf s[k].ntrans__m_label
  predicate dests0 (s : seq ntrans) (n : int) = forall k. 0 <= k < length s -> 0 <= s[k].ntrans__m_dest < n
  (* ---- the rule network *)
  function an (a : amach) : int = length a.amach__m_nodes
  function nd (a : amach) (i : int) : anode = a.amach__m_nodes[i]
  function out (a : amach) (i : int) : seq atrans = (nd a i).anode__m_transitions
  function ty (a : amach) (i : int) : int = (nd a i).anode__m_type
  function lit (a : amach) (i : int) : seq int = (nd a i).anode__m_literal
  function ntr (a : amach) (i p : int) : seq ntrans = ((nd a i).anode__m_nfa.nfa__base.nbase__m_states)[p].nstate__m_transitions
  function nn (a : amach) (i : int) : int = length (nd a i).anode__m_nfa.nfa__base.nbase__m_states
  predicate islit (a : amach) (i : int) = ty a i = 2 /\ length (lit a i) > 0
  predicate edge (a : amach) (i k j : int) = 0 <= i < an a /\ 0 <= k < length (out a i) /\ (out a i)[k].atrans__m_dest = j
  predicate awf (a : amach) = an a > 0
    /\ (forall i. 0 <= i < an a -> 0 <= ty a i <= 4)
    /\ (forall i k. 0 <= i < an a -> 0 <= k < length (out a i) -> 0 <= (out a i)[k].atrans__m_dest < an a)
    /\ (forall i p. 0 <= i < an a -> 0 <= p < length (lit a i) -> 0 <= (lit a i)[p] < maxc)
    /\ (forall i. 0 <= i < an a -> ty a i = 3 -> nn a i > 0)
    /\ (forall i p. 0 <= i < an a -> ty a i = 3 -> 0 <= p < nn a i -> lwf0 (ntr a i p) /\ dests0 (ntr a i p) (nn a i))
    /\ (forall i. 0 <= i < an a -> ty a i = 1 -> length (nd a i).anode__m_invoke.ident__m_id > 0)
    /\ ty a 0 = 0
    /\ (forall j i k i2 k2. islit a j -> edge a i k j -> edge a i2 k2 j -> i = i2 /\ k = k2)
  (* ---- the characters a transition stands for *)
  predicate one (t : ntrans) (c d tag : int) = t.ntrans__m_dest = d /\ t.ntrans__m_tag = tag /\ cwf t.ntrans__m_label /\ forall x. cin t.ntrans__m_label x <-> x = c
  predicate eps (t : ntrans) (d tag : int) = t.ntrans__m_dest = d /\ t.ntrans__m_tag = tag /\ cwf t.ntrans__m_label /\ forall x. not (cin t.ntrans__m_label x)
  predicate blank (x : int) = x = 32 \/ x = 9 \/ x = 13 \/ x = 10
  predicate blanks (t : ntrans) (d : int) = t.ntrans__m_dest = d /\ t.ntrans__m_tag = 0 /\ cwf t.ntrans__m_label /\ forall x. cin t.ntrans__m_label x <-> blank x
  predicate moved (s t : ntrans) (off : int) = t.ntrans__m_dest = s.ntrans__m_dest + off /\ t.ntrans__m_tag = 0 /\ cwf t.ntrans__m_label /\ forall x. cin t.ntrans__m_label x <-> cin s.ntrans__m_label x
  (* ---- the nodes standing for node i of the rule network, the first of them at e: their number and their own transitions *)
  function glen (a : amach) (i : int) : int = if ty a i = 3 then nn a i else if islit a i then length (lit a i) else 1
  function olen (a : amach) (i p : int) : int = if ty a i = 3 then length (ntr a i p) else if islit a i then (if p < length (lit a i) - 1 then 1 else 0) else if ty a i = 4 then 1 else 0
  predicate own (a : amach) (i e p k : int) (t : ntrans) =
    if ty a i = 3 then moved (ntr a i p)[k] t e else if islit a i then one t (lit a i)[p + 1] (e + p + 1) 0 else blanks t e
  (* the transition that enters node j, standing at e, with ranking tag *)
  predicate enter (a : amach) (j e tag : int) (t : ntrans) = if islit a j then one t (lit a j)[0] e tag else eps t e tag
  (* ---- the character network *)
  function cn (c : cmach) : int = length c.cmach__m_nodes
  function ct (c : cmach) (x : int) : seq ntrans = (c.cmach__m_nodes[x]).cnode__m_transitions
  function src (c : cmach) (x : int) : int = (c.cmach__m_nodes[x]).cnode__m_source
  (* where the transitions that leave the source node begin *)
  function fst (c : cmach) (x : int) : int = (c.cmach__m_nodes[x]).cnode__m_exit
  function sub (c : cmach) (x : int) : seq int = ((c.cmach__m_nodes[x]).cnode__m_submachine).ident__m_id
  function ext (a : amach) (m : seq int) (i : int) : int = m[i] + glen a i - 1
  function cur (a : amach) (c : cmach) (m : seq int) (i : int) : int = length (ct c (ext a m i)) - olen a i (glen a i - 1)
  predicate mapped (a : amach) (m : seq int) (i : int) = 0 <= i < an a /\ m[i] >= 0
  predicate nodes_ok (a : amach) (c : cmach) (m : seq int) (i : int) =
    0 <= m[i] /\ m[i] + glen a i <= cn c
    /\ (forall x. m[i] <= x < ext a m i -> length (ct c x) = olen a i (x - m[i]) /\ src c x = -1)
    /\ (forall x k. m[i] <= x <= ext a m i -> 0 <= k < olen a i (x - m[i]) -> own a i m[i] (x - m[i]) k (ct c x)[k])
    /\ (forall x. m[i] <= x <= ext a m i -> sub c x = if ty a i = 1 then (nd a i).anode__m_invoke.ident__m_id else empty)
  predicate links_ok (a : amach) (c : cmach) (m : seq int) (i : int) =
    src c (ext a m i) = i /\ fst c (ext a m i) = olen a i (glen a i - 1)
    /\ 0 <= cur a c m i <= length (out a i)
    /\ forall k. 0 <= k < cur a c m i -> let j = (out a i)[k].atrans__m_dest in m[j] >= 0 /\ enter a j m[j] (out a i)[k].atrans__m_tag (ct c (ext a m i))[olen a i (glen a i - 1) + k]
  predicate cov (a : amach) (m : seq int) (x i : int) = mapped a m i /\ m[i] <= x < m[i] + glen a i
  predicate covd (a : amach) (m : seq int) (x : int) = exists i. cov a m x i
  predicate apart (a : amach) (m : seq int) (i j : int) = m[i] + glen a i <= m[j] \/ m[j] + glen a j <= m[i]
  predicate via (a : amach) (c : cmach) (m : seq int) (j p q : int) = mapped a m p /\ edge a p q j /\ q < cur a c m p
  predicate entered (a : amach) (c : cmach) (m : seq int) (j : int) = exists p q. via a c m j p q
  predicate cinv (a : amach) (c : cmach) (m : seq int) =
    length m = an a
    /\ (forall i. mapped a m i -> nodes_ok a c m i /\ links_ok a c m i)
    /\ (forall i j. mapped a m i -> mapped a m j -> i <> j -> apart a m i j)
    /\ (forall x. 0 <= x < cn c -> covd a m x)
    /\ (forall j. mapped a m j -> islit a j -> entered a c m j)
  predicate full (a : amach) (c : cmach) (m : seq int) (i : int) = cur a c m i = length (out a i)
  predicate absent (c : cmach) (index n : int) = forall x. 0 <= x < n -> src c x <> index
  predicate grows (a : amach) (m m2 : seq int) = length m2 = length m /\ forall i. 0 <= i < length m -> m[i] >= 0 -> m2[i] = m[i]
  let rec ghost function unm (m : seq int) (k : int) : int variant { k } = if k <= 0 then 0 else unm m (k - 1) + (if 0 <= k - 1 < length m && m[k - 1] < 0 then 1 else 0)
  let rec lemma unm_pos (m : seq int) (k : int) : unit variant { k } ensures { unm m k >= 0 } = if k > 0 then unm_pos m (k - 1)
  let rec lemma unm_le (a : amach) (m m2 : seq int) (k : int) : unit requires { grows a m m2 } variant { k } ensures { unm m2 k <= unm m k } = if k > 0 then unm_le a m m2 (k - 1)
  let rec lemma unm_lt (a : amach) (m m2 : seq int) (i k : int) : unit requires { grows a m m2 /\ 0 <= i < k /\ i < length m /\ m[i] < 0 <= m2[i] } variant { k } ensures { unm m2 k < unm m k }
  = if i < k - 1 then unm_lt a m m2 i (k - 1) else unm_le a m m2 (k - 1)
  predicate pending (a : amach) (c : cmach) (m : seq int) (origin index tag : int) =
    let p = src c origin in mapped a m p /\ origin = ext a m p /\ let q = cur a c m p in 0 <= q < length (out a p) /\ (out a p)[q].atrans__m_dest = index /\ (out a p)[q].atrans__m_tag = tag
  predicate others (c0 c1 : cmach) (o : int) = forall x. 0 <= x < cn c0 -> x <> o -> c1.cmach__m_nodes[x] = c0.cmach__m_nodes[x]
  predicate gained (c0 c1 : cmach) (o : int) = src c1 o = src c0 o /\ fst c1 o = fst c0 o /\ sub c1 o = sub c0 o /\ length (ct c1 o) = length (ct c0 o) + 1 /\ forall k. 0 <= k < length (ct c0 o) -> (ct c1 o)[k] = (ct c0 o)[k]
  let ghost step_nodes (a : amach) (c0 c1 : cmach) (m m1 : seq int) (o i : int) : unit
    requires { awf a /\ cinv a c0 m /\ mapped a m i /\ m1[i] = m[i] /\ cn c0 <= cn c1 /\ others c0 c1 o }
    requires { o >= 0 -> gained c0 c1 o /\ (let p = src c0 o in mapped a m p /\ o = ext a m p) }
    ensures { nodes_ok a c1 m1 i } ensures { i <> src c0 o \/ o < 0 -> ct c1 (ext a m1 i) = ct c0 (ext a m i) /\ src c1 (ext a m1 i) = src c0 (ext a m i) /\ fst c1 (ext a m1 i) = fst c0 (ext a m i) }
  = assert { nodes_ok a c0 m i };
    if o >= 0 && i <> (pure { src c0 o }) then assert { apart a m i (src c0 o) };
    assert { forall x. m[i] <= x < ext a m i -> x <> o };
    assert { i <> src c0 o \/ o < 0 -> ext a m i <> o };
    assert { forall x. m[i] <= x < ext a m i -> c1.cmach__m_nodes[x] = c0.cmach__m_nodes[x] };
    assert { forall x. m[i] <= x <= ext a m i -> x <> o -> c1.cmach__m_nodes[x] = c0.cmach__m_nodes[x] };
    assert { forall x k. m[i] <= x <= ext a m i -> 0 <= k < olen a i (x - m[i]) -> (ct c1 x)[k] = (ct c0 x)[k] };
    assert { forall x. m[i] <= x <= ext a m i -> sub c1 x = sub c0 x };
    assert { ext a m1 i = ext a m i };
    assert { forall x. m1[i] <= x < ext a m1 i -> length (ct c1 x) = olen a i (x - m1[i]) /\ src c1 x = -1 };
    assert { forall x k. m1[i] <= x <= ext a m1 i -> 0 <= k < olen a i (x - m1[i]) -> own a i m1[i] (x - m1[i]) k (ct c1 x)[k] };
    assert { forall x. m1[i] <= x <= ext a m1 i -> sub c1 x = if ty a i = 1 then (nd a i).anode__m_invoke.ident__m_id else empty }
  predicate regs (s : seq nstate) (c : cmach) (b n : int) = forall x p k. b <= x < n -> p = x - b -> 0 <= k < length s[p].nstate__m_transitions -> moved s[p].nstate__m_transitions[k] (ct c x)[k] b
  let ghost pack (a : amach) (c : cmach) (m : seq int) (i b : int) : unit
    requires { m[i] = b /\ 0 <= b /\ b + glen a i = cn c }
    requires { forall x. b <= x < cn c - 1 -> length (ct c x) = olen a i (x - b) /\ src c x = -1 }
    requires { ty a i = 3 -> regs (nd a i).anode__m_nfa.nfa__base.nbase__m_states c b (cn c) }
    requires { islit a i -> forall x. b <= x < cn c - 1 -> one (ct c x)[0] (lit a i)[x - b + 1] (x + 1) 0 }
    requires { ty a i = 4 -> blanks (ct c b)[0] b }
    requires { forall x. b <= x < cn c -> sub c x = if ty a i = 1 then (nd a i).anode__m_invoke.ident__m_id else empty }
    ensures { nodes_ok a c m i }
  = let lemma o (x k : int) : unit requires { b <= x < cn c /\ 0 <= k < olen a i (x - b) } ensures { own a i b (x - b) k (ct c x)[k] }
    = if pure { ty a i = 3 } then assert { own a i b (x - b) k (ct c x)[k] } else if pure { islit a i } then assert { k = 0 /\ own a i b (x - b) k (ct c x)[k] } else assert { k = 0 /\ x = b /\ own a i b (x - b) k (ct c x)[k] } in
    assert { forall x k. m[i] <= x <= ext a m i -> 0 <= k < olen a i (x - m[i]) -> own a i m[i] (x - m[i]) k (ct c x)[k] }
  let ghost attach (a : amach) (c0 c1 : cmach) (m m1 : seq int) (index origin tag : int) : unit
    requires { awf a /\ cinv a c0 m /\ 0 <= index < an a /\ m[index] < 0 }
    requires { length m1 = length m /\ m1[index] = cn c0 /\ forall i. 0 <= i < an a -> i <> index -> m1[i] = m[i] }
    requires { origin < 0 -> cn c0 = 0 /\ index = 0 } requires { origin >= 0 -> pending a c0 m origin index tag }
    requires { nodes_ok a c1 m1 index /\ cn c1 = cn c0 + glen a index /\ src c1 (ext a m1 index) = index /\ fst c1 (ext a m1 index) = olen a index (glen a index - 1) /\ length (ct c1 (ext a m1 index)) = olen a index (glen a index - 1) }
    requires { others c0 c1 origin } requires { origin >= 0 -> gained c0 c1 origin /\ enter a index (cn c0) tag (ct c1 origin)[length (ct c0 origin)] }
    ensures { cinv a c1 m1 } ensures { cur a c1 m1 index = 0 }
    ensures { forall i. mapped a m i -> cur a c1 m1 i = cur a c0 m i + (if origin >= 0 && i = src c0 origin then 1 else 0) }
  = let lemma old_node (i : int) : unit requires { mapped a m i }
      ensures { nodes_ok a c1 m1 i } ensures { links_ok a c1 m1 i } ensures { cur a c1 m1 i = cur a c0 m i + (if origin >= 0 && i = src c0 origin then 1 else 0) }
      ensures { apart a m1 i index }
    = step_nodes a c0 c1 m m1 origin i; assert { links_ok a c0 m i } in
    assert { links_ok a c1 m1 index };
    assert { forall i. mapped a m1 i -> i <> index -> mapped a m i };
    assert { forall i j. mapped a m i -> mapped a m j -> i <> j -> apart a m1 i j by apart a m i j };
    let lemma covers (x : int) : unit requires { 0 <= x < cn c1 } ensures { covd a m1 x }
    = if x >= (pure { cn c0 }) then assert { cov a m1 x index } else let i = (assert { covd a m x }; any int ensures { cov a m x result }) in assert { cov a m1 x i } in
    let lemma ent (j : int) : unit requires { mapped a m1 j /\ islit a j } ensures { entered a c1 m1 j }
    = if j = index then assert { via a c1 m1 j (src c0 origin) (cur a c0 m (src c0 origin)) }
      else let (p, q) = any (int, int) ensures { let (p, q) = result in via a c0 m j p q } in assert { via a c1 m1 j p q } in
    ()
  let ghost join (a : amach) (c0 c1 : cmach) (m : seq int) (origin j tag : int) : unit
    requires { awf a /\ cinv a c0 m /\ 0 <= origin /\ pending a c0 m origin j tag /\ mapped a m j }
    requires { cn c1 = cn c0 /\ others c0 c1 origin /\ gained c0 c1 origin /\ eps (ct c1 origin)[length (ct c0 origin)] m[j] tag }
    ensures { cinv a c1 m } ensures { forall i. mapped a m i -> cur a c1 m i = cur a c0 m i + (if i = src c0 origin then 1 else 0) }
  = let i0 = pure { src c0 origin } in
    let k0 = pure { cur a c0 m i0 } in
    assert { edge a i0 k0 j };
    if pure { islit a j } then begin let (p, q) = any (int, int) ensures { let (p, q) = result in via a c0 m j p q } in assert { p = i0 /\ q = k0 }; absurd end;
    let lemma old_node (i : int) : unit requires { mapped a m i }
      ensures { nodes_ok a c1 m i } ensures { links_ok a c1 m i } ensures { cur a c1 m i = cur a c0 m i + (if i = src c0 origin then 1 else 0) }
    = step_nodes a c0 c1 m m origin i; assert { links_ok a c0 m i } in
    let lemma ent (j : int) : unit requires { mapped a m j /\ islit a j } ensures { entered a c1 m j }
    = let (p, q) = any (int, int) ensures { let (p, q) = result in via a c0 m j p q } in assert { via a c1 m j p q } in
    ()
  (* the whole network has been expanded *)
  predicate expanded (a : amach) (c : cmach) (m : seq int) = cinv a c m /\ m[0] = 0 /\ forall i. mapped a m i -> full a c m i
'''

def functions(T):
    F = {}
    CC, N, M, A = 'CharClass<%s>' % T, 'CATNNode<%s>' % T, 'CATNMachine<%s>' % T, 'ATNMachine<%s>' % T
    cf = charclass.functions(T)
    F['cc_list'] = dict(key=cf['cc_list']['key'], requires=cf['cc_list']['requires'], ensures=cf['cc_list']['ensures'], trusted=True)
    t, o = '(!this).cnode__m_transitions', '(old !this).cnode__m_transitions'
    F['ntr_offset'] = dict(key='NFATransition<%s>::offset' % T, requires=['cwf this.ntrans__m_label'], ensures=['the transition is moved:: moved this result value'])
    F['import_tr'] = dict(key='%s::import_transitions' % N, requires=['lwf0 state.nstate__m_transitions'],
        ensures=['length {t} = length {o} + length state.nstate__m_transitions'.format(t=t, o=o), 'forall k. 0 <= k < length {o} -> {t}[k] = {o}[k]'.format(t=t, o=o),
                 'every transition is moved:: forall k. 0 <= k < length state.nstate__m_transitions -> moved state.nstate__m_transitions[k] {t}[k + length {o}] offset'.format(t=t, o=o),
                 '(!this).cnode__m_submachine = (old !this).cnode__m_submachine', '(!this).cnode__m_source = (old !this).cnode__m_source /\\ (!this).cnode__m_exit = (old !this).cnode__m_exit'],
        ghost={'entry': 'let ghost t0 = !this in'},
        loops=[dict(inv=['length %s = length t0.cnode__m_transitions + @ix' % t, 'forall k. 0 <= k < length t0.cnode__m_transitions -> %s[k] = t0.cnode__m_transitions[k]' % t,
                         'forall k. 0 <= k < @ix -> moved state.nstate__m_transitions[k] %s[k + length t0.cnode__m_transitions] offset' % t,
                         '(!this).cnode__m_submachine = t0.cnode__m_submachine', '(!this).cnode__m_source = t0.cnode__m_source /\\ (!this).cnode__m_exit = t0.cnode__m_exit'])])
    c, c0 = '!this', '(old !this)'
    def grown(k, lab):   # k new nodes behind; origin gets one transition
        return ['cn !this = cn %s + %s' % (c0, k),
                'forall x. 0 <= x < cn {0} -> x <> origin -> {1}.cmach__m_nodes[x] = {0}.cmach__m_nodes[x]'.format(c0, '(!this)'),
                'origin >= 0 -> src !this origin = src {0} origin /\\ fst !this origin = fst {0} origin /\\ sub !this origin = sub {0} origin'.format(c0),
                'origin >= 0 -> length (ct !this origin) = length (ct {0} origin) + 1'.format(c0),
                'origin >= 0 -> forall k. 0 <= k < length (ct {0} origin) -> (ct !this origin)[k] = (ct {0} origin)[k]'.format(c0),
                lab]
    rq = ['origin < cn !this', 'origin < 0 -> cn !this = 0']
    last = lambda p: 'origin >= 0 -> %s' % (p % '(ct !this origin)[length (ct (old !this) origin)]')
    F['add1'] = dict(key='%s::add_node(const %s &,int,int)' % (M, CC), requires=rq + ['cwf cc'],
        ensures=grown(1, 'origin >= 0 -> let t = (ct !this origin)[length (ct (old !this) origin)] in t.ntrans__m_dest = cn (old !this) /\\ t.ntrans__m_tag = tag /\\ t.ntrans__m_label = cc')
          + ['result = cn (old !this)', 'ct !this result = empty', 'src !this result = -1', 'sub !this result = empty'])
    F['add2'] = dict(key='%s::add_node(const %s &,int,int)' % (M, N), requires=rq,
        ensures=grown(1, last('eps %s (cn (old !this)) tag')) + ['result = cn (old !this)', '(!this).cmach__m_nodes[result] = node'])
    F['ws'] = dict(key='%s::import_whitespace' % M, requires=rq + ['cwf cc', 'forall x. cin cc x <-> blank x'],
        ensures=grown(1, last('eps %s (cn (old !this)) tag')) + ['result = cn (old !this)', 'length (ct !this result) = 1', 'blanks (ct !this result)[0] result', 'src !this result = -1', 'sub !this result = empty'])
    F['lit'] = dict(key='%s::import_literal_terminal' % M, requires=['0 <= origin < cn !this', 'forall p. 0 <= p < length literal -> 0 <= literal[p] < maxc'],
        ensures=['cn !this = cn (old !this) + (if length literal = 0 then 1 else length literal)', 'result = cn !this - 1'] + grown('(if length literal = 0 then 1 else length literal)', 'true')[1:5] +
          ['the first character enters it:: let t = (ct !this origin)[length (ct (old !this) origin)] in if length literal = 0 then eps t (cn (old !this)) tag else one t literal[0] (cn (old !this)) tag',
           'character after character:: forall x. cn (old !this) <= x < cn !this - 1 -> length (ct !this x) = 1 /\\ one (ct !this x)[0] literal[x - cn (old !this) + 1] (x + 1) 0',
           'ct !this result = empty', 'forall x. cn (old !this) <= x < cn !this -> src !this x = -1 /\\ sub !this x = empty'],
        ghost={'entry': 'let ghost c0 = !this in let ghost o0 = origin_0 in let ghost g0 = tag_0 in'},
        loops=[dict(inv=['cn !this = cn c0 + @ix', '!origin = (if @ix = 0 then o0 else cn c0 + @ix - 1)', '!tag = if @ix = 0 then g0 else 0',
               'forall x. 0 <= x < cn c0 -> x <> o0 -> (!this).cmach__m_nodes[x] = c0.cmach__m_nodes[x]', '@ix = 0 -> !this = c0',
               'src !this o0 = src c0 o0 /\\ fst !this o0 = fst c0 o0 /\\ sub !this o0 = sub c0 o0', '@ix > 0 -> length (ct !this o0) = length (ct c0 o0) + 1 /\\ one (ct !this o0)[length (ct c0 o0)] literal[0] (cn c0) g0',
               'forall k. 0 <= k < length (ct c0 o0) -> (ct !this o0)[k] = (ct c0 o0)[k]',
               'forall x. cn c0 <= x < cn c0 + @ix - 1 -> length (ct !this x) = 1 /\\ one (ct !this x)[0] literal[x - cn c0 + 1] (x + 1) 0',
               '@ix > 0 -> ct !this !origin = empty', 'forall x. cn c0 <= x < cn !this -> src !this x = -1 /\\ sub !this x = empty'])])
    S = 'nfa.nfa__base.nbase__m_states'
    F['reg'] = dict(key='%s::import_regular_terminal' % M, requires=['0 <= origin < cn !this', 'length %s > 0' % S, 'forall p. 0 <= p < length {S} -> lwf0 ({S}[p]).nstate__m_transitions'.format(S=S)],
        ensures=['cn !this = cn (old !this) + length %s' % S, 'result = cn !this - 1'] + grown('0', last('eps %s (cn (old !this)) tag'))[1:] +
          ['state by state:: forall x. cn (old !this) <= x < cn !this -> length (ct !this x) = length ({S}[x - cn (old !this)]).nstate__m_transitions'.format(S=S),
           'transition by transition:: regs {S} !this (cn (old !this)) (cn !this)'.format(S=S),
           'forall x. cn (old !this) <= x < cn !this -> src !this x = -1 /\\ sub !this x = empty'],
        ghost={'entry': 'let ghost c0 = !this in let ghost o0 = origin in', 'begin0': 'let ghost c2 = !this in',
               'end0': 'assert { cn !this = cn c2 + 1 }; assert { forall x. 0 <= x < cn c2 -> (!this).cmach__m_nodes[x] = c2.cmach__m_nodes[x] }; assert { forall k. 0 <= k < length (%s[!i - 1]).nstate__m_transitions -> moved (%s[!i - 1]).nstate__m_transitions[k] (ct !this (cn c2))[k] (cn c0) };' % (S, S)},
        loops=[dict(inv=['1 <= !i <= length %s' % S, 'cn !this = cn c0 + !i', 'forall x. 0 <= x < cn c0 -> x <> o0 -> (!this).cmach__m_nodes[x] = c0.cmach__m_nodes[x]',
               'src !this o0 = src c0 o0 /\\ fst !this o0 = fst c0 o0 /\\ sub !this o0 = sub c0 o0', 'length (ct !this o0) = length (ct c0 o0) + 1', 'eps (ct !this o0)[length (ct c0 o0)] (cn c0) tag', 'forall k. 0 <= k < length (ct c0 o0) -> (ct !this o0)[k] = (ct c0 o0)[k]',
               'forall x. cn c0 <= x < cn !this -> length (ct !this x) = length ({S}[x - cn c0]).nstate__m_transitions'.format(S=S),
               'regs {S} !this (cn c0) (cn !this)'.format(S=S),
               'forall x. cn c0 <= x < cn !this -> src !this x = -1 /\\ sub !this x = empty'], var=['length %s - !i' % S])])
    F['nt'] = dict(key='%s::import_nonterminal' % M, requires=rq,
        ensures=grown(1, last('eps %s (cn (old !this)) tag')) + ['result = cn (old !this)', 'ct !this result = empty', 'src !this result = -1', 'sub !this result = id.ident__m_id'])
    par = 'src %s origin'
    keep = lambda b, n, fm, now: 'forall i. mapped atn %s i -> cur atn %s %s i = cur atn %s %s i + (if origin >= 0 && i = src %s origin then 1 else 0)' % (fm, now, n, b, fm, b)
    F['imp'] = dict(key='%s::import_atn_node' % M, rec=True, variant=['unm !node_map (an atn)'],
        requires=['awf atn', 'cinv atn !this !node_map', '0 <= index < an atn', '(!node_map)[index] < 0', 'origin < cn !this',
                  'origin < 0 -> cn !this = 0 /\\ index = 0 /\\ tag = 0',
                  'origin >= 0 -> pending atn !this !node_map origin index tag'],
        ensures=['every node is expanded exactly:: cinv atn !this !node_map', '(!node_map)[index] = cn (old !this)', 'grows atn (old !node_map) !node_map', 'length !node_map = length (old !node_map)',
                 'new nodes have all their transitions:: forall i. mapped atn !node_map i -> (old !node_map)[i] < 0 -> full atn !this !node_map i',
                 'cn (old !this) < cn !this',
                 keep('(old !this)', '!node_map', '(old !node_map)', '!this')],
        ghost={'entry': 'let ghost c0 = !this in let ghost m0 = !node_map in',
               'before0': 'let ghost c1 = !this in let ghost m1 = !node_map in assert { ty atn index = 0 || ty atn index = 1 || ty atn index = 2 || ty atn index = 3 || ty atn index = 4 }; assert { ext atn m1 index = cn c1 - 1 && !origin = cn c1 - 1 && src c1 !origin = index }; assert { fst c1 !origin = olen atn index (glen atn index - 1) }; assert { cn c1 = cn c0 + glen atn index }; assert { others c0 c1 origin_0 }; assert { origin_0 >= 0 -> gained c0 c1 origin_0 }; assert { origin_0 >= 0 -> enter atn index (cn c0) tag (ct c1 origin_0)[length (ct c0 origin_0)] }; assert { length (ct c1 (ext atn m1 index)) = olen atn index (glen atn index - 1) }; assert { ty atn index <> 1 -> forall x. cn c0 <= x < cn c1 -> sub c1 x = empty }; assert { ty atn index = 1 -> sub c1 (cn c0) = (nd atn index).anode__m_invoke.ident__m_id /\\ cn c1 = cn c0 + 1 }; assert { forall x. cn c0 <= x < cn c1 -> sub c1 x = if ty atn index = 1 then (nd atn index).anode__m_invoke.ident__m_id else empty }; assert { forall x. cn c0 <= x < cn c1 - 1 -> length (ct c1 x) = olen atn index (x - cn c0) /\\ src c1 x = -1 }; assert { ty atn index = 3 -> regs (nd atn index).anode__m_nfa.nfa__base.nbase__m_states c1 (cn c0) (cn c1) }; assert { islit atn index -> forall x. cn c0 <= x < cn c1 - 1 -> one (ct c1 x)[0] (lit atn index)[x - cn c0 + 1] (x + 1) 0 }; assert { ty atn index = 4 -> blanks (ct c1 (cn c0))[0] (cn c0) };  pack atn c1 m1 index (cn c0); attach atn c0 c1 m0 m1 index origin_0 tag; unm_lt atn m0 m1 index (an atn);',
               'begin0': 'let ghost c2 = !this in let ghost m2 = !node_map in unm_le atn m1 m2 (an atn); assert { pending atn c2 m2 !origin (out atn index)[@ix].atrans__m_dest (out atn index)[@ix].atrans__m_tag };',
               'end0': 'if pure { m2[(out atn index)[@ix - 1].atrans__m_dest] >= 0 } then join atn c2 !this m2 !origin (pure { (out atn index)[@ix - 1].atrans__m_dest }) (pure { (out atn index)[@ix - 1].atrans__m_tag }); assert { grows atn m2 !node_map }; assert { forall i. mapped atn m2 i -> cur atn !this !node_map i = cur atn c2 m2 i + (if i = index then 1 else 0) }; assert { forall i. mapped atn !node_map i -> m2[i] < 0 -> full atn !this !node_map i };'},
        loops=[dict(inv=['cinv atn !this !node_map', 'grows atn m1 !node_map', 'mapped atn !node_map index', '!origin = ext atn !node_map index', 'cn c1 <= cn !this',
                         'forall i. mapped atn !node_map i -> m1[i] < 0 -> full atn !this !node_map i', 'cur atn !this !node_map index = @ix',
                         'forall i. mapped atn m1 i -> i <> index -> cur atn !this !node_map i = cur atn c1 m1 i'])])
    F['ctor'] = dict(key='%s::CATNMachine' % M + '(const %s &)' % A, requires=['awf atn'], ensures=['the network is expanded exactly:: exists m. expanded atn result m'])
    F['conv'] = dict(key='%s::convert_atn_index' % M,
        ensures=['the node found stands for that index:: result >= 0 -> result < cn this /\\ src this result = index', 'result >= -1', 'a node is found if there is one:: result = -1 -> absent this index (cn this)', 'it is the first one:: result >= 0 -> absent this index result'],
        ghost={'after0': 'assert { !i = cn this };'}, loops=[dict(inv=['0 <= !i <= cn this', 'absent this index !i'], var=['cn this - !i'])])
    return F

def spec(T='char'):
    a = charclass.spec(T)
    F = functions(T)
    return dict(tu='''#include "CompositeATN.hpp"
#include "CharClass.cpp"
namespace Centaurus { template class CATNNode<%(T)s>; template class CATNMachine<%(T)s>; }
''' % dict(T=T),
        files=['CharClass.hpp', 'CharClass.cpp', 'NFA.hpp', 'ATN.hpp', 'Identifier.hpp', 'CompositeATN.hpp'],
        typenames=dict(a['typenames'], **{'NFATransition<%s>' % T: 'ntrans', 'NFABaseState<%s,int>' % T: 'nstate', 'NFABase<NFABaseState<%s,int>>' % T: 'nbase', 'NFA<%s>' % T: 'nfa',
            'ATNTransition<%s>' % T: 'atrans', 'ATNNode<%s>' % T: 'anode', 'ATNMachine<%s>' % T: 'amach', 'CATNNode<%s>' % T: 'cnode', 'CATNMachine<%s>' % T: 'cmach', 'Identifier': 'ident'}),
        tyaliases={'CATNTransition<%s>' % T: 'NFATransition<%s>' % T, 'NFAState<%s>' % T: 'NFABaseState<%s,int>' % T},
        types=a['types'] + ['NFATransition<%s>' % T, 'NFA<%s>' % T, 'ATNMachine<%s>' % T, 'CATNMachine<%s>' % T],
        preamble=a['preamble'] + PRE, functions=F)
