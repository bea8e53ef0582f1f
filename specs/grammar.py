"""Contracts for reading and checking whole grammars (src/core/Grammar.hpp, Grammar.cpp, Identifier.hpp, ATNMachine::verify_invocations)."""
import stream, charclass

FACTS = r'''
  (* ---- wide-character classification: the facts used hold in every locale *)
  function c_iswalpha (c : int) : int
  function c_iswalnum (c : int) : int
  axiom iswal_facts : c_iswalpha 0 = 0 /\ c_iswalpha 10 = 0 /\ c_iswalpha 13 = 0 /\ c_iswalnum 0 = 0 /\ c_iswalnum 10 = 0 /\ c_iswalnum 13 = 0
  val c_iswalpha (c : int) : int ensures { result = c_iswalpha c }
  val c_iswalnum (c : int) : int ensures { result = c_iswalnum c }
'''

PRE = r'''
  (* ---- std::wstring::compare (trusted), files and the encoder as uninterpreted functions *)
  val str_compare (s t : seq int) : int ensures { result = 0 <-> s = t }
  function c_contents (f : seq int) : seq int
  val c_contents (f : seq int) : seq int ensures { result = c_contents f }
  function c_narrow (s : seq int) : seq int
  val c_narrow (s : seq int) : seq int ensures { result = c_narrow s }
  function c_incpath (f p : seq int) : seq int
  val c_incpath (f p : seq int) : seq int ensures { result = c_incpath f p }
  (* ---- std::unordered_map<Identifier, ATNMachine> (trusted) *)
  predicate ghas (m : netmap) (k : ident)
  function gval (m : netmap) (k : ident) : amach
  function gsize (m : netmap) : int
  axiom gsize_nonneg : forall m. gsize m >= 0
  val constant gmempty : netmap ensures { (forall k. not (ghas result k)) /\ gsize result = 0 }
  val gcont_mem (k : ident) (m : netmap) : bool ensures { result <-> ghas m k }
  val gmget (m : netmap) (k : ident) : amach requires { [@expl:the rule is present] ghas m k } ensures { result = gval m k }
  val gminsert (m : netmap) (k : ident) (v : amach) : netmap
    ensures { forall x. ghas result x <-> ghas m x \/ x = k }
    ensures { forall x. ghas m x -> gval result x = gval m x } ensures { not (ghas m k) -> gval result k = v }
    ensures { gsize result = gsize m + if ghas m k then 0 else 1 }
  val gmap_elements (m : netmap) : seq (tup2 ident amach)
    ensures { length result = gsize m }
    ensures { forall k. 0 <= k < length result -> ghas m result[k].t20 /\ result[k].t21 = gval m result[k].t20 }
    ensures { forall x. ghas m x -> exists k. 0 <= k < length result /\ result[k].t20 = x }
  (* ---- names *)
  predicate leader (c : int) = c = 95 \/ c_iswalpha c <> 0
  predicate follow (c : int) = c = 95 \/ c_iswalnum c <> 0
  predicate isname (s : seq int) = length s > 0 /\ leader s[0] /\ forall k. 0 < k < length s -> follow s[k]
  predicate name_at (s : seq int) (a b : int) = 0 <= a < b <= length s /\ leader s[a] /\ (forall k. a < k < b -> follow s[k]) /\ not (follow (chat s b))
  function nam (i : ident) : seq int = i.ident__m_id
  (* the literals L"grammar" and L"include" *)
  val constant kw_grammar : seq int
  val constant kw_include : seq int
  axiom kw_differ : kw_grammar <> kw_include
  (* ---- what the text of a grammar defines, in order of appearance *)
  predicate body_text (s : seq int) (a b : int)     (* the text a rule's network was read from (ATNMachine's contract) *)
  inductive quoted (s : seq int) (a b : int) (p : seq int) =   (* b is behind the closing quote; characters as delivered by get() *)
    | quoted_end : forall s a. char1 s a = 34 -> quoted s a (next1 s a) empty
    | quoted_chr : forall s a b p. char1 s a <> 34 -> char1 s a <> 0 -> quoted s (next1 s a) b p -> quoted s a b (cons (char1 s a) p)
  inductive lists (f : seq int) (s : seq int) (a b : int) (l : seq (seq int)) =
    | lists_none : forall f s a. lists f s a a empty
    | lists_gap : forall f s a b c l. lists f s a b l -> gap s b c -> lists f s a c l
    | lists_rule : forall f s a b c d l. lists f s a b l -> name_at s b c -> s[b .. c] <> kw_grammar -> s[b .. c] <> kw_include ->
        body_text s c d -> lists f s a d (snoc l s[b .. c])
    | lists_grammar : forall f s a b c d e g l. lists f s a b l -> name_at s b c -> s[b .. c] = kw_grammar ->
        gap s c d -> name_at s d e -> gap s e g -> chat s g = 59 -> lists f s a (g + 1) l
    | lists_include : forall f s a b c d e g l p f2 e2 l2. lists f s a b l -> name_at s b c -> s[b .. c] = kw_include ->
        gap s c d -> chat s d = 34 -> quoted s (d + 1) e p -> gap s e g -> chat s g = 59 ->
        f2 = c_incpath f (c_narrow p) -> lists f2 (c_contents f2) 0 e2 l2 -> chat (c_contents f2) e2 = 0 -> lists f s a (g + 1) (l ++ l2)
  predicate defines (f : seq int) (l : seq (seq int)) = exists e. lists f (c_contents f) 0 e l /\ chat (c_contents f) e = 0
  predicate pquoted (s : seq int) (a b : int) (p : seq int) = forall e q. quoted s b e q -> quoted s a e (p ++ q)
  let ghost pq_start (s : seq int) (a : int) : unit ensures { pquoted s a a empty }
  = assert { forall q : seq int. empty ++ q == q }
  let ghost pq_step (s : seq int) (a b : int) (p : seq int) : unit
    requires { pquoted s a b p /\ char1 s b <> 34 /\ char1 s b <> 0 } ensures { pquoted s a (next1 s b) (snoc p (char1 s b)) }
  = let c = pure { char1 s b } in
    assert { forall q. snoc p c ++ q == p ++ cons c q };
    assert { forall e q. quoted s (next1 s b) e q -> quoted s b e (cons c q) }
  let ghost pq_end (s : seq int) (a b : int) (p : seq int) : unit
    requires { pquoted s a b p /\ char1 s b = 34 } ensures { quoted s a (next1 s b) p }
  = assert { p ++ empty == p }; assert { quoted s b (next1 s b) empty }
  (* ---- the grammar as an object: ids 1..n in order of the names, one network per name *)
  function ids (g : grammar) : seq ident = g.grammar__m_identifiers
  function nets (g : grammar) : netmap = g.grammar__m_networks
  predicate numbered (g : grammar) (k : int) = ghas (nets g) (ids g)[k] /\ (gval (nets g) (ids g)[k]).amach__m_globalid = k + 1 /\ isname (nam (ids g)[k])
  predicate listed (g : grammar) (x : ident) = exists k. 0 <= k < length (ids g) /\ (ids g)[k] = x
  predicate rooted (g : grammar) = if length (ids g) = 0 then nam g.grammar__m_root_id = empty else g.grammar__m_root_id = (ids g)[0]
  predicate gwf (g : grammar) = (forall k. 0 <= k < length (ids g) -> numbered g k) /\ (forall x. ghas (nets g) x -> listed g x)
    /\ gsize (nets g) = length (ids g) /\ rooted g
  let ghost gwf_add (g h : grammar) (x : ident) : unit
    requires { gwf g /\ isname (nam x) /\ not (ghas (nets g) x) /\ ids h = snoc (ids g) x /\ (gval (nets h) x).amach__m_globalid = length (ids g) + 1 }
    requires { (forall y. ghas (nets h) y <-> ghas (nets g) y \/ y = x) /\ (forall y. ghas (nets g) y -> gval (nets h) y = gval (nets g) y) /\ gsize (nets h) = gsize (nets g) + 1 }
    requires { h.grammar__m_root_id = if length (nam g.grammar__m_root_id) = 0 then x else g.grammar__m_root_id }
    ensures { gwf h }
  = assert { forall k. 0 <= k < length (ids g) -> (ids h)[k] = (ids g)[k] }; assert { (ids h)[length (ids g)] = x };
    assert { forall k. 0 <= k < length (ids g) -> numbered g k -> numbered h k };
    assert { numbered h (length (ids g)) };
    assert { forall y k. 0 <= k < length (ids g) -> (ids g)[k] = y -> (ids h)[k] = y };
    assert { forall y. listed g y -> listed h y }; assert { listed h x };
    assert { length (ids g) > 0 -> numbered g 0 }; assert { rooted g };
    assert { forall s : seq int. length s = 0 -> s == empty };
    assert { rooted h }
  let ghost gwf_same (g h : grammar) : unit requires { gwf g /\ nets h = nets g /\ ids h = ids g /\ h.grammar__m_root_id = g.grammar__m_root_id } ensures { gwf h }
  = assert { forall k. numbered g k -> numbered h k }; assert { forall y. listed g y -> listed h y }
  let ghost name_is (s : seq int) (a b : int) : unit requires { name_at s a b } ensures { isname s[a .. b] }
  = assert { forall k. 0 <= k < b - a -> s[a .. b][k] = s[a + k] }
  (* no two rules have one name: the ids differ *)
  let ghost ids_unique (g : grammar) (i j : int) : unit
    requires { gwf g /\ 0 <= i < length (ids g) /\ 0 <= j < length (ids g) /\ (ids g)[i] = (ids g)[j] } ensures { [@expl:no name has two ids] i = j }
  = assert { numbered g i /\ numbered g j }
  function names (s : seq ident) : seq (seq int)
  axiom names_len : forall s. length (names s) = length s
  axiom names_get : forall s k. 0 <= k < length s -> (names s)[k] = nam s[k]
  predicate added (s : seq ident) (l : seq (seq int)) (t : seq ident) = names t = names s ++ l
  let ghost added_none (s : seq ident) : unit ensures { added s empty s } = assert { names s ++ empty == names s }
  let ghost added_one (s t : seq ident) (l : seq (seq int)) (i : ident) : unit requires { added s l t } ensures { added s (snoc l (nam i)) (snoc t i) }
  = assert { names (snoc t i) == snoc (names t) (nam i) }; assert { snoc (names s ++ l) (nam i) == names s ++ snoc l (nam i) }
  let ghost added_more (s t u : seq ident) (l m : seq (seq int)) : unit requires { added s l t /\ added t m u } ensures { added s (l ++ m) u }
  = assert { (names s ++ l) ++ m == names s ++ (l ++ m) }
  (* ---- what has been read so far: the names up to position e of text s of file f were added to i0 *)
  predicate sofar (f s : seq int) (e : int) (i0 i : seq ident) = exists l. lists f s 0 e l /\ added i0 l i
  predicate fromfile (f : seq int) (i j : seq ident) = exists l. defines f l /\ added i l j
  lemma sofar_end : forall f e i0 i. sofar f (c_contents f) e i0 i -> chat (c_contents f) e = 0 -> fromfile f i0 i
  let lemma sofar_gap (f s : seq int) (b c : int) (i0 i : seq ident) : unit requires { sofar f s b i0 i /\ gap s b c } ensures { sofar f s c i0 i } = ()
  predicate wordat (s : seq int) (b a c : int) (w : seq int) = gap s b a /\ name_at s a c /\ w = s[a .. c]
  predicate rule_at (s : seq int) (b d : int) (w : seq int) = exists a c. wordat s b a c w /\ w <> kw_grammar /\ w <> kw_include /\ body_text s c d
  predicate title_at (s : seq int) (b d : int) = exists a c p q r. wordat s b a c kw_grammar /\ wordat s c p q s[p .. q] /\ gap s q r /\ chat s r = 59 /\ d = r + 1
  predicate inc_at (s : seq int) (b d : int) = exists a c p. wordat s b a c kw_include /\ gap s c p /\ chat s p = 34 /\ d = p + 1
  predicate inc_path (s : seq int) (b : int) (ch e : int) (p : seq int) = exists a q. inc_at s b a /\ pquoted s a q p /\ ch = char1 s q /\ e = next1 s q
  predicate inc_upto (s : seq int) (b e : int) (p : seq int) = exists a. inc_at s b a /\ quoted s a e p
  predicate include_at (s : seq int) (b d : int) (p : seq int) = exists e r. inc_upto s b e p /\ gap s e r /\ chat s r = 59 /\ d = r + 1
  let ghost took_rule (f s : seq int) (b d : int) (i0 i : seq ident) (x : ident) : unit
    requires { sofar f s b i0 i /\ rule_at s b d (nam x) } ensures { sofar f s d i0 (snoc i x) }
  = let l = any seq (seq int) ensures { lists f s 0 b result /\ added i0 result i } in
    let a, c = any (int, int) ensures { let (a, c) = result in wordat s b a c (nam x) /\ nam x <> kw_grammar /\ nam x <> kw_include /\ body_text s c d } in
    assert { lists f s 0 a l }; assert { lists f s 0 d (snoc l (nam x)) }; added_one i0 i l x
  let ghost took_title (f s : seq int) (b d : int) (i0 i : seq ident) : unit requires { sofar f s b i0 i /\ title_at s b d } ensures { sofar f s d i0 i }
  = let l = any seq (seq int) ensures { lists f s 0 b result /\ added i0 result i } in
    let a, c, p, q, r = any (int, int, int, int, int) ensures { let (a, c, p, q, r) = result in wordat s b a c kw_grammar /\ wordat s c p q s[p .. q] /\ gap s q r /\ chat s r = 59 /\ d = r + 1 } in
    assert { lists f s 0 a l }; assert { lists f s 0 d l }
  let ghost took_include (f s : seq int) (b d : int) (p f2 : seq int) (i0 i j : seq ident) : unit
    requires { sofar f s b i0 i /\ include_at s b d p /\ f2 = c_incpath f (c_narrow p) /\ fromfile f2 i j } ensures { sofar f s d i0 j }
  = let l = any seq (seq int) ensures { lists f s 0 b result /\ added i0 result i } in
    let m, z = any (seq (seq int), int) ensures { let (m, z) = result in lists f2 (c_contents f2) 0 z m /\ chat (c_contents f2) z = 0 /\ added i m j } in
    let e, r = any (int, int) ensures { let (e, r) = result in inc_upto s b e p /\ gap s e r /\ chat s r = 59 /\ d = r + 1 } in
    let a = any int ensures { inc_at s b result /\ quoted s result e p } in
    let w, c, o = any (int, int, int) ensures { let (w, c, o) = result in wordat s b w c kw_include /\ gap s c o /\ chat s o = 34 /\ a = o + 1 } in
    assert { lists f s 0 w l }; assert { lists f s 0 d (l ++ m) }; added_more i0 i j l m
  predicate stepd (f s : seq int) (b d : int) (i j : seq ident) =
    (exists x. rule_at s b d (nam x) /\ j = snoc i x) \/ (title_at s b d /\ j = i) \/ (exists p. include_at s b d p /\ fromfile (c_incpath f (c_narrow p)) i j)
  let ghost took (f s : seq int) (b d : int) (i0 i j : seq ident) : unit requires { sofar f s b i0 i /\ stepd f s b d i j } ensures { sofar f s d i0 j }
  = if pure { exists x. rule_at s b d (nam x) /\ j = snoc i x } then
      let x = any ident ensures { rule_at s b d (nam result) /\ j = snoc i result } in took_rule f s b d i0 i x
    else if pure { title_at s b d /\ j = i } then took_title f s b d i0 i
    else let p = any seq int ensures { include_at s b d result /\ fromfile (c_incpath f (c_narrow result)) i j } in took_include f s b d p (pure { c_incpath f (c_narrow p) }) i0 i j
  let ghost path_start (s : seq int) (b a : int) : unit requires { inc_at s b a } ensures { inc_path s b (char1 s a) (next1 s a) empty } = pq_start s a
  let ghost path_step (s : seq int) (b : int) (ch e : int) (p : seq int) : unit
    requires { inc_path s b ch e p /\ ch <> 34 /\ ch <> 0 } ensures { inc_path s b (char1 s e) (next1 s e) (snoc p ch) }
  = let a, q = any (int, int) ensures { let (a, q) = result in inc_at s b a /\ pquoted s a q p /\ ch = char1 s q /\ e = next1 s q } in pq_step s a q p
  let ghost path_end (s : seq int) (b : int) (ch e : int) (p : seq int) : unit
    requires { inc_path s b ch e p /\ ch = 34 } ensures { inc_upto s b e p }
  = let a, q = any (int, int) ensures { let (a, q) = result in inc_at s b a /\ pquoted s a q p /\ ch = char1 s q /\ e = next1 s q } in pq_end s a q p
  (* ---- calls of the listing callback *)
  val calls : ref (seq (tup2 (seq int) int))
  predicate called (c d : seq (tup2 (seq int) int)) (s : seq ident) (n : int) =
    length d = length c + n /\ (forall k. 0 <= k < length c -> d[k] = c[k]) /\ forall k. 0 <= k < n -> d[length c + k] = { t20 = nam s[k]; t21 = k + 1 }
  (* ---- rule uses *)
  predicate uses (a : amach) (x : ident) = exists k. 0 <= k < length a.amach__m_nodes /\ (a.amach__m_nodes[k]).anode__m_type = 1 /\ (a.amach__m_nodes[k]).anode__m_invoke = x
  predicate closed (m : netmap) (a : amach) = forall x. uses a x -> ghas m x
  predicate all_defined (m : netmap) = forall y. ghas m y -> closed m (gval m y)
'''

def sw(d): return {k: ([x.replace('swf ', 'swf_stream ') for x in v] if isinstance(v, list) and k in ('requires', 'ensures') else v) for k, v in d.items()}

def functions():
    sf = stream.functions()
    F = {}
    for k in ('stream_get', 'stream_peek', 'stream_discard', 'stream_skipws', 'stream_sentry', 'stream_cut', 'stream_make'):
        F[k] = dict(sw(sf[k]), trusted=True)
    for k in F:
        for x in ('loops', 'ghost'): F[k].pop(x, None)
    S, OS, C, OC = '(!stream).stream__m_str', '(old !stream).stream__m_str', '(!stream).stream__m_cur', '(old !stream).stream__m_cur'
    F['ident_eqs'] = dict(key='Identifier::operator==(const wchar_t *)', ensures=['compares the whole name:: result <-> nam this = str'])
    F['leader'] = dict(key='Identifier::is_symbol_leader', ensures=['a letter or an underscore:: result <-> leader ch'])
    F['char'] = dict(key='Identifier::is_symbol_char', ensures=['a letter, a digit or an underscore:: result <-> follow ch'])
    F['ident_parse'] = dict(key='Identifier::parse', requires=['swf_stream !stream'],
        ensures=['swf_stream !stream', '%s = %s' % (S, OS), 'a name up to its last character:: name_at %s %s %s' % (S, OC, C), 'the name is the text read:: nam !this = %s[%s .. %s]' % (S, OC, C)],
        raises=['CppThrow -> [@expl:only what does not start like a name is rejected] not (leader (char1 %s %s))' % (OS, OC)],
        ghost={'entry': 'let ghost s0 = %s in let ghost c0 = %s in' % (S, C)},
        loops=[dict(inv=['swf_stream !stream', '%s = s0' % S, 'c0 < %s <= length s0' % C, '!ch = chat s0 %s' % C, 'forall k. c0 < k < %s -> follow s0[k]' % C, '0 <= c0', 'leader s0[c0]'],
                    var=['length s0 - %s' % C])])
    F['ident_ctor'] = dict(key='Identifier::Identifier(Stream &)', requires=['swf_stream !stream'],
        ensures=['swf_stream !stream', '%s = %s' % (S, OS), 'name_at %s %s %s' % (S, OC, C), 'the name is the text read:: nam result = %s[%s .. %s]' % (S, OC, C)],
        raises=['CppThrow -> not (leader (char1 %s %s))' % (OS, OC)])
    F['atn_ctor'] = dict(key='ATNMachine<char>::ATNMachine(int, Stream &)', trusted=True, requires=['swf_stream !stream'],
        ensures=['swf_stream !stream', '%s = %s' % (S, OS), '%s <= %s' % (OC, C), 'body_text %s %s %s' % (S, OC, C), 'result.amach__m_globalid = id'], raises=['CppThrow -> true'])
    F['parse'] = dict(key='Grammar<char>::parse(const char *, int)', rec=True, diverges=True,
        requires=['gwf !this', 'ids already given:: machine_id = length (ids !this) + 1', 'machine_id <= 32768'],
        ensures=['consecutive ids from one, one network per rule, root first:: gwf !this', 'the next free id:: result = length (ids !this) + 1', 'ids have 15 bits:: result <= 32768',
                 'rules are numbered in order of appearance:: fromfile filename (ids (old !this)) (ids !this)'],
        raises=['CppThrow -> true'],
        ghost=dict({'entry': 'let ghost g0 = !this in let ghost i0 = pure { ids g0 } in let ghost s0 = pure { c_contents filename } in ' + ''.join('let ghost m%d = ref 0 in ' % k for k in range(6)) + 'let ghost mn = ref 0 in added_none i0;',
               'begin0': 'let ghost b0 = %s in let ghost t0 = !this in mn := 0;' % C,
               'before1': 'assert { !mn = 4 }; assert { wordat s0 b0 !m3 !m4 kw_include }; let ghost a = !m5 + 1 in assert { chat s0 !m5 = 34 /\\ gap s0 !m4 !m5 }; assert { 0 <= !m5 < length s0 /\\ s0[!m5] = 34 }; assert { next1 s0 !m5 = a }; assert { inc_at s0 b0 a }; assert { !ch = char1 s0 a /\\ %s = next1 s0 a }; path_start s0 b0 a;' % C,
               'begin1': 'let ghost e1 = %s in let ghost p1 = !wide_path in let ghost c1 = !ch in' % C, 'end1': 'path_step s0 b0 c1 e1 p1', 'after1': 'path_end s0 b0 !ch %s !wide_path; let ghost wp = !wide_path in assert { inc_upto s0 b0 %s wp }' % (C, C),
               'end0': '''let x1 = (if !mn = 3 then !m4 else !m1) in let x2 = (if !mn = 3 then !m5 else !m2) in
                 let w = pure { s0[x1 .. x2] } in let e = %(C)s in assert { gap s0 b0 x1 }; assert { name_at s0 x1 x2 }; assert { wordat s0 b0 x1 x2 w }; assert { b0 <= x1 < x2 <= e };
                 if !mn = 3 then begin
                   let x = pure { (ids !this)[length (ids t0)] } in name_is s0 x1 x2; assert { nam x = w }; gwf_add t0 !this x;
                   assert { rule_at s0 b0 e (nam x) }; took_rule filename s0 b0 e i0 (pure { ids t0 }) x
                 end else if pure { w = kw_grammar } then begin
                   assert { wordat s0 !m2 !m3 !m4 s0[!m3 .. !m4] }; assert { title_at s0 b0 e }; took_title filename s0 b0 e i0 (pure { ids t0 }); gwf_same t0 !this
                 end else begin
                   let p = any seq int ensures { inc_upto s0 b0 !m4 result /\\ fromfile (c_incpath filename (c_narrow result)) (ids t0) (ids !this) } in
                   assert { include_at s0 b0 e p }; took_include filename s0 b0 e p (pure { c_incpath filename (c_narrow p) }) i0 (pure { ids t0 }) (pure { ids !this }) end''' % dict(C=C)},
            **{'call:' + f: 'm0 := !m1; m1 := !m2; m2 := !m3; m3 := !m4; m4 := !m5; m5 := %s; mn := !mn + 1' % C for f in ('stream_skipws', 'ident_ctor', 'ident_parse', 'atn_ctor', 'stream_discard')}),
        loops=[dict(inv=['swf_stream !stream', '%s = s0' % S, 'gwf !this', '!machine_id = length (ids !this) + 1', '!machine_id <= 32768', 'sofar filename s0 %s i0 (ids !this)' % C],
                    var=['length s0 - %s' % C]),
               dict(inv=['swf_stream !stream', '%s = s0' % S, 'inc_path s0 b0 !ch %s !wide_path' % C, '!m5 <= %s' % C], var=['length s0 - %s' % C, 'if !ch = 0 then 0 else 1'])])
    F['move'] = dict(key='Grammar<char>::Grammar(Grammar<char> &&)', requires=['gwf old_'], ensures=['a move keeps names, ids, networks and root:: nets result = nets old_ /\\ ids result = ids old_ /\\ result.grammar__m_root_id = old_.grammar__m_root_id', 'gwf result'])
    F['uid'] = dict(key='ATNMachine<char>::get_unique_id', ensures=['result = this.amach__m_globalid'])
    F['lookup'] = dict(key='Grammar<char>::lookup_id', requires=['gwf this', '0 <= index < length (ids this)'], ensures=['names by number:: result = (ids this)[index]'])
    F['mid'] = dict(key='Grammar<char>::get_machine_id', requires=['gwf this', 'listed this id'],
        ensures=['looking the name of an id up gives the id:: 1 <= result <= length (ids this) /\\ (ids this)[result - 1] = id'],
        ghost={'entry': 'assert { exists k. 0 <= k < length (ids this) /\\ (ids this)[k] = id /\\ numbered this k };'})
    F['root_id'] = dict(key='Grammar<char>::get_root_id', requires=['gwf this'], ensures=['the first rule is the root:: length (ids this) > 0 -> result = (ids this)[0]'])
    F['rule_num'] = dict(key='Grammar<char>::get_machine_num', requires=['gwf this'], ensures=['one network per rule:: length (ids this) < 2147483648 -> result = length (ids this)'])
    F['net_at'] = dict(key='Grammar<char>::operator[]', requires=['gwf this', 'listed this id'], ensures=['result = gval (nets this) id'])
    F['list_rules'] = dict(key='Grammar<char>::enum_machines', requires=['gwf this', 'length (ids this) < 2147483648'],
        ensures=['every rule is listed once with its id:: called (old !calls) !calls (ids this) (length (ids this))'],
        ghost={'entry': 'let ghost c0 = !calls in'},
        loops=[dict(inv=['0 <= !i <= length (ids this)', 'called c0 !calls (ids this) !i'], var=['length (ids this) - !i'])])
    F['invoc'] = dict(key='ATNMachine<char>::verify_invocations', ensures=['holds exactly if every rule used is defined:: result <-> closed network this'],
        loops=[dict(inv=['forall k. 0 <= k < @ix -> (this.amach__m_nodes[k]).anode__m_type = 1 -> ghas network (this.amach__m_nodes[k]).anode__m_invoke'])])
    F['decisions'] = dict(key='CompositeATN<char>::verify_decisions', trusted=True)
    F['verify'] = dict(key='Grammar<char>::verify', ensures=['succeeds only if every rule used is defined:: result -> all_defined (nets this)'],
        loops=[dict(inv=['forall k. 0 <= k < @ix -> closed (nets this) @els[k].t21'])])
    return F

def spec():
    from cxx2why import V, Ty, par
    b = stream.spec(); a = charclass.spec('char'); T = 'char'
    def ctor(ctx, n, t, args):
        nm = repr(t) + str(n.get('type', {}))
        if 'basic_ifstream' in nm and len(args) >= 1: return ctx.E(args[0])
        if t.k == 'rec' and (t.name or '').split('::')[-1] in ('Encoder', 'CompositeATN<char>'): return V('(any %s)' % ctx.tr.wty(t), ctx.tr.canon(t), False)
        if 'istreambuf_iterator' in nm:
            if not args: return V('<default>', t)
            x = args[0]
            while x.get('kind') in ('ImplicitCastExpr', 'MaterializeTemporaryExpr', 'ExprWithCleanups', 'CXXFunctionalCastExpr'): x = x['inner'][0]
            return ctx.E(x)
        if 'basic_string<wchar_t' in nm and args and 'istreambuf_iterator' in str(args[0].get('type', {})):
            v = ctx.E(args[0]); return V('(c_contents %s)' % par(v.code), Ty('vec', args=[Ty('int', 'wchar_t')]), False)
        return None
    def incpath(ctx, n, args, me):
        u, v = ctx.E(args[0]), ctx.E(args[1]); return V('(c_incpath %s %s)' % (par(u.code), par(v.code)), Ty('vec', args=[Ty('int', 'char')]), False, state=True)
    def narrow(ctx, n, args, me):
        v = ctx.E(args[0]); return V('(c_narrow %s)' % par(v.code), Ty('vec', args=[Ty('int', 'char')]), False, state=True)
    def callback(ctx, n, args, me):
        u, v = ctx.E(args[0]), ctx.E(args[1]); return V('(calls := snoc !calls { t20 = %s; t21 = %s })' % (u.code, v.code), Ty('void'), False)
    hooks = dict(b['hooks'], callback=callback, **{'operator<<': lambda ctx, n, args, me: V('()', Ty('void'), False)}); hooks.update( make_include_path=incpath, wcstombs=narrow, toomany=b['hooks']['unexpected'])
    pre = FACTS + b['preamble'].replace('predicate swf (s : stream)', 'predicate swf_stream (s : stream)').replace('swf ', 'swf ')
    return dict(tu='#include "CompositeATN.hpp"\n#include "LookaheadDFA.hpp"\n#include "ATN.cpp"\n#include "Grammar.cpp"\n',
        files=['Stream.hpp', 'Identifier.hpp', 'ATN.hpp', 'ATN.cpp', 'Grammar.hpp', 'Grammar.cpp', 'NFA.hpp', 'CharClass.hpp'],
        typenames=dict(a['typenames'], **{'Stream': 'stream', 'Identifier': 'ident', 'NFATransition<%s>' % T: 'ntrans', 'NFABaseState<%s,int>' % T: 'nstate', 'NFABase<NFABaseState<%s,int>>' % T: 'nbase', 'NFA<%s>' % T: 'nfa',
            'ATNTransition<%s>' % T: 'atrans', 'ATNNode<%s>' % T: 'anode', 'ATNMachine<%s>' % T: 'amach', 'Grammar<%s>' % T: 'grammar'}),
        aliases=b['aliases'], iter_fields=b['iter_fields'], cstr=True, literals={'grammar': 'kw_grammar', 'include': 'kw_include'}, ctor_hook=ctor,
        tyaliases={'NFAState<%s>' % T: 'NFABaseState<%s,int>' % T, 'std::basic_ifstream<wchar_t>': 'std::basic_string<char>', 'basic_ifstream<wchar_t>': 'std::basic_string<char>'},
        drop_fields={'Grammar<char>': ('m_options', 'base:IGrammar'), 'CompositeATN<char>': ('m_dict', 'm_root_id', 'm_terminal_id')},
        containers={'(fmap ident amach)': ['netmap', 'g']},
        pretypes='  type netmap\n', types=['Stream', 'Grammar<char>'], preamble=pre + PRE, hooks=hooks, functions=F_all())
def F_all(): return functions()
