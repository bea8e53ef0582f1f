"""Contracts for chunk reduction and combination (Stage2RunnerNonRecursive.hpp, Stage3RunnerNonRecursive.hpp)."""
import runner

PRE = '''
  (* ---- environment: the action, the trace words, the published partial results *)
  val ghost calls : ref (seq call)
  val listener (id s e : int) (vals : seq int) (off n : int) : int
    requires { [@expl:the values passed lie inside the value stack] 0 <= off /\\ 0 <= n /\\ off + n <= length vals }
    ensures { let c = { c_id = id; c_start = s; c_end = e; c_vals = vals[off .. off + n] } in result = act c /\\ !calls = snoc (old !calls) c }
    writes { calls }
  val words : ref (heap int)
  val ghost wlo : ref int   (* the part of the word memory the code may touch *)
  val ghost whi : ref int
  let hread (h : heap int) (p : int) : int
    requires { [@expl:reads inside the chunk] !wlo <= p < !whi } ensures { result = hget h p } = hget h p
  let hwrite (h : heap int) (p : int) (v : int) : heap int
    requires { [@expl:writes inside the chunk] !wlo <= p < !whi } ensures { result = hset h p v } = hset h p v
  type stacks = tup4 (seq cstmarker) (seq cstmarker) (seq int) (seq int)
  val tups : ref (heap stacks)
  val tups_alloc (v : stacks) : int
    writes { tups } ensures { hget !tups result = v } ensures { forall p. p <> result -> hget !tups p = hget (old !tups) p } ensures { result <> 0 }
  predicate swf (s : stacks) = wf s.t40 s.t41 s.t42 s.t43
  function srend (s : stacks) : seq tok = rend s.t40 s.t41 s.t42 s.t43
  predicate marker (w : int) = u64 w /\\ w <> 0 /\\ w_id w <> 0
  function tok_of (w : int) : tok = if w_sgn w then TS w else TE w
  let lemma w_layout (w : int) : unit
    requires { u64 w } ensures { 0 <= w_id w < 32768 } ensures { 0 <= w_off w < two48 }
  = let ghost q = ED.div w two48 in assert { w = two48 * q + w_off w /\\ 0 <= w_off w < two48 }
  let lemma sign_bit (w : int) : unit
    requires { u64 w } ensures { ED.mod (ED.div w two63) 2 = 1 <-> w_sgn w }
  = assert { w < two63 -> ED.div w two63 = 0 }; assert { w >= two63 -> ED.div w two63 = 1 }
  function ctoks (ch : seq int) : seq tok = create (length ch) (fun j -> tok_of ch[j])
  (* the chunk's words lie at src, followed by a zero word if the bank is not full *)
  predicate chunk_at (h : heap int) (src : int) (ch : seq int) (cap : int) =
    length ch <= cap /\\ (forall j. 0 <= j < length ch -> hget h (src + j) = ch[j] /\\ marker ch[j]) /\\ (length ch < cap -> hget h (src + length ch) = 0)
  let ghost calls_step (c0 : seq call) (w : seq tok) (i : int) : unit
    requires { 0 <= i < length w }
    ensures { (c0 ++ foldc empty w i) ++ stepc (foldk empty w i) w[i] = c0 ++ foldc empty w (i + 1) }
    ensures { stepc (foldk empty w i) w[i] = empty -> c0 ++ foldc empty w i = c0 ++ foldc empty w (i + 1) }
  = let a = pure { foldc empty w i } in let b = pure { stepc (foldk empty w i) w[i] } in
    assert { foldc empty w (i + 1) = a ++ b };
    assert { (c0 ++ a) ++ b == c0 ++ (a ++ b) };
    assert { b = empty -> a ++ b == a }
  predicate u64s (s : seq cstmarker) = forall j. 0 <= j < length s -> u64 s[j].cstmarker__m_value
'''

T = dict(st='!starts', en='!ends', va='!values', t='!tags')

def common():
    F = runner.marker_functions()
    F.pop('m_ptr')
    for k in ('m_id', 'm_sign', 'm_start', 'm_end', 'm_sv', 'm_off'):
        F[k].pop('is_pure', None)
    g = ['en : seq cstmarker', 'va : seq int']
    F['push_start'] = dict(key='NonRecursiveReductionRunner::push_start_marker', ghost_params=['en : seq cstmarker', 'va : seq int'], ghost_args=['GEN', 'GVA'],
        requires=['wf !starts en va !tags', 'u64s !starts', 'u64 marker.cstmarker__m_value'],
        ensures=['!starts = snoc (old !starts) marker', '!tags = snoc (old !tags) (-1)', 'wf !starts en va !tags', 'u64s !starts',
                 'begin marker goes on the stack:: rend !starts en va !tags = snoc (rend (old !starts) en va (old !tags)) (TS marker.cstmarker__m_value)'],
        ghost={'entry': 'rep_start !starts en va !tags marker;'})
    F['push_end'] = dict(key='NonRecursiveReductionRunner::push_end_marker', ghost_params=['st : seq cstmarker', 'va : seq int'], ghost_args=['GST', 'GVA'],
        requires=['wf st !ends va !tags', 'length st = 0', 'u64s !ends', 'u64 marker.cstmarker__m_value'],
        ensures=['!ends = snoc (old !ends) marker', '!tags = snoc (old !tags) 0', 'wf st !ends va !tags', 'u64s !ends',
                 'unmatched end marker is kept in order:: rend st !ends va !tags = snoc (rend st (old !ends) va (old !tags)) (TE marker.cstmarker__m_value)'],
        ghost={'entry': 'rep_end st !ends va !tags marker;'})
    F['push_value'] = dict(key='NonRecursiveReductionRunner::push_value', ghost_params=['st : seq cstmarker', 'en : seq cstmarker'], ghost_args=['GST', 'GEN'],
        requires=['wf st en !values !tags'],
        ensures=['wf st en !values !tags',
                 'a non-zero value goes on the stack, zero leaves it:: rend st en !values !tags = push (rend st en (old !values) (old !tags)) val_'],
        ghost={'entry': 'rep_value st en !values !tags val_;'})
    F['reduce'] = dict(ghost_env=dict(GST='!starts', GEN='en'), key='NonRecursiveReductionRunner::reduce_by_end_marker', ghost_params=['en : seq cstmarker'], ghost_args=['GEN'],
        requires=['wf !starts en !values !tags', 'u64s !starts', 'u64 marker.cstmarker__m_value',
                  'closes_top (rend !starts en !values !tags) marker.cstmarker__m_value'],
        ensures=['wf !starts en !values !tags', 'u64s !starts',
                 'the instance is replaced by its value:: rend !starts en !values !tags = stepk (rend (old !starts) en (old !values) (old !tags)) (TE marker.cstmarker__m_value)',
                 'one call, with id, offsets and child values:: !calls = old !calls ++ stepc (rend (old !starts) en (old !values) (old !tags)) (TE marker.cstmarker__m_value)'],
        ghost={'entry': '''render_lasts !starts en !values !tags (length !tags);
            rep_reduce !starts en !values !tags;
            let ghost k0 = pure { rend !starts en !values !tags } in let ghost c0 = !calls in let ghost va0 = !values in let ghost t0 = !tags in
            assert { topc t0 >= 1 -> length va0 - topc t0 + topc t0 = length va0 };
            assert { stepc k0 (TE marker.cstmarker__m_value) = snoc empty (mkcall k0 marker.cstmarker__m_value) };
            assert { c0 ++ snoc empty (mkcall k0 marker.cstmarker__m_value) == snoc c0 (mkcall k0 marker.cstmarker__m_value) };'''})
    return F

def stage2():
    F = common()
    S = '(hget !tups !ptr)'
    CAP = 'CD.div (!this).stage2__base.nrr__base.baserunner__m_bank_size 8'
    W = '(ctoks ch)'
    F['reduce_bank'] = dict(key='Stage2Runner::reduce_bank', ghost_params=['ch : seq int'],
        ghost_env=dict(GST=S + '.t40', GEN=S + '.t41', GVA=S + '.t42'),
        requires=['(!this).stage2__base.nrr__base.baserunner__m_bank_size >= 8', 'chunk_at !words src ch (%s)' % CAP, '!wlo = src /\\ !whi = src + ' + CAP,
                  'locally_nested %s' % W],
        ensures=['what is left represents the unreduced remainder:: let p = hget !words src in swf (hget !tups p) /\\ srend (hget !tups p) = residue %s' % W,
                 'exactly the reductions of the chunk, in order:: !calls = old !calls ++ runc empty %s' % W,
                 'let p = hget !words src in u64s (hget !tups p).t40 /\\ u64s (hget !tups p).t41',
                 'only its own result is touched:: let p = hget !words src in (forall q. q <> p -> hget !tups q = hget (old !tups) q) /\\ (forall q. q <> src -> hget !words q = hget (old !words) q)'],
        loops=[dict(inv=['0 <= !i <= length ch', 'swf %s' % S, 'srend %s = foldk empty %s !i' % (S, W), '!calls = c0 ++ foldc empty %s !i' % W, 'u64s %s.t40 /\\ u64s %s.t41' % (S, S),
                         'forall q. q <> !ptr -> hget !tups q = hget tups0 q', '!words = words0', '!this = this0'],
                    var=['length ch - !i'])],
        ghost={'entry': 'let ghost c0 = !calls in let ghost tups0 = !tups in let ghost words0 = !words in let ghost this0 = !this in assert { c0 ++ empty == c0 };',
               'begin0': '''if pure { !i < length ch } then begin
                   let ghost s = pure { %s } in
                   render_lasts s.t40 s.t41 s.t42 s.t43 (length s.t43);
                   assert { %s[!i] = tok_of ch[!i] };
                   calls_step c0 (pure { %s }) !i end;''' % (S, W, W)})
    return F

PRE3 = '''
  (* ---- the chunks written by stage 1 and the partial results published by stage 2 *)
  val constant the_chunks : chunks
  axiom some_chunk : length the_chunks >= 1
  function slot (i : int) : int                    (* address of the i-th partial result *)
  axiom slots_apart : forall i j. slot i = slot j -> i = j
  val ghost taken : ref int
  (* acquire_bank: the chunks in order, then NULL (P14) *)
  val acquire (u : int) : int
    requires { [@expl:the bank held is given back before the next is taken] !wlo = !whi }
    writes { taken, wlo, whi }
    ensures { if old !taken < length the_chunks
              then !taken = old !taken + 1 /\\ result <> 0 /\\ !wlo = result /\\ !whi = result + 1 /\\ hget !words result = slot (old !taken)
              else !taken = old !taken /\\ result = 0 /\\ !wlo = !whi }
  val release (u : int) : unit writes { whi } ensures { !whi = !wlo }   (* the bank may not be read any more *)
  predicate published (s : stacks) (w : seq tok) = swf s /\\ srend s = residue w /\\ u64s s.t40 /\\ u64s s.t41
  function trace : seq tok = joined the_chunks (length the_chunks)
  function srender (s : stacks) (ix : int) : seq tok = render s.t40 s.t41 s.t42 s.t43 ix

  (* what one tag of a partial result stands for *)
  let ghost step_tag (k0 ch : seq tok) (s : stacks) (ix : int) : unit
    requires { published s ch } requires { nested_from k0 ch } requires { 0 <= ix < length s.t43 }
    ensures { s.t43[ix] >= -1 }
    ensures { cs s.t43 (ix + 1) = cs s.t43 ix + (if s.t43[ix] = -1 then 1 else 0) }
    ensures { ce s.t43 (ix + 1) = ce s.t43 ix + (if s.t43[ix] = 0 then 1 else 0) }
    ensures { cv s.t43 (ix + 1) = cv s.t43 ix + (if s.t43[ix] > 0 then s.t43[ix] else 0) }
    ensures { 0 <= cs s.t43 ix /\\ cs s.t43 (ix + 1) <= length s.t40 }
    ensures { 0 <= ce s.t43 ix /\\ ce s.t43 (ix + 1) <= length s.t41 }
    ensures { 0 <= cv s.t43 ix /\\ cv s.t43 (ix + 1) <= length s.t42 }
    ensures { let k = run k0 (srender s ix) in let k1 = run k0 (srender s (ix + 1)) in
              let c = runc k0 (srender s ix) in let c1 = runc k0 (srender s (ix + 1)) in
              (s.t43[ix] = -1 -> let m = s.t40[cs s.t43 ix].cstmarker__m_value in u64 m /\\ k1 = snoc k (TS m) /\\ c1 = c) /\\
              (s.t43[ix] = 0 -> let m = s.t41[ce s.t43 ix].cstmarker__m_value in u64 m /\\ closes_top k m /\\ lastb k >= 0 /\\ k1 = stepk k (TE m) /\\ c1 = c ++ stepc k (TE m)) /\\
              (s.t43[ix] > 0 -> k1 = k ++ vtoks s.t42 (cv s.t43 ix) s.t43[ix] /\\ c1 = c) }
  = let t = s.t43 in let x = t[ix] in
    let r = pure { srender s ix } in let r1 = pure { srender s (ix + 1) } in
    counts_mono t (ix + 1) (length t);
    assert { x >= -1 };
    residue_nested k0 ch;
    let f = pure { srend s } in
    render_prefix s.t40 s.t41 s.t42 t (ix + 1) (length t);
    render_prefix s.t40 s.t41 s.t42 t ix (ix + 1);
    let ghost k = pure { run k0 r } in let ghost c = pure { runc k0 r } in
    if x = -1 then begin
      let m = pure { s.t40[cs t ix].cstmarker__m_value } in
      assert { r1 = snoc r (TS m) }; run_snoc k0 r (TS m); sq_empty c
    end else if x = 0 then begin
      let m = pure { s.t41[ce t ix].cstmarker__m_value } in
      assert { r1 = snoc r (TE m) }; run_snoc k0 r (TE m);
      assert { f[length r] = r1[length r] = TE m };
      assert { is_e f[length r] };
      fold_prefix k0 f r (length r)
    end else begin
      let q = pure { vtoks s.t42 (cv t ix) x } in
      assert { r1 = r ++ q };
      assert { forall j. 0 <= j < length q -> not (is_e q[j]) };
      run_cat k0 r q; noend_all k q; sq_empty c
    end
  let ghost assoc (a b c : seq 'a) : unit ensures { (a ++ b) ++ c = a ++ (b ++ c) } = assert { (a ++ b) ++ c == a ++ (b ++ c) }
  (* the first partial result is the stack of the serial pass itself *)
  let ghost first_chunk (s : stacks) : unit
    requires { nested_from empty trace } requires { published s the_chunks[0] }
    ensures { length s.t41 = 0 } ensures { srend s = combined the_chunks 1 } ensures { combc the_chunks 1 = empty }
  = cut_nested the_chunks (length the_chunks);
    let w = the_chunks[0] in
    assert { combined the_chunks 0 = empty };
    let r = pure { residue w } in
    nested_no_e empty w (length w);
    render_no_e s.t40 s.t41 s.t42 s.t43 (length s.t43);
    noend_all empty r; sq_empty r;
    assert { combined the_chunks 1 = run empty r };
    assert { combc the_chunks 1 = combc the_chunks 0 ++ runc (combined the_chunks 0) r }
  let ghost final_stack (s : stacks) : unit
    requires { swf s } requires { let k = srend s in length k <= 1 /\\ (forall j. 0 <= j < length k -> is_val k[j]) }
    ensures { length s.t40 = 0 /\\ length s.t41 = 0 /\\ length s.t42 <= 1 /\\ length s.t43 <= 1 }
    ensures { length (srend s) = length s.t42 } ensures { length s.t42 = 1 -> s.t42[0] = tokval (srend s)[0] }
  = let t = s.t43 in
    render_len s.t40 s.t41 s.t42 t (length t);
    if length t = 1 then begin
      let k = pure { srend s } in
      assert { k = srender s 1 }; assert { srender s 0 = empty };
      assert { cs t 0 = 0 /\\ ce t 0 = 0 /\\ cv t 0 = 0 };
      assert { t[0] = -1 -> k = snoc empty (TS s.t40[0].cstmarker__m_value) /\\ k[0] = TS s.t40[0].cstmarker__m_value /\\ not (is_val k[0]) };
      assert { t[0] = 0 -> k = snoc empty (TE s.t41[0].cstmarker__m_value) /\\ k[0] = TE s.t41[0].cstmarker__m_value /\\ not (is_val k[0]) };
      let q = pure { vtoks s.t42 0 t[0] } in
      assert { t[0] > 0 -> k = empty ++ q }; sq_empty q;
      assert { t[0] > 0 -> length q = t[0] };
      assert { t[0] > 0 -> q[0] = TV s.t42[0] }
    end
  let ghost grow (x v : seq int) (a j : int) : unit
    requires { 0 <= a /\\ 0 <= j /\\ a + j < length v }
    ensures { snoc (x ++ v[a .. a + j]) v[a + j] = x ++ v[a .. a + (j + 1)] }
  = let u = snoc (x ++ v[a .. a + j]) v[a + j] in let w = x ++ v[a .. a + (j + 1)] in
    assert { length u = length w };
    assert { forall i. 0 <= i < length x -> u[i] = x[i] /\\ w[i] = x[i] };
    assert { forall i. length x <= i < length x + j -> u[i] = v[a + (i - length x)] /\\ w[i] = v[a + (i - length x)] };
    assert { u[length x + j] = v[a + j] /\\ w[length x + j] = v[a + j] };
    assert { u == w }
  let ghost vtoks_slice (v : seq int) (a n : int) : unit
    requires { 0 <= a /\\ 0 <= n /\\ a + n <= length v }
    ensures { vtoks v[a .. a + n] 0 n = vtoks v a n } ensures { length v[a .. a + n] = n }
  = let x = v[a .. a + n] in
    let p = pure { vtoks x 0 n } in let q = pure { vtoks v a n } in
    assert { length p = n /\\ length q = n };
    assert { forall j. 0 <= j < n -> p[j] = TV x[0 + j] /\\ q[j] = TV v[a + j] /\\ x[j] = v[a + j] };
    assert { p == q }
'''

def stage3():
    F = common()
    N = 'length the_chunks'
    B = '(hget !tups (slot 0))'
    S2 = '(hget tups0 (slot (!taken - 1)))'
    K0 = '(combined the_chunks (!taken - 1))'
    W = '(srender %s @ix)' % S2
    OTHER = 'forall q. q <> slot 0 -> hget !tups q = hget tups0 q'
    F['reduce_all'] = dict(key='Stage3Runner::reduce',
        ghost_env=dict(GST=B + '.t40', GEN=B + '.t41', GVA=B + '.t42'),
        requires=['!taken = 0', '!wlo = !whi', 'parse_trace trace', 'forall i. 0 <= i < %s -> published (hget !tups (slot i)) the_chunks[i]' % N],
        ensures=['every partial result is consumed:: !taken = %s' % N,
                 'the final value is the serial one:: result = (let k = run empty trace in if length k = 0 then 0 else tokval k[0])',
                 'the combining pass makes exactly the calls left over by the chunks:: !calls = old !calls ++ combc the_chunks (%s)' % N,
                 'with the reductions of the chunks, exactly the serial reductions:: forall c. own c the_chunks (%s) + bag c (combc the_chunks (%s)) = bag c (runc empty trace)' % (N, N)],
        loops=[dict(inv=['!wlo = !whi', '1 <= !taken <= ' + N, 'swf %s' % B, 'srend %s = combined the_chunks !taken' % B, 'u64s %s.t40' % B, 'length %s.t41 = 0' % B,
                         '!calls = c0 ++ combc the_chunks !taken', OTHER], var=[N + ' - !taken']),
               dict(inv=['2 <= !taken <= ' + N, 'swf %s' % B, 'srend %s = run %s %s' % (B, K0, W), 'u64s %s.t40' % B, 'length %s.t41 = 0' % B,
                         '!calls = c0 ++ (combc the_chunks (!taken - 1) ++ runc %s %s)' % (K0, W), OTHER,
                         '!starts_next_it = cs %s.t43 @ix' % S2, '!ends_next_it = ce %s.t43 @ix' % S2, '!values_next_it = cv %s.t43 @ix' % S2], var=[]),
               dict(inv=['0 <= @ix <= s2.t43[ix]', '!values_next_it = cv s2.t43 ix + @ix', OTHER,
                         '%s.t42 = b1.t42 ++ s2.t42[cv s2.t43 ix .. cv s2.t43 ix + @ix]' % B,
                         '%s.t40 = b2.t40 /\\ %s.t41 = b2.t41 /\\ %s.t43 = b2.t43' % (B, B, B)], var=['s2.t43[ix] - @ix'])],
        ghost={'entry': '''let ghost c0 = !calls in let ghost tups0 = !tups in
               cut_nested the_chunks (length the_chunks); sq_empty c0; first_chunk (pure { hget tups0 (slot 0) });
               parallel_serial the_chunks (pure { trace });''',
               'begin1': '''let ghost ix = @ix in let ghost b1 = pure { %s } in let ghost s2 = pure { %s } in let ghost ch = pure { the_chunks[!taken - 1] } in
               let ghost k0 = pure { %s } in let ghost cc = pure { combc the_chunks (!taken - 1) } in let ghost cr = pure { runc k0 (srender s2 ix) } in
               let ghost kk = pure { srend b1 } in
               assert { hget !tups (slot (!taken - 1)) = s2 };
               step_tag k0 ch s2 ix;
               if pure { s2.t43[ix] = 0 } then begin let m = pure { s2.t41[ce s2.t43 ix].cstmarker__m_value } in
                  render_lasts b1.t40 b1.t41 b1.t42 b1.t43 (length b1.t43);
                  assoc cc cr (pure { stepc kk (TE m) }); assoc c0 (pure { cc ++ cr }) (pure { stepc kk (TE m) }) end;''' % (B, S2, K0),
               'before2': 'let ghost b2 = pure { %s } in let ghost n2 = pure { s2.t43[ix] } in let ghost xs = pure { s2.t42[cv s2.t43 ix .. cv s2.t43 ix + n2] } in sq_empty b1.t42; assert { s2.t42[cv s2.t43 ix .. cv s2.t43 ix + 0] == empty };' % B +
                  'let ghost tt = b1.t43 in let ghost tn = pure { if length tt > 0 /\\ tt[length tt - 1] > 0 then set tt (length tt - 1) (tt[length tt - 1] + n2) else snoc tt n2 } in '
                  'assert { b2.t40 = b1.t40 /\\ b2.t41 = b1.t41 /\\ b2.t42 = b1.t42 }; assert { b2.t43 = tn };',
               'begin2': 'grow b1.t42 s2.t42 (pure { cv s2.t43 ix }) @ix;',
               'after2': ('vtoks_slice s2.t42 (pure { cv s2.t43 ix }) n2; rep_append b1.t40 b1.t41 b1.t42 b1.t43 xs;'
                  'assert { n2 = length xs /\\ n2 > 0 }; assert { #.t42 = b1.t42 ++ xs };'
                                    'assert { wf b1.t40 b1.t41 (b1.t42 ++ xs) tn }; assert { rend b1.t40 b1.t41 (b1.t42 ++ xs) tn = kk ++ vtoks xs 0 n2 }; assert { vtoks xs 0 n2 = vtoks s2.t42 (cv s2.t43 ix) n2 };'
                  'assert { swf # }; assert { srend # = srend b1 ++ vtoks s2.t42 (cv s2.t43 ix) n2 };').replace('#', B),
               'end1': ('assert { swf # }; assert { u64s #.t40 }; assert { srend # = run k0 (srender s2 (ix + 1)) }; assert { ' + OTHER + ' };').replace('#', B),
               })
    return F

def listener_hook():
    from cxx2why import V, Ty, par
    def h(ctx, n, args, me):
        if len(args) != 4: return None
        sym = ctx.E(args[0])
        p = sym.addr.read()
        v = ctx.E(args[1]); k = ctx.E(args[2])
        if v.cont is None: return None
        return V('(let sy = %s in listener sy.symbolentry__id sy.symbolentry__start sy.symbolentry__end %s %s %s)' % (p, par(v.cont.read()), par(v.code), par(k.code)), Ty('int', 'long'), pure=False, state=True)
    def inc(ctx, n, args, me):
        if 'atomic' in str(args[0].get('type', {})): return V('()', Ty('int', 'int'), pure=True)
        return None
    def acq(ctx, n, args, me):
        return V('(acquire 0)', Ty('ptr', 'void', []), pure=False, state=True)
    def rel(ctx, n, args, me):
        return V('(release 0)', Ty('void', 'void'), pure=False, state=True)
    return {'acquire_bank': acq, 'release_bank': rel, 'm_listener': listener_hook_guard(h), 'operator++': inc}
def listener_hook_guard(h): return h

def spec(what='stage2'):
    F = stage2() if what == 'stage2' else stage3()
    drop = {'BaseRunner': ('base:BaseListener', 'm_thread', 'm_slave_lock', 'm_memory_name', 'm_slave_lock_name'),
            'NonRecursiveReductionRunner': ('m_listener', 'm_xferlistener', 'm_listener_context')}
    types = ['CSTMarker', 'Stage2Runner' if what == 'stage2' else 'Stage3Runner']
    return dict(tu='#include <tuple>\n#include "BaseRunner.hpp"\n#include "Stage3RunnerNonRecursive.hpp"\nusing namespace Centaurus;\n',
        files=['BaseRunner.hpp', 'BaseListener.hpp', 'Stage2RunnerNonRecursive.hpp', 'Stage3RunnerNonRecursive.hpp'],
        typenames={'CSTMarker': 'cstmarker', 'BaseRunner': 'baserunner', 'SymbolEntry': 'symbolentry', 'Stage2Runner': 'stage2', 'Stage3Runner': 'stage3', 'NonRecursiveReductionRunner': 'nrr', 'BaseRunner::WindowBankEntry': 'bankentry'},
        uses=['reduction.Reduction', 'stl.Heap'], extern_types={'CSTMarker': 'type cstmarker = { cstmarker__m_value : int }'},
        heaps={'int': 'words', '(tup4 (seq cstmarker) (seq cstmarker) (seq int) (seq int))': 'tups'}, heap_ops={'words': ('hread', 'hwrite')},
        tyaliases={'semantic_value_type': 'unsigned long'}, preamble=PRE + (PRE3 if what == 'stage3' else ''), types=types, functions=F, hooks=listener_hook(), drop_fields=drop)
