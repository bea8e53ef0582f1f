"""Contracts for the hand-over of buffer banks between the stages (Stage1Runner.hpp, Stage2RunnerNonRecursive.hpp, Stage3RunnerNonRecursive.hpp).

Rely/guarantee: before every atomic operation of one stage the others may have made any number of their own moves
(env: the rely of this stage); every operation of the stage has to be one of the moves this stage is allowed (its guarantee).
That each guarantee lies inside the rely of every other stage, and keeps the invariant, is proved as lemmas.
"""
PRE = r'''
  use map.Map as MP
  (* ---- the shared control part: state and number per bank; the rest is ghost *)
  type sh = { st : MP.map int int; num : MP.map int int;
              own : MP.map int int;   (* which worker holds a bank being reduced *)
              c1 : int; c3 : int;     (* chunks written / taken for combination so far *)
              b1 : int; b3 : int;     (* bank held by stage 1 / stage 3, -1 if none *)
              wh : MP.map int int;    (* bank of each chunk that is written and not yet taken for combination *)
              fin : bool }            (* the end signal has been given *)
  constant s_free : int = 0  constant s_writing : int = 1  constant s_written : int = 2  constant s_reducing : int = 3
  constant s_reduced : int = 4  constant s_combining : int = 5  constant s_done : int = 6
  val constant nb : int ensures { 1 <= result }
  val constant base : int
  axiom nb_pos : 1 <= nb
  predicate bank (i : int) = 0 <= i < nb
  predicate mid (x : int) = x = s_written \/ x = s_reducing \/ x = s_reduced
  function stt (s : sh) (i : int) : int = MP.get s.st i
  function nm (s : sh) (i : int) : int = MP.get s.num i
  predicate inv (s : sh) =
    0 <= s.c3 <= s.c1 /\
    (forall i. bank i -> 0 <= stt s i <= 6) /\
    (forall i. bank i -> stt s i = s_writing -> i = s.b1) /\
    (s.b1 <> -1 -> bank s.b1 /\ stt s s.b1 = s_writing) /\
    (forall i. bank i -> stt s i = s_combining -> i = s.b3) /\
    (s.b3 <> -1 -> bank s.b3 /\ stt s s.b3 = s_combining /\ nm s s.b3 = s.c3 - 1) /\
    (forall i. bank i -> mid (stt s i) -> s.c3 <= nm s i < s.c1 /\ MP.get s.wh (nm s i) = i) /\
    (forall k. s.c3 <= k < s.c1 -> let i = MP.get s.wh k in bank i /\ mid (stt s i) /\ nm s i = k) /\
    (s.fin -> s.c1 = s.c3 /\ s.b1 = -1 /\ s.b3 = -1 /\ (forall i. bank i -> stt s i = s_free \/ stt s i = s_done)) /\
    (not s.fin -> forall i. bank i -> stt s i <> s_done)

  (* ---- the moves each stage may make *)
  function put (s : sh) (i v : int) : sh = { s with st = MP.set s.st i v }
  predicate g1_take (s t : sh) (i : int) = bank i /\ stt s i = s_free /\ s.b1 = -1 /\ not s.fin /\ t = { (put s i s_writing) with b1 = i }
  predicate g1_number (s t : sh) (v : int) = s.b1 <> -1 /\ t = { s with num = MP.set s.num s.b1 v }
  predicate g1_publish (s t : sh) = s.b1 <> -1 /\ nm s s.b1 = s.c1 /\ t = { (put s s.b1 s_written) with b1 = -1; wh = MP.set s.wh s.c1 s.b1; c1 = s.c1 + 1 }
  predicate g1_drop (s t : sh) = s.b1 <> -1 /\ t = { (put s s.b1 s_free) with b1 = -1 }
  predicate g1_finish (s t : sh) (i : int) = bank i /\ s.b1 = -1 /\ (forall j. bank j -> stt s j = s_free \/ stt s j = s_done) /\ t = { (put s i s_done) with fin = true }
  predicate g2_take (s t : sh) (w i : int) = bank i /\ stt s i = s_written /\ t = { (put s i s_reducing) with own = MP.set s.own i w }
  predicate g2_publish (s t : sh) (w i : int) = bank i /\ stt s i = s_reducing /\ MP.get s.own i = w /\ t = put s i s_reduced
  predicate g3_take (s t : sh) (i : int) = bank i /\ stt s i = s_reduced /\ nm s i = s.c3 /\ s.b3 = -1 /\ t = { (put s i s_combining) with b3 = i; c3 = s.c3 + 1 }
  predicate g3_free (s t : sh) = s.b3 <> -1 /\ t = { (put s s.b3 s_free) with b3 = -1 }
  predicate step1 (s t : sh) = (exists i. g1_take s t i) \/ (exists v. g1_number s t v) \/ g1_publish s t \/ g1_drop s t \/ (exists i. g1_finish s t i)
  predicate step2 (s t : sh) (w : int) = (exists i. g2_take s t w i) \/ (exists i. g2_publish s t w i)
  predicate step3 (s t : sh) = (exists i. g3_take s t i) \/ g3_free s t

  (* ---- what each stage may rely on *)
  predicate holds (s : sh) (w i : int) = bank i /\ stt s i = s_reducing /\ MP.get s.own i = w
  predicate rely1 (s t : sh) =
    t.b1 = s.b1 /\ t.c1 = s.c1 /\ t.num = s.num /\ t.fin = s.fin /\ s.c3 <= t.c3 /\
    (forall i. bank i -> stt t i = stt s i \/ (2 <= stt s i <= 5 /\ (stt t i = s_free \/ stt s i < stt t i <= 5)))
  predicate rely2 (s t : sh) (w : int) =
    (forall i. holds s w i <-> holds t w i) /\ (forall i. holds s w i -> nm t i = nm s i) /\ (s.fin -> t.fin) /\ s.c1 <= t.c1 /\ s.c3 <= t.c3
  predicate rely3 (s t : sh) =
    t.b3 = s.b3 /\ t.c3 = s.c3 /\ (s.b3 <> -1 -> nm t s.b3 = nm s s.b3) /\
    (forall i. bank i -> stt s i = s_reduced -> stt t i = s_reduced /\ nm t i = nm s i) /\ (s.fin -> t.fin) /\ s.c1 <= t.c1

  let ghost all_combined (s : sh) : unit requires { inv s } requires { forall i. bank i -> stt s i = s_free \/ stt s i = s_done }
    ensures { [@expl:when all banks are free every written chunk has been combined] s.c1 = s.c3 }
  = assert { s.c3 < s.c1 -> mid (stt s (MP.get s.wh s.c3)) }
  let ghost keeps1_take (s t : sh) (i : int) : unit requires { inv s } requires { g1_take s t i } ensures { [@expl:stage 1 keeps the invariant] inv t } = ()
  let ghost keeps1_number (s t : sh) (v : int) : unit requires { inv s } requires { g1_number s t v } ensures { [@expl:stage 1 keeps the invariant] inv t } = ()
  let ghost keeps1_publish (s t : sh) : unit requires { inv s } requires { g1_publish s t } ensures { [@expl:stage 1 keeps the invariant] inv t } = ()
  let ghost keeps1_drop (s t : sh) : unit requires { inv s } requires { g1_drop s t } ensures { [@expl:stage 1 keeps the invariant] inv t } = ()
  let ghost keeps1_finish (s t : sh) (i : int) : unit requires { inv s } requires { g1_finish s t i } ensures { [@expl:stage 1 keeps the invariant] inv t }
  = all_combined s; assert { t.c1 = t.c3 }
  val ghost pick1 (s t : sh) : int requires { exists i. g1_take s t i } ensures { g1_take s t result }
  val ghost pick2 (s t : sh) : int requires { exists v. g1_number s t v } ensures { g1_number s t result }
  val ghost pick3 (s t : sh) : int requires { exists i. g1_finish s t i } ensures { g1_finish s t result }
  let ghost keeps1 (s t : sh) : unit requires { inv s } requires { step1 s t } ensures { [@expl:stage 1 keeps the invariant] inv t }
  = if pure { exists i. g1_take s t i } then keeps1_take s t (pick1 s t)
    else if pure { exists v. g1_number s t v } then keeps1_number s t (pick2 s t)
    else if pure { g1_publish s t } then keeps1_publish s t
    else if pure { g1_drop s t } then keeps1_drop s t
    else keeps1_finish s t (pick3 s t)
  let ghost keeps2 (s t : sh) (w : int) : unit requires { inv s } requires { step2 s t w } ensures { [@expl:stage 2 keeps the invariant] inv t } = ()
  let ghost keeps3 (s t : sh) : unit requires { inv s } requires { step3 s t } ensures { [@expl:stage 3 keeps the invariant] inv t } = ()
  let ghost one_in_two (s t : sh) (w : int) : unit requires { inv s } requires { step1 s t } ensures { [@expl:stage 1 stays inside the rely of stage 2] rely2 s t w } = ()
  let ghost one_in_three (s t : sh) : unit requires { inv s } requires { step1 s t } ensures { [@expl:stage 1 stays inside the rely of stage 3] rely3 s t } = ()
  let ghost two_in_one (s t : sh) (w : int) : unit requires { inv s } requires { step2 s t w } ensures { [@expl:stage 2 stays inside the rely of stage 1] rely1 s t } = ()
  let ghost two_in_two (s t : sh) (w v : int) : unit requires { inv s } requires { step2 s t w } requires { v <> w } ensures { [@expl:one worker stays inside the rely of another] rely2 s t v } = ()
  let ghost two_in_three (s t : sh) (w : int) : unit requires { inv s } requires { step2 s t w } ensures { [@expl:stage 2 stays inside the rely of stage 3] rely3 s t } = ()
  let ghost three_in_one (s t : sh) : unit requires { inv s } requires { step3 s t } ensures { [@expl:stage 3 stays inside the rely of stage 1] rely1 s t } = ()
  let ghost three_in_two (s t : sh) (w : int) : unit requires { inv s } requires { step3 s t } ensures { [@expl:stage 3 stays inside the rely of stage 2] rely2 s t w } = ()
  let ghost closed1 (s t u : sh) : unit requires { inv s /\ inv t /\ inv u } ensures { rely1 s s } ensures { rely1 s t -> rely1 t u -> rely1 s u } = ()
  let ghost closed2 (s t u : sh) (w : int) : unit requires { inv s /\ inv t /\ inv u } ensures { rely2 s s w } ensures { rely2 s t w -> rely2 t u w -> rely2 s u w } = ()
  let ghost closed3 (s t u : sh) : unit requires { inv s /\ inv t /\ inv u } ensures { rely3 s s } ensures { rely3 s t -> rely3 t u -> rely3 s u } = ()
  (* two workers never hold one bank; a free system has combined every chunk that was written *)
  let ghost one_owner (s : sh) (v w i : int) : unit requires { holds s v i /\ holds s w i } ensures { [@expl:no two workers hold one bank] v = w } = ()

  val sh : ref sh
  val bankh : ref (heap bankentry)
  val any_bool () : bool
  val any_int () : int
  (* the move primitives: the guard is the guarantee *)
'''

ENV = {1: 'rely1 (old !sh) !sh', 2: 'rely2 (old !sh) !sh me', 3: 'rely3 (old !sh) !sh'}

def role_pre(role):
    s = ''
    if role == 2: s += '  val constant me : int\n'
    s += '  val env () : unit writes { sh } requires { inv !sh } ensures { inv !sh /\\ %s }   (* moves of the other stages *)\n' % ENV[role]
    s += '''  function ix (p : int) : int = p - base
  val peek_state (p : int) : int requires { bank (ix p) } ensures { result = stt !sh (ix p) }
  let st_load (p : int) : int
    requires { inv !sh } requires { [@expl:control entry exists] bank (ix p) }
    ensures { inv !sh /\\ %s /\\ result = stt !sh (ix p) /\\ 0 <= result <= 6 }
  = env (); peek_state p
''' % ENV[role]
    if role == 1:
        s += r'''
  val move_take (i : int) : unit writes { sh } requires { [@expl:stage 1 takes free banks only] bank i /\ stt !sh i = s_free /\ !sh.b1 = -1 /\ not !sh.fin } ensures { g1_take (old !sh) !sh i }
  val move_publish (i : int) : unit writes { sh } requires { [@expl:stage 1 publishes its own bank, numbered in order] i <> -1 /\ i = !sh.b1 /\ nm !sh i = !sh.c1 } ensures { g1_publish (old !sh) !sh }
  val move_drop (i : int) : unit writes { sh } requires { [@expl:stage 1 gives back its own bank] i <> -1 /\ i = !sh.b1 } ensures { g1_drop (old !sh) !sh }
  val move_finish (i : int) : unit writes { sh } requires { [@expl:the end signal is given only when all banks are free] bank i /\ !sh.b1 = -1 /\ forall j. bank j -> stt !sh j = s_free \/ stt !sh j = s_done } ensures { g1_finish (old !sh) !sh i }
  let st_cas (p : int) (old_state : ref int) (v : int) : bool
    requires { inv !sh } requires { [@expl:control entry exists] bank (ix p) }
    requires { [@expl:stage 1 moves free to being written] !old_state = s_free /\ v = s_writing } requires { !sh.b1 = -1 /\ not !sh.fin }
    ensures { inv !sh /\ 0 <= !old_state <= 6 /\ not !sh.fin /\ !sh.c1 = old !sh.c1 } ensures { result -> !sh.b1 = ix p } ensures { not result -> !sh.b1 = -1 /\ !old_state = stt !sh (ix p) }
  = env (); let ghost s0 = !sh in
    let c = peek_state p in if c = !old_state && any_bool () then begin move_take (p - base); keeps1 s0 !sh; true end else begin old_state := c; false end
  let st_store (p v : int) : unit
    requires { inv !sh } requires { [@expl:control entry exists] bank (ix p) }
    requires { [@expl:the move is one stage 1 may make] v = s_free \/ v = s_written \/ v = s_done }
    requires { [@expl:stage 1 resets or gives back banks it owns] v = s_free -> stt !sh (ix p) = s_free \/ ix p = !sh.b1 }
    requires { [@expl:stage 1 publishes its own bank, numbered in order] v = s_written -> ix p = !sh.b1 /\ nm !sh !sh.b1 = !sh.c1 }
    requires { [@expl:the end signal is given only when all banks are free] v = s_done -> !sh.b1 = -1 /\ forall j. bank j -> stt !sh j = s_free \/ stt !sh j = s_done }
    ensures { inv !sh } ensures { ix p = old !sh.b1 -> !sh.b1 = -1 } ensures { ix p <> old !sh.b1 -> !sh.b1 = old !sh.b1 }
    ensures { !sh.c1 = old !sh.c1 + (if v = s_written then 1 else 0) } ensures { !sh.fin = (old !sh.fin \/ v = s_done) }
    ensures { forall i. bank i -> i <> ix p -> (stt (old !sh) i = s_free \/ stt (old !sh) i = s_done) -> stt !sh i = stt (old !sh) i }
    ensures { v = s_done -> stt !sh (ix p) = v } ensures { v = s_free -> stt !sh (ix p) = v }
  = env (); let ghost s0 = !sh in
    if v = 6 then move_finish (p - base) else if v = 2 then move_publish (p - base) else if peek_b1 () = p - base then move_drop (p - base) else assert { stt !sh (ix p) = s_free };
    if pure { s0 <> !sh } then keeps1 s0 !sh
  val bk_read (h : heap bankentry) (p : int) : bankentry
    requires { [@expl:only the owner looks at the number] bank (ix p) /\ ix p = !sh.b1 } ensures { result = { bankentry__number = nm !sh (ix p); bankentry__state = stt !sh (ix p) } }
  val bk_write (h : heap bankentry) (p : int) (e : bankentry) : heap bankentry
    requires { [@expl:only the owner numbers a bank] bank (ix p) /\ ix p = !sh.b1 } requires { e.bankentry__state = stt !sh (ix p) }
    writes { sh } ensures { !sh = { (old !sh) with num = MP.set (old !sh).num (ix p) e.bankentry__number } }
'''.replace("peek_b1 ()", "peek_b1 ()")
        s = s.replace("  let st_store", "  val peek_b1 () : int ensures { result = !sh.b1 }\n  let st_store")
    if role == 2:
        s += r'''
  val move_take (i : int) : unit writes { sh } requires { [@expl:stage 2 takes written banks only] bank i /\ stt !sh i = s_written } ensures { g2_take (old !sh) !sh me i }
  val move_publish (i : int) : unit writes { sh } requires { [@expl:a worker publishes only the bank it holds] holds !sh me i } ensures { g2_publish (old !sh) !sh me i }
  let st_cas (p : int) (old_state : ref int) (v : int) : bool
    requires { inv !sh } requires { [@expl:control entry exists] bank (ix p) }
    requires { [@expl:stage 2 moves written to being reduced] !old_state = s_written /\ v = s_reducing } requires { forall i. not (holds !sh me i) }
    ensures { inv !sh /\ 0 <= !old_state <= 6 } ensures { result -> forall i. holds !sh me i <-> i = ix p }
    ensures { not result -> (forall i. not (holds !sh me i)) /\ !old_state = stt !sh (ix p) }
  = env (); let ghost s0 = !sh in
    let c = peek_state p in if c = !old_state && any_bool () then begin move_take (p - base); keeps2 s0 !sh me; true end else begin old_state := c; false end
  let st_store (p v : int) : unit
    requires { inv !sh } requires { [@expl:control entry exists] bank (ix p) }
    requires { [@expl:stage 2 moves being reduced to reduced] v = s_reduced } requires { [@expl:a worker publishes only the bank it holds] holds !sh me (ix p) }
    ensures { inv !sh } ensures { forall i. holds !sh me i <-> (holds (old !sh) me i /\ i <> ix p) }
  = env (); let ghost s0 = !sh in move_publish (p - base); keeps2 s0 !sh me
  val bk_read (h : heap bankentry) (p : int) : bankentry
    requires { [@expl:only the owner looks at the number] holds !sh me (ix p) } ensures { result = { bankentry__number = nm !sh (ix p); bankentry__state = stt !sh (ix p) } }
  val bk_write (h : heap bankentry) (p : int) (e : bankentry) : heap bankentry
    requires { [@expl:stage 2 does not number banks] false }
'''
    if role == 3:
        s += r'''
  val move_take (i : int) : unit writes { sh } requires { [@expl:stage 3 takes the next chunk in order, when it is reduced] bank i /\ stt !sh i = s_reduced /\ nm !sh i = !sh.c3 /\ !sh.b3 = -1 } ensures { g3_take (old !sh) !sh i }
  val move_free (i : int) : unit writes { sh } requires { [@expl:stage 3 frees only the bank it holds] bank i /\ i = !sh.b3 } ensures { g3_free (old !sh) !sh }
  let st_store (p v : int) : unit
    requires { inv !sh } requires { [@expl:control entry exists] bank (ix p) }
    requires { [@expl:stage 3 moves reduced to being combined to free] v = s_combining \/ v = s_free }
    requires { [@expl:stage 3 takes the next chunk in order, when it is reduced] v = s_combining -> stt !sh (ix p) = s_reduced /\ nm !sh (ix p) = !sh.c3 /\ !sh.b3 = -1 }
    requires { [@expl:stage 3 frees only the bank it holds] v = s_free -> ix p = !sh.b3 }
    ensures { inv !sh } ensures { v = s_combining -> !sh.b3 = ix p /\ !sh.c3 = old !sh.c3 + 1 } ensures { v = s_free -> !sh.b3 = -1 /\ !sh.c3 = old !sh.c3 }
  = env (); let ghost s0 = !sh in if v = 5 then move_take (p - base) else move_free (p - base); keeps3 s0 !sh
  let st_cas (p : int) (old_state : ref int) (v : int) : bool
    requires { inv !sh } requires { [@expl:control entry exists] bank (ix p) }
    requires { [@expl:stage 3 takes the next chunk in order, when it is reduced] !old_state = s_reduced /\ v = s_combining /\ stt !sh (ix p) = s_reduced /\ nm !sh (ix p) = !sh.c3 /\ !sh.b3 = -1 }
    ensures { inv !sh } ensures { result -> !sh.b3 = ix p /\ !sh.c3 = old !sh.c3 + 1 } ensures { not result -> !sh.b3 = -1 /\ !sh.c3 = old !sh.c3 /\ !old_state = stt !sh (ix p) }
  = env (); let ghost s0 = !sh in
    let c = peek_state p in if c = !old_state && any_bool () then begin move_take (p - base); keeps3 s0 !sh; true end else begin old_state := c; false end
  val bk_read (h : heap bankentry) (p : int) : bankentry
    requires { [@expl:the number is read when it cannot change] bank (ix p) /\ (stt !sh (ix p) = s_reduced \/ ix p = !sh.b3) } ensures { result = { bankentry__number = nm !sh (ix p); bankentry__state = stt !sh (ix p) } }
  val bk_write (h : heap bankentry) (p : int) (e : bankentry) : heap bankentry
    requires { [@expl:stage 3 does not number banks] false }
'''
    return s

def hooks(role):
    from cxx2why import V, Ty, par, strip_ref
    from cxxast import ExtractError
    import json
    def addr(ctx, node):
        v = ctx.E(node)
        if v.path is None or v.path.root[0] != 'heap' or len(v.path.accs) != 1: raise ExtractError('atomic operation on something that is not a bank state')
        return par(v.path.root[2])
    def is_atomic(ctx, node):
        try: return 'atomic' in (node.get('type', {}).get('desugaredQualType') or node.get('type', {}).get('qualType', ''))
        except Exception: return False
    def order(args, ok):
        # a hand-over has to publish what was written: an explicit weaker order is a failed obligation
        for a in args:
            t = json.dumps(a)
            m = [x for x in ('relaxed', 'consume', 'acquire', 'release', 'acq_rel', 'seq_cst') if 'memory_order_' + x + '"' in t]
            if not m: raise ExtractError('memory order of an atomic operation')
            if m[0] not in ok: return '[@expl:the hand-over orders the accesses to the bank] false'
        return None
    def guard(args, ok, code):
        c = order(args, ok)
        return code if c is None else '(begin assert { %s }; %s end)' % (c, code)
    def cas(ctx, n, args, me):
        n_ord = [a for a in args[2:] if a.get('kind') != 'CXXDefaultArgExpr']
        o = ctx.E(args[0])
        return V(guard(n_ord[:1], ('acq_rel', 'seq_cst', 'acquire') if role == 2 or role == 1 else ('acq_rel', 'seq_cst'), '(st_cas %s %s %s)' % (addr(ctx, me['inner'][0]), o.path.root[1], par(ctx.E(args[1]).code))), Ty('bool'), pure=False, state=True)
    def store(ctx, n, args, me):
        return V(guard([a for a in args[1:] if a.get('kind') != 'CXXDefaultArgExpr'], ('release', 'seq_cst'), '(st_store %s %s)' % (addr(ctx, me['inner'][0]), par(ctx.E(args[0]).code))), Ty('void'), pure=False)
    def load(ctx, n, args, me):
        return V(guard([a for a in args if a.get('kind') != 'CXXDefaultArgExpr'], ('acquire', 'seq_cst'), '(st_load %s)' % addr(ctx, me['inner'][0])), Ty('int', 'int'), pure=False, state=True)
    def assign(ctx, n, args, me):
        if not is_atomic(ctx, args[0]): return None
        return V('(st_store %s %s)' % (addr(ctx, args[0]), par(ctx.E(args[1]).code)), Ty('void'), pure=False)
    nop = lambda ctx, n, args, me: V('()', Ty('void'), pure=False)
    def xfer(ctx, n, args, me):
        cs = ' '.join('let xf%d = %s in' % (i, ctx.E(a).code) for i, a in enumerate(args))
        return V('(%s ())' % cs, Ty('void'), pure=False)
    H = dict(compare_exchange_weak=cas, compare_exchange_strong=cas, store=store, load=load, release_semaphore=nop, wait_on_semaphore=nop, invoke_transfer_listener=xfer)
    H['operator='] = assign
    H['operator conversion'] = load
    if role == 1:
        def parse(ctx, n, args, me):
            # the generated parser calls back feed_callback any number of times
            return V('(begin feed_loop this; 0 end)', Ty('ptr', args=[Ty('void')]), pure=False, state=True)
        def mcpy(ctx, n, args, me):
            return V('(copy_bank !this %s %s)' % (par(ctx.E(args[1]).code), par(ctx.E(args[2]).code)), Ty('ptr', args=[Ty('void')]), pure=False)
        H['new[]'] = lambda ctx, n, args, me: V('(any_int ())', Ty('ptr', args=[Ty('int', 'char')]), pure=False)
        H['operator()'] = parse; H['memcpy'] = mcpy
        H['emplace_back'] = lambda ctx, n, args, me: V('()', Ty('void'), pure=False)
    if role == 2:
        H['reduce_bank'] = lambda ctx, n, args, me: V('(reduce_own !this %s)' % par(ctx.E(args[0]).code), Ty('void'), pure=False, state=True)
    if role == 3:
        H['reduce'] = lambda ctx, n, args, me: V('(combine_all this)', Ty('int', 'unsigned long'), pure=False, state=True)
    return H

def functions(role):
    cls, rec = {1: ('Stage1Runner', 'stage1'), 2: ('Stage2Runner', 'stage2'), 3: ('Stage3Runner', 'stage3')}[role]
    B = 'stage1__base.' if role == 1 else rec + '__base.nrr__base.'
    T = '(!this).' + B + 'baserunner__'
    CUR = '(!this).%s__m_current_bank' % rec
    CNT = '(!this).%s__m_counter' % rec
    F = {}
    common = ['ok !this', 'inv !sh']
    keep = 'ok !this /\\ same_config (old !this) !this'
    LINV = ['inv !sh', 'ok !this /\\ same_config this0 !this']
    G0 = {'entry': 'let ghost this0 = !this in'}
    if role == 1:
        F['s1_acquire'] = dict(key=cls + '::acquire_bank', diverges=True, requires=common + ['!sh.b1 = -1', 'not !sh.fin'],
            ensures=[keep, 'inv !sh', '%s = !sh.b1' % CUR, 'the bank handed out is one stage 1 now owns:: bank !sh.b1', 'its place is that bank in the data part:: result = %sm_main_window + %sm_bank_size * !sh.b1' % (T, T),
                     'not !sh.fin', '!sh.c1 = old !sh.c1', '%s = (old !this).stage1__m_counter' % CNT],
            loops=[dict(inv=LINV + ['!sh.b1 = -1', 'not !sh.fin', '!sh.c1 = sh0.c1', '%s = this0.stage1__m_counter' % CNT]), dict(inv=LINV + ['0 <= @ix', '!sh.b1 = -1', 'not !sh.fin', '!sh.c1 = sh0.c1', '%s = this0.stage1__m_counter' % CNT], var=['nb - @ix'])],
            ghost={'entry': 'let ghost this0 = !this in let ghost sh0 = !sh in'})
        F['s1_release'] = dict(key=cls + '::release_bank', requires=common + ['%s = !sh.b1' % CUR, 'not !sh.fin', 'count_ok !this !sh'],
            ensures=[keep, 'inv !sh', 'the bank is given up:: %s = -1 /\\ !sh.b1 = -1' % CUR, 'count_ok !this !sh', 'not !sh.fin',
                     'chunks are numbered one after the other:: !sh.c1 = old !sh.c1 + (if (old !sh.b1) = -1 || is_dry !this then 0 else 1)'],
            ghost={'entry': 'let ghost this0 = !this in'})
        F['s1_feed'] = dict(key=cls + '::feed_callback', diverges=True, requires=common + ['%s = !sh.b1' % CUR, 'not !sh.fin', 'count_ok !this !sh'],
            ensures=[keep, 'inv !sh', '%s = !sh.b1' % CUR, 'bank !sh.b1', 'result = %sm_main_window + %sm_bank_size * !sh.b1' % (T, T), 'not !sh.fin', 'count_ok !this !sh'],
            after='''
  (* the parser: it asks for the next bank any number of times *)
  let feed_loop (this : ref stage1) : unit diverges
    requires { ok !this /\\ inv !sh /\\ (!this).stage1__m_current_bank = !sh.b1 /\\ not !sh.fin /\\ count_ok !this !sh }
    ensures { ok !this /\\ same_config (old !this) !this /\\ inv !sh /\\ (!this).stage1__m_current_bank = !sh.b1 /\\ not !sh.fin /\\ count_ok !this !sh }
  = let ghost this0 = !this in
    while any_bool () do invariant { ok !this /\\ same_config this0 !this /\\ inv !sh /\\ (!this).stage1__m_current_bank = !sh.b1 /\\ not !sh.fin /\\ count_ok !this !sh } let _ = s1_feed this in () done
''')
        F['s1_reset'] = dict(key=cls + '::reset_banks', requires=common + ['forall i. bank i -> stt !sh i = s_free', '!sh.b1 = -1', 'not !sh.fin', '!sh.c1 = 0'],
            ensures=['!this = old !this', 'inv !sh', 'every bank is free at the start:: forall i. bank i -> stt !sh i = s_free', '!sh.b1 = -1 /\\ not !sh.fin /\\ !sh.c1 = 0'],
            loops=[dict(inv=LINV + ['0 <= @ix', 'forall i. bank i -> stt !sh i = s_free', '!sh.b1 = -1 /\\ not !sh.fin /\\ !sh.c1 = 0', '!this = this0'], var=['nb - @ix'])], ghost=G0)
        F['s1_exit'] = dict(key=cls + '::signal_exit', diverges=True, requires=common + ['!sh.b1 = -1', 'not !sh.fin'],
            ensures=['!this = old !this', 'inv !sh', 'every bank carries the end signal:: forall i. bank i -> stt !sh i = s_done', 'every written chunk was combined before:: !sh.c1 = !sh.c3'],
            loops=[dict(inv=['inv !sh', '!this = this0', '!sh.b1 = -1', 'not !sh.fin']),
                   dict(inv=['inv !sh', '!this = this0', '0 <= @ix <= nb', '0 <= !count', '!sh.b1 = -1', 'not !sh.fin', 'no bank in use was passed over:: !count = 0 -> forall j. 0 <= j < @ix -> stt !sh j = s_free'], var=['nb - @ix']),
                   dict(inv=['inv !sh', '!this = this0', '0 <= @ix <= nb', '!sh.b1 = -1', 'forall j. bank j -> stt !sh j = (if j < @ix then s_done else s_free)', '!sh.fin = (0 < @ix)'], var=['nb - @ix'])],
            ghost=dict(G0))
        F['s1_main'] = dict(key=cls + '::thread_runner_impl', diverges=True, requires=common + ['forall i. bank i -> stt !sh i = s_free', '!sh.b1 = -1', 'not !sh.fin', '!sh.c1 = 0'],
            ensures=['inv !sh', 'forall i. bank i -> stt !sh i = s_done', '!sh.c1 = !sh.c3'])
    if role == 2:
        none = 'forall i. not (holds !sh me i)'
        mine = 'forall i. holds !sh me i <-> i = %s' % CUR
        F['s2_acquire'] = dict(key=cls + '::acquire_bank', diverges=True, requires=common + [none],
            ensures=[keep, 'inv !sh', 'no bank is handed out after the end signal:: result = 0 -> !sh.fin /\\ (%s)' % none,
                     'the bank handed out is held by this worker alone:: result <> 0 -> (bank %s /\\ (%s))' % (CUR, mine),
                     'its place is that bank in the data part:: result <> 0 -> result = %sm_main_window + %sm_bank_size * %s' % (T, T, CUR)],
            loops=[dict(inv=LINV + [none]), dict(inv=LINV + ['0 <= @ix', none], var=['nb - @ix'])], ghost=G0)
        F['s2_release'] = dict(key=cls + '::release_bank', requires=common + ['bank %s' % CUR, mine],
            ensures=[keep, 'inv !sh', 'the bank is given up:: %s = -1 /\\ %s' % (CUR, none)], ghost=G0)
        F['s2_main'] = dict(key=cls + '::thread_runner_impl', diverges=True, requires=common + [none],
            ensures=['inv !sh', 'the worker ends without a bank, after the end signal:: !sh.fin /\\ (%s)' % none],
            loops=[dict(inv=['inv !sh', 'ok !this', none])])
    if role == 3:
        S3 = ['%s = !sh.b3' % CUR, '%s = !sh.c3' % CNT]
        F['s3_acquire'] = dict(key=cls + '::acquire_bank', diverges=True, requires=common + ['%s = !sh.c3' % CNT, '!sh.b3 = -1'],
            ensures=[keep, 'inv !sh', 'counts the chunks taken:: %s = !sh.c3' % CNT,
                     'NULL only after the end signal, when every written chunk was combined:: result = 0 -> !sh.fin /\\ !sh.c1 = !sh.c3 /\\ !sh.b3 = -1 /\\ !sh.c3 = old !sh.c3 /\\ %s = (old !this).stage3__m_current_bank' % CUR,
                     'chunks come one after the other in the order they were written:: result <> 0 -> %s = !sh.b3 /\\ bank !sh.b3 /\\ nm !sh !sh.b3 = old !sh.c3 /\\ !sh.c3 = old !sh.c3 + 1' % CUR,
                     'its place is that bank in the data part:: result <> 0 -> result = %sm_main_window + %sm_bank_size * !sh.b3' % (T, T)],
            loops=[dict(inv=LINV + ['%s = !sh.c3' % CNT, '!sh.b3 = -1', '!sh.c3 = sh0.c3', '%s = this0.stage3__m_current_bank' % CUR]), dict(inv=LINV + ['0 <= @ix', '%s = !sh.c3' % CNT, '!sh.b3 = -1', '!sh.c3 = sh0.c3', '%s = this0.stage3__m_current_bank' % CUR], var=['nb - @ix'])],
            ghost={'entry': 'let ghost this0 = !this in let ghost sh0 = !sh in'})
        F['s3_release'] = dict(key=cls + '::release_bank', requires=common + S3,
            ensures=[keep, 'inv !sh', 'the bank is given up:: %s = -1 /\\ !sh.b3 = -1' % CUR, '%s = !sh.c3 /\\ !sh.c3 = old !sh.c3' % CNT], ghost=G0,
            after='''
  (* combination (P13): takes and releases banks in turn, any number of times, and reads a bank only while it holds it *)
  let combine_all (this : ref stage3) : int diverges
    requires { ok !this /\\ inv !sh /\\ (!this).stage3__m_current_bank = !sh.b3 /\\ (!this).stage3__m_counter = !sh.c3 }
    ensures { ok !this /\\ inv !sh /\\ (!this).stage3__m_current_bank = !sh.b3 /\\ (!this).stage3__m_counter = !sh.c3 }
  = let ghost this0 = !this in
    while any_bool () do invariant { ok !this /\\ inv !sh /\\ (!this).stage3__m_current_bank = !sh.b3 /\\ (!this).stage3__m_counter = !sh.c3 }
      s3_release this; let _ = s3_acquire this in () done; any_int ()
''')
        F['s3_main'] = dict(key=cls + '::thread_runner_impl', diverges=True, requires=common + ['!sh.b3 = -1', '!sh.c3 = 0'],
            ensures=['inv !sh', 'combination ends without a bank:: !sh.b3 = -1'])
    return F

def spec(what='stage1'):
    role = int(what[-1])
    rec = what
    B = 'stage1__base.' if role == 1 else rec + '__base.nrr__base.'
    pre = PRE + role_pre(role)
    f = lambda x: '%sbaserunner__%s' % (B, x)
    pre += '''
  predicate ok (r : %s) = r.%s = nb /\\ r.%s = base /\\ 0 < r.%s /\\ 0 < r.%s
  predicate same_config (r q : %s) = r.%s = q.%s /\\ r.%s = q.%s%s
''' % (rec, f('m_bank_num'), f('m_sub_window'), f('m_main_window'), f('m_bank_size'), rec, f('m_main_window'), f('m_main_window'), f('m_bank_size'), f('m_bank_size'),
       ' /\\ r.stage1__is_dry = q.stage1__is_dry' if role == 1 else '')
    if role == 1:
        pre += '''  predicate is_dry (r : stage1) = r.stage1__is_dry
  predicate count_ok (r : stage1) (s : sh) = not (is_dry r) -> r.stage1__m_counter = s.c1
  val copy_bank (r : stage1) (src n : int) : int
    requires { [@expl:only the owner reads the bank, and only that bank] bank !sh.b1 /\\ src = r.%s + r.%s * !sh.b1 /\\ 0 <= n <= r.%s }
''' % (f('m_main_window'), f('m_bank_size'), f('m_bank_size'))
    if role == 2:
        pre += '''  val reduce_own (r : stage2) (p : int) : unit
    requires { [@expl:only the bank held is reduced] holds !sh me r.stage2__m_current_bank /\\ p = r.%s + r.%s * r.stage2__m_current_bank }
''' % (f('m_main_window'), f('m_bank_size'))
    drop = {'BaseRunner': ('base:BaseListener', 'm_thread', 'm_slave_lock', 'm_memory_name', 'm_slave_lock_name'),
            'NonRecursiveReductionRunner': ('m_listener', 'm_xferlistener', 'm_listener_context'), 'Stage1Runner': ('result_chunks_',)}
    cls = {1: 'Stage1Runner', 2: 'Stage2Runner', 3: 'Stage3Runner'}[role]
    return dict(tu='#include <tuple>\n#include <vector>\n#include "BaseRunner.hpp"\n#include "Stage1Runner.hpp"\n#include "Stage3RunnerNonRecursive.hpp"\nusing namespace Centaurus;\n',
        files=['BaseRunner.hpp', 'Stage1Runner.hpp', 'Stage2RunnerNonRecursive.hpp', 'Stage3RunnerNonRecursive.hpp'],
        typenames={'BaseRunner': 'baserunner', 'Stage1Runner': 'stage1', 'Stage2Runner': 'stage2', 'Stage3Runner': 'stage3', 'NonRecursiveReductionRunner': 'nrr', 'BaseRunner::WindowBankEntry': 'bankentry'},
        uses=['stl.Heap'], heaps={'bankentry': 'bankh'}, heap_ops={'bankh': ('bk_read', 'bk_write')}, preamble=pre, types=['BaseRunner::WindowBankEntry', cls], functions=functions(role), hooks=hooks(role), drop_fields=drop)
