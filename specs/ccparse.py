"""Contract for the bracket notation of character classes (CharClass::parse, src/core/CharClass.cpp)."""
import charclass, stream

PRE = r'''
  use seq.Mem
  type item = { lo : int; hi : int }
  function esc (d : int) : int =
    if d = 92 \/ d = 45 \/ d = 91 \/ d = 93 then d else if d = 116 \/ d = 84 then 9 else if d = 114 \/ d = 82 then 13 else if d = 110 \/ d = 78 then 10 else -1
  (* one written character c at b, the text goes on at n *)
  predicate plain (c : int) = c <> 0 /\ c <> 65535 /\ c <> 92 /\ c <> 93 /\ c <> 45
  predicate tok (s : seq int) (b c n : int) =
    (plain c /\ c = char1 s b /\ n = next1 s b) \/
    (char1 s b = 92 /\ c = esc (char1 s (next1 s b)) /\ c <> -1 /\ n = next1 s (next1 s b))
  (* l lists the items written from a up to b: single characters and inclusive ranges *)
  inductive items (s : seq int) (a b : int) (l : seq item) =
    | items_none : forall s a. items s a a empty
    | items_one : forall s a b l c n. items s a b l -> tok s b c n -> char1 s n <> 45 -> items s a n (snoc l { lo = c; hi = c })
    | items_range : forall s a b l c n d m. items s a b l -> tok s b c n -> char1 s n = 45 -> tok s (next1 s n) d m -> c <= d -> items s a m (snoc l { lo = c; hi = d })
  predicate within (l : seq item) (c : int) = exists k. 0 <= k < length l /\ l[k].lo <= c <= l[k].hi
  (* nothing that can be written in a class starts at b *)
  predicate no_tok (s : seq int) (b : int) =
    let c = char1 s b in c = 0 \/ c = 65535 \/ c = 45 \/ c = 93 \/ (c = 92 /\ esc (char1 s (next1 s b)) = -1)
  predicate bad (s : seq int) (b : int) =
    (no_tok s b /\ char1 s b <> 93) \/
    (exists c n. tok s b c n /\ char1 s n = 45 /\ (no_tok s (next1 s n) \/ exists d m. tok s (next1 s n) d m /\ d < c))
  function first (s : seq int) (n : int) : int = if char1 s n = 94 then next1 s n else n
  predicate meaning (s : seq int) (n : int) (l : seq item) (c : int) =
    if char1 s n = 94 then 1 <= c < maxc /\ not (within l c) else within l c
  predicate narrow (s : seq int) = forall k. 0 <= k < length s -> 0 <= s[k] < maxc \/ s[k] = 65535
  let sort_ranges (s : seq range) : seq range
    requires { [@expl:std::sort gets ranges in order] swf s } ensures { result = s }
  = s
  predicate refused (s : seq int) (a : int) = exists e l. items s a e l /\ bad s e
  let ghost known (st : int) (s : seq int) (a p0 p1 pos start : int) (l : seq item) : unit
    requires { narrow s /\ 0 <= st <= 2 /\ 0 <= pos }
    requires { st = 0 -> items s a pos l }
    requires { st = 1 -> items s a p0 l /\ tok s p0 start pos }
    requires { st = 2 -> items s a p0 l /\ tok s p0 start p1 /\ char1 s p1 = 45 /\ pos = next1 s p1 }
    ensures { 0 <= char1 s pos < maxc \/ char1 s pos = 65535 }
    ensures { st = 1 -> char1 s pos <> 45 -> items s a pos (snoc l { lo = start; hi = start }) }
    ensures { st <> 2 -> no_tok s pos -> char1 s pos <> 93 -> (st = 1 -> char1 s pos <> 45) -> refused s a }
    ensures { st = 2 -> no_tok s pos -> refused s a }
    ensures { st = 2 -> plain (char1 s pos) -> char1 s pos < start -> refused s a }
    ensures { char1 s pos = 92 -> esc (char1 s (next1 s pos)) = -1 -> refused s a }
    ensures { st = 2 -> char1 s pos = 92 -> let d = esc (char1 s (next1 s pos)) in d <> -1 -> d < start -> refused s a }
  = assert { st = 2 -> no_tok s pos -> bad s p0 };
    assert { st = 2 -> forall d m. tok s pos d m -> d < start -> bad s p0 };
    assert { st = 2 -> forall d m. tok s pos d m -> d < start -> refused s a };
    assert { plain (char1 s pos) -> tok s pos (char1 s pos) (next1 s pos) };
    assert { char1 s pos = 92 -> let d = esc (char1 s (next1 s pos)) in d <> -1 -> tok s pos d (next1 s (next1 s pos)) };
    assert { st <> 2 -> no_tok s pos -> char1 s pos <> 93 -> bad s pos }
  let ghost within_snoc (l : seq item) (x : item) : unit ensures { forall c. within (snoc l x) c <-> within l c \/ x.lo <= c <= x.hi }
  = let m = snoc l x in assert { forall k. 0 <= k < length l -> m[k] = l[k] }; assert { m[length l] = x }
'''

def h_sort(ctx, n, args, me):
    from cxx2why import V, Ty, par
    v = ctx.E(args[0])
    if v.cont is None: return None
    return V('(%s)' % v.cont.write('(sort_ranges %s)' % par(v.cont.read())), Ty('void'), pure=False)

def spec(T='char'):
    a, b = charclass.spec(T), stream.spec()
    cf, sf = charclass.functions(T), stream.functions()
    CC = 'CharClass<%s>' % T
    F = {}
    for k in ('stream_get',): F[k] = sf[k]
    for k in ('cc_or_r', 'cc_not'): F[k] = cf[k]
    S, C0 = '(!stream).stream__m_str', '(old !stream).stream__m_cur'
    POS = '(!stream).stream__m_cur = next1 s0 !pos /\\ !ch = char1 s0 !pos'
    F['cc_parse'] = dict(
        key='%s::parse' % CC, spthrow=True, requires=['cwf !this', '(!this).cclass__m_ranges = empty', 'swf_stream !stream', 'narrow %s' % S],
        ensures=['the class is exactly what is written up to the closing bracket:: exists e l. items {s} (first {s} {c}) e l /\\ char1 {s} e = 93 /\\ (!stream).stream__m_cur = next1 {s} e /\\ forall c. cin !this c <-> meaning {s} {c} l c'.format(s=S, c=C0),
                 'canonical form:: cwf !this', 'swf_stream !stream', 'only moves on:: (old !stream).stream__m_cur <= (!stream).stream__m_cur', '%s = (old !stream).stream__m_str' % S],
        raises=['CppThrow -> [@expl:only notation that is not well-formed is rejected] refused {s} (first {s} {c})'.format(s='(old !stream).stream__m_str', c=C0)],
        ghost={'entry': 'let ghost s0 = %s in let ghost n0 = (!stream).stream__m_cur in let ghost a0 = pure { first s0 n0 } in let ghost pos = ref a0 in let ghost p0 = ref a0 in let ghost p1 = ref a0 in let ghost l = ref (pure { (empty : seq item) }) in' % S,
               'begin0': 'let ghost st0 = !state in let ghost start0 = !start in let ghost ch0 = !ch in known !state s0 a0 !p0 !p1 !pos !start !l',
               'end0': '''begin
                 let c = (if ch0 = 92 then pure { esc (char1 s0 (next1 s0 !pos)) } else ch0) in
                 let nx = (if ch0 = 92 then pure { next1 s0 (next1 s0 !pos) } else pure { next1 s0 !pos }) in
                 let hy = (ch0 = 45) in
                 if st0 = 0 then p0 := !pos
                 else if st0 = 1 then begin if hy then p1 := !pos else begin within_snoc !l { lo = start0; hi = start0 }; l := snoc !l { lo = start0; hi = start0 }; p0 := !pos end end
                 else begin within_snoc !l { lo = start0; hi = c }; l := snoc !l { lo = start0; hi = c } end;
                 pos := nx end'''},
        loops=[dict(inv=['swf_stream !stream', '%s = s0' % S, POS, 'cwf !this', 'forall c. cin !this c <-> within !l c', '0 <= !state <= 2', 'n0 <= !pos',
                         '!state = 0 -> items s0 a0 !pos !l', '!state = 1 -> items s0 a0 !p0 !l /\\ tok s0 !p0 !start !pos',
                         '!state = 2 -> items s0 a0 !p0 !l /\\ tok s0 !p0 !start !p1 /\\ char1 s0 !p1 = 45 /\\ !pos = next1 s0 !p1',
                         '!state <> 0 -> 0 < !start < maxc'],
                    var=['length s0 - !pos'])])
    F['cc_parse']['ghost']['after0'] = 'known !state s0 a0 !p0 !p1 !pos !start !l; if !state = 1 then begin within_snoc !l { lo = !start; hi = !start }; l := snoc !l { lo = !start; hi = !start } end; assert { !state <> 2 -> items s0 (first s0 n0) !pos !l }'
    hooks = dict(b['hooks']); hooks['sort'] = h_sort
    pre = a['preamble'] + b['preamble'].replace('predicate swf (s : stream)', 'predicate swf_stream (s : stream)')
    for k in F:
        if k.startswith('stream_'):
            F[k] = {kk: ([x.replace('swf ', 'swf_stream ') for x in vv] if isinstance(vv, list) and kk in ('requires', 'ensures') else vv) for kk, vv in F[k].items()}
    return dict(tu=a['tu'], files=['CharClass.hpp', 'CharClass.cpp', 'Stream.hpp', 'Util.hpp'], typenames=dict(a['typenames'], Stream='stream'), aliases=b['aliases'], iter_fields=b['iter_fields'],
        preamble=pre + PRE, types=a['types'] + ['Stream'], hooks=hooks, functions=F)
