"""Contracts for the grammar text reader Stream (src/core/Stream.hpp)."""

PRE = '''
  predicate isnl (c : int) = c = 10 \\/ c = 133 \\/ c = 8232 \\/ c = 8233
  (* number of line ends among the first n characters (CR LF is counted at its LF) *)
  function nlines (s : seq int) (n : int) : int
  axiom nlines_0 : forall s. nlines s 0 = 0
  axiom nlines_s : forall s n. 0 <= n < length s -> nlines s (n + 1) = nlines s n + (if isnl s[n] then 1 else 0)
  predicate counted (s : stream) =
    s.stream__m_line + (if s.stream__m_newline_flag then 1 else 0) = 1 + nlines s.stream__m_str s.stream__m_cur
  predicate swf (s : stream) = 0 <= s.stream__m_cur <= length s.stream__m_str /\\ counted s
  (* character at n, NUL beyond the end *)
  function chat (s : seq int) (n : int) : int = if 0 <= n < length s then s[n] else 0
  predicate crlf (s : seq int) (n : int) = chat s n = 13 /\\ 0 <= n /\\ n + 1 < length s /\\ chat s (n + 1) = 10
  (* position after one get() *)
  function next1 (s : seq int) (n : int) : int = if n >= length s then n else if crlf s n then n + 2 else n + 1
  function nextn (s : seq int) (n k : int) : int
  axiom nextn_0 : forall s n. nextn s n 0 = n
  axiom nextn_s : forall s n k. k >= 0 -> nextn s n (k + 1) = next1 s (nextn s n k)
  let lemma nextn_2 (s : seq int) (n : int) : unit
    ensures { nextn s n 2 = next1 s (next1 s n) }
  = assert { nextn s n (0 + 1) = next1 s (nextn s n 0) }; assert { nextn s n (1 + 1) = next1 s (nextn s n 1) }
  (* what get() delivers at n *)
  function char1 (s : seq int) (n : int) : int =
    if n >= length s then 0 else if s[n] = 13 /\\ (n + 1 = length s \\/ s[n + 1] = 10) then 10 else s[n]
  predicate opens_block (s : seq int) (b : int) = 0 <= b /\\ b + 1 < length s /\\ s[b] = 47 /\\ s[b + 1] = 42
  predicate opens_line (s : seq int) (b : int) = 0 <= b /\\ b + 1 < length s /\\ s[b] = 47 /\\ s[b + 1] = 47
  predicate closes (s : seq int) (k : int) = 0 <= k /\\ k + 1 < length s /\\ s[k] = 42 /\\ s[k + 1] = 47
  (* [a, e) is a complete block comment / line comment starting with its two opening characters *)
  predicate block_body (s : seq int) (b e : int) =
    b + 2 <= e <= length s /\\ closes s (e - 2) /\\ (forall k. b <= k < e - 2 -> not (closes s k))
  predicate line_body (s : seq int) (b e : int) =
    0 <= b <= e <= length s /\\ (e = length s \\/ (b < e /\\ (s[e - 1] = 10 \\/ s[e - 1] = 0))) /\\ (forall k. b <= k < e - 1 -> s[k] <> 10)
  inductive gap (s : seq int) (a b : int) =
    | gap_refl : forall s a. gap s a a
    | gap_ws : forall s a b. gap s a b -> 0 <= b < length s -> c_iswspace s[b] <> 0 -> gap s a (b + 1)
    | gap_block : forall s a b e. gap s a b -> opens_block s b -> block_body s (b + 2) e -> gap s a e
    | gap_line : forall s a b e. gap s a b -> opens_line s b -> line_body s (b + 2) e -> gap s a e
  predicate unterminated (s : seq int) (b : int) =
    exists e. b <= e <= length s /\\ (e = length s \\/ s[e] = 0) /\\ (forall k. b <= k < e - 1 -> not (closes s k))
'''
STR = '(!this).stream__m_str'
OSTR = '(old !this).stream__m_str'
CUR = '(!this).stream__m_cur'
OCUR = '(old !this).stream__m_cur'
SAME = '%s = %s' % (STR, OSTR)

def functions():
    F = {}
    F['stream_make'] = dict(key='Stream::Stream(std::wstring &&)',
        ensures=['swf result', 'starts at the first character:: result.stream__m_str = str /\\ result.stream__m_cur = 0 /\\ result.stream__m_line = 1 /\\ not result.stream__m_newline_flag'])
    F['stream_make2'] = dict(key='Stream::Stream(const std::wstring &)',
        ensures=['swf result', 'starts at the first character:: result.stream__m_str = str /\\ result.stream__m_cur = 0 /\\ result.stream__m_line = 1 /\\ not result.stream__m_newline_flag'])
    F['stream_get'] = dict(key='Stream::get', requires=['swf !this'],
        ensures=['swf !this', SAME,
                 'moves over one character or one CR LF pair:: %s = next1 %s %s' % (CUR, OSTR, OCUR),
                 'delivers the characters in order:: result = char1 %s %s' % (OSTR, OCUR),
                 'the end is reported as NUL and nothing moves:: %s = length %s -> result = 0 /\\ !this = old !this' % (OCUR, OSTR),
                 'line number:: counted !this'])
    F['stream_peek'] = dict(key='Stream::peek()', requires=['swf !this'],
        ensures=['looks at the next character:: result = chat %s %s' % (STR, CUR), 'does not move:: !this = old !this'])
    F['stream_peekn'] = dict(key='Stream::peek(int)', requires=['swf !this', 'n >= 1'],
        ensures=['looks ahead:: result = chat %s (%s + n - 1)' % (STR, CUR), 'does not move:: !this = old !this'],
        loops=[dict(inv=['0 <= !i <= n', '%s + !i <= length %s' % (CUR, STR)], var=['n - !i'])])
    F['stream_discard'] = dict(key='Stream::discard()', requires=['swf !this'],
        ensures=['swf !this', SAME, 'drops one:: %s = next1 %s %s' % (CUR, OSTR, OCUR)])
    F['stream_discardn'] = dict(key='Stream::discard(int)', requires=['swf !this', 'n >= 0'],
        ensures=['swf !this', SAME, 'drops n:: %s = nextn %s %s n' % (CUR, OSTR, OCUR)],
        ghost={'entry': 'let ghost t0 = !this in'},
        loops=[dict(inv=['swf !this', '0 <= !i <= n', '%s = t0.stream__m_str' % STR, '%s = nextn t0.stream__m_str t0.stream__m_cur !i' % CUR], var=['n - !i'])])
    F['stream_skipml'] = dict(key='Stream::skip_multiline_comment', requires=['swf !this'],
        ensures=['swf !this', SAME, 'skips exactly the rest of the block comment:: block_body %s %s %s' % (STR, OCUR, CUR)],
        raises=['CppThrow -> [@expl:only an unterminated comment is an error] unterminated %s %s' % (OSTR, OCUR)],
        ghost={'entry': 'let ghost t0 = !this in'},
        loops=[dict(inv=['swf !this', '%s = t0.stream__m_str' % STR, 't0.stream__m_cur <= %s' % CUR,
                         '!ch <> 0 -> %s > t0.stream__m_cur /\\ (%s[%s - 1] = !ch \\/ (!ch = 10 /\\ %s[%s - 1] = 13))' % (CUR, STR, CUR, STR, CUR),
                         '!ch = 0 -> %s = length %s \\/ (%s > t0.stream__m_cur /\\ %s[%s - 1] = 0)' % (CUR, STR, CUR, STR, CUR),
                         'forall k. t0.stream__m_cur <= k < %s - 1 -> not (closes %s k)' % (CUR, STR)],
                    var=['length %s - %s' % (STR, CUR), 'if !ch = 0 then 0 else 1'])])
    F['stream_skipol'] = dict(key='Stream::skip_oneline_comment', requires=['swf !this'],
        ensures=['swf !this', SAME, 'skips exactly the rest of the line:: line_body %s %s %s' % (STR, OCUR, CUR)],
        ghost={'entry': 'let ghost t0 = !this in'},
        loops=[dict(inv=['swf !this', '%s = t0.stream__m_str' % STR, 't0.stream__m_cur <= %s' % CUR,
                         '(!ch = 0 \\/ !ch = 10) -> line_body %s t0.stream__m_cur %s' % (STR, CUR),
                         '!ch <> 0 -> !ch <> 10 -> forall k. t0.stream__m_cur <= k < %s -> %s[k] <> 10' % (CUR, STR)],
                    var=['length %s - %s' % (STR, CUR), 'if !ch = 0 then 0 else 1'])])
    F['stream_skipws'] = dict(key='Stream::skip_whitespace', requires=['swf !this'],
        ensures=['swf !this', SAME, 'only blanks and whole comments are skipped:: gap %s %s %s' % (STR, OCUR, CUR), 'only moves on:: %s <= %s' % (OCUR, CUR),
                 'returns the next character:: result = chat %s %s' % (STR, CUR),
                 'stops at no blank:: c_iswspace result = 0',
                 'stops at no comment:: not (opens_block %s %s) /\\ not (opens_line %s %s)' % (STR, CUR, STR, CUR)],
        raises=['CppThrow -> [@expl:only an unterminated comment is an error] exists b. gap %s %s b /\\ opens_block %s b /\\ unterminated %s (b + 2)' % (OSTR, OCUR, OSTR, OSTR)],
        ghost={'entry': 'let ghost t0 = !this in',
               'begin0': 'let ghost b0 = (!this).stream__m_cur in let ghost s0 = %s in nextn_2 s0 b0; assert { crlf s0 b0 -> c_iswspace s0[b0] <> 0 -> gap s0 t0.stream__m_cur (b0 + 2) by gap s0 t0.stream__m_cur (b0 + 1) }' % STR},
        loops=[dict(inv=['swf !this', '%s = t0.stream__m_str' % STR, 'gap %s t0.stream__m_cur %s' % (STR, CUR), 't0.stream__m_cur <= %s' % CUR], var=['length %s - %s' % (STR, CUR)])])
    F['stream_afterws'] = dict(key='Stream::after_whitespace', requires=['swf !this'],
        ensures=['swf !this', SAME, 'the character after the gap:: exists b. gap %s %s b /\\ b <= length %s /\\ %s = next1 %s b /\\ result = char1 %s b' % (STR, OCUR, STR, CUR, STR, STR)],
        raises=['CppThrow -> exists b. gap %s %s b /\\ opens_block %s b /\\ unterminated %s (b + 2)' % (OSTR, OCUR, OSTR, OSTR)])
    F['stream_sentry'] = dict(key='Stream::sentry', requires=['swf !this'], ensures=['position:: result = %s' % CUR, '!this = old !this'])
    F['stream_cut'] = dict(key='Stream::cut', iter_of={'sentry': 'm_str'}, requires=['swf !this', '0 <= sentry <= %s' % CUR],
        ensures=['the text since the mark:: result = %s[sentry .. %s]' % (STR, CUR), '!this = old !this'])
    return F

def h_unexpected(ctx, n, args, me):
    from cxx2why import V, Ty
    return V('(any opaque)', Ty('std', 'StreamException'))

def spec():
    return dict(
        tu='#include "Stream.hpp"\n',
        files=['Stream.hpp'],
        typenames={'Stream': 'stream'}, aliases={'Sentry': 'std::basic_string<wchar_t>::const_iterator', 'Stream::Sentry': 'std::basic_string<wchar_t>::const_iterator'},
        iter_fields={('Stream', 'm_cur'): 'm_str'},
        preamble=PRE, types=['Stream'],
        hooks={'unexpected': h_unexpected},
        functions=functions())
