"""Contracts for CharClass / Range (src/core/CharClass.hpp, CharClass.cpp)."""

PRE = '''
  constant maxc : int = %(maxc)d
  predicate rin (r : range) (c : int) = r.range__m_start <= c < r.range__m_end
  predicate rok (r : range) = 0 <= r.range__m_start < r.range__m_end <= maxc
  predicate sin (s : seq range) (c : int) = exists k. 0 <= k < length s /\\ rin s[k] c
  predicate swf (s : seq range) =
    (forall k. 0 <= k < length s -> rok s[k]) /\\
    (forall k l. 0 <= k < l < length s -> s[k].range__m_end <= s[l].range__m_start)
  predicate ovl (a b : range) = a.range__m_start < b.range__m_end /\\ b.range__m_start < a.range__m_end
  let lemma ovl_sin (s t : seq range) (k l : int) : unit
    requires { swf s /\\ swf t /\\ 0 <= k < length s /\\ 0 <= l < length t /\\ ovl s[k] t[l] }
    ensures { exists c. sin s c /\\ sin t c }
  = let ghost c = if (get s k).range__m_start <= (get t l).range__m_start then (get t l).range__m_start else (get s k).range__m_start in
    assert { rin s[k] c /\\ rin t[l] c };
    assert { sin s c /\\ sin t c }
  lemma sin_snoc: forall s r c. sin (snoc s r) c <-> sin s c \\/ rin r c
  let lemma sin_cat (s t : seq range) (c : int) : unit
    ensures { sin (s ++ t) c <-> sin s c \\/ sin t c }
  = assert { forall k. 0 <= k < length t -> (s ++ t)[k + length s] = t[k] };
    assert { forall k. 0 <= k < length s -> (s ++ t)[k] = s[k] };
    assert { sin s c -> sin (s ++ t) c }; assert { sin t c -> sin (s ++ t) c };
    assert { forall k. length s <= k < length (s ++ t) -> (s ++ t)[k] = t[k - length s] }
  let lemma sin_slice (s : seq range) (a b : int) (c : int) : unit
    requires { 0 <= a <= b <= length s }
    ensures { sin s[a..b] c <-> exists k. a <= k < b /\\ rin s[k] c }
  = assert { forall k. a <= k < b -> s[k] = s[a..b][k - a] };
    assert { forall k. 0 <= k < b - a -> s[a..b][k] = s[k + a] }
  lemma sin_part: forall s i c. 0 <= i <= length s -> sin s c -> (exists k. 0 <= k < i /\\ rin s[k] c) \\/ sin s[i..(length s)] c
  predicate cin (x : cclass) (c : int) = sin x.cclass__m_ranges c
  predicate cwf (x : cclass) = swf x.cclass__m_ranges
'''

def functions(T):
    CC = 'CharClass<%s>' % T
    R = 'Range<%s>' % T
    F = {}
    F['cc_includes_ch'] = dict(
        key='%s::includes(%s)' % (CC, T),
        ensures=['membership test:: result <-> cin this ch'],
        loops=[dict(inv=['forall k. 0 <= k < !ix_mr -> not (rin (this.cclass__m_ranges)[k] ch)'])])
    F['cc_includes_r'] = dict(
        key='%s::includes(const %s &)' % (CC, R),
        requires=['cwf this', 'rok r'],
        ensures=['included range:: result -> forall c. rin r c -> cin this c',
                 'range inside one run:: result <-> exists k. 0 <= k < length this.cclass__m_ranges /\\ (this.cclass__m_ranges)[k].range__m_start <= r.range__m_start /\\ r.range__m_end <= (this.cclass__m_ranges)[k].range__m_end'],
        loops=[dict(inv=['forall k. 0 <= k < !ix_mr -> not ((this.cclass__m_ranges)[k].range__m_start <= r.range__m_start /\\ r.range__m_end <= (this.cclass__m_ranges)[k].range__m_end)'])])
    F['cc_overlaps'] = dict(
        key='%s::overlaps(const %s &)' % (CC, CC),
        requires=['cwf this', 'cwf cc'],
        ensures=['result <-> exists k l. 0 <= k < length this.cclass__m_ranges /\\ 0 <= l < length cc.cclass__m_ranges /\\ ovl (this.cclass__m_ranges)[k] (cc.cclass__m_ranges)[l]',
                 'overlap iff common character:: result <-> exists c. cin this c /\\ cin cc c'],
        loops=[dict(inv=['0 <= !i <= length this.cclass__m_ranges', '0 <= !j <= length cc.cclass__m_ranges',
                         'forall k l. 0 <= k < !i -> 0 <= l < length cc.cclass__m_ranges -> (this.cclass__m_ranges)[k].range__m_end <= (cc.cclass__m_ranges)[l].range__m_start \\/ (cc.cclass__m_ranges)[l].range__m_end <= (this.cclass__m_ranges)[k].range__m_start',
                         'forall k l. 0 <= k < length this.cclass__m_ranges -> 0 <= l < !j -> (this.cclass__m_ranges)[k].range__m_end <= (cc.cclass__m_ranges)[l].range__m_start \\/ (cc.cclass__m_ranges)[l].range__m_end <= (this.cclass__m_ranges)[k].range__m_start'],
                    var=['length this.cclass__m_ranges - !i + length cc.cclass__m_ranges - !j'],
                    )],)
    F['cc_make_star'] = dict(
        key='%s::make_star' % CC, is_pure=True,
        ensures=['star is every representable character:: forall c. cin result c <-> 0 <= c < maxc', 'cwf result'])
    F['cc_is_epsilon'] = dict(
        key='%s::is_epsilon' % CC, requires=['cwf this'],
        ensures=['epsilon iff no character:: result <-> forall c. not (cin this c)'],
        ghost={'entry': 'assert { length this.cclass__m_ranges > 0 -> cin this (this.cclass__m_ranges)[0].range__m_start };'})
    F['cc_not'] = dict(
        key='%s::operator~' % CC, requires=['cwf this'],
        ensures=['complement:: forall c. cin result c <-> (1 <= c < maxc /\\ not (cin this c))', 'canonical form:: cwf result'],
        loops=[dict(inv=['0 <= !i <= length this.cclass__m_ranges', '1 <= !last_end <= maxc',
                         'swf (!cc).cclass__m_ranges',
                         'forall k. 0 <= k < length (!cc).cclass__m_ranges -> ((!cc).cclass__m_ranges)[k].range__m_end <= !last_end',
                         'forall k. 0 <= k < length (!cc).cclass__m_ranges -> 1 <= ((!cc).cclass__m_ranges)[k].range__m_start',
                         'forall c. 1 <= c < !last_end -> (cin !cc c <-> not (cin this c))',
                         'forall k. 0 <= k < !i -> (this.cclass__m_ranges)[k].range__m_end <= !last_end',
                         'forall k. !i <= k < length this.cclass__m_ranges -> !last_end <= (this.cclass__m_ranges)[k].range__m_end',
                         'forall k. !i <= k < length this.cclass__m_ranges -> !last_end <= (this.cclass__m_ranges)[k].range__m_start \\/ !last_end = 1'],
                    var=['length this.cclass__m_ranges - !i'])])
    F['cc_or_r'] = dict(
        key='%s::operator|(%s)' % (CC, R), requires=['cwf this', 'rok r'],
        ensures=['union with range:: forall c. cin result c <-> cin this c \\/ rin r c', 'canonical form:: cwf result'],
        loops=[dict(inv=['0 <= !i <= length this.cclass__m_ranges',
                         'forall k. 0 <= k < !i -> (this.cclass__m_ranges)[k].range__m_end < (!r).range__m_start'],
                    var=['length this.cclass__m_ranges - !i']),
               dict(inv=['0 <= !i <= length this.cclass__m_ranges', 'rok !r',
                         'swf (!cc).cclass__m_ranges',
                         'forall k. 0 <= k < length (!cc).cclass__m_ranges -> ((!cc).cclass__m_ranges)[k].range__m_end <= (!r).range__m_start',
                         'forall k l. 0 <= k < length (!cc).cclass__m_ranges -> !i <= l < length this.cclass__m_ranges -> ((!cc).cclass__m_ranges)[k].range__m_end <= (this.cclass__m_ranges)[l].range__m_start',
                         'forall k. 0 <= k < !i -> forall c. rin (this.cclass__m_ranges)[k] c -> cin !cc c \\/ rin !r c',
                         'forall c. rin r_0 c -> rin !r c',
                         'forall c. cin !cc c -> cin this c',
                         'forall c. rin !r c -> cin this c \\/ rin r_0 c',
                         'forall k. !i < k < length this.cclass__m_ranges -> !i < length this.cclass__m_ranges -> (this.cclass__m_ranges)[!i].range__m_end <= (this.cclass__m_ranges)[k].range__m_start',
                         'forall k. !i <= k < length this.cclass__m_ranges -> (!r).range__m_start <= (this.cclass__m_ranges)[k].range__m_end'],
                    var=['length this.cclass__m_ranges - !i'])])
    F['cc_list'] = dict(
        key='%s::CharClass(const std::initializer_list<wchar_t> &)' % CC, requires=['forall k. 0 <= k < length ch_list -> 0 <= ch_list[k] < maxc'],
        ensures=['exactly the listed characters:: forall c. cin result c <-> exists k. 0 <= k < length ch_list /\\ ch_list[k] = c', 'canonical form:: cwf result'],
        loops=[dict(inv=['cwf !this', 'forall c. cin !this c <-> exists k. 0 <= k < @ix /\\ ch_list[k] = c'])])
    mk = lambda idx, s, o: None
    merged = ['0 <= !i <= length this.cclass__m_ranges', '0 <= !j <= length cc.cclass__m_ranges',
              'swf (!new_class).cclass__m_ranges',
              '!i < length this.cclass__m_ranges -> rok !ri /\\ (!ri).range__m_end = (this.cclass__m_ranges)[!i].range__m_end /\\ (!ri).range__m_start <= (this.cclass__m_ranges)[!i].range__m_start',
              '!j < length cc.cclass__m_ranges -> rok !rj /\\ (!rj).range__m_end = (cc.cclass__m_ranges)[!j].range__m_end /\\ (!rj).range__m_start <= (cc.cclass__m_ranges)[!j].range__m_start',
              'forall k. 0 <= k < length (!new_class).cclass__m_ranges -> (!i < length this.cclass__m_ranges -> ((!new_class).cclass__m_ranges)[k].range__m_end <= (!ri).range__m_start) /\\ (!j < length cc.cclass__m_ranges -> ((!new_class).cclass__m_ranges)[k].range__m_end <= (!rj).range__m_start)',
              '!i < length this.cclass__m_ranges -> forall c. rin !ri c -> cin this c \\/ cin cc c',
              '!j < length cc.cclass__m_ranges -> forall c. rin !rj c -> cin this c \\/ cin cc c',
              'forall c. cin !new_class c -> cin this c \\/ cin cc c',
              'forall k c. 0 <= k < !i -> rin (this.cclass__m_ranges)[k] c -> cin !new_class c \\/ (!i < length this.cclass__m_ranges /\\ rin !ri c) \\/ (!j < length cc.cclass__m_ranges /\\ rin !rj c)',
              'forall k c. 0 <= k < !j -> rin (cc.cclass__m_ranges)[k] c -> cin !new_class c \\/ (!i < length this.cclass__m_ranges /\\ rin !ri c) \\/ (!j < length cc.cclass__m_ranges /\\ rin !rj c)']
    F['cc_or'] = dict(
        key='%s::operator|(const %s &)' % (CC, CC), requires=['cwf this', 'cwf cc'],
        ensures=['union:: forall c. cin result c <-> cin this c \\/ cin cc c', 'canonical form:: cwf result'], nosp=True,
        loops=[dict(inv=merged, var=['length this.cclass__m_ranges - !i + length cc.cclass__m_ranges - !j'])])
    A, B = 'this.cclass__m_ranges', 'cc.cclass__m_ranges'
    F['cc_and'] = dict(
        key='%s::operator&' % CC, requires=['cwf this', 'cwf cc'],
        ensures=['intersection:: forall c. cin result c <-> cin this c /\\ cin cc c', 'canonical form:: cwf result'],
        loops=[dict(inv=['0 <= !i <= length %s' % A, '0 <= !j <= length %s' % B,
              'swf (!new_class).cclass__m_ranges',
              '!i < length this.cclass__m_ranges -> !ri = (this.cclass__m_ranges)[!i]',
              '!j < length cc.cclass__m_ranges -> !rj = (cc.cclass__m_ranges)[!j]',
              'forall k. 0 <= k < length (!new_class).cclass__m_ranges -> (!i < length this.cclass__m_ranges -> ((!new_class).cclass__m_ranges)[k].range__m_end <= (!ri).range__m_start) \\/ (!j < length cc.cclass__m_ranges -> ((!new_class).cclass__m_ranges)[k].range__m_end <= (!rj).range__m_start)',
              'forall c. cin !new_class c -> cin this c /\\ cin cc c',
              'forall k l c. 0 <= k < !i -> 0 <= l < length %s -> rin (%s)[k] c -> rin (%s)[l] c -> cin !new_class c' % (B, A, B),
              'forall k l c. 0 <= k < length %s -> 0 <= l < !j -> rin (%s)[k] c -> rin (%s)[l] c -> cin !new_class c' % (A, A, B),
              ], var=['length %s - !i + length %s - !j' % (A, B)])])
    F['cc_append'] = dict(
        key='%s::append' % CC,
        requires=['cwf !this', 'rok r', 'forall k. 0 <= k < length (!this).cclass__m_ranges -> ((!this).cclass__m_ranges)[k].range__m_end <= r.range__m_start'],
        ensures=['appended:: forall c. cin !this c <-> cin (old !this) c \\/ rin r c', 'canonical form:: cwf !this',
                 'forall k. 0 <= k < length (!this).cclass__m_ranges -> ((!this).cclass__m_ranges)[k].range__m_end <= r.range__m_end'])
    r = lambda q: '(!ret)[%d].cclass__m_ranges' % q
    common = ['length !ret = 3', '0 <= !i <= length %s' % A, '0 <= !j <= length %s' % B,
              'swf (%s)' % r(0), 'swf (%s)' % r(1), 'swf (%s)' % r(2),
              '!i < length %s -> rok !ri /\\ (!ri).range__m_end = (%s)[!i].range__m_end /\\ (%s)[!i].range__m_start <= (!ri).range__m_start' % (A, A, A),
              '!j < length %s -> rok !rj /\\ (!rj).range__m_end = (%s)[!j].range__m_end /\\ (%s)[!j].range__m_start <= (!rj).range__m_start' % (B, B, B),
              '!i < length %s -> !j < length %s -> (!ri).range__m_start = (%s)[!i].range__m_start \\/ (!ri).range__m_start <= (!rj).range__m_start' % (A, B, A),
              '!i < length %s -> !j < length %s -> (!rj).range__m_start = (%s)[!j].range__m_start \\/ (!rj).range__m_start <= (!ri).range__m_start' % (A, B, B),
              '!i < length %s -> forall l. 0 <= l < !j -> (%s)[l].range__m_end <= (!ri).range__m_start' % (A, B),
              '!j < length %s -> forall l. 0 <= l < !i -> (%s)[l].range__m_end <= (!rj).range__m_start' % (B, A),
              '!i < length %s -> forall k. 0 <= k < length (%s) -> (%s)[k].range__m_end <= (!ri).range__m_start' % (A, r(0), r(0)),
              '!j < length %s -> forall k. 0 <= k < length (%s) -> (%s)[k].range__m_end <= (!rj).range__m_start' % (B, r(1), r(1)),
              '!i < length %s -> forall k. 0 <= k < length (%s) -> (%s)[k].range__m_end <= (!ri).range__m_start' % (A, r(2), r(2)),
              '!j < length %s -> forall k. 0 <= k < length (%s) -> (%s)[k].range__m_end <= (!rj).range__m_start' % (B, r(2), r(2)),
              'forall c. sin (%s) c -> cin this c /\\ not (cin cc c)' % r(0),
              'forall c. sin (%s) c -> cin cc c /\\ not (cin this c)' % r(1),
              'forall c. sin (%s) c -> cin cc c /\\ cin this c' % r(2),
              'forall k c. 0 <= k < !i -> rin (%s)[k] c -> sin (%s) c \\/ sin (%s) c' % (A, r(0), r(2)),
              'forall k c. 0 <= k < !j -> rin (%s)[k] c -> sin (%s) c \\/ sin (%s) c' % (B, r(1), r(2)),
              '!i < length %s -> forall c. (%s)[!i].range__m_start <= c < (!ri).range__m_start -> sin (%s) c \\/ sin (%s) c' % (A, A, r(0), r(2)),
              '!j < length %s -> forall c. (%s)[!j].range__m_start <= c < (!rj).range__m_start -> sin (%s) c \\/ sin (%s) c' % (B, B, r(1), r(2))]
    F['cc_dai'] = dict(
        key='%s::diff_and_int' % CC, requires=['cwf this', 'cwf cc'],
        ensures=['length result = 3',
                 'difference:: forall c. cin result[0] c <-> cin this c /\\ not (cin cc c)',
                 'reverse difference:: forall c. cin result[1] c <-> cin cc c /\\ not (cin this c)',
                 'intersection:: forall c. cin result[2] c <-> cin cc c /\\ cin this c',
                 'canonical form:: cwf result[0] /\\ cwf result[1] /\\ cwf result[2]'],
        loops=[dict(inv=common, var=['length %s - !i + length %s - !j' % (A, B), '(if !i < length %s then (%s)[!i].range__m_end - (!ri).range__m_start else 0) + (if !j < length %s then (%s)[!j].range__m_end - (!rj).range__m_start else 0)' % (A, A, B, B)]),
               dict(inv=common + ['!i < length %s -> !j = length %s' % (A, B)], var=['length %s - !i' % A]),
               dict(inv=common + ['!i = length %s' % A], var=['length %s - !j' % B])])
    return F

def spec(T='char'):
    maxc = {'char': 255, 'unsigned char': 255, 'wchar_t': 2147483647}[T]
    return dict(
        tu='#include "CharClass.cpp"\nnamespace Centaurus { inline void vp_use(const CharClass<%s>& a, Stream& st) { (void)(a & a); CharClass<%s> b(st); (void)a.diff_and_int(a); (void)(a == a); } }\n' % (T, T),
        files=['CharClass.hpp', 'CharClass.cpp'],
        typenames={'Range<%s>' % T: 'range', 'CharClass<%s>' % T: 'cclass'},
        preamble=PRE % dict(maxc=maxc),
        types=['Range<%s>' % T, 'CharClass<%s>' % T],
        functions=functions(T))
