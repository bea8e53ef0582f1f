"""Contracts for the parse-trace markers and the shared window layout (src/core/BaseRunner.hpp)."""

PRE = '''
  predicate u64 (w : int) = 0 <= w < 18446744073709551616
  constant two48 : int = 281474976710656
  constant two63 : int = 9223372036854775808
  (* the 64-bit layout: bit 63 kind, bits 48..62 rule id, bits 0..47 offset *)
  function enc (s : bool) (id off : int) : int = (if s then two63 else 0) + id * two48 + off
  function w_off (w : int) : int = ED.mod w two48
  function w_id (w : int) : int = ED.mod (ED.div w two48) 32768
  predicate w_sgn (w : int) = w >= two63
  let lemma layout (w : int) : unit
    requires { u64 w }
    ensures { w = enc (w >= two63) (w_id w) (w_off w) }
    ensures { 0 <= w_id w < 32768 /\\ 0 <= w_off w < two48 }
  = let ghost q = ED.div w two48 in
    assert { w = two48 * q + w_off w /\\ 0 <= w_off w < two48 };
    assert { 0 <= q < 65536 };
    assert { q = 32768 * ED.div q 32768 + w_id w };
    assert { ED.div q 32768 = (if w >= two63 then 1 else 0) }
  let lemma decode_encode (s : bool) (id off : int) : unit
    requires { 0 <= id < 32768 /\\ 0 <= off < two48 }
    ensures { [@expl:a marker gives back its offset] w_off (enc s id off) = off }
    ensures { [@expl:a marker gives back its id] w_id (enc s id off) = id }
    ensures { [@expl:a marker gives back its kind] w_sgn (enc s id off) <-> s }
    ensures { u64 (enc s id off) }
  = let ghost h = if s then 32768 + id else id in
    assert { enc s id off = two48 * h + off };
    assert { ED.div (enc s id off) two48 = h };
    assert { s -> ED.div h 32768 = 1 }; assert { not s -> ED.div h 32768 = 0 }
  let lemma sign_bit (w : int) : unit
    requires { u64 w }
    ensures { ED.mod (ED.div w two63) 2 = 1 <-> w_sgn w }
  = assert { w < two63 -> ED.div w two63 = 0 }; assert { w >= two63 -> ED.div w two63 = 1 }
  let lemma kinds (w : int) : unit
    requires { u64 w }
    ensures { w = 0 \\/ w_id w <> 0 \\/ w_sgn w \\/ 0 < w < two48 }
  = layout w
'''
M = 'this.cstmarker__m_value'

def marker_functions():
    F = {}
    F['mk_marker'] = dict(key='CSTMarker::CSTMarker(unsigned long)', ensures=['keeps the word:: result.cstmarker__m_value = value'])
    F['m_id'] = dict(key='CSTMarker::get_machine_id', requires=['u64 %s' % M], is_pure=True, ensures=['rule id is bits 48 to 62:: result = w_id %s' % M, '0 <= result < 32768'])
    F['m_sign'] = dict(key='CSTMarker::get_sign_bit', requires=['u64 %s' % M], ensures=['kind is bit 63:: result <-> w_sgn %s' % M])
    F['m_start'] = dict(key='CSTMarker::is_start_marker', requires=['u64 %s' % M], ensures=['start marker:: result <-> w_sgn %s /\\ w_id %s <> 0' % (M, M)])
    F['m_end'] = dict(key='CSTMarker::is_end_marker', requires=['u64 %s' % M], ensures=['end marker:: result <-> not (w_sgn %s) /\\ w_id %s <> 0' % (M, M)])
    F['m_sv'] = dict(key='CSTMarker::is_sv_marker', requires=['u64 %s' % M], ensures=['semantic value marker:: result <-> w_sgn %s /\\ w_id %s = 0' % (M, M)])
    F['m_off'] = dict(key='CSTMarker::get_offset', requires=['u64 %s' % M], ensures=['offset is bits 0 to 47:: result = w_off %s' % M, '0 <= result < two48'])
    F['m_ptr'] = dict(key='CSTMarker::offset_ptr', requires=['u64 %s' % M, '0 <= p'], ensures=['input position is the window plus the offset:: result = p + w_off %s' % M])
    return F

def spec(what='marker'):
    if what == 'layout': return layout_spec()
    F = marker_functions()
    drop = {}
    files = ['BaseRunner.hpp']
    pre = PRE
    hooks = {}
    types = ['CSTMarker']
    if what == 'marker':
        C = 'result.svcapsule__'
        F['sv_make'] = dict(key='SVCapsule::SVCapsule(const void *,unsigned long,unsigned long)', requires=['u64 v0', 'u64 v1', '0 <= window'],
            ensures=['capsule decodes the word:: %sm_mid = w_id v0 /\\ %sm_next_ptr = window + w_off v0 /\\ %sm_tag = v1' % (C, C, C)])
        F['sv_ptr'] = dict(key='SVCapsule::get_next_ptr', ensures=['result = this.svcapsule__m_next_ptr'])
        F['sv_tag'] = dict(key='SVCapsule::get_tag', ensures=['result = this.svcapsule__m_tag'])
        F['sv_mid'] = dict(key='SVCapsule::get_machine_id', ensures=['result = this.svcapsule__m_mid'])
        types.append('SVCapsule')
    return dict(tu='#include "BaseRunner.hpp"\nusing namespace Centaurus;\n', files=files, typenames={'CSTMarker': 'cstmarker', 'SVCapsule': 'svcapsule'},
                preamble=pre, types=types, hooks=hooks, functions=F, flags=['-include', 'vector'] )

LAY = '''
  constant page : int = 8388608
  val constant sizeof_windowBankEntry : int
  val constant sizeof_baseRunner__WindowBankEntry : int ensures { result = sizeof_windowBankEntry }
  axiom entry_size : 0 < sizeof_windowBankEntry
  predicate rok (r : baserunner) = 0 < r.baserunner__m_bank_size /\\ 0 < r.baserunner__m_bank_num
  function pages (x : int) : int = ED.div (x + 8388607) page * page
  function wmain (r : baserunner) : int = pages r.baserunner__m_bank_size * r.baserunner__m_bank_num
  function wsub (r : baserunner) : int = pages (sizeof_windowBankEntry * r.baserunner__m_bank_num)
  let lemma pages_facts (x : int) : unit
    requires { 0 <= x } ensures { x <= pages x } ensures { ED.mod (pages x) page = 0 }
    ensures { pages x = CD.div (x + 8388607) page * page }
  = assert { CD.div (x + 8388607) page = ED.div (x + 8388607) page }; assert { ED.mod (page * ED.div (x + 8388607) page + 0) page = ED.mod 0 page }
  let lemma main_facts (r : baserunner) : unit
    requires { rok r } ensures { r.baserunner__m_bank_size * r.baserunner__m_bank_num <= wmain r } ensures { ED.mod (wmain r) page = 0 } ensures { 0 < wmain r }
  = pages_facts r.baserunner__m_bank_size; let ghost q = ED.div (r.baserunner__m_bank_size + 8388607) page in
    assert { wmain r = page * (q * r.baserunner__m_bank_num) + 0 }; assert { ED.mod (page * (q * r.baserunner__m_bank_num) + 0) page = ED.mod 0 page }
  let lemma sub_facts (r : baserunner) : unit
    requires { rok r } ensures { sizeof_windowBankEntry * r.baserunner__m_bank_num <= wsub r } ensures { ED.mod (wsub r) page = 0 } ensures { 0 < wsub r }
  = assert { 0 < sizeof_windowBankEntry * r.baserunner__m_bank_num }; pages_facts (sizeof_windowBankEntry * r.baserunner__m_bank_num)
  (* size of the backing object, and what each mapping covers (ghost) *)
  val ghost fsize : ref int
  function map_off (addr : int) : int
  function map_len (addr : int) : int
  val c_open () : int
  val c_truncate (n : int) : unit requires { [@expl:size not negative] 0 <= n } writes { fsize } ensures { !fsize = n }
  val c_mmap (len off : int) : int
    requires { [@expl:mapping starts on a page] off >= 0 /\\ ED.mod off 4096 = 0 }
    requires { [@expl:mapping lies inside the shared object] 0 < len /\\ off + len <= !fsize }
    ensures { result <> 0 /\\ map_off result = off /\\ map_len result = len }
  val c_munmap (addr len : int) : unit requires { [@expl:unmaps what was mapped] len = map_len addr }
  (* the byte ranges of two banks, relative to the start of the data part *)
  let lemma banks_disjoint (size num i j main : int) : unit
    requires { 0 < size /\\ 0 <= i < num /\\ 0 <= j < num /\\ size * num <= main }
    ensures { [@expl:a bank lies inside the data part] 0 <= size * i /\\ size * i + size <= main }
    ensures { [@expl:banks do not overlap] i <> j -> size * i + size <= size * j \\/ size * j + size <= size * i }
  = assert { i + 1 <= num }; assert { size * (i + 1) <= size * num }; assert { size * (i + 1) = size * i + size };
    assert { i < j -> size * (i + 1) <= size * j };
    assert { j < i -> size * (j + 1) <= size * i by j + 1 <= i }; assert { size * (j + 1) = size * j + size }
'''

def layout_functions():
    T = 'this.baserunner__'
    W = '(!this).baserunner__'
    F = {}
    F['lay_main'] = dict(key='BaseRunner::get_main_window_size', requires=['rok this'],
        ensures=['whole pages, one rounded-up bank each:: result = wmain this', 'whole pages:: ED.mod result page = 0', 'holds every bank:: %sm_bank_size * %sm_bank_num <= result' % (T, T), '0 < result'],
        ghost={'entry': 'main_facts this;'})
    F['lay_sub'] = dict(key='BaseRunner::get_sub_window_size', requires=['rok this'],
        ensures=['result = wsub this', 'whole pages:: ED.mod result page = 0', 'one entry per bank:: sizeof_windowBankEntry * %sm_bank_num <= result' % T, '0 < result'],
        ghost={'entry': 'sub_facts this;'})
    F['lay_all'] = dict(key='BaseRunner::get_window_size', requires=['rok this'], ensures=['the two parts together:: result = wmain this + wsub this'])
    same = '%sm_bank_size = (old !this).baserunner__m_bank_size /\\ %sm_bank_num = (old !this).baserunner__m_bank_num' % (W, W)
    F['lay_acquire'] = dict(key='BaseRunner::acquire_memory', requires=['rok !this'],
        ensures=['rok !this', same, 'control part mapped whole:: map_off %sm_sub_window = 0 /\\ map_len %sm_sub_window = wsub !this' % (W, W),
                 'data part mapped whole, behind the control part:: map_off %sm_main_window = wsub !this /\\ map_len %sm_main_window = wmain !this' % (W, W),
                 'both parts lie inside the shared object:: !fsize = wsub !this + wmain !this'],
        ghost={'entry': 'main_facts !this; sub_facts !this; assert { ED.mod (wsub !this) 4096 = 0 by ED.mod (wsub !this) page = 0 so wsub !this = 4096 * (2048 * ED.div (wsub !this) page) };'})
    F['lay_release'] = dict(key='BaseRunner::release_memory', requires=['rok !this', 'map_len %sm_sub_window = wsub !this' % W, 'map_len %sm_main_window = wmain !this' % W],
        ensures=['!this = old !this'])
    return F

def hook_layout():
    from cxx2why import V, Ty, par
    def call(fmt, idx, ty):
        def h(ctx, n, args, me):
            vs = [ctx.E(args[i]) for i in idx]
            pre = []
            cs = [ctx.tr.bindv(v, pre) for v in vs]
            return V('(%s (%s))' % (' '.join(pre), fmt % tuple(par(c) for c in cs)), ty, pure=False, state=True)
        return h
    I = Ty('int', 'int'); P = Ty('ptr', args=[Ty('void')])
    return dict(shm_open=call('c_open ()', (), I), ftruncate=call('c_truncate %s', (1,), I), mmap=call('c_mmap %s %s', (1, 5), P),
                munmap=call('c_munmap %s %s', (0, 1), I), close=call('()', (), I), shm_unlink=call('()', (), I))

def layout_spec():
    drop = {'BaseRunner': ('base:BaseListener', 'm_thread', 'm_slave_lock', 'm_memory_name', 'm_slave_lock_name')}
    return dict(tu='#include "BaseRunner.hpp"\nusing namespace Centaurus;\n', files=['BaseRunner.hpp'], typenames={'BaseRunner': 'baserunner', 'BaseRunner::WindowBankEntry': 'bankentry'},
                preamble=LAY, types=['BaseRunner'], hooks=hook_layout(), drop_fields=drop, functions=layout_functions(), globals={'m_memory_name': '0'})
